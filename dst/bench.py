""" Shared objects of every kind with the operations callers may make on them.

gen(rng) -> cfg; Bench(cfg, hook).do(op, k) performs operation `op` with arguments
decided by k and returns the result; image(result) is an exact comparable form.
"""
import collections
import math
import numpy as np
import scipy.stats
import sympy
import probayes as pb
from dst import chains, compiler, store
from dst.core import rng_of
from dst.chains import NAMES, norm_logpdf

def image(x):
  if isinstance(x, (list, tuple, collections.deque)) and not hasattr(x, '_fields'):
    return tuple(image(y) for y in x)
  if hasattr(x, '_fields'):
    return tuple((f, image(getattr(x, f))) for f in x._fields)
  if isinstance(x, pb.Distribution):
    return store.frozen(x)
  if isinstance(x, dict):
    return tuple((k, image(v)) for k, v in x.items())
  if isinstance(x, np.ndarray) and x.dtype != object:
    return (x.shape, x.dtype.kind, x.tobytes())
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, (int, np.integer)):
    return int(x)
  if isinstance(x, (float, np.floating)):
    return repr(float(x))
  return repr(x)

PLAIN = ('func', 'variable', 'variable', 'field', 'field', 'cond', 'graph', 'pd', 'algebra', 'algebra', 'matrix', 'cdf', 'scipy', 'expr',
         'condcov', 'naive', 'functional')
KINDS = PLAIN + ('func', 'sampler', 'sampler')
STATELESS = PLAIN + ('process', 'process')

def gen(rng, kinds=KINDS):
  kind = rng.choice(kinds)
  cfg = {'kind': kind, 'seed': rng.randrange(10 ** 9), 'names': rng.sample(NAMES, 4),
         'log': rng.random() < 0.4, 'n': rng.choice((2, 2, 3))}
  if kind == 'func':
    cfg['form'] = rng.choice(('Func', 'CF', 'Expression', 'order', 'delta', 'unknown'))
  if kind == 'variable':
    cfg['form'] = rng.choice(('unif', 'logged', 'norm', 'int', 'bool', 'user'))
  if kind in ('sampler', 'process'):
    while True:
      cfg['chain'] = chains.gen_cfg(rng, ('mh', 'mh', 'matrix', 'cdf', 'prop', 'plain'))
      if cfg['chain']['kind'] != 'mh' or cfg['chain']['delta'][0] != 'lambda': # (normal draws are cached by NumPy)
        break
  if kind == 'pd':
    cfg['specs'] = [store.gen_spec(rng, True) for _ in range(2)]
    for s in cfg['specs']:
      s['kind'] = rng.choice(('call', 'call', 'cond', 'prod', 'marg'))
      s['n'] = max(2, s['n'])
      s['log'] = cfg['log']
  return cfg

#-------------------------------------------------------------------------------
class Bench:
  def __init__(self, cfg, hook):
    self.cfg, self.hook = cfg, hook
    self.rng = rng_of('bench', cfg['seed'])
    self.pk = {'pscale': 'log'} if cfg['log'] else {}
    self.held = {}
    self.passed = []   # arguments of the present operation and their images
    self.owned = []    # arguments given when the object was made
    self.ops = {}
    getattr(self, '_' + cfg['kind'])(cfg)

  def A(self, arg):
    self.passed.append((arg, image(arg)))
    return arg

  def G(self, arg):
    self.owned.append((arg, image(arg)))
    return arg

  def altered(self):
    """ The first argument that is not what it was """
    for arg, was in self.passed + self.owned:
      now = image(arg)
      if now != was:
        return '{} -> {}'.format(was, now)
    return None

  def do(self, op, k):
    del self.passed[:]
    names = sorted(self.ops)
    return self.ops[names[op % len(names)]](rng_of('op', k))

  def op_name(self, op):
    names = sorted(self.ops)
    return names[op % len(names)]

  #-----------------------------------------------------------------------------
  def _func(self, cfg):
    hook, form = self.hook, cfg['form']
    coefs = [[round(self.rng.uniform(-3, 3), 3) for _ in range(2)] for _ in range(3)]
    def maker(a, b, i):
      def fun(x, y=0., z=1.):
        hook.hit('function')
        return (a * x + b * y) * z + i
      return fun
    funs = tuple(maker(a, b, i) for i, (a, b) in enumerate(coefs))
    if form == 'unknown':
      x, y = pb.RV('x', vtype=float, vset=(-1., 1.)), pb.RV('y', vtype=float, vset=(-1., 1.))
      def cond(x, y, unknown, **kwds):
        hook.hit('function')
        return (unknown, x * 2. if unknown == 'x' else y * 3.)
      f = pb.CF(pb.RF(x, y), collections.OrderedDict((('x', 'y'), ('y', 'x'))), cond)
      self.ops['call'] = lambda r: f[r.choice('xy')](x=r.random(), y=r.random())
      def held(r):
        gets = [f[k] for k in 'xyx']
        v = r.random()
        return [g(x=v, y=v) for g in gets]
      self.ops['held'] = held
      return
    if form == 'order':
      f = pb.Expression(funs, order={'v': 0, 'w': 'y'})
      args = lambda r: ((self.A({'v': r.random(), 'w': r.random()}),), {})
    elif form == 'delta':
      f = pb.Expression(funs, delta={'v': 0, "v'": 1})
      f = pb.Expression(funs, delta={"v'": 0, 'w': 'y'})
      args = lambda r: ((self.A({'v': r.random(), "v'": r.random(), 'w': r.random()}),), {})
    else:
      if form == 'CF':
        u, w = pb.RV('u', vtype=float, vset=(-1., 1.)), pb.RV('w', vtype=float, vset=(-1., 1.))
        f = pb.CF(pb.RF(u), pb.RF(w), funs, z=2.)
      elif form == 'Func':
        from probayes.func import Func
        f = Func(funs, z=2.)
      else:
        f = pb.Expression(funs, z=2.)
      args = lambda r: ((r.random(),), {'y': r.random()}) if r.random() < 0.6 else ((self.A(np.array([r.random(), 1.])),), {})
    def call(r):
      i = r.randrange(3)
      a, k = args(r)
      return f[i](*a, **k)
    def held(r):
      order = [r.randrange(3) for _ in range(3)]
      gets = [f[i] for i in order]
      a, k = args(r)
      return [g(*a, **dict(k)) for g in gets]
    def late(r): # a function kept from an earlier call
      a, k = args(r)
      return self.held.setdefault('f', f[1])(*a, **k)
    self.ops.update(call=call, held=held, late=late)

  #-----------------------------------------------------------------------------
  def _rv(self, name, form, rng):
    hook = self.hook
    lo = round(rng.uniform(-2., 1.), 3)
    if form == 'int':
      rv = pb.RV(name, self.G(list(range(rng.randint(-2, 1), rng.randint(2, 5)))), int, **self.pk)
    elif form == 'bool':
      rv = pb.RV(name, self.G([False, True]), bool, **self.pk)
    elif form == 'logged':
      rv = pb.RV(name, (0.1, 7.), float, **self.pk)
      rv.set_ufun((np.log, np.exp))
    elif form == 'norm':
      rv = pb.RV(name, [lo, lo + 3.], float)
      rv.set_prob(scipy.stats.norm, loc=lo + 1.1, scale=1.3, **self.pk)
    elif form == 'user':
      rv = pb.RV(name, [lo, lo + 3.], float)
      def dens(x):
        hook.hit('prob')
        res = -np.abs(np.asarray(x) - lo)
        return res if self.cfg['log'] else np.exp(res)
      rv.set_prob(dens, **self.pk)
    else:
      rv = pb.RV(name, self.G(rng.choice(([lo, lo + 1.], [(lo,), lo + 3.], [0, 1], [(-1,), (2,)]))), float, **self.pk)
    return rv

  def _variable(self, cfg):
    name = cfg['names'][0]
    rv = self._rv(name, cfg['form'], self.rng)
    lims = (float(rv.vlims[0]), float(rv.vlims[1]))
    def val(r):
      if cfg['form'] == 'bool':
        return r.random() < 0.5
      if cfg['form'] == 'int':
        return r.choice([int(x) for x in rv({20})[name]])
      return lims[0] + (lims[1] - lims[0]) * r.uniform(0.01, 0.99)
    def arr(r):
      return self.A(np.array([val(r) for _ in range(r.choice((1, 2, 5)))]))
    self.ops['value'] = lambda r: rv(val(r))
    self.ops['array'] = lambda r: rv(arr(r))
    self.ops['named'] = lambda r: rv(self.A({name: arr(r)}))
    self.ops['name and value'] = lambda r: rv(self.A({name: val(r)}))
    self.ops['grid'] = lambda r: rv({r.choice((2, 3, 7))})
    self.ops['random'] = lambda r: rv({-r.choice((1, 3, 6))})
    self.ops['one'] = lambda r: rv({0})
    vset = [x for x, _ in self.owned if isinstance(x, list)][:1]
    if vset and cfg['form'] in ('int', 'unif'): # another variable over the very same set
      ends = vset[0] if cfg['form'] == 'unif' else None
      self.ops['alike'] = lambda r: pb.RV('alike', vset[0], float if ends else int)({r.choice((2, 3))})
      if not ends and len(vset[0]) > 1:
        self.ops['also alike'] = lambda r: pb.RV('alike', self.A([vset[0][0], vset[0][-1]]), float)({r.choice((2, 3))})
    self.ops['prob'] = lambda r: rv.eval_prob(arr(r))
    if cfg['form'] not in ('bool',):
      self.ops['step rule'] = lambda r: rv.eval_delta([r.choice((1, 2))] if cfg['form'] == 'int' else [r.choice((0.1, 0.5))])
      self.ops['move'] = lambda r: rv.apply_delta(val(r), r.choice((1, -2)) if cfg['form'] == 'int' else r.uniform(-2, 2), bound=True)
      self.ops['moves'] = lambda r: rv.apply_delta(arr(r), r.choice(([1], (1,), 2)) if cfg['form'] == 'int' else r.choice(([0.7], (0.4,), 0.3)), bound=r.random() < 0.7)
    else:
      self.ops['flips'] = lambda r: rv.apply_delta(arr(r), r.choice(([0.5], (1,), [0.9], 1)), bound=r.random() < 0.5)
    if cfg['form'] in ('int', 'bool', 'unif'):
      self.ops['step'] = lambda r: rv.step(val(r), val(r))

  #-----------------------------------------------------------------------------
  def _field(self, cfg):
    hook, names = self.hook, cfg['names'][:cfg['n']]
    forms = [self.rng.choice(('unif', 'unif', 'int', 'logged')) for _ in names]
    rvs = [self._rv(n, f, self.rng) for n, f in zip(names, forms)]
    rf = pb.RF(*rvs)
    mids = {n: float(np.mean([float(v) for v in rv.vlims])) if f != 'int' else 0 for n, f, rv in zip(names, forms, rvs)}
    if self.rng.random() < 0.6:
      def joint(**kwds):
        hook.hit('prob')
        res = sum(-(kwds[n] - mids[n]) ** 2 for n in names)
        return res if cfg['log'] else np.exp(res)
      rf.set_prob(joint, **self.pk)
    def tran(**kwds):
      hook.hit('tran')
      return np.exp(sum(-(kwds[n + "'"] - kwds[n]) ** 2 for n in names))
    if self.rng.random() < 0.3: # (either these or transitional ones)
      def prop(**kwds):
        hook.hit('prop')
        return np.exp(sum(-np.abs(kwds[n] - mids[n]) for n in names))
      rf.set_prop(prop)
    else:
      rf.set_tran(tran)
    rf.set_delta(self.rng.choice(([0.3], (0.4,))) if 'int' not in forms else [1], bound=True)
    def spec(r):
      res = {}
      for n, f in zip(names, forms):
        x = r.random()
        res[n] = mids[n] if x < 0.3 else {r.choice((2, 3))} if x < 0.6 else {-r.choice((1, 2, 3))} if x < 0.9 else {0}
      return self.A(res)
    self.ops['evaluate'] = lambda r: rf(spec(r))
    self.ops['jointly'] = lambda r: rf({','.join(names): {-r.choice((2, 3))}})
    self.ops['all'] = lambda r: rf({r.choice((2, 3))})
    self.ops['propose'] = lambda r: rf.propose(spec(r))
    self.ops['draw'] = lambda r: rf.propose({0}, suffix=r.choice(("'", '', '*')))
    self.ops['random'] = lambda r: rf({0})
    self.ops['step rule'] = lambda r: rf.eval_delta()
    self.ops['step'] = lambda r: rf.step(self.A(dict(mids)))
    self.ops['move'] = lambda r: rf.apply_delta(self.A(dict(mids)), rf.eval_delta())
    if 'int' not in forms:
      self.ops['moves'] = lambda r: rf.apply_delta(self.A({n: np.array([mids[n]] * 3) for n in names}), rf.eval_delta())

  #-----------------------------------------------------------------------------
  def _cond(self, cfg):
    """ A likelihood given parameters """
    hook, names = self.hook, cfg['names'][:3]
    x = pb.RV(names[0], (-np.inf, np.inf), float)
    mu = pb.RV(names[1], [-2., 2.], float)
    sd = pb.RV(names[2], [0.5, 3.], float)
    par = pb.RF(mu, sd)
    model = pb.SD(pb.RF(x), par)
    if self.rng.random() < 0.5:
      fun = scipy.stats.norm.logpdf if cfg['log'] else scipy.stats.norm.pdf
      model.set_prob(fun, order={names[0]: 0, names[1]: 'loc', names[2]: 'scale'}, **self.pk)
    else:
      def like(**kwds):
        hook.hit('prob')
        res = norm_logpdf(kwds[names[0]], kwds[names[1]], 1.) * kwds[names[2]]
        return res if cfg['log'] else np.exp(res)
      model.set_prob(like, **self.pk)
    if cfg['log']:
      par.pscale = 'log'
    data = lambda r: self.A(np.array([r.uniform(-2, 2) for _ in range(r.choice((1, 2, 4)))]))
    def given(r):
      c = r.random()
      if c < 0.4:
        return self.A({names[1]: r.uniform(-1, 1), names[2]: 1.})
      return self.A({names[1]: {r.choice((2, 3))}, names[2]: {r.choice((2, 3))} if c < 0.7 else 1.5})
    self.ops['likelihood'] = lambda r: model(self.A({names[0]: data(r), **given(r)}))
    self.ops['two parts'] = lambda r: model(self.A({names[0]: data(r)}), given(r))
    self.ops['iid'] = lambda r: model(self.A({names[0]: data(r), **given(r)}), iid=True)
    self.ops['joint'] = lambda r: model(self.A({names[0]: data(r), **given(r)}), iid=True, joint=True)
    self.ops['posterior'] = lambda r: model({names[0]: data(r), names[1]: {3}, names[2]: {4}}, iid=True, joint=True).conditionalise(names[0])
    self.ops['prior'] = lambda r: par(given(r))

  #-----------------------------------------------------------------------------
  def _graph(self, cfg):
    """ An array conditional of discrete variables """
    names = cfg['names'][:2]
    a, b = pb.RV(names[0], range(2)), pb.RV(names[1], range(3))
    tab = np.array([[self.rng.uniform(0.1, 1.) for _ in range(2)] for _ in range(3)])
    tab = tab / tab.sum(axis=0)
    model = b | a
    model.set_prob(self.G(tab))
    pick = lambda r: self.A({names[0]: r.randrange(2), names[1]: r.randrange(3)})
    self.ops['table'] = lambda r: model()
    self.ops['prior'] = lambda r: a()
    self.ops['joint'] = lambda r: a() * model()
    self.ops['bayes'] = lambda r: (lambda j: j / j.marginal(names[1]))(a() * model())
    self.ops['look up'] = lambda r: (a() * model())(pick(r))

  #-----------------------------------------------------------------------------
  def _pd(self, cfg):
    spec, other = cfg['specs']
    p = self.G(store.build(spec))
    q = self.G(store.build(dict(other, names=[n + '_' for n in other['names']])))
    keys = [k for k in p.marg]
    arrays = [k for k in keys if np.size(p[k]) > 1]
    pick = lambda r: r.choice(keys)
    self.ops['product'] = lambda r: p * q
    if not p.cond and len(keys) > 1 and len(set(p.dims[k] for k in keys)) == len(keys) and len(arrays) == len(keys):
      self.ops['marginalise'] = lambda r: p.marginalise(pick(r))
      self.ops['marginal'] = lambda r: p.marginal(pick(r))
      self.ops['conditionalise'] = lambda r: p.conditionalise(pick(r))
      self.ops['divide'] = lambda r: p / p.marginal(keys[0])
    if not p.cond and all(np.issubdtype(np.asarray(p[k]).dtype, np.floating) for k in keys):
      self.ops['expectation'] = lambda r: p.expectation()
    self.ops['rescaled'] = lambda r: p.rescaled('log' if r.random() < 0.5 else None)
    self.ops['rekey'] = lambda r: p.rekey({keys[0]: keys[0] + 'k'}) if len(keys) == len(p) else p.rescaled()
    if arrays:
      def sort(r):
        k = r.choice(arrays)
        return p.sorted(k)
      self.ops['sorted'] = sort
      unique = [k for k in arrays if len(set(np.ravel(p[k]).tolist())) == np.size(p[k])]
      def at(r):
        k = r.choice(unique)
        v = np.asarray(p[k]).reshape(-1)
        return p({k: v[r.randrange(len(v))]})
      if unique:
        self.ops['slice'] = at
    self.ops['serialise'] = lambda r: pb.deserialise(pb.serialise(p))
    self.ops['print'] = lambda r: repr(p)

  #-----------------------------------------------------------------------------
  def _algebra(self, cfg):
    """ Distributions over shared variables made directly """
    rng, names = self.rng, cfg['names']
    vals = {}
    for n in names:
      m = rng.choice((2, 2, 3))
      vals[n] = rng.choice((np.arange(float(m)), np.linspace(-1., 1., m), np.arange(m), np.arange(float(m))[::-1].copy()))
    single = {n: float(vals[n].ravel()[0]) for n in names if rng.random() < 0.15} # variables with one value
    def pd(marg, cond=()):
      keys = list(marg) + list(cond)
      arrays = [k for k in keys if k not in single]
      if not arrays:
        return None
      shape = [len(vals[k]) for k in arrays]
      prob = np.array([rng.uniform(0.05, 1.) for _ in range(int(np.prod(shape)))]).reshape(shape)
      dist = {k: vals[k].reshape([-1 if a == k else 1 for a in arrays]) if k in arrays else single[k] for k in keys}
      return self.G(pb.PD(','.join(marg) + ('|' + ','.join(cond) if cond else ''), dist,
                          dims={k: arrays.index(k) if k in arrays else None for k in keys},
                          prob=np.log(prob) if cfg['log'] else prob, **self.pk))
    a, b, c, d = names
    pds = {'all': pd(names), 'given one': pd([a, b], [c]), 'given two': pd([a], [c, d]), 'also given two': pd([b], [c, d]),
           'given three': pd([a], [b, c, d]), 'pair': pd([c, d]), 'last': pd([d]), 'given pair': pd([b], [c])}
    pds = {k: v for k, v in pds.items() if v is not None}
    some = lambda r: pds[r.choice(sorted(pds))]
    def keys(r, p):
      ks = list(p.marg)
      r.shuffle(ks)
      ks = ks[:r.choice((1, 1, 2))]
      return self.A(ks) if r.random() < 0.6 else ks[0]
    def on(f):
      def call(r):
        p = some(r)
        return f(r, p)
      return call
    one = lambda r, p: {k: r.choice(list(np.ravel(p[k]))) for k in r.sample(list(p), min(len(p), r.choice((1, 1, 2))))}
    self.ops['marginalise'] = on(lambda r, p: p.marginalise(keys(r, p)))
    self.ops['marginal'] = on(lambda r, p: p.marginal(keys(r, p)))
    self.ops['conditionalise'] = on(lambda r, p: p.conditionalise(keys(r, p)))
    self.ops['expectation'] = on(lambda r, p: p.expectation(keys(r, p) if r.random() < 0.6 else None, exponent=r.choice((None, 2))))
    self.ops['quantile'] = on(lambda r, p: p.quantile(r.choice((0.5, [0.1, 0.7]))))
    self.ops['prod'] = on(lambda r, p: p.prod(keys(r, p)))
    self.ops['sorted'] = on(lambda r, p: p.sorted(r.choice(list(p))))
    self.ops['slice'] = on(lambda r, p: p(self.A(one(r, p)), keepdims=r.random() < 0.3))
    self.ops['values'] = on(lambda r, p: p(r.choice(('marg', 'cond'))) if p.cond else p('marg'))
    self.ops['look up'] = on(lambda r, p: p.lookup(keys(r, p), as_dist=r.random() < 0.5))
    self.ops['rekey'] = on(lambda r, p: p.rekey(self.A({list(p)[0]: 'other'})))
    self.ops['rescaled'] = on(lambda r, p: p.rescaled(r.choice(('log', None, 2.))))
    self.ops['redim'] = on(lambda r, p: p.redim(self.A(dict(p.dims))))
    self.ops['divide'] = on(lambda r, p: p / p.marginal(keys(r, p)))
    self.ops['serialise'] = on(lambda r, p: pb.deserialise(pb.serialise(p)))
    def product(r):
      ps = [some(r) for _ in range(r.choice((2, 2, 3)))]
      return pb.product(*ps)
    def pick(ks):
      ks = [k for k in ks if k in pds]
      return lambda r: pb.product(*[pds[k] for k in (ks if r.random() < 0.5 else ks[::-1])])
    self.ops['product'] = product
    for i, ks in enumerate((('given two', 'pair'), ('given two', 'also given two'), ('given three', 'pair'), ('given three', 'given pair', 'pair'),
                            ('given three', 'last'), ('given one', 'last'), ('given two', 'also given two', 'pair'))):
      self.ops['product {}'.format(i)] = pick(ks)
    def chain(r): # one after another
      res = []
      p = some(r)
      for _ in range(3):
        p = r.choice((lambda: p.marginalise(keys(r, p)), lambda: p.conditionalise(keys(r, p)), lambda: p.rescaled('log'), lambda: p.sorted(r.choice(list(p)))))()
        res.append(p)
      return res
    self.ops['chain'] = chain
    self.ops['iid'] = on(lambda r, p: p.prod(keys(r, p)).rescaled('log'))
    def regrid(r):
      p = r.choice([q for q in pds.values() if r.random() < 0.5 or not q.cond] or [pds['all']])
      if p.cond: # (given single values)
        p = p({k: r.choice(list(np.ravel(p[k]))) for k in p.cond})
      grid = self.A(pb.Distribution('u', {'u': self.A(np.linspace(-3., 3., r.choice((3, 6))))}))
      return p.remarginalise(grid, self.A({'u': sum(np.asarray(p[k], dtype=float) for k in p) * np.ones(p.prob.shape)}))
    self.ops['regrid'] = regrid
    points = [self.G(pb.PD(','.join(names), {n: float(rng.choice(list(vals[n].ravel()))) for n in names},
                           prob=np.log(0.1 * (i + 1)) if cfg['log'] else 0.1 * (i + 1), **self.pk)) for i in range(4)]
    self.ops['gather'] = lambda r: pb.summate(*self.A(r.sample(points, r.choice((2, 3, 4)))))
    self.ops['gather two'] = lambda r: r.choice(points) + r.choice(points)
    self.ops['point'] = lambda r: (lambda p: (p.quantile(r.choice((0.5, [0.2, 0.6]))), p.expectation(), p.rescaled('log')))(r.choice(points))

  def _counted(self, func):
    hook = self.hook
    def prob(*args, **kwds):
      hook.hit('prob')
      return func(*args, **kwds)
    return prob

  def _naive(self, cfg):
    """ Conditionals that share what they are about, from tables of frequencies """
    names = cfg['names'][:cfg['n'] + 1]
    bools = {n: pb.RV(n, vset=[False, True], vtype=bool) for n in names}
    parts = []
    for n in names[1:]:
      part = bools[names[0]] | bools[n]
      obs = self.G(np.array([[self.rng.random() < 0.5, self.rng.random() < 0.4] for _ in range(30)]))
      part.set_prob(self._counted(pb.bool_perm_freq(obs, [names[0], n])[0]), passdims=True)
      parts.append(part)
    whole = pb.SD(*parts)
    bit = lambda r: r.random() < 0.5
    self.ops['table'] = lambda r: whole()
    self.ops['given'] = lambda r: whole(self.A({n: bit(r) for n in names[1:]}))
    self.ops['given some'] = lambda r: whole(self.A({names[1]: bit(r)}))
    self.ops['random'] = lambda r: whole({0})
    self.ops['part'] = lambda r: r.choice(parts)()
    self.ops['part given'] = lambda r: (lambda i: parts[i](self.A({names[i + 1]: bit(r)})))(r.randrange(len(parts)))
    self.ops['bayes'] = lambda r: pb.product(*[bools[n]() for n in names[1:]], whole()).conditionalise(names[0])

  def _functional(self, cfg):
    """ Functions of the variables of one field giving those of another """
    compiler.off()
    try:
      self._build_functional(cfg)
    except Exception:
      compiler.on()
      self._build_functional(cfg)
    finally:
      compiler.on()

  def _build_functional(self, cfg):
    x, y, a, b = [pb.Variable(n, vtype=float) for n in cfg['names']]
    m, n = cfg['names'][:2]
    fn = pb.Functional(a & b, x & y)
    c = round(self.rng.uniform(0.5, 2.), 3)
    hook = self.hook
    user = self.rng.random() < 0.5
    if user:
      def one(**kwds):
        hook.hit('one')
        return kwds[m] * c
      def other(k, **kwds):
        hook.hit('other')
        return kwds[n] - k
      fn.add_func({a: x}, one)
      fn.add_func({b: y}, other, k=c)
    else:
      fn.add_func(a, sympy.log(x[:]) * c)
      fn.add_func(b, sympy.exp(y[:]) - c * x[:])
    v = lambda r: self.A({m: r.uniform(0.5, 2.), n: r.uniform(-1, 1)})
    w = lambda r: self.A({m: np.linspace(0.5, 1. + r.random(), 3), n: np.linspace(-1., r.random(), 3)})
    self.ops['by name'] = lambda r: fn[r.choice(cfg['names'][2:])](**v(r))
    self.ops['by variable'] = lambda r: fn[r.choice((a, b))](v(r))
    self.ops['arrays'] = lambda r: fn[r.choice((a, b))](w(r))
    def held(r):
      fs = [fn[a], fn[b]]
      vals = v(r)
      return [f(**vals) for f in fs] + [f(vals) for f in fs[::-1]]
    self.ops['held'] = held

  def _condcov(self, cfg):
    """ The conditional sampler of a multivariate normal """
    from probayes.cond_cov import CondCov
    rng, n = self.rng, cfg['n']
    fac = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    mean = np.array([rng.uniform(-1, 1) for _ in range(n)])
    lims = np.array([[-rng.uniform(3, 9), rng.uniform(3, 9)] for _ in range(n)])
    cc = CondCov(self.G(mean), self.G(fac @ fac.T + np.eye(n)), self.G(lims))
    def args(r, number):
      vals = [r.uniform(-2, 2) for _ in range(n)]
      i = r.randrange(n)
      return vals[:i] + [{number}] + vals[i + 1:]
    self.ops['draw'] = lambda r: cc.interp(*args(r, 0))
    self.ops['draws'] = lambda r: cc.interp(*args(r, -r.choice((2, 3))))
    self.ops['grid'] = lambda r: cc.interp(*args(r, r.choice((2, 5))), cond_pdf=True)
    names = cfg['names'][:n]
    rf = pb.RF(*[pb.RV(k, list(map(float, l)), float) for k, l in zip(names, lims)])
    rf.set_prob(scipy.stats.multivariate_normal, mean, fac @ fac.T + np.eye(n))
    def tfun(*a, **k):
      self.hook.hit('tfun')
      return cc.interp(*a, cond_pdf=True)
    rf.set_tran(tfun, order=collections.OrderedDict([(k + "'", i) for i, k in enumerate(names)]))
    def given(r):
      vals = dict(zip([k + "'" for k in names], args(r, 0)))
      return rf.tran(self.A(vals))
    self.ops['as a transition'] = given

  #-----------------------------------------------------------------------------
  def _matrix(self, cfg):
    name, m = cfg['names'][0], self.rng.choice((2, 3, 4))
    mat = np.array([[self.rng.choice((0., 1., 2., 3.)) for _ in range(m)] for _ in range(m)]) + np.eye(m)
    mat = mat / mat.sum(axis=0)
    var = pb.RV(name, range(m))
    var.set_tran(self.G(mat))
    self.ops['sample'] = lambda r: var.step(r.randrange(m))
    self.ops['given'] = lambda r: var.step(r.randrange(m), r.randrange(m))
    self.ops['table'] = lambda r: var.step()

  def _cdf(self, cfg):
    name, hook = cfg['names'][0], self.hook
    loc = lambda pred: -np.sin(pred)
    scale = lambda pred: 1. + 0.5 * np.cos(pred)
    def tran(succ, pred):
      hook.hit('tran')
      return scipy.stats.norm.pdf(succ, loc=loc(pred), scale=scale(pred))
    def tcdf(succ, pred):
      hook.hit('cdf')
      return scipy.stats.norm.cdf(succ, loc=loc(pred), scale=scale(pred))
    def ticdf(succ, pred):
      hook.hit('icdf')
      return scipy.stats.norm.ppf(succ, loc=loc(pred), scale=scale(pred))
    var = pb.RV(name, [-3., 3.], float)
    var.set_tran(tran, order={name: 'pred', name + "'": 'succ'})
    var.set_tfun((tcdf, ticdf), order={name: 'pred', name + "'": 'succ'})
    self.ops['sample'] = lambda r: var.step(r.uniform(-2, 2))
    self.ops['given'] = lambda r: var.step(r.uniform(-2, 2), r.uniform(-2, 2))
    self.ops['evaluate'] = lambda r: var({r.choice((2, -2, 0))})

  #-----------------------------------------------------------------------------
  def _sampler(self, cfg):
    """ Every caller has a sampler of its own of one process """
    chain = chains.Chain(cfg['chain'], self.hook)
    self.chain = chain
    args, kwds = chain.next_args()
    samplers = [chain.sampler() for _ in range(3)] # (made beforehand: making them is not concurrent)
    mine = lambda: samplers[self.hook.who()]
    self.ops['next'] = lambda r: chain.sp.next(mine(), *args, **kwds)
    self.ops['walk'] = lambda r: [next(mine(), 'ended') for _ in range(2)]
    self.ops['count'] = lambda r: chain.sp.get_counter(mine()) if hasattr(chain.sp, 'get_counter') else 0

  def _process(self, cfg):
    """ A process used without samplers """
    chain = chains.Chain(cfg['chain'], self.hook)
    sp, par, names = chain.sp, chain.par, chain.names
    args, kwds = chain.next_args()
    def at(r):
      if chain.init is None:
        return self.A(args[0])
      return self.A({n: v + (0. if cfg['chain']['kind'] == 'matrix' else r.choice((0., 0.01))) for n, v in chain.init.items()})
    rest = [self.G(a) for a in args[1:]]
    self.ops['sample'] = lambda r: sp.sample(at(r), *rest, **kwds)
    self.ops['evaluate'] = lambda r: sp(*([at(r)] + rest), **kwds) if cfg['chain']['kind'] not in ('matrix', 'cdf') else par(at(r))
    if chain.init is not None:
      self.ops['step'] = lambda r: par.step(at(r))
    def run(r):
      stop = r.choice((2, 3))
      if chain.init is None:
        samples = self.A(sp.walk(sp.sampler(*args, stop=stop, **kwds)))
      else:
        samples = self.A(sp.walk(sp.sampler(at(r), *rest, stop=stop, **kwds)))
      return [list(samples), sp(samples)]
    self.ops['run'] = run
    if cfg['chain']['kind'] == 'prop':
      self.ops['propose'] = lambda r: sp.propose(at(r))

  #-----------------------------------------------------------------------------
  def _scipy(self, cfg):
    names = cfg['names'][:2]
    rvs = [pb.RV(n, (-6., 6.), float) for n in names]
    rf = pb.RF(*rvs)
    c = round(self.rng.uniform(-0.6, 0.6), 3)
    rf.set_prob(scipy.stats.multivariate_normal, self.G(np.zeros(2)), self.G(np.array([[1., c], [c, 1.]])), **self.pk)
    u = pb.RV('u', (0.1, 6.), float)
    u.set_prob(scipy.stats.gamma, a=2., **self.pk)
    g = lambda r: self.A(np.linspace(-1., 1., r.choice((2, 3))))
    self.ops['density'] = lambda r: rf({names[0]: r.uniform(-1, 1), names[1]: r.uniform(-1, 1)})
    self.ops['grid'] = lambda r: rf(self.A({names[0]: g(r), names[1]: g(r)}))
    self.ops['univariate'] = lambda r: u({r.choice((3, -2))})
    self.ops['mixed'] = lambda r: (rf({names[0]: g(r), names[1]: 0.}), u(1.))

  def _expr(self, cfg):
    compiler.off() # (compiling takes seconds; C16 is about it)
    try:
      self._build_expr(cfg)
    except Exception:
      compiler.on()
      self._build_expr(cfg)
    finally:
      compiler.on()

  def _build_expr(self, cfg):
    x = pb.RV('x', vtype=float, vset=[-2., 2.])
    y = pb.RV('y', vtype=float, vset=[-2., 2.])
    c = round(self.rng.uniform(0.5, 2.), 3)
    e1 = pb.Expression(sympy.exp(-x[:] ** 2 * c) + y[:])
    e2 = pb.Expression({'sum': x[:] + y[:], 'dif': x[:] - c * y[:]})
    x.set_prob(sympy.exp(-x[:] ** 2 / 2))
    v = lambda r: {'x': r.uniform(-1, 1), 'y': r.uniform(-1, 1)}
    a = lambda r: self.A({'x': np.linspace(-1, r.random(), 3), 'y': r.choice((0.5, True))})
    self.ops['value'] = lambda r: e1(**v(r))
    self.ops['array'] = lambda r: e1(a(r))
    self.ops['indexed'] = lambda r: e2[r.choice(('sum', 'dif'))](**v(r))
    def held(r):
      fs = [e2[k] for k in ('sum', 'dif')]
      vals = v(r)
      return [f(**vals) for f in fs]
    self.ops['held'] = held
    self.ops['density'] = lambda r: x({3})
