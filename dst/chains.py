""" Stochastic processes built from a JSON configuration, with their oracles.

Every kind of sampler the library offers is represented: Metropolis and
Metropolis-Hastings random walks (direct or through a root field, linear or log
scale, symmetric or forward/reverse transition pairs), Gibbs sweeps (user
conditionals or the conditional normal), Markov matrices, continuous transitions
sampled by inverse cumulative functions, proposals with rejection, and plain
sampling without proposals.
"""
import math
import numpy as np
import scipy.stats
from dst.core import rng_of, injected

import probayes as pb

NAMES = ('x', 'y', 'zeta', 'mu', 'sigma', 'a1', 'beta_0', 'w', 'kappa', 'q0')

#-------------------------------------------------------------------------------
class Hook:
  """ Counts user callbacks and raises at the one the plan names. """
  def __init__(self):
    self.calls = 0
    self.fail_at = None
    self.fired = 0
    self.where = None

  def arm(self, fail_at):
    self.calls = 0
    self.fail_at = fail_at
    self.where = None

  def hit(self, where):
    self.calls += 1
    if self.fail_at is not None and self.calls > self.fail_at:
      self.fail_at = None
      self.fired += 1
      self.where = where
      raise injected(where, 3 * self.fired + self.calls)

#-------------------------------------------------------------------------------
def norm_logpdf(x, loc, scale):
  return -0.5 * ((x - loc) / scale) ** 2 - math.log(scale) - 0.5 * math.log(2 * math.pi)

def vset_of(spec):
  """ [lo, hi, open_lo, open_hi] -> a variable set """
  lo, hi, olo, ohi = spec
  lo = -np.inf if lo is None else lo
  hi = np.inf if hi is None else hi
  if olo and ohi:
    return (lo, hi)
  return [(lo,) if olo else lo, (hi,) if ohi else hi]

def values_of(dist, names, suffix=''):
  return {name: float(dist[name + suffix]) for name in names}

def plain(value):
  """ Exact, comparable form of a value held by a distribution """
  if value is None or isinstance(value, (str, bool)):
    return value
  if isinstance(value, (set, frozenset)):
    return ('set', tuple(sorted(value)))
  arr = np.asarray(value)
  if arr.dtype == object:
    return repr(value)
  return (arr.shape, str(arr.dtype.kind), arr.tobytes())

def flat(dist):
  """ Exact, comparable form of a distribution """
  if dist is None:
    return None
  if not hasattr(dist, 'prob'):
    return plain(dist)
  return (dist.name, tuple((k, plain(v)) for k, v in dist.items()),
          plain(dist.prob), complex(dist.pscale),
          tuple((k, None if d is None else int(d)) for k, d in dist.dims.items()))

FIELDS = 'opqrstuv'

def record(sample):
  """ Exact, comparable form of what a sampler yields """
  if hasattr(sample, '_fields'):
    return tuple((f, flat(getattr(sample, f))) for f in sample._fields)
  return (('dist', flat(sample)),)

#-------------------------------------------------------------------------------
class Chain:
  """ A process with a way to start samplers and what its samples must satisfy """
  def __init__(self, cfg, hook=None):
    self.cfg = cfg
    self.hook = hook or Hook()
    self.names = cfg['names']
    getattr(self, '_build_' + cfg['kind'])(cfg)

  @staticmethod
  def _init(cfg):
    order = cfg.get('order') or cfg['names']
    return {n: cfg['init'][cfg['names'].index(n)] for n in order}

  # each _build_* sets self.sp, self.start_args, self.start_kwds

  def sampler(self, stop=None, init=None):
    args = list(self.start_args)
    if init is not None:
      args[0] = init
    kwds = dict(self.start_kwds)
    if stop is not None:
      kwds['stop'] = stop
    return self.sp.sampler(*args, **kwds)

  def next_args(self):
    return tuple(self.start_args), dict(self.start_kwds)

  #-----------------------------------------------------------------------------
  def _build_mh(self, cfg):
    names, hook = self.names, self.hook
    log = cfg['pscale'] == 'log'
    vs = [pb.RV(n, vtype=float, vset=vset_of(cfg['vsets'][i]))
          for i, n in enumerate(names)]
    if cfg.get('ufun'): # the scale parameter steps and is uniform in its logarithm
      vs[1].set_ufun((np.log, np.exp))
    self.vars = vs
    locs, scales, offset = cfg['locs'], cfg['scales'], cfg['offset']
    rho = cfg['rho']
    cut = cfg['cut']

    def logp(vals):
      res = offset
      for i, n in enumerate(names):
        res = res + norm_logpdf(vals[n], locs[i], scales[i])
      if len(names) > 1 and rho:
        res = res + rho * np.sin(vals[names[0]]) * np.cos(vals[names[1]])
      if cut is not None and vals[names[0]] < cut:
        return -np.inf
      return res
    self.logp = logp

    data = cfg.get('data')
    def prob(**kwds):
      hook.hit('prob')
      if data is not None:
        # iid likelihood of data z given the first variable
        z = np.asarray(kwds['z'])
        res = norm_logpdf(z, kwds[names[0]], scales[0]) + offset
        if len(names) > 1:
          res = res + norm_logpdf(kwds[names[1]], locs[1], scales[1])
        if cfg.get('product'): # the function performs the product itself
          res = np.sum(res)
        return res if log else np.exp(res)
      res = logp({n: kwds[n] for n in names})
      return res if log else np.exp(res)
    self.prob = prob
    if data is not None:
      def logp_iid(vals):
        tot = 0.
        for z in data:
          one = norm_logpdf(z, vals[names[0]], scales[0]) + offset
          if len(names) > 1:
            one = one + norm_logpdf(vals[names[1]], locs[1], scales[1])
          tot += one
        return tot
      self.logp = logp_iid

    shift, pscale_q, width = cfg['shift'], cfg['qlog'], cfg['qwidth']
    def qlog(pred, succ):
      return sum(norm_logpdf(succ[n], pred[n] + shift, width) for n in names) + cfg.get('qoff', 0.)
    self.qlog = qlog
    def q(**kwds):
      hook.hit('tran')
      res = qlog({n: kwds[n] for n in names}, {n: kwds[n + "'"] for n in names})
      return res if pscale_q else np.exp(res)
    def r(**kwds):
      hook.hit('tran')
      res = qlog({n: kwds[n + "'"] for n in names}, {n: kwds[n] for n in names})
      return res if pscale_q else np.exp(res)

    direct = cfg['via'] == 'direct'
    if direct:
      par = pb.SP(*[self._and(vs)])
      sp = par
    else:
      par = pb.RF(*vs)
      z = pb.RV('z', vtype=float, vset=(-8., 8.))
      sp = pb.SP(pb.RF(z), par)
    self.sp, self.par = sp, par
    pk = {'pscale': 'log'} if log else {}
    if not direct and pscale_q:
      par.pscale = 'log'
    target = cfg.get('target', 'fn')
    if target == 'mvn':
      means, cov = np.array(cfg['means']), np.array(cfg['cov'])
      sp.set_prob(scipy.stats.multivariate_normal, means, cov, **pk)
      prec, ldet = np.linalg.inv(cov), np.linalg.slogdet(cov)[1]
      keys = list(names)
      def logp_mvn(vals):
        d = np.array([vals[n] for n in keys]) - means
        return float(-0.5 * d.dot(prec).dot(d) - 0.5 * ldet - 0.5 * len(keys) * math.log(2 * math.pi))
      self.logp = logp_mvn
    elif target == 'norm':
      sp.set_prob(scipy.stats.norm.logpdf if log else scipy.stats.norm.pdf,
                  order={'z': 0, names[0]: 'loc', names[1]: 'scale'}, **pk)
      def logp_norm(vals):
        return sum(norm_logpdf(z, vals[names[0]], vals[names[1]]) for z in data)
      self.logp = logp_norm
    else:
      sp.set_prob(prob, **pk)
    if cfg.get('joint'):
      like = self.logp
      def logp_joint(vals):
        spans = [v[1] - v[0] for v in cfg['vsets']]
        if cfg.get('ufun'):
          spans[1] = math.log(cfg['vsets'][1][1] / cfg['vsets'][1][0])
        return like(vals) - sum(math.log(span) for span in spans)
      self.logp = logp_joint
    if cfg['tran'] == 'pair':
      par.set_tran((q, r))
    elif cfg['tran'] == 'sym':
      par.set_tran(q)
    delta = cfg['delta']
    if delta[0] == 'lambda':
      def draw():
        hook.hit('delta')
        return par.Delta(**{n: shift + width * np.random.normal() for n in names})
      par.set_delta(lambda: draw())
    elif delta[0] == 'list':
      par.set_delta([delta[1]], bound=delta[2], scale=bool(cfg.get('dscale')))
    elif delta[0] == 'sphere':
      par.set_delta((delta[1],), bound=delta[2], scale=bool(cfg.get('dscale')))
    elif delta[0] == 'fixed':
      par.set_delta(delta[1], bound=delta[2], scale=bool(cfg.get('dscale')))
    if not direct:
      sp.set_tran(par)
      sp.set_delta(par)
    self._scheme(sp, cfg['scores'])
    init = self._init(cfg)
    self.init = init
    self.start_args, self.start_kwds = [init], {}
    if data is not None:
      self.start_args.append({'z': np.array(data)})
      self.start_kwds['iid'] = True
      if cfg.get('joint'):
        self.start_kwds['joint'] = True
    elif not direct:
      self.start_args.append({'z': 0.})

  def _scheme(self, sp, scores):
    hook = self.hook
    if scores in ('metropolis', 'hastings'):
      sp.set_scores(scores)
      if scores == 'hastings':
        sp.set_update('metropolis')
    elif scores == 'custom':
      def score(opqr):
        hook.hit('scores')
        if opqr.o is None:
          return None
        lin = lambda d: float(np.exp(d.prob)) if np.iscomplexobj(d.pscale) and d.pscale == 0j else float(d.prob)
        a, b = lin(opqr.o), lin(opqr.p)
        return 1. if a <= 0. else min(1., b / a)
      def thresh():
        hook.hit('thresh')
        return np.random.uniform()
      def update(stu):
        hook.hit('update')
        if stu.s is None:
          return True
        return True if stu.s >= stu.t else None
      sp.set_scores(score)
      sp.set_thresh(lambda: thresh())
      sp.set_update(update)

  @staticmethod
  def _and(vs):
    res = vs[0]
    for v in vs[1:]:
      res = res & v
    return res if len(vs) > 1 else pb.RF(vs[0])

  #-----------------------------------------------------------------------------
  def _build_gibbs(self, cfg):
    """ User conditionals, one or more unknowns per step """
    names, hook = self.names, self.hook
    lo, hi = cfg['lims']
    vs = [pb.RV(n, vtype=float, vset=(lo, hi)) for n in names]
    obs = np.array(cfg['obs'])
    weights = cfg['weights']
    calls = self.calls = []
    def cond(**kwds):
      hook.hit('cond')
      unknown = kwds['unknown']
      others = tuple((n, float(kwds[n])) for n in names if n != unknown)
      calls.append((unknown, others))
      loc = float(np.mean(kwds['data'])) + sum(w * v for w, (_, v) in zip(weights, others))
      return min(max(loc + np.random.normal(), lo + 1e-6), hi - 1e-6)
    def prob(**kwds):
      hook.hit('prob')
      res = norm_logpdf(kwds['data'], sum(kwds[n] for n in names), 1.)
      return np.sum(res) if cfg.get('product') else res
    def cond_fixed(data, unknown, **kwds):
      return cond(data=data, unknown=unknown, **kwds)
    par = self._and(vs)
    data = pb.RV('data', vtype=float, vset=(-np.inf, np.inf))
    par.set_tfun(cond, tsteps=cfg['tsteps'], data=obs)
    sp = pb.SP(pb.RF(data), par)
    sp.set_tfun(par)
    sp.set_prob(prob, pscale='log')
    sp.set_scores('gibbs')
    self.sp, self.par, self.vars = sp, par, vs
    self.logp = lambda vals: sum(norm_logpdf(d, sum(vals[n] for n in names), 1.) for d in cfg['obs'])
    self.init = self._init(cfg)
    self.start_args = [self.init, {'data': obs}]
    self.start_kwds = {'iid': True}

  #-----------------------------------------------------------------------------
  def _build_mvn(self, cfg):
    """ Conditional normal Gibbs through scipy's multivariate normal """
    names = self.names
    vs = [pb.RV(n, vtype=float, vset=vset_of(cfg['vsets'][i]))
          for i, n in enumerate(names)]
    sp = pb.SP(self._and(vs))
    means, cov = np.array(cfg['means']), np.array(cfg['cov'])
    sp.set_prob(scipy.stats.multivariate_normal, means, cov)
    sp.set_tran(scipy.stats.multivariate_normal, means, cov, tsteps=cfg['tsteps'])
    sp.set_scores('gibbs')
    self.sp, self.par, self.vars = sp, sp, vs
    self.means, self.cov = means, cov
    self.logp = lambda vals: float(scipy.stats.multivariate_normal.logpdf(
        [vals[n] for n in names], means, cov))
    self.init = self._init(cfg)
    self.start_args, self.start_kwds = [self.init], {}

  #-----------------------------------------------------------------------------
  def _build_matrix(self, cfg):
    name = self.names[0]
    var = pb.RV(name, range(cfg['states']))
    var.set_tran(np.array(cfg['matrix']))
    self.vars = [var]
    self.sp = self.par = pb.SP(var)
    self.init = {name: cfg['init'][0]}
    self.start_args, self.start_kwds = [self.init], {}

  #-----------------------------------------------------------------------------
  def _build_cdf(self, cfg):
    name, hook = self.names[0], self.hook
    amp, width = cfg['amp'], cfg['width']
    loc = lambda pred: -amp * np.sin(pred)
    scale = lambda pred: width * (1. + 0.5 * np.cos(pred))
    def tran(succ, pred):
      hook.hit('tran')
      return scipy.stats.norm.pdf(succ, loc=loc(pred), scale=scale(pred))
    def tcdf(succ, pred):
      hook.hit('tfun')
      return scipy.stats.norm.cdf(succ, loc=loc(pred), scale=scale(pred))
    def ticdf(succ, pred):
      hook.hit('tfun')
      return scipy.stats.norm.ppf(succ, loc=loc(pred), scale=scale(pred))
    self.tran, self.tcdf = tran, tcdf
    var = pb.RV(name, vset_of(cfg['vsets'][0]), vtype=float)
    var.set_tran(tran, order={name: 'pred', name + "'": 'succ'})
    var.set_tfun((tcdf, ticdf), order={name: 'pred', name + "'": 'succ'})
    self.vars = [var]
    self.sp = self.par = pb.SP(var)
    self.init = {name: cfg['init'][0]}
    self.start_args, self.start_kwds = [self.init], {}

  #-----------------------------------------------------------------------------
  def _build_prop(self, cfg):
    """ Rejection sampling from a proposal """
    names, hook = self.names, self.hook
    vs = [pb.RV(n, vtype=float, vset=vset_of(cfg['vsets'][i]))
          for i, n in enumerate(names)]
    rad = cfg['radius']
    def inside(**kwds):
      hook.hit('prob')
      return np.array(sum(kwds[n] ** 2 for n in names) <= rad ** 2, dtype=float)
    def prop(**kwds):
      hook.hit('prop')
      res = 1.
      for n in names:
        res = res * np.exp(norm_logpdf(kwds[n], 0., rad))
      return res
    self.prob, self.prop = inside, prop
    sp = pb.SP(self._and(vs))
    sp.set_prob(inside)
    sp.set_prop(prop)
    def score(opqr):
      hook.hit('scores')
      return float(opqr.p.prob)
    def thresh():
      hook.hit('thresh')
      return np.random.uniform()
    def update(stu):
      hook.hit('update')
      return bool(stu.s >= stu.t)
    sp.set_scores(score)
    sp.set_thresh(lambda: thresh())
    sp.set_update(update)
    self.sp, self.par, self.vars = sp, sp, vs
    self.init = None
    self.start_args, self.start_kwds = [{0}], {}

  #-----------------------------------------------------------------------------
  def _build_plain(self, cfg):
    """ Sampling without proposals """
    names = self.names
    vs = [pb.RV(n, vtype=float, vset=vset_of(cfg['vsets'][i]))
          for i, n in enumerate(names)]
    if cfg.get('int'):
      vs[0] = pb.RV(names[0], vtype=int, vset=range(cfg['int']))
    sp = pb.SP(self._and(vs))
    self.sp, self.par, self.vars = sp, sp, vs
    self.init = None
    size = cfg['size']
    self.start_args, self.start_kwds = [{size}], {}

#-------------------------------------------------------------------------------
def gen_vset(rng, centre=0., width=3., unbounded=0.4):
  if rng.random() < unbounded:
    return [None, None, True, True]
  lo = round(centre - width * rng.choice((1., 0.7, 1.5)), 3)
  hi = round(centre + width * rng.choice((1., 0.7, 1.5)), 3)
  return [lo, hi, rng.random() < 0.5, rng.random() < 0.5]

def gen_cfg(rng, kinds=None):
  """ A random process configuration """
  kind = rng.choice(kinds or ('mh', 'mh', 'mh', 'gibbs', 'mvn', 'matrix', 'cdf', 'prop', 'plain'))
  n = {'matrix': 1, 'cdf': 1}.get(kind) or rng.choice((1, 2, 2, 3))
  if kind in ('gibbs', 'mvn'):
    n = rng.choice((2, 2, 3, 4))
  names = rng.sample(NAMES, n)
  cfg = {'kind': kind, 'names': names}
  if kind == 'mh':
    log = rng.random() < 0.6
    pair = rng.random() < 0.4
    cfg.update(
        pscale='log' if log else 'lin',
        locs=[round(rng.uniform(-1, 1), 3) for _ in names],
        scales=[round(rng.choice((0.3, 1., 2.)) * rng.uniform(0.8, 1.2), 3) for _ in names],
        rho=rng.choice((0., 0.5)),
        cut=None, tran='pair' if pair else 'sym',
        shift=0., qlog=False, qwidth=round(rng.choice((0.3, 1., 2.)), 3),
        via='direct', offset=0., data=None,
        init=[round(rng.uniform(-0.5, 0.5), 3) for _ in names],
        scores=rng.choice(('hastings', 'hastings', 'metropolis', 'custom')))
    if log:
      cfg['offset'] = rng.choice((0., 0., -50., -1500., 900., -30000.))
    else:
      cfg['offset'] = rng.choice((0., 0., -30., -300.))
    if rng.random() < 0.2:
      cfg['cut'] = round(rng.uniform(-1.5, -0.8), 3)
    cfg['via'] = rng.choice(('direct', 'roots'))
    dk = rng.random()
    if pair:
      cfg['delta'] = ['lambda']
      cfg['shift'] = round(rng.choice((0., 0.5, -1.)), 3)
      cfg['scores'] = 'hastings'
      cfg['vsets'] = [[None, None, True, True] for _ in names]
      # the scale of a transition is that of the object that holds it
      cfg['qlog'] = log if cfg['via'] == 'direct' else rng.random() < 0.5
    elif dk < 0.5:
      cfg['delta'] = ['lambda']
      cfg['vsets'] = [[None, None, True, True] for _ in names]
      cfg['qlog'] = log if cfg['via'] == 'direct' else rng.random() < 0.5
    else:
      cfg['vsets'] = [gen_vset(rng, unbounded=0.) for _ in names]
      cfg['delta'] = [rng.choice(('list', 'sphere')), round(rng.choice((0.2, 0.9)), 3), True]
      cfg['dscale'] = rng.random() < 0.2
      cfg['qlog'] = log if cfg['via'] == 'direct' else rng.random() < 0.5
    cfg['qoff'] = rng.choice((0., 0., -1500., 900.) if cfg['qlog'] else (0., 0., -40., -400.)) # (densities known up to a factor)
    if cfg['via'] == 'roots' and log and rng.random() < 0.4:
      cfg['data'] = [round(rng.uniform(-2, 2), 3) for _ in range(rng.choice((2, 5)))]
      cfg['cut'] = None
      cfg['product'] = rng.random() < 0.3
    if cfg['via'] == 'direct' and n > 1 and rng.random() < 0.3:
      a = np.array([[rng.uniform(-1, 1) for _ in names] for _ in names])
      cfg.update(target='mvn', cut=None, offset=0.,
                 means=[round(rng.uniform(-0.5, 0.5), 3) for _ in names],
                 cov=(a.dot(a.T) + 0.3 * np.eye(n)).round(3).tolist())
    elif cfg['via'] == 'roots' and n == 2 and rng.random() < 0.5:
      cfg.update(target='norm', cut=None, offset=0., tran='sym', shift=0.,
                 data=[round(rng.uniform(-2, 2), 3) for _ in range(rng.choice((1, 3, 6)))],
                 vsets=[gen_vset(rng, unbounded=0.), [0.5, 4., rng.random() < 0.5, rng.random() < 0.5]],
                 init=[round(rng.uniform(-0.5, 0.5), 3), 1.5],
                 delta=[rng.choice(('list', 'sphere')), round(rng.choice((0.2, 0.9)), 3), True])
      cfg['ufun'] = rng.random() < 0.5
      cfg['dscale'] = rng.random() < 0.5
      if log and cfg['qlog'] or not log and not cfg['qlog']:
        cfg['joint'] = rng.random() < 0.6
  elif kind == 'gibbs':
    cfg.update(lims=[-8., 8.], obs=[round(rng.uniform(-1, 1), 3) for _ in range(4)],
               product=rng.random() < 0.3,
               weights=[0.3] * n, tsteps=rng.choice((0, 1, 1, 1, 2)),
               init=[round(rng.uniform(-1, 1), 3) for _ in names])
    if cfg['tsteps'] > n:
      cfg['tsteps'] = 1
  elif kind == 'mvn':
    a = np.array([[rng.uniform(-1, 1) for _ in names] for _ in names])
    cov = a.dot(a.T) + 0.5 * np.eye(n)
    lim = rng.choice((10., 3., 1.))
    cfg.update(means=[round(rng.uniform(-0.5, 0.5), 3) for _ in names],
               cov=cov.round(3).tolist(), tsteps=rng.choice((1, 1, 1, 2, 0)),
               vsets=[[-round(lim * rng.uniform(0.6, 1.), 3), round(lim * rng.uniform(0.6, 1.), 3), True, True]
                      for _ in names],
               init=[round(rng.uniform(-0.5, 0.5), 3) for _ in names])
  elif kind == 'matrix':
    m = rng.choice((2, 3, 4, 6))
    mat = np.zeros((m, m))
    for j in range(m):
      w = [rng.choice((0., 0., 1., 2., 3.)) for _ in range(m)]
      if not sum(w):
        w[rng.randrange(m)] = 1.
      mat[:, j] = np.array(w) / sum(w)
    cfg.update(states=m, matrix=mat.tolist(), init=[rng.randrange(m)])
  elif kind == 'cdf':
    lim = round(rng.choice((1., 3.1415, 6.)), 4)
    cfg.update(vsets=[[-lim, lim, False, False]], amp=rng.choice((0.5, 1.)),
               width=rng.choice((0.5, 1.)), init=[round(rng.uniform(-0.9, 0.9), 3)])
  elif kind == 'prop':
    cfg.update(radius=1., vsets=[[-1., 1., False, False] for _ in names])
  if 'init' in cfg and rng.random() < 0.4: # initial values named in another order
    cfg['order'] = rng.sample(names, n)
  if kind == 'plain':
    cfg.update(vsets=[gen_vset(rng, unbounded=0.) for _ in names],
               size=0, int=rng.choice((0, 0, 4)))
  return cfg
