""" C08: random-walk steps stay in the domain and have the declared size. """
import numpy as np
from dst import simrng, statcheck
from dst.core import rng_of, require, must
from dst.chains import NAMES, vset_of
import probayes as pb

BUDGET = {'quick': {'runs': 6000, 'wall': 240}, 'thorough': {'runs': 150000, 'wall': 3000}}
RULE = ('a run builds variables with seeded domains (closed, open and half-open reals, log-transformed reals, integer '
        'ranges, booleans), declares a step rule (fixed, uniform, random sign, spherical, per-variable; scaled; '
        'bounded or not; correlated by a matrix) on a variable, a field or a process, and walks from seeded places, '
        'often next to an end, with extreme draws mixed in; each step is compared with a reference model; long '
        'runs test the distribution of the increments; non-trivial when a step met an end of the domain and '
        'another did not, or a distribution was tested')
SCHEDULE_MEASURE = 'distinct (level, domains, rule, sequence of free / clamped / bounced steps)'
REAL = ['probayes (all of it)', 'numpy']
STUBS = ['numpy.random bit source (simulated, seeded per step)']
ASSUMPTIONS = ['walks start inside the domain', 'reals have finite ends wherever steps are scaled or spherical']
TOL = 1e-9

def gen_var(rng, finite, types=('float', 'float', 'float', 'log', 'int', 'bool')):
  vt = rng.choice(types)
  if vt == 'bool':
    return {'type': 'bool'}
  if vt == 'int':
    lo = rng.randint(-5, 3)
    return {'type': 'int', 'lo': lo, 'hi': lo + rng.choice((1, 2, 4, 9))}
  if vt == 'log':
    lo = round(rng.choice((0.01, 0.5, 2.)), 3)
    return {'type': 'log', 'vset': [lo, round(lo * rng.choice((2., 10., 1000.)), 4),
                                    rng.random() < 0.5, rng.random() < 0.5]}
  if not finite and rng.random() < 0.25:
    return {'type': 'float', 'vset': [None, None, True, True]}
  if rng.random() < 0.3: # ends, places and steps on a grid that adds up exactly
    lo = rng.randint(-16, 16) / 8.
    return {'type': 'float', 'grid': True, 'vset': [lo, lo + rng.choice((0.5, 1., 4.)),
                                                    rng.random() < 0.5, rng.random() < 0.5]}
  lo = round(rng.uniform(-4, 4), 3)
  return {'type': 'float', 'vset': [lo, round(lo + rng.choice((0.25, 1., 5., 60.)), 3),
                                    rng.random() < 0.5, rng.random() < 0.5]}

def length(v):
  """ Extent of a domain in the coordinates steps are made in """
  if v['type'] == 'float':
    return v['vset'][1] - v['vset'][0]
  if v['type'] == 'log':
    return float(np.log(v['vset'][1]) - np.log(v['vset'][0]))
  return None

def generate(seed, tier):
  rng = rng_of('C08', seed)
  if rng.random() < 0.05:
    mode = rng.choice(('sign', 'flips', 'flips', 'all'))
    return {'prop': 'C08', 'seed': seed, 'mode': mode, 'level': 'var', 'p': rng.choice((0.1, 0.4, 0.8, 1.)),
            'bound': rng.random() < 0.5, 'bug': 0., 'ops': [['step', k, rng.choice((1, 2, 5)), rng.random() < 0.5]
                                                            for k in range(rng.choice((5, 200)))]}
  level = rng.choice(('var', 'var', 'field', 'field', 'sp'))
  n = 1 if level == 'var' else rng.choice((1, 2, 3))
  rule = rng.choice(('fixed', 'list', 'tuple'))
  if level != 'var':
    rule = rng.choice(('fixed', 'list', 'list', 'sphere', 'sphere', 'dict', 'unscaled'))
  types = ('float', 'float', 'log', 'int', 'bool')
  if level == 'sp' or rule in ('sphere',):
    types = ('float', 'float', 'log')
  elif level == 'field':
    types = ('float', 'float', 'log', 'int')
  scale = False
  if rule in ('fixed', 'list', 'unscaled') and rng.random() < 0.35:
    if level == 'var':
      scale = rule == 'fixed'
    else:
      scale = True
  vs = [gen_var(rng, scale or rule == 'sphere', types) for _ in range(n)]
  if scale and any(length(v) is None for v in vs):
    scale = False
  if any(v['type'] == 'bool' for v in vs):
    rule = 'fixed'
  def size(v):
    if v['type'] == 'bool':
      return 1
    if v['type'] == 'int':
      return rng.choice((1, 1, 2, 3))
    if scale:
      return round(rng.choice((0.05, 0.3, 0.9)), 3)
    if v['type'] == 'log':
      return round(rng.choice((0.1, 0.7, 3.)), 3)
    if v.get('grid'):
      return rng.choice((0.125, 0.25, 0.25, 0.5, 1.))
    span = 1. if v['vset'][0] is None else v['vset'][1] - v['vset'][0]
    return round(span * rng.choice((0.1, 0.5, 0.9, 1.7)) + 1e-3, 4)
  sizes = [size(v) for v in vs]
  kinds = [rule] * n
  if rule == 'dict':
    kinds = [rng.choice(('fixed', 'list', 'tuple')) for _ in vs]
  elif rule in ('fixed', 'list') and n > 1:
    # one number for all variables
    if len({v['type'] == 'int' for v in vs}) > 1:
      vs = [v for v in vs if v['type'] != 'int']
      sizes, kinds = sizes[:len(vs)], kinds[:len(vs)]
    sizes = [sizes[0]] * len(vs)
    if vs and vs[0]['type'] == 'int':
      sizes = [int(s) for s in sizes]
  elif rule == 'sphere':
    sizes = [sizes[0]] * len(vs)
  elif rule == 'unscaled':
    # field-wide uniform rule with one variable given its own size
    if any(v['type'] in ('int', 'bool') for v in vs):
      vs = [gen_var(rng, True, ('float', 'log')) for _ in vs]
      sizes = [size(v) for v in vs]
    sizes = [sizes[0]] * (len(vs) - 1) + [sizes[-1]] if len(vs) > 1 else sizes
  if not vs:
    vs, sizes, kinds = [gen_var(rng, True, ('float',))], [0.3], [kinds[0] if kinds else 'list']
  bound = rng.random() < 0.8
  corr = None
  if level == 'field' and rule in ('list', 'sphere') and len(vs) > 1 and not scale and \
      all(v['type'] != 'int' for v in vs) and rng.random() < 0.3:
    m = len(vs)
    corr = [[round(rng.uniform(-0.6, 0.6), 3) if j < i else (rng.choice((1., 1., 0.5, 2.)) if i == j else 0.) for j in range(m)] for i in range(m)]
  long_run = rng.random() < 0.08
  array = level == 'var' and not long_run and rng.random() < 0.35 and vs[0]['type'] != 'bool'
  ops = []
  for k in range(300 if long_run else rng.choice((4, 10, 20))):
    ops.append(['step', k, rng.choice(('one', 'two')), rng.random() < 0.4])
  return {'prop': 'C08', 'seed': seed, 'level': level, 'vars': vs, 'names': rng.sample(NAMES, len(vs)),
          'rule': rule, 'kinds': kinds, 'sizes': sizes, 'scale': scale, 'bound': bound, 'corr': corr,
          'cov': corr is not None and rng.random() < 0.4,
          'array': array, 'long': long_run, 'bug': 0. if long_run else rng.choice((0., 0.1, 0.3)), 'ops': ops}

#-------------------------------------------------------------------------------
def build(plan):
  cls = pb.RV if plan['level'] == 'sp' or plan['seed'] % 2 else pb.Variable
  vs = []
  for name, v in zip(plan['names'], plan['vars']):
    if v['type'] == 'bool':
      var = cls(name, vtype=bool, vset=[False, True])
    elif v['type'] == 'int':
      var = cls(name, vtype=int, vset=range(v['lo'], v['hi'] + 1))
    else:
      var = cls(name, vtype=float, vset=vset_of(v['vset']))
      if v['type'] == 'log':
        var.set_ufun((np.log, np.exp))
    vs.append(var)
  wrap = {'fixed': lambda s: s, 'list': lambda s: [s], 'tuple': lambda s: (s,)}
  kwds = {'bound': plan['bound'], 'scale': plan['scale']}
  sizes, rule = plan['sizes'], plan['rule']
  if plan['level'] == 'var':
    vs[0].set_delta(wrap[rule](sizes[0]), **kwds)
    return vs, vs[0]
  if plan['level'] == 'field':
    obj = (pb.RF if cls is pb.RV else pb.Field)(*vs)
  else:
    obj = pb.SP(pb.RF(*vs))
  if rule in wrap:
    obj.set_delta(wrap[rule](sizes[0]), **kwds)
  elif rule == 'sphere':
    obj.set_delta((sizes[0],), **kwds)
  elif rule == 'unscaled':
    obj.set_delta([sizes[0]], {plan['names'][-1]: sizes[-1]}, **kwds)
  else:
    obj.set_delta({n: wrap[k](s) for n, k, s in zip(plan['names'], plan['kinds'], sizes)}, **kwds)
  if plan['corr'] is not None and hasattr(obj, 'set_tfun'):
    corr = np.array(plan['corr'])
    if plan.get('cov'):
      obj.set_tran(corr.dot(corr.T)) # its factor correlates the steps
    else:
      obj.set_tfun(corr)
  return vs, obj

def correlated(plan):
  return plan['corr'] is not None and (plan['level'] == 'sp' or plan['seed'] % 2)

def fwd(v, x):
  return np.log(x) if v['type'] == 'log' else x

def inv(v, x):
  return np.exp(x) if v['type'] == 'log' else x

def apply_model(v, x, d, bound):
  """ -> (expected value, 'free' | 'clamp' | 'bounce') """
  if v['type'] == 'bool':
    return bool((int(x) + int(d)) % 2), 'free'
  y = inv(v, fwd(v, x) + d)
  if v['type'] == 'int':
    y = int(x) + int(d)
    if bound and not v['lo'] <= y <= v['hi']:
      return min(max(y, v['lo']), v['hi']), 'clamp'
    return y, 'free'
  lo, hi, olo, ohi = v['vset']
  if not bound or lo is None:
    return y, 'free'
  if y < lo or (y == lo and olo):
    return (x, 'bounce') if olo else (lo, 'clamp')
  if y > hi or (y == hi and ohi):
    return (x, 'bounce') if ohi else (hi, 'clamp')
  return y, 'free'

def near_end(v, x, d):
  """ the reference and the code may round differently next to an end """
  if v['type'] in ('bool', 'int') or v['vset'][0] is None:
    return False
  if v.get('grid') and float(x * 8).is_integer() and float(d * 8).is_integer():
    return False # exact
  y = inv(v, fwd(v, x) + d)
  return min(abs(y - v['vset'][0]), abs(y - v['vset'][1])) <= TOL * (1 + abs(y))

def inside(v, x):
  if v['type'] == 'bool':
    return bool(x) in (False, True)
  if v['type'] == 'int':
    return float(x) == int(x) and v['lo'] <= x <= v['hi']
  lo, hi, olo, ohi = v['vset']
  if lo is None:
    return bool(np.isfinite(x))
  return bool((x > lo if olo else x >= lo) and (x < hi if ohi else x <= hi))

def place(rng, v):
  """ A starting value inside the domain, often near an end """
  if v['type'] == 'bool':
    return rng.random() < 0.5
  if v['type'] == 'int':
    return rng.choice((v['lo'], v['hi'], rng.randint(v['lo'], v['hi'])))
  lo, hi, olo, ohi = v['vset']
  if lo is None:
    return rng.uniform(-3, 3)
  if v.get('grid') and rng.random() < 0.8:
    n = int((hi - lo) * 8)
    return lo + rng.choice((0 + olo, 1, 2, rng.randint(1, n - 1), n - 2, n - 1, n - ohi)) / 8.
  u = rng.choice((0.001, 0.05, 0.5, 0.95, 0.999, rng.uniform(0.01, 0.99)))
  if u < 0.01 and not olo and rng.random() < 0.5:
    return lo
  if u > 0.99 and not ohi and rng.random() < 0.5:
    return hi
  return lo + u * (hi - lo)

def num(v, x):
  x = np.asarray(x).reshape(-1)[0]
  return bool(x) if v['type'] == 'bool' else (int(x) if v['type'] == 'int' else float(x))

def step_size(plan, i):
  """ Declared size of the step of variable i in its step coordinates """
  v, s = plan['vars'][i], plan['sizes'][i]
  if plan['scale'] and not (plan['rule'] == 'unscaled' and i == len(plan['vars']) - 1):
    return s * length(v)
  return s

def rule_of(plan, i):
  if plan['rule'] == 'unscaled':
    return 'list'
  return plan['kinds'][i]

def check_increments(plan, ds):
  """ ds: increments of all variables, undisturbed by ends """
  ds = np.asarray(ds, dtype=float)
  if correlated(plan):
    ds = np.linalg.solve(np.array(plan['corr']), ds)
  if plan['rule'] == 'sphere':
    rad = plan['sizes'][0]
    require(abs(np.sqrt(np.sum(ds ** 2)) - rad) <= 1e-6 * (1 + rad), 'spherical step is not of the declared radius',
            lambda: '{} vs {}'.format(ds.tolist(), rad))
    return ds
  for i, d in enumerate(ds):
    size, rule = step_size(plan, i), rule_of(plan, i)
    tol = 1e-6 * (1 + abs(size))
    if rule == 'fixed':
      require(abs(d - size) <= tol or plan['vars'][i]['type'] == 'bool', 'fixed step is not of the declared size',
              lambda: '{} vs {}'.format(d, size))
    elif rule == 'tuple':
      require(abs(abs(d) - size) <= tol, 'random-sign step is not of the declared size', lambda: '{} vs {}'.format(d, size))
    else:
      require(abs(d) <= size + tol, 'uniform step exceeds the declared size', lambda: '{} vs {}'.format(d, size))
  return ds

def delta_numbers(plan, delta):
  """ Increments held by an evaluated delta """
  res = []
  for item in delta:
    while isinstance(item, tuple):
      item = item[0]
    res.append(float(item))
  return res

def booleans(plan, out):
  """ Random and array steps of truth values """
  rng = rng_of('C08b', plan['seed'])
  simrng.use('build')
  var = (pb.RV if plan['seed'] % 2 else pb.Variable)('b', vtype=bool, vset=[False, True])
  mode = plan['mode']
  delta = {'sign': (1,), 'flips': [plan['p']], 'all': 1}[mode]
  var.set_delta(delta, bound=plan['bound'])
  flips = []
  for _, k, size, explicit in plan['ops']:
    simrng.use((plan['seed'], k))
    if mode == 'sign' and size == 1:
      start = rng.random() < 0.5
    else:
      start = np.array([rng.random() < 0.5 for _ in range(size)])
    given = np.copy(start) if np.ndim(start) else start
    args = (delta,) if explicit else ()
    got = must('applying a step', var.apply_delta, given, *args)
    require(np.all(given == start), 'the given values were altered', lambda: '{} {}'.format(start, given))
    require(np.shape(got) == np.shape(start), 'a step changed the shape of the values', lambda: str(got))
    require(np.asarray(got).dtype == bool, 'a step of truth values is not a truth value', lambda: repr(got))
    moved = (np.asarray(got) != np.asarray(start)).reshape(-1).tolist()
    if mode == 'all':
      require(all(moved), 'a step did not land where it should', lambda: '{} -> {}'.format(start, got))
    elif mode == 'sign':
      require(len(set(moved)) == 1, 'a step did not land where it should', lambda: '{} -> {}'.format(start, got))
      moved = moved[:1]
    flips += moved
    out.record(np.asarray(got).tolist())
    out.simtime += 1
  if len(plan['ops']) > 100 and mode != 'all':
    q = 0.5 if mode == 'sign' else plan['p']
    statcheck.counts([flips.count(True), flips.count(False)], [q, 1. - q], 'truth values do not flip as declared', mode)
  out.count('steps of truth values', len(plan['ops']))
  out.sched = ['bool', mode, plan['p'], len(plan['ops'])]
  out.nontrivial = True
  out.sample = {'mode': mode, 'p': plan['p']}

def execute(plan, out):
  if 'mode' in plan:
    return booleans(plan, out)
  rng = rng_of('C08x', plan['seed'])
  simrng.use('build')
  variables, obj = must('declaring the step rule', build, plan)
  vs, names, n = plan['vars'], plan['names'], len(plan['vars'])
  state = [place(rng, v) for v in vs]
  sig, incs = [], []
  for op in plan['ops']:
    _, k, way, restart = op
    if restart or plan['long'] or not all(inside(v, x) for v, x in zip(vs, state)):
      state = [place(rng, v) for v in vs]
    sim = simrng.use((plan['seed'], k), plan['bug'])
    edges = sim.edges
    out.simtime += 1
    ds = None
    if plan['array']:
      v = vs[0]
      start = np.array([place(rng, v) for _ in range(rng.choice((1, 3, 7)))])
      if way == 'two' and plan['rule'] != 'fixed':
        delta = must('evaluating a step', obj.eval_delta)
        d = delta_numbers(plan, delta)[0]
        check_increments(plan, [d])
        got = must('applying a step', obj.apply_delta, np.copy(start), delta)
      elif plan['scale']:
        delta = must('evaluating a step', obj.eval_delta)
        d = delta_numbers(plan, delta)[0]
        check_increments(plan, [d])
        got = must('applying a step', obj.apply_delta, np.copy(start), delta)
      else:
        got = must('applying a step', obj.apply_delta, np.copy(start))
        d = None
      got = np.asarray(got)
      require(got.shape == start.shape, 'a step changed the shape of the values', got.shape)
      out.record(got.tolist())
      for x, y in zip(start.tolist(), got.tolist()):
        judge(plan, v, 0, x, y, d, sig)
      out.fault('extreme random draw', sim.edges - edges)
      continue
    if plan['level'] == 'var':
      v = vs[0]
      if way == 'two' or plan['scale']:
        delta = must('evaluating a step', obj.eval_delta)
        ds = delta_numbers(plan, delta)
        got = [must('applying a step', obj.apply_delta, state[0], delta)]
      else:
        got = [must('applying a step', obj.apply_delta, state[0])]
    else:
      vals = dict(zip(names, state))
      if rng.random() < 0.3:
        vals = {key: vals[key] for key in rng.sample(names, n)}
      if plan['level'] == 'sp' and way == 'one' and plan['corr'] is None:
        dist = must('step', obj.step, vals)
        got = [dist[name + "'"] for name in names]
        for name, x in zip(names, state):
          require(float(dist[name]) == float(x), 'the predecessor was altered', lambda: '{} {}'.format(dist[name], x))
      else:
        delta = must('evaluating a step', obj.eval_delta)
        raw = getattr(delta, '_asdict', lambda: None)()
        require(raw is not None and sorted(raw) == sorted(names), 'the step does not cover the variables', str(delta)[:300])
        ds = delta_numbers(plan, [raw[name] for name in names])
        res = must('applying a step', obj.apply_delta, vals, delta)
        got = [res[name] for name in names]
        require([float(vals[name]) for name in names] == [float(x) for x in state], 'the given values were altered')
    out.fault('extreme random draw', sim.edges - edges)
    got = [num(v, y) for v, y in zip(vs, got)]
    out.record(got)
    if ds is not None:
      incs.append(check_increments(plan, ds))
    else:
      est = []
      for i, v in enumerate(vs):
        x, y = state[i], got[i]
        if v['type'] == 'bool' or (plan['bound'] and (y == x or (v['type'] == 'int' and y in (v['lo'], v['hi'])) or (
            v['type'] in ('float', 'log') and v['vset'][0] is not None and y in (v['vset'][0], v['vset'][1])))):
          est = None
          break
        est.append(float(fwd(v, y)) - float(fwd(v, x)))
      if est is not None:
        incs.append(check_increments(plan, est))
    for i, v in enumerate(vs):
      judge(plan, v, i, state[i], got[i], None if ds is None else ds[i], sig)
    state = got
  if plan['long']:
    distribution(plan, incs)
    out.count('increment distributions tested')
  out.count('steps ' + plan['level'])
  for s in ('free', 'clamp', 'bounce'):
    out.count(s, sig.count(s))
  out.sched = [plan['level'], [[v['type'], v.get('vset', [0, 0, 0, 0])[2:]] for v in vs], plan['rule'], plan['bound'], sig[:40]]
  out.nontrivial = plan['long'] or (plan['bound'] and 'free' in sig and ('clamp' in sig or 'bounce' in sig))
  out.sample = {'level': plan['level'], 'rule': plan['rule'], 'steps': sig[:12]}

def judge(plan, v, i, x, y, d, sig):
  """ Compares one variable's move x -> y with the model """
  where = lambda: '{} {} -> {} by {} ({}, size {})'.format(v, x, y, d, plan['rule'], plan['sizes'][i])
  if plan['bound']:
    require(inside(v, y), 'a bounded step left the domain', where)
  if d is not None:
    if near_end(v, x, d):
      return
    want, how = apply_model(v, x, d, plan['bound'])
    tol = 0. if v['type'] in ('int', 'bool') else 1e-9 * (1 + abs(want))
    require(abs(float(y) - float(want)) <= tol, 'a step did not land where it should',
            lambda: where() + ' expected {} ({})'.format(want, how))
    sig.append(how)
    return
  if plan['corr'] is not None:
    return
  # increment unknown: it must be explained by the declared rule
  size = step_size(plan, i)
  rule = rule_of(plan, i)
  if v['type'] == 'bool':
    want, how = apply_model(v, x, size, False)
    require(bool(y) == want, 'a step did not land where it should', where)
    sig.append(how)
    return
  if rule == 'fixed':
    cands = [size]
  elif rule == 'tuple':
    cands = [size, -size]
  else: # uniform or spherical
    cands = None
  if cands is not None:
    for c in cands:
      if near_end(v, x, c):
        return
      want, how = apply_model(v, x, c, plan['bound'])
      if abs(float(want) - float(y)) <= 1e-9 * (1 + abs(float(want))):
        sig.append(how)
        return
    require(False, 'a step did not land where it should', where)
  move = float(fwd(v, y)) - float(fwd(v, x))
  require(abs(move) <= size + 1e-6 * (1 + abs(size)), 'a step moved further than declared', where)
  sig.append('free' if y != x else 'bounce')
  if plan['bound'] and y == x and v['type'] in ('float', 'log') and v['vset'][0] is not None:
    # only a step across an open end may stay put (or no step at all at a closed end)
    lo, hi, olo, ohi = v['vset']
    a, b = float(fwd(v, lo)), float(fwd(v, hi))
    at = float(fwd(v, x))
    possible = (olo and at - size <= a + 1e-9) or (ohi and at + size >= b - 1e-9) or x in (lo, hi)
    require(possible or abs(move) == 0. and plan['bug'] > 0., 'a step was lost in the middle of the domain', where)

def distribution(plan, incs):
  incs = np.asarray(incs)
  if len(incs) < 100:
    return
  for i in range(incs.shape[1]):
    rule, size = rule_of(plan, i), step_size(plan, i)
    col = incs[:, i]
    if plan['rule'] == 'sphere':
      if incs.shape[1] > 1 or True:
        statcheck.counts([np.sum(col > 0), np.sum(col <= 0)], [0.5, 0.5], 'spherical steps prefer a direction', i)
    elif rule == 'tuple':
      statcheck.counts([np.sum(col > 0), np.sum(col <= 0)], [0.5, 0.5], 'random signs are not balanced', i)
    elif rule == 'list':
      if plan['vars'][i]['type'] == 'int':
        size = int(size)
        vals = list(range(-size, size + 1))
        statcheck.counts([np.sum(np.rint(col) == x) for x in vals], [1. / len(vals)] * len(vals),
                         'integer steps are not uniform over the declared range', i)
      else:
        statcheck.uniform((col + size) / (2 * size), 'steps are not uniform over the declared range', i)

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
