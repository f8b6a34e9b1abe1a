""" C09: random sampling of variables and fields. """
import math
import numpy as np
import scipy.stats
import sympy.stats
from dst import compiler, simrng, statcheck
from dst.core import rng_of, require, must
from dst.chains import NAMES, vset_of
import probayes as pb

BUDGET = {'quick': {'runs': 4000, 'wall': 240}, 'thorough': {'runs': 150000, 'wall': 3000}}
RULE = ('a run builds 1-3 variables (uniform reals over closed, open and half-open ranges, log-transformed reals, '
        'normal and exponential reals truncated at their limits, integer ranges, fair and biased booleans) and makes '
        'a seeded history of sample requests (scalar, several independent, jointly sampled, mixed with fixed values '
        'and ordered grids) through the variable, the field or a sampler, with extreme draws mixed in; every returned '
        'value is checked for count, support and reported probability; long runs test the distribution of the draws; '
        'non-trivial when at least two request forms were made or a distribution was tested')
SCHEDULE_MEASURE = 'distinct (kinds of variables, level, sequence of request forms and sizes)'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated, seeded per request)']
ASSUMPTIONS = ['the ends of open ranges may be drawn (documented), so support means the closed range',
               'limits lie where cumulative functions are not saturated']

def gen_var(rng):
  kind = rng.choice(('unif', 'unif', 'log', 'norm', 'expon', 'int', 'int', 'fair'))
  x = rng.random()
  if x < 0.06:
    kind = 'bern'
  elif x < 0.08: # (sympy takes a while)
    kind = rng.choice(('snorm', 'sexpon'))
  v = {'kind': kind}
  if kind in ('unif', 'norm', 'snorm'):
    lo = round(rng.uniform(-3, 2), 3)
    v['vset'] = [lo, round(lo + rng.choice((0.01, 1., 4.)), 3), rng.random() < 0.5, rng.random() < 0.5]
  if kind in ('norm', 'snorm'):
    # limits within 5 deviations, where the cumulative function can be inverted
    lo, hi = v['vset'][:2]
    v['pars'] = {'loc': round(rng.uniform(lo, hi), 3), 'scale': round(max(hi - lo, 0.5) * rng.uniform(0.25, 1.), 3)}
  if kind in ('log', 'expon', 'sexpon'):
    lo = round(rng.choice((0.01, 0.3, 1.)), 3)
    v['vset'] = [lo, round(lo * rng.choice((2., 20., 400.)), 4), rng.random() < 0.5, rng.random() < 0.5]
  if kind in ('expon', 'sexpon'):
    v['pars'] = {'scale': round(rng.uniform(0.5, 2), 3) if kind == 'expon' else rng.choice((0.5, 1., 2.))} # (sympy must invert)
    v['vset'] = [v['vset'][0], v['vset'][0] + round(rng.uniform(1., 5.), 3)] + v['vset'][2:]
  if kind == 'int':
    v['lo'] = rng.randint(-4, 3)
    v['hi'] = v['lo'] + rng.choice((0, 1, 2, 4, 8)) + 1
  if kind == 'bern':
    v['p'] = round(rng.choice((0.1, 0.3, 0.8, 0.97)), 3)
  return v

def generate(seed, tier):
  rng = rng_of('C09', seed)
  n = rng.choice((1, 1, 2, 3))
  vs = [gen_var(rng) for _ in range(n)]
  level = rng.choice(('rv', 'rv', 'field', 'sp')) if n == 1 else rng.choice(('field', 'field', 'sp'))
  long_run = rng.random() < 0.1
  names = rng.sample(NAMES, n)
  ops = []
  for k in range(rng.choice((2, 5, 9))):
    form = rng.choice(('scalar', 'several', 'several', 'grid', 'joint', 'mixed', 'given'))
    ops.append([form, k, [rng.choice((1, 2, 3, 5, 8, 17)) for _ in vs], rng.randrange(4)])
  if long_run:
    variant = rng.randrange(3)
    ops = [['scalar', k, [0] * n, variant] for k in range(250)] + \
          [[rng.choice(('several', 'joint')), 1000 + k, [rng.choice((1, 2, 2, 3, 7))] * n, rng.randrange(2)] for k in range(160)]
  logable = all(v['kind'] in ('unif', 'int', 'log', 'fair', 'bern') for v in vs)
  log = [rng.random() < 0.3 and logable] * n
  if logable and rng.random() < 0.2: # different scales
    log = [rng.random() < 0.5 for _ in vs]
  return {'prop': 'C09', 'seed': seed, 'vars': vs, 'names': names, 'level': level, 'long': long_run,
          'log': log,
          'bug': 0. if long_run else rng.choice((0., 0.1, 0.3)), 'ops': ops}

def build(plan):
  vs = []
  for name, v, log in zip(plan['names'], plan['vars'], plan['log']):
    kind = v['kind']
    kwds = {'pscale': 'log'} if log else {}
    if kind == 'int':
      rv = pb.RV(name, range(v['lo'], v['hi'] + 1), **kwds)
    elif kind in ('fair', 'bern'):
      rv = pb.RV(name, [False, True], bool, **kwds)
      if kind == 'bern':
        rv.set_prob(math.log(v['p']) if log else v['p'], **kwds)
    else:
      rv = pb.RV(name, vset_of(v['vset']), float, **kwds)
      if kind == 'log':
        rv.set_ufun((np.log, np.exp))
      elif kind == 'norm':
        rv.set_prob(scipy.stats.norm, **v['pars'])
      elif kind == 'snorm':
        rv.set_prob(sympy.stats.Normal(rv[:], v['pars']['loc'], v['pars']['scale']))
      elif kind == 'sexpon':
        rv.set_prob(sympy.stats.Exponential(rv[:], 1. / v['pars']['scale']))
      elif kind == 'expon':
        rv.set_prob(scipy.stats.expon.pdf, **v['pars'])
        rv.set_pfun((scipy.stats.expon.cdf, scipy.stats.expon.ppf), **v['pars'])
    vs.append(rv)
  if plan['level'] == 'rv':
    return vs, vs[0]
  field = pb.RF(*vs)
  if plan['level'] == 'sp':
    return vs, pb.SP(field)
  return vs, field

def dist_of(v):
  return scipy.stats.norm(**v['pars']) if v['kind'] in ('norm', 'snorm') else scipy.stats.expon(**v['pars'])

def densities(v, x):
  """ Declared probabilities (densities) at values inside the domain """
  kind = v['kind']
  one = np.ones(np.shape(x))
  if kind == 'int':
    return one * ((x >= v['lo']) & (x <= v['hi'])) / (v['hi'] - v['lo'] + 1)
  if kind == 'fair':
    return one * 0.5
  if kind == 'bern':
    return np.where(x, v['p'], 1. - v['p'])
  lo, hi = v['vset'][:2]
  if kind in ('unif', 'log'):
    one = one * ((x >= lo) & (x <= hi))
  if kind == 'unif':
    return one / (hi - lo)
  if kind == 'log':
    return one / (math.log(hi) - math.log(lo))
  return dist_of(v).pdf(x)

def at_ends(v, x):
  if 'vset' not in v:
    return np.zeros(np.shape(x), dtype=bool)
  lo, hi = v['vset'][:2]
  return np.minimum(np.abs(x - lo), np.abs(x - hi)) <= 1e-9 * (1 + np.abs(x))

def unit(v, x):
  """ Where draws lie in their declared distribution, as uniforms """
  lo, hi = v['vset'][:2]
  x = np.asarray(x, dtype=float)
  if v['kind'] == 'unif':
    return (x - lo) / (hi - lo)
  if v['kind'] == 'log':
    return (np.log(x) - math.log(lo)) / (math.log(hi) - math.log(lo))
  d = dist_of(v)
  a, b = d.cdf(lo), d.cdf(hi)
  return (d.cdf(x) - a) / (b - a)

def check_support(v, arr):
  arr = np.asarray(arr).reshape(-1)
  for x in arr.tolist():
    if v['kind'] == 'int':
      require(isinstance(x, int) and v['lo'] <= x <= v['hi'], 'a draw is not in the set of the variable', x)
    elif v['kind'] in ('fair', 'bern'):
      require(isinstance(x, bool), 'a draw is not a truth value', repr(x))
    else:
      lo, hi = v['vset'][:2]
      tol = 1e-9 * (1 + abs(lo) + abs(hi))
      require(lo - tol <= x <= hi + tol, 'a draw lies outside the range of the variable', lambda: '{} {}'.format(x, v))

def values_len(v):
  return v['hi'] - v['lo'] + 1 if v['kind'] == 'int' else 2

def execute(plan, out):
  simrng.use('build')
  compiler.off() # (compiling takes seconds; C16 is about it)
  try:
    rvs, obj = must('building', build, plan)
  finally:
    compiler.on()
  vs, names, n = plan['vars'], plan['names'], len(plan['vars'])
  draws = [[] for _ in vs]      # scalar draws
  several = [[] for _ in vs]    # draws made several at a time
  rng = rng_of('C09x', plan['seed'])
  forms = []
  sampler = None
  if plan['level'] == 'sp' and n > 1: # (a single variable makes transitions instead)
    sampler = must('sampler', obj.sampler, {0})
  for form, k, sizes, variant in plan['ops']:
    sim = simrng.use((plan['seed'], k), plan['bug'])
    edges = sim.edges
    out.simtime += 1
    fixed = set()
    counts = [None] * n
    if form == 'scalar':
      if sampler is not None and variant % 2 == 0:
        dist = must('sampling', next, sampler)
      elif variant == 1 and n > 1:
        dist = must('sampling', obj, {name: {0} for name in names})
      elif plan['level'] == 'rv' and variant == 2:
        dist = must('sampling', obj, {names[0]: {0}})
      else:
        dist = must('sampling', obj, {0})
    elif form == 'several':
      counts = [-s for s in sizes]
      if n == 1:
        dist = must('sampling', obj, {counts[0]})
      elif variant == 1:
        counts = [counts[0]] * n
        dist = must('sampling', obj, {counts[0]})
      else:
        dist = must('sampling', obj, {name: {c} for name, c in zip(names, counts)})
    elif form == 'grid':
      counts = list(sizes)
      if n == 1:
        dist = must('sampling', obj, {counts[0]})
      else:
        dist = must('sampling', obj, {name: {c} for name, c in zip(names, counts)})
    elif form == 'joint':
      counts = [-sizes[0]] * n
      if n == 1:
        dist = must('sampling', obj, {counts[0]})
      else:
        dist = must('sampling', obj, {','.join(names): {counts[0]}})
    elif form == 'given': # scalars and arrays, some outside the domain, maybe jointly
      joint = n > 1 and variant == 0
      spec, given = {}, {}
      for i, (name, v) in enumerate(zip(names, vs)):
        size = sizes[0] if joint else rng.choice((None, None, sizes[i]))
        if n > 1 and not joint and rng.random() < 0.25:
          c = rng.choice((0, -sizes[i]))
          counts[i] = c or None
          spec[name] = {c}
          continue
        given[i] = some(rng, v) if size is None else np.array([some(rng, v) for _ in range(size)])
        counts[i] = None if size is None else size
        spec[name] = given[i]
      fixed = set(given)
      if joint:
        spec = {','.join(names): tuple(given[i] for i in range(n))}
      elif n == 1 and variant % 2:
        spec = given[0]
      images = {i: np.array(val, copy=True) for i, val in given.items()}
      dist = must('evaluating', obj, spec)
      for i, val in images.items():
        require(np.array_equal(np.asarray(dist[names[i]]).reshape(-1), val.reshape(-1)), 'a given value was changed',
                lambda: '{} {}'.format(val.tolist(), np.asarray(dist[names[i]]).tolist()))
        require(np.array_equal(given[i], val), 'an argument was changed', lambda: str(val.tolist()))
    else: # some fixed, some random
      spec = {}
      for i, (name, v) in enumerate(zip(names, vs)):
        if n > 1 and i == 0:
          val = inner(v)
          spec[name] = val
          fixed.add(i)
        else:
          c = rng.choice((0, -sizes[i]))
          counts[i] = c or None
          spec[name] = {c}
      dist = must('sampling', obj, spec)
    out.fault('extreme random draw', sim.edges - edges)
    cols = []
    for i, (name, v) in enumerate(zip(names, vs)):
      got = dist[name]
      want = 1 if counts[i] is None else abs(counts[i])
      require(np.size(got) == want, 'wrong number of draws', lambda: '{} {} {}'.format(form, np.size(got), want))
      if form == 'given' and i in fixed:
        cols.append(np.asarray(got))
        continue
      if i in fixed:
        require(float(got) == float(inner(v)), 'a fixed value was changed', got)
      check_support(v, got)
      flat = np.asarray(got).reshape(-1).tolist()
      if 'vset' not in v and counts[i] is not None and v['kind'] != 'bern':
        m = values_len(v)
        tally = [flat.count(x) for x in sorted(set(flat))]
        require(max(tally) <= -(-want // m) and (want < m or len(tally) == m) and
                (want < m or min(tally) >= want // m), 'draws are not spread over the set', lambda: str(flat))
      if form == 'grid' and v['kind'] != 'bern':
        if 'vset' not in v:
          lo = v.get('lo', 0)
          require([int(x) - lo for x in flat] == [j % values_len(v) for j in range(want)],
                  'ordered values are not in order', lambda: str(flat))
        else:
          require(all(a < b for a, b in zip(flat, flat[1:])), 'ordered values are not in order', lambda: str(flat))
          lo, hi, olo, ohi = v['vset']
          require(not (olo and flat[0] <= lo) and not (ohi and flat[-1] >= hi), 'an excluded end was returned', lambda: str(flat))
      if counts[i] is None and i not in fixed:
        draws[i].append(flat[0])
        require(np.ndim(got) == 0, 'a scalar request was answered by an array', str(got))
      elif counts[i] is not None and counts[i] < 0:
        several[i].append(flat)
      cols.append(np.asarray(got))
    out.record(form, [c.tolist() for c in cols])
    # reported probabilities
    shape = np.broadcast(*cols).shape if n > 1 else cols[0].shape
    prob = np.asarray(dist.prob, dtype=float)
    require(np.broadcast(prob, np.empty(shape)).shape == shape, 'probabilities do not match the draws', lambda: str((prob.shape, shape)))
    if np.iscomplexobj(dist.pscale):
      require(not np.any(np.isnan(prob)), 'a probability is not a number', lambda: str(prob.tolist()))
      prob = np.exp(prob)
      out.count('log probabilities')
    want, ends = np.ones(shape), np.zeros(shape, dtype=bool)
    for v, c in zip(vs, cols):
      want = want * densities(v, c)
      ends = ends | at_ends(v, c)
    wrong = (np.abs(np.broadcast_to(prob, shape) - want) > 1e-8 * (1 + want)) & ~ends
    require(not np.any(wrong), 'reported probability is not that of the draw',
            lambda: '{} at {}: {} vs {}'.format(form, [c.tolist() for c in cols], prob.tolist(), want.tolist())[:900])
    forms.append([form, [c for c in counts]])
  if plan['long']:
    for i, v in enumerate(vs):
      distribution(plan, v, draws[i], several[i])
      if 'vset' in v and len(several[i]) > 40:
        independence(plan, v, several[i], i)
    across(plan, vs, draws)
    out.count('distributions tested', n)
  for v in vs:
    out.count('variable ' + v['kind'])
  out.count('level ' + plan['level'])
  out.sched = [plan['level'], [v['kind'] for v in vs], forms[:12]]
  out.nontrivial = plan['long'] or len({f[0] for f in forms}) > 1
  out.sample = {'level': plan['level'], 'kinds': [v['kind'] for v in vs], 'forms': forms[:4]}

def some(rng, v):
  """ A value, possibly outside the domain where that has probability 0 """
  if v['kind'] == 'int':
    return rng.randint(v['lo'] - 2, v['hi'] + 2)
  if v['kind'] in ('fair', 'bern'):
    return rng.random() < 0.5
  lo, hi = v['vset'][:2]
  x = rng.random()
  if v['kind'] in ('unif', 'log') and x < 0.3:
    return lo - 0.4 * (abs(lo) if v['kind'] == 'log' else 1.) if x < 0.15 else hi + 0.7
  return lo + rng.uniform(0.01, 0.99) * (hi - lo)

def inner(v):
  """ A value well inside the domain """
  if v['kind'] == 'int':
    return v['lo']
  if v['kind'] in ('fair', 'bern'):
    return True
  return v['vset'][0] + 0.5 * (v['vset'][1] - v['vset'][0])

def distribution(plan, v, scalars, groups):
  for what, xs in (('scalar', scalars), ('first of several', [g[0] for g in groups]),
                   ('last of several', [g[-1] for g in groups])):
    if len(xs) < 60:
      continue
    if 'vset' in v:
      statcheck.uniform(unit(v, xs), 'draws do not follow the declared distribution', what)
    else:
      if v['kind'] == 'int':
        vals = list(range(v['lo'], v['hi'] + 1))
        probs = [1. / len(vals)] * len(vals)
      else:
        p = v.get('p', 0.5)
        vals, probs = [False, True], [1. - p, p]
      statcheck.counts([xs.count(x) for x in vals], probs, 'draws do not follow the declared distribution', what)
  if 'vset' in v:
    flat = unit(v, [x for g in groups for x in g])
    if len(flat) >= 60:
      statcheck.uniform(flat, 'draws do not follow the declared distribution', 'several')
  elif v['kind'] == 'bern':
    flat = [x for g in groups for x in g]
    if len(flat) >= 60:
      statcheck.counts([flat.count(False), flat.count(True)], [1. - v['p'], v['p']],
                       'draws do not follow the declared distribution', 'several')

def across(plan, vs, draws):
  """ Scalar draws of different continuous variables tell nothing of each other """
  us = [unit(v, d) for v, d in zip(vs, draws) if 'vset' in v and len(d) >= 60]
  for i in range(len(us)):
    for j in range(i):
      if len(us[i]) == len(us[j]):
        statcheck.uniform((us[i] + us[j]) % 1., 'draws of different variables are not independent', (i, j))
        statcheck.uniform((us[i] - us[j]) % 1., 'draws of different variables are not independent', (i, j))

def independence(plan, v, groups, i):
  """ Draws of a continuous variable requested together, and in turn, tell nothing of each other """
  pairs = {'same request': [(g[0], g[1]) for g in groups if len(g) > 1],
           'largest requests': [(g[0], g[-1]) for g in groups if len(g) == max(map(len, groups)) > 2],
           'next request': [(a[0], b[0]) for a, b in zip(groups, groups[1:])]}
  for what, xs in pairs.items():
    if len(xs) < 40:
      continue
    a, b = unit(v, [x for x, _ in xs]), unit(v, [y for _, y in xs])
    statcheck.uniform((a + b) % 1., 'draws are not independent', what)
    statcheck.uniform((a - b) % 1., 'draws are not independent', what)
    cells = [int(np.sum(((a > 0.5) == p) & ((b > 0.5) == q))) for p in (False, True) for q in (False, True)]
    statcheck.counts(cells, [0.25] * 4, 'draws are not independent', what)
  for what in ('same request',):
    xs = pairs[what]
    if len(xs) >= 40:
      cells = [0] * 9
      for x, y in zip(unit(v, [x for x, _ in xs]), unit(v, [y for _, y in xs])):
        cells[min(2, int(3 * x)) * 3 + min(2, int(3 * y))] += 1
      statcheck.counts(cells, [1. / 9] * 9, 'draws are not independent', what)

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
