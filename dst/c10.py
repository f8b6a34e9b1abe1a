""" C10: Markov transitions are sampled from the declared conditional distribution. """
import numpy as np
import scipy.stats
from dst import simrng, statcheck
from dst.core import rng_of, require, must
from dst.chains import NAMES, vset_of
import probayes as pb

BUDGET = {'quick': {'runs': 6000, 'wall': 240}, 'thorough': {'runs': 150000, 'wall': 3000}}
RULE = ('a run declares a transition (matrix over an arbitrary discrete set, forward/reverse pair of matrices, density '
        'with its cumulative and inverse functions over an open, closed or half-open range, flat transition, a step '
        'rule with a density, or steps of a field with a forward/reverse pair, linear or log) and makes a seeded history of transitions, one or several at a time, through the variable or through 1-3 samplers '
        'in a seeded interleaving, with extreme draws mixed in; each transition must have positive declared '
        'probability, start where the last one ended and report that probability; long runs test the conditional '
        'distribution from every predecessor; non-trivial when the chain visited at least two states')
SCHEDULE_MEASURE = 'distinct (kind, level, order of samplers, sequence of states or of orthants)'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated, seeded per step)', 'transition functions supplied by the workload']
ASSUMPTIONS = ['transition matrices have columns that sum to one up to rounding', 'transition functions are pure',
               'cumulative functions are not saturated within the range']

def gen_matrix(rng, m):
  mat = np.zeros((m, m))
  for j in range(m):
    w = [rng.choice((0., 0., 1., 1., 2., 3., 7., 1e-3)) for _ in range(m)]
    if not sum(w):
      w[rng.randrange(m)] = 1.
    mat[:, j] = np.array(w) / sum(w)
  return mat.tolist()

def generate(seed, tier):
  rng = rng_of('C10', seed)
  kind = rng.choice(('matrix', 'matrix', 'pair', 'bool', 'cdf', 'cdf', 'flat', 'walk', 'field'))
  level = rng.choice(('rv', 'sp', 'sp'))
  cfg = {'kind': kind}
  if kind == 'field':
    n = rng.choice((1, 2, 2, 3))
    cfg['names'] = rng.sample(NAMES, n)
    cfg['vsets'] = [[lo, round(lo + rng.choice((1., 2., 4.)), 3)] for lo in [round(rng.uniform(-2, 1), 3) for _ in range(n)]]
    cfg['tran'] = rng.choice(('none', 'one', 'pair', 'pair'))
    cfg['log'] = rng.random() < 0.5
    cfg['delta'] = round(rng.choice((0.1, 0.6)), 2)
    ops = [['step', 0, k, rng.randrange(6)] for k in range(rng.choice((4, 10, 20)))]
    return {'prop': 'C10', 'seed': seed, 'cfg': cfg, 'name': None, 'level': 'field', 'nsam': 1, 'long': False,
            'bug': rng.choice((0., 0.1, 0.3)), 'ops': ops}
  if kind in ('matrix', 'pair'):
    m = rng.choice((2, 3, 3, 5, 10))
    cfg['set'] = sorted(rng.sample(range(-20, 20), m))
    cfg['mats'] = [gen_matrix(rng, m) for _ in range(2 if kind == 'pair' else 1)]
    cfg['init'] = rng.choice(cfg['set'])
  elif kind == 'bool':
    cfg['set'] = [False, True]
    cfg['mats'] = [gen_matrix(rng, 2)]
    cfg['init'] = rng.random() < 0.5
  else:
    lo = round(rng.uniform(-3, 1), 3)
    hi = round(lo + rng.choice((0.5, 2., 5.)), 3)
    cfg.update(vset=[lo, hi, rng.random() < 0.5, rng.random() < 0.5], amp=round((hi - lo) * rng.uniform(0.1, 0.4), 3),
               width=round((hi - lo) * rng.uniform(0.3, 1.), 3), init=round(lo + (hi - lo) * rng.uniform(0.2, 0.8), 4),
               delta=round((hi - lo) * rng.choice((0.1, 0.6)), 4))
    cfg['log'] = kind != 'flat' and rng.random() < 0.3
  if kind in ('pair', 'walk'):
    level = 'rv'
  nsam = rng.choice((1, 2, 3)) if level == 'sp' else 1
  long_run = rng.random() < 0.1
  ops = []
  for k in range(500 if long_run else rng.choice((4, 10, 25))):
    what = 'step'
    if level == 'rv':
      what = rng.choice(('step', 'step', 'step', 'many', 'grid') if kind != 'walk' else ('step', 'step', 'grid'))
    ops.append([what, rng.randrange(nsam), k, rng.randrange(4)])
  return {'prop': 'C10', 'seed': seed, 'cfg': cfg, 'name': rng.choice(NAMES), 'level': level, 'nsam': nsam,
          'long': long_run, 'bug': 0. if long_run else rng.choice((0., 0.1, 0.3)), 'ops': ops}

class Model:
  def __init__(self, plan):
    cfg, name = plan['cfg'], plan['name']
    self.cfg, self.kind = cfg, cfg['kind']
    self.mats = [np.array(m) for m in cfg.get('mats', [])]
    if self.mats:
      vset = cfg['set']
      rv = pb.RV(name, list(vset), bool if self.kind == 'bool' else int)
      rv.set_tran(self.mats[0] if len(self.mats) == 1 else tuple(self.mats))
    else:
      rv = pb.RV(name, vset_of(cfg['vset']), float, **({'pscale': 'log'} if cfg.get('log') else {}))
      lo, hi = cfg['vset'][:2]
      mid = 0.5 * (lo + hi)
      self.loc = lambda pred: mid + cfg['amp'] * np.sin(3. * pred)
      self.scale = lambda pred: cfg['width'] * (1. + 0.5 * np.cos(pred))
      self.pdf = lambda succ, pred: scipy.stats.norm.pdf(succ, loc=self.loc(pred), scale=self.scale(pred))
      self.cdf = lambda succ, pred: scipy.stats.norm.cdf(succ, loc=self.loc(pred), scale=self.scale(pred))
      self.ppf = lambda succ, pred: scipy.stats.norm.ppf(succ, loc=self.loc(pred), scale=self.scale(pred))
      order = {name: 'pred', name + "'": 'succ'}
      def tran(succ, pred):
        return np.log(self.pdf(succ, pred)) if cfg.get('log') else self.pdf(succ, pred)
      def tcdf(succ, pred):
        return self.cdf(succ, pred)
      def ticdf(succ, pred):
        return self.ppf(succ, pred)
      if self.kind == 'flat':
        rv.set_tran(1. / (hi - lo))
      else:
        rv.set_tran(tran, order=order)
        if self.kind == 'cdf':
          rv.set_tfun((tcdf, ticdf), order=order)
        else:
          rv.set_delta([cfg['delta']], bound=True)
    self.rv = rv

  def idx(self, x):
    return self.cfg['set'].index(x)

  def cond(self, pred, succ, reverse=False):
    """ Declared probability of the transition """
    if self.mats:
      mat = self.mats[-1 if reverse else 0]
      return mat[self.idx(succ), self.idx(pred)]
    if self.kind == 'flat':
      return 1. / (self.cfg['vset'][1] - self.cfg['vset'][0])
    res = float(self.pdf(succ, pred))
    return float(np.log(res)) if self.cfg.get('log') else res

def plain(model, x):
  x = np.asarray(x).reshape(-1)
  require(x.size == 1, 'a transition of one value gave several', str(x))
  x = x[0]
  return bool(x) if model.kind == 'bool' else (int(x) if model.mats else float(x))

def some(plan, model, k, n):
  """ A few values of the variable """
  rng = rng_of('C10 values', plan['seed'], k, n)
  if model.mats:
    return rng.sample(plan['cfg']['set'], min(n, len(plan['cfg']['set'])))
  lo, hi = plan['cfg']['vset'][:2]
  return [round(lo + (hi - lo) * rng.uniform(0.1, 0.9), 5) for _ in range(n)]

def same(a, b):
  return abs(a - b) <= 1e-9 * (1 + abs(b))

def grid(plan, model, last, k, variant, out):
  """ Evaluates the probabilities of several transitions at once """
  name, prime = plan['name'], plan['name'] + "'"
  reverse = len(model.mats) == 2 and variant >= 2
  succs = some(plan, model, k, 3)
  if model.kind == 'flat' and any(abs(last - e) < 1e-9 for e in plan['cfg']['vset'][:2]): # ends may be excluded
    last = some(plan, model, k, 1)[0]
  preds = some(plan, model, k, 4) if variant % 2 else [last]
  pred = np.array(preds) if variant % 2 else last
  if variant == 3 and len(succs) > 1:
    succ, succs = succs[0], succs[:1]
  else:
    succ = np.array(succs)
  q = must('evaluating transitions', model.rv.step, pred, succ, reverse=reverse)
  got = np.asarray(q.prob, dtype=float)
  want = np.array([[model.cond(p, s, reverse) for p in preds] for s in succs])
  require(got.size == want.size, 'not one probability for each transition evaluated', lambda: '{} vs {}'.format(got.shape, want.shape))
  out.record('grid', got.reshape(-1).tolist())
  require(np.ravel(q[name]).tolist() == preds and np.ravel(q[prime]).tolist() == succs, 'evaluated transitions report other values',
          lambda: '{} {}'.format(q[name], q[prime]))
  require(all(same(a, b) for a, b in zip(got.reshape(-1), want.reshape(-1))), 'the reported transition probability is not the declared one',
          lambda: '{} -> {} reverse={}: {} vs {}'.format(preds, succs, reverse, got.tolist(), want.tolist()))

def whole(plan, model, k, variant, out):
  """ Transitions from every or a random predecessor """
  name, prime, cfg = plan['name'], plan['name'] + "'", plan['cfg']
  reverse = len(model.mats) == 2 and bool(k & 1)
  succ = some(plan, model, k, 1)[0]
  args = [(), (None, succ), ({0}, succ), ({0},)][variant]
  q = must('evaluating transitions', model.rv.step, *args, reverse=reverse)
  preds, succs = np.ravel(q[name]).tolist(), np.ravel(q[prime]).tolist()
  got = np.asarray(q.prob, dtype=float)
  out.record('whole', variant, preds, succs, got.reshape(-1).tolist())
  if variant < 2:
    require(preds == cfg['set'], 'not every predecessor was evaluated', lambda: '{} of {}'.format(preds, cfg['set']))
  else:
    require(len(preds) == 1 and preds[0] in cfg['set'], 'a random predecessor is not in the set of the variable', lambda: str(preds))
  if variant == 0:
    require(succs == cfg['set'], 'not every successor was evaluated', lambda: '{} of {}'.format(succs, cfg['set']))
  elif variant < 3:
    require(succs == [succ], 'evaluated transitions report other values', lambda: '{} vs {}'.format(succs, succ))
  want = np.array([[model.cond(p, s, reverse) for p in preds] for s in succs])
  require(got.size == want.size and all(same(a, b) for a, b in zip(got.reshape(-1), want.reshape(-1))),
          'the reported transition probability is not the declared one',
          lambda: '{} -> {} reverse={}: {} vs {}'.format(preds, succs, reverse, got.tolist(), want.tolist()))
  require(variant != 3 or want.min() > 0., 'a transition of zero probability was made', lambda: '{} -> {}'.format(preds, succs))

def many(plan, model, last, k, variant, out, moves, us):
  """ Several transitions from one predecessor """
  name, prime, cfg = plan['name'], plan['name'] + "'", plan['cfg']
  reverse = len(model.mats) == 2 and variant >= 2
  n = 2 + k % 3
  q = must('several transitions', model.rv.step, last, {-n}, reverse=reverse)
  succs = np.ravel(q[prime])
  probs = np.asarray(q.prob, dtype=float).reshape(-1)
  require(succs.size == n and probs.size == n, 'not as many transitions as requested', lambda: '{} vs {}'.format(succs.size, n))
  require(plain(model, q[name]) == last, 'a transition did not start where the last one ended', lambda: '{} vs {}'.format(q[name], last))
  for s, p in zip(succs, probs):
    s = plain(model, s)
    out.record(s, float(p))
    if model.mats:
      require(s in cfg['set'], 'a transition left the set of the variable', s)
      want = model.cond(last, s, reverse)
      require(want > 0., 'a transition of zero probability was made', lambda: '{} -> {}'.format(last, s))
      moves.setdefault((reverse, last), []).append(s)
    else:
      lo, hi = cfg['vset'][:2]
      tol = 1e-9 * (1 + abs(lo) + abs(hi))
      require(lo - tol <= s <= hi + tol, 'a transition left the range of the variable', lambda: '{} {}'.format(s, cfg['vset']))
      want = model.cond(last, s)
      if model.kind == 'flat':
        us.append((s - lo) / (hi - lo))
        if any(abs(x - e) < 1e-9 for x in (last, s) for e in (lo, hi)): # ends may be excluded
          want = float(p)
      else:
        a, b = model.cdf(np.array([lo, hi]), last)
        us.append(float((model.cdf(s, last) - a) / (b - a)))
    require(same(p, want), 'the reported transition probability is not the declared one',
            lambda: '{} -> {}: {} vs {}'.format(last, s, p, want))
  return s

def field(plan, out):
  """ Steps of several variables together """
  cfg = plan['cfg']
  names, vsets, log = cfg['names'], cfg['vsets'], cfg['log']
  primes = [n + "'" for n in names]
  rng = rng_of('C10 field', plan['seed'])
  def logp(pred, succ, sign=1.):
    return sum(-(s - 0.5 * sign * p - 0.2 * sum(pred)) ** 2 - 0.1 * i * abs(s) for i, (p, s) in enumerate(zip(pred, succ)))
  def forward(**kwds):
    res = logp([kwds[n] for n in names], [kwds[n] for n in primes])
    return res if log else np.exp(res)
  def backward(**kwds):
    res = logp([kwds[n] for n in names], [kwds[n] for n in primes], -1.)
    return res if log else np.exp(res)
  def declare():
    rf = pb.RF(*[pb.RV(n, list(v), float, **({'pscale': 'log'} if log else {})) for n, v in zip(names, vsets)])
    rf.set_delta([cfg['delta']], bound=True)
    if cfg['tran'] != 'none':
      rf.set_tran(forward if cfg['tran'] == 'one' else (forward, backward))
    return rf
  rf = must('declaring the transition', declare)
  state = [round(0.5 * sum(v), 4) for v in vsets]
  trail = []
  for what, _, k, variant in plan['ops']:
    sim = simrng.use((plan['seed'], 0, k), plan['bug'])
    edges = sim.edges
    out.simtime += 1
    reverse = rng.random() < 0.4
    keys = list(names)
    rng.shuffle(keys)
    pred, succ = {n: state[names.index(n)] for n in keys}, None
    if variant >= 3:
      rng.shuffle(keys)
      succ = {n: round(rng.uniform(*vsets[names.index(n)]), 4) for n in keys}
    anywhere = variant == 0 and k % 5 == 0
    if anywhere: # from a random place
      q = must('transition', rf.step, {0}, reverse=reverse)
    elif succ is None:
      q = must('transition', rf.step, pred, reverse=reverse)
    elif variant == 3:
      q = must('evaluating a transition', rf.step, (pred, succ), reverse=reverse)
    else:
      q = must('evaluating a transition', rf.step, pred, succ, reverse=reverse)
    out.fault('extreme random draw', sim.edges - edges)
    require(list(q.marg) == primes and list(q.cond) == names, 'a transition is not one of the variables of the field',
            lambda: '{} given {}'.format(list(q.marg), list(q.cond)))
    start, end = [float(q[n]) for n in names], [float(q[n]) for n in primes]
    if anywhere:
      require(all(v[0] <= b <= v[1] for v, b in zip(vsets, start)), 'a transition left the range of the variable', lambda: str(start))
      state = start
    require(start == state, 'a transition did not start where the last one ended', lambda: '{} vs {}'.format(start, state))
    if succ is None:
      require(all(v[0] <= e <= v[1] for v, e in zip(vsets, end)), 'a transition left the range of the variable', lambda: str(end))
      require(all(abs(e - b) <= cfg['delta'] * (1 + 1e-9) for b, e in zip(start, end)), 'a step is larger than declared',
              lambda: '{} -> {}'.format(start, end))
    else:
      require(end == [succ[n] for n in names], 'evaluated transitions report other values', lambda: '{} vs {}'.format(end, succ))
    if cfg['tran'] == 'none':
      want = -sum(np.log(v[1] - v[0]) for v in vsets)
    else:
      want = logp(start, end, -1. if reverse and cfg['tran'] == 'pair' else 1.)
    got = float(np.asarray(q.prob).reshape(-1)[0])
    want = want if log else np.exp(want)
    require(bool(np.iscomplexobj(q.pscale)) == log and abs(got - want) <= 1e-9 * (1 + abs(want)),
            'the reported transition probability is not the declared one',
            lambda: '{} -> {} reverse={}: {} vs {}'.format(start, end, reverse, got, want))
    out.record(start, end, got)
    state = end
    trail.append([int(4 * (e - v[0]) / (v[1] - v[0] + 1e-9)) for v, e in zip(vsets, end)])
  out.count('kind field')
  out.sched = ['field', cfg['tran'], len(names), trail]
  out.nontrivial = len({str(t) for t in trail}) > 1
  out.sample = {'kind': 'field', 'tran': cfg['tran'], 'states': trail[:6]}

def execute(plan, out):
  if plan['level'] == 'field':
    return field(plan, out)
  simrng.use('build')
  model = must('declaring the transition', Model, plan)
  name, cfg = plan['name'], plan['cfg']
  prime = name + "'"
  sp, samplers = None, []
  if plan['level'] == 'sp':
    sp = must('process', pb.SP, model.rv)
    samplers = [must('sampler', sp.sampler, {name: cfg['init']}) for _ in range(plan['nsam'])]
  last = [cfg['init']] * plan['nsam']
  trail, order = [], []
  moves = {}
  us = []
  for what, i, k, variant in plan['ops']:
    sim = simrng.use((plan['seed'], i, k), plan['bug'])
    edges = sim.edges
    out.simtime += 1
    reverse = False
    if what == 'grid' and model.mats and k % 3 == 0:
      whole(plan, model, k, variant, out)
      continue
    if what == 'grid':
      grid(plan, model, last[i], k, variant, out)
      continue
    if what == 'many':
      last[i] = many(plan, model, last[i], k, variant, out, moves, us)
      trail.append(last[i] if model.mats else int(4 * (last[i] - cfg['vset'][0]) / (cfg['vset'][1] - cfg['vset'][0] + 1e-9)))
      order.append(i)
      continue
    if plan['level'] == 'rv':
      reverse = len(model.mats) == 2 and variant >= 2
      if variant % 2 or model.kind == 'walk':
        q = must('transition', model.rv.step, last[i], reverse=reverse)
      else:
        q = must('transition', model.rv.step, last[i], {0}, reverse=reverse)
    else:
      sample = must('transition', next, samplers[i])
      q = sample.q
      # the process reports the same place twice
      require(plain(model, sample.p[name]) == plain(model, q[prime]), 'the new state is not the successor of the transition',
              lambda: '{} {}'.format(sample.p[name], q[prime]))
    out.fault('extreme random draw', sim.edges - edges)
    require(list(q.marg) == [prime] and list(q.cond) == [name], 'a transition is not one of the variable',
            lambda: '{} given {}'.format(list(q.marg), list(q.cond)))
    pred, succ = plain(model, q[name]), plain(model, q[prime])
    cond = float(np.asarray(q.prob).reshape(-1)[0])
    out.record(i, pred, succ, cond)
    require(pred == last[i], 'a transition did not start where the last one ended', lambda: '{} vs {}'.format(pred, last[i]))
    if model.mats:
      require(succ in cfg['set'], 'a transition left the set of the variable', succ)
      want = model.cond(pred, succ, reverse)
      require(want > 0., 'a transition of zero probability was made', lambda: '{} -> {}'.format(pred, succ))
      moves.setdefault((reverse, pred), []).append(succ)
    else:
      lo, hi, olo, ohi = cfg['vset']
      tol = 0. if model.kind == 'walk' else 1e-9 * (1 + abs(lo) + abs(hi))
      require(lo - tol <= succ <= hi + tol, 'a transition left the range of the variable', lambda: '{} {}'.format(succ, cfg['vset']))
      want = model.cond(pred, succ)
      if model.kind == 'flat' and any(abs(x - e) < 1e-9 for x in (pred, succ) for e in (lo, hi)): # ends may be excluded
        want = cond
      if model.kind == 'walk':
        require(abs(succ - pred) <= cfg['delta'] * (1 + 1e-9), 'a step is larger than declared', lambda: '{} -> {}'.format(pred, succ))
      elif model.kind == 'flat':
        us.append((succ - lo) / (hi - lo))
      else:
        a, b = model.cdf(np.array([lo, hi]), pred)
        us.append(float((model.cdf(succ, pred) - a) / (b - a)))
    require(abs(cond - want) <= 1e-9 * (1 + abs(want)), 'the reported transition probability is not the declared one',
            lambda: '{} -> {}: {} vs {}'.format(pred, succ, cond, want))
    # evaluating this very transition again must agree
    if k % 7 == 3 and plan['level'] == 'rv' and model.kind != 'flat':
      again = must('evaluating a transition', model.rv.step, pred, succ, reverse=reverse)
      require(abs(float(np.asarray(again.prob).reshape(-1)[0]) - want) <= 1e-9 * (1 + abs(want)),
              'evaluating a transition disagrees with sampling it', lambda: '{} -> {}: {} vs {}'.format(pred, succ, again.prob, want))
    last[i] = succ
    trail.append(succ if model.mats else int(4 * (succ - lo) / (hi - lo + 1e-9)))
    order.append(i)
    if plan['long'] and model.mats and k % 5 == 4 and plan['level'] == 'rv': # visit every predecessor
      last[i] = cfg['set'][(k // 5) % len(cfg['set'])]
  if plan['long']:
    if model.mats:
      for (reverse, pred), succs in moves.items():
        if len(succs) < 20:
          continue
        probs = model.mats[-1 if reverse else 0][:, model.idx(pred)]
        statcheck.counts([succs.count(x) for x in cfg['set']], probs, 'transitions do not follow the declared matrix',
                         'from {} reverse={}'.format(pred, reverse))
        out.count('conditional distributions tested')
    elif us:
      statcheck.uniform(us, 'transitions do not follow the declared density')
      out.count('conditional distributions tested')
  out.count('kind ' + model.kind)
  out.sched = [model.kind, plan['level'], order[:40], trail[:40]]
  out.nontrivial = len(set(trail)) > 1
  out.sample = {'kind': model.kind, 'level': plan['level'], 'states': trail[:12]}

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
