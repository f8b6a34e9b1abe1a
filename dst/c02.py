""" C02: every step of a Metropolis(-Hastings) chain is what the declared target and
transition densities say. Simulated chains, history checked step by step. """
import math
import numpy as np
from dst import chains, simrng
from dst.core import rng_of, require, must, Violation

BUDGET = {'quick': {'runs': 2400, 'wall': 300}, 'thorough': {'runs': 60000, 'wall': 3000}}
RULE = ('a run draws one process (target, scale, transition pair or symmetric transition, '
        'step rule, domain) and one chain of seeded steps with extreme draws mixed in, fed to one '
        'or two samplers advanced in a seeded order; it is non-trivial when the chain both accepted and '
        'rejected at least one proposal')
SCHEDULE_MEASURE = 'distinct (configuration class, accept/reject sequence) pairs'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated, seeded per step)', 'target/transition/step functions supplied by the workload']
ASSUMPTIONS = ['the target and transition functions given to the process are pure']
SHRINK = ('ops',)

def generate(seed, tier):
  rng = rng_of('C02', seed)
  cfg = chains.gen_cfg(rng, ('mh',) * 7 + ('prop',))
  if cfg['kind'] == 'prop':
    cfg['propose'] = rng.random() < 0.5
  elif cfg['scores'] == 'custom':
    cfg['scores'] = rng.choice(('hastings', 'metropolis')) if cfg['tran'] == 'sym' else 'hastings'
  nsam = rng.choice((1, 1, 2))
  long_run = rng.random() < 0.03
  steps = 400 if long_run else rng.choice((8, 15, 30))
  bug = 0. if long_run else rng.choice((0., 0., 0.05, 0.15))
  ops = [[rng.randrange(nsam), i] for i in range(steps)]
  return {'prop': 'C02', 'seed': seed, 'cfg': cfg, 'nsam': nsam, 'bug': bug,
          'long': long_run, 'ops': ops}

def close(a, b, tol=1e-7):
  if a == b:
    return True
  if not (math.isfinite(a) and math.isfinite(b)):
    return False
  return abs(a - b) <= tol * max(1e-290, abs(a), abs(b))

def logof(prob, pscale):
  """ log of a probability given as (value, scale) """
  if complex(pscale).imag or complex(pscale) == 0:
    return float(prob)
  val = float(prob) / float(np.real(pscale))
  return -math.inf if val <= 0. else math.log(val)

def check_log(what, dist, expect):
  got = logof(dist.prob, dist.pscale)
  if got == expect or (not math.isfinite(expect) and got < -1e300):
    return
  # linear values lose all precision when subnormal
  if not (complex(dist.pscale) == 0) and expect < -700.:
    return
  require(math.isfinite(got) and abs(got - expect) <= 1e-9 * max(1., abs(expect)) + 1e-9,
          what, 'reported {} expected {}'.format(got, expect))

def check_step(chain, cfg, sample, cur, init, names):
  """ One yielded sample against the chain's state before it -> new state """
  require(sample.p is not None and sample.q is not None, 'sample lacks its distributions')
  pred, succ = (chains.values_of(sample.q, names), chains.values_of(sample.q, names, "'"))
  vals = chains.values_of(sample.p, names)
  require(vals == succ, 'p is not at the proposed values', lambda: (vals, succ))
  if cur is None:
    require(sample.o is None, 'first step has a predecessor')
    require(pred == init, 'first step does not start at the initial state', lambda: (pred, init))
  else:
    cvals = chains.values_of(cur, names)
    require(sample.o is not None, 'predecessor missing')
    require(pred == cvals, 'step does not start at the current state', lambda: (pred, cvals))
    require(chains.flat(sample.o) == chains.flat(cur), 'o is not the last accepted distribution')
  lp1 = chain.logp(vals)
  check_log('p.prob is not the target density', sample.p, lp1)
  moved = sorted(names), sorted(n + "'" for n in names)
  require((sorted(sample.q.cond), sorted(sample.q.marg)) == moved, 'q is not a transition of the variables',
          lambda: '{} given {}'.format(list(sample.q.marg), list(sample.q.cond)))
  require(sample.r is None or (sorted(sample.r.marg), sorted(sample.r.cond)) == moved, 'r is not the reverse of a transition',
          lambda: '{} given {}'.format(list(sample.r.marg), list(sample.r.cond)))
  lq = chain.qlog(pred, succ)
  check_log('q.prob is not the forward transition density', sample.q, lq)
  lr = None
  if cfg['tran'] == 'pair':
    require(sample.r is not None, 'reverse density missing')
    lr = chain.qlog(succ, pred)
    check_log('r.prob is not the reverse transition density', sample.r, lr)
    require(chains.values_of(sample.r, names) == pred and
            chains.values_of(sample.r, names, "'") == succ, 'r is at other values')
  s, t, u = sample.s, sample.t, sample.u
  require(t is not None and 0. <= t <= 1., 'threshold outside [0, 1]', t)
  if cur is None:
    require(s is None, 'first step has a score', s)
    require(bool(u), 'first step not accepted')
  else:
    lp0 = chain.logp(pred)
    if lp0 == -math.inf and lp1 == -math.inf:
      pass # 0/0: undefined
    else:
      ratio = math.inf if lp0 == -math.inf else lp1 - lp0
      if lr is not None and cfg['scores'] == 'hastings' and lp0 > -math.inf:
        ratio += lr - lq
      if cfg['pscale'] == 'lin' and min(lp0, lp1) < -690.:
        pass
      elif lr is not None and not cfg['qlog'] and min(lq, lr) < -690.:
        pass # proposal density underflows in its own linear scale
      elif cfg['scores'] == 'hastings' and not cfg['qlog'] and lq < -690.:
        pass
      else:
        expect = 1. if ratio >= 0. else math.exp(ratio)
        require(s is not None and close(float(s), expect, 1e-6) or
                (expect < 1e-300 and s is not None and float(s) < 1e-290),
                'score is not min(1, corrected ratio)',
                lambda: 's={} expected={}'.format(s, expect))
    require(bool(u) == (s is None or s >= t), 'acceptance does not follow score and threshold',
            lambda: 's={} t={} u={}'.format(s, t, u))
  if u:
    require(chains.flat(sample.v) == chains.flat(sample.p), 'accepted step does not yield the proposal')
    return sample.p
  require(u is None, 'rejected step is discarded rather than repeated', u)
  require(chains.flat(sample.v) == chains.flat(sample.o), 'rejected step does not repeat the current state')
  return cur

def check_rejection(chain, cfg, sample, init, names):
  """ One sample of a rejection scheme: proposed afresh, scored by the target """
  require(sample.p is not None and sample.q is not None, 'sample lacks its distributions')
  require(sample.o is None and sample.r is None, 'rejection sampling has no predecessor')
  succ, vals = chains.values_of(sample.q, names, "'"), chains.values_of(sample.p, names)
  require(vals == succ, 'p is not at the proposed values', lambda: (vals, succ))
  require(sorted(sample.q.marg) == sorted(n + "'" for n in names) and not sample.q.cond,
          'q is not a proposal of the variables', sample.q.name)
  for n, var in zip(names, chain.vars):
    lo, hi = var.vlims
    require(lo <= vals[n] <= hi, 'proposal outside the domain', lambda: (n, vals[n], lo, hi))
    require(init is None or vals[n] == init[n], 'proposal differs from the given values', lambda: (vals, init))
  target, prop = float(chain.prob(**vals)), float(chain.prop(**vals))
  require(close(float(sample.p.prob), target), 'p.prob is not the target density', lambda: (sample.p.prob, target))
  require(close(float(sample.q.prob), prop), 'q.prob is not the declared proposition', lambda: (sample.q.prob, prop))
  require(sample.s == target, 'score is not the declared one', lambda: (sample.s, target))
  require(sample.t is not None and 0. <= sample.t <= 1., 'threshold outside [0, 1]', sample.t)
  require(bool(sample.u) == (sample.s >= sample.t), 'acceptance does not follow score and threshold',
          lambda: 's={} t={} u={}'.format(sample.s, sample.t, sample.u))
  if sample.u:
    require(chains.flat(sample.v) == chains.flat(sample.p), 'accepted step does not yield the proposal')

def rejection(plan, out, chain, names):
  """ Rejection sampling from a declared proposition """
  cfg = plan['cfg']
  samplers = [must('sampler', chain.sampler) for _ in range(plan['nsam'])]
  pattern, last = [''] * plan['nsam'], [None] * plan['nsam']
  for which, stream in plan['ops']:
    sim = simrng.use((plan['seed'], which, stream), plan['bug'])
    sample = must('step', next, samplers[which])
    out.fault('extreme random draw', sim.edges)
    out.record(chains.record(sample))
    out.simtime += 1
    check_rejection(chain, cfg, sample, None, names)
    vals = chains.values_of(sample.p, names)
    require(sim.edges or vals != last[which], 'proposal is not drawn afresh', vals)
    last[which] = vals
    pattern[which] += 'a' if sample.u else 'r'
    if cfg['propose'] and stream % 3 == 0: # a proposal asked for outside the chain
      for suffix, kwds in (("'", {}), ('', {'suffix': ''})):
        dist = must('propose', chain.sp.propose, dict(vals), **kwds)
        require(chains.values_of(dist, names, suffix) == vals, 'proposal differs from the given values',
                lambda: (dict(dist), vals))
        require(close(float(dist.prob), float(chain.prop(**vals))), 'proposal has another proposition',
                lambda: (dist.prob, chain.prop(**vals)))
  if cfg['propose']: # fields propose too, several values at a time
    fld = must('building a field', chain._and, chain.vars)
    must('set_prop', fld.set_prop, chain.prop)
    simrng.use((plan['seed'], 'field'), plan['bug'])
    for size in (0, -3, 4):
      dist = must('propose', fld.propose, {n: {size} for n in names})
      vals = {n: np.asarray(dist[n + "'"]) for n in names}
      for n, var in zip(names, chain.vars):
        require(vals[n].size == max(1, abs(size)) and np.all((vals[n] >= var.vlims[0]) & (vals[n] <= var.vlims[1])),
                'proposals are not as requested', lambda: (n, size, vals[n]))
      expect = chain.prop(**{n: v.reshape([-1 if dist.dims[n + "'"] == i else 1 for i in range(len(names))])
                             if v.ndim else v for n, v in vals.items()})
      require(np.shape(dist.prob) == np.shape(expect) and np.allclose(dist.prob, expect, rtol=1e-9, atol=0.),
              'proposals have another proposition', lambda: (dist.prob, expect))
  out.count('class rejection')
  out.sched = ['rejection', pattern]
  out.nontrivial = any('a' in p and 'r' in p for p in pattern)
  out.sample = {'cfg': cfg, 'accept_reject': pattern}

def execute(plan, out):
  cfg = plan['cfg']
  names = cfg['names']
  simrng.use('build', 0.)
  chain = must('building the process', chains.Chain, cfg)
  if cfg['kind'] == 'prop':
    return rejection(plan, out, chain, names)
  inits = []
  samplers = []
  for i in range(plan['nsam']):
    init = {n: v + 0.25 * i for n, v in chain.init.items()}
    inits.append(init)
    samplers.append(must('sampler', chain.sampler, None, init))
  cur = [None] * plan['nsam']
  pattern = [''] * plan['nsam']
  sim = None
  ts = []
  for which, stream in plan['ops']:
    sim = simrng.use((plan['seed'], which, stream), plan['bug'])
    edges = sim.edges
    sample = must('step', next, samplers[which])
    out.fault('extreme random draw', sim.edges - edges)
    out.record(chains.record(sample))
    out.simtime += 1
    cur[which] = check_step(chain, cfg, sample, cur[which], inits[which], names)
    pattern[which] += 'a' if sample.u else 'r'
    ts.append(float(sample.t))
  if plan['long'] and len(ts) == 400:
    bins = np.bincount(np.minimum(7, (np.array(ts) * 8).astype(int)), minlength=8)
    require(np.all(bins > 0), 'thresholds do not cover [0, 1)', bins.tolist())
  out.count('accepted', sum(p.count('a') for p in pattern))
  out.count('rejected', sum(p.count('r') for p in pattern))
  cls = '-'.join(str(cfg[k]) for k in ('pscale', 'tran', 'via', 'scores', 'offset')) + '-' + cfg['delta'][0]
  out.count('class ' + cfg['tran'] + ' ' + cfg['pscale'] + ' ' + cfg['via'])
  out.sched = [cls, pattern]
  out.nontrivial = any('a' in p[1:] and 'r' in p for p in pattern)
  out.sample = {'cfg': cfg, 'accept_reject': pattern}

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
  cfg = plan['cfg']
  for key, val in (('offset', 0.), ('cut', None), ('rho', 0.), ('shift', 0.)):
    if cfg.get(key) != val:
      yield dict(plan, cfg=dict(cfg, **{key: val}))
