""" C06: Gibbs sweeps visit every variable in turn, for each sampler on its own. """
import math
import numpy as np
import scipy.stats
from dst import chains, simrng, statcheck
from dst.core import rng_of, require, must, Violation, Injected

BUDGET = {'quick': {'runs': 1200, 'wall': 300}, 'thorough': {'runs': 30000, 'wall': 3000}}
RULE = ('a run advances 1-3 Gibbs samplers of one process (user conditionals, or conditional normals truncated at '
        'the limits) in a seeded interleaving with failing conditionals, foreign steps and extreme draws; every '
        'step is checked for the variables it updates, the values they are conditioned on and the limits; long '
        'runs test the conditional distribution itself; non-trivial when two samplers were interleaved or a '
        'fault fired, and a sweep wrapped around')
SCHEDULE_MEASURE = 'distinct (number of variables, variables per step, order of samplers and faults)'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated, one stream per sampler and step)',
         'conditional functions supplied by the workload']
ASSUMPTIONS = ['user functions are pure apart from the injected failure']

def generate(seed, tier):
  rng = rng_of('C06', seed)
  cfg = chains.gen_cfg(rng, ('gibbs', 'gibbs', 'mvn'))
  long_run = cfg['kind'] == 'mvn' and rng.random() < 0.12
  nsam = 1 if long_run else rng.choice((1, 2, 2, 3))
  ops = []
  for k in range(600 if long_run else rng.choice((6, 12, 20))):
    x = rng.random()
    if x < 0.06 and not long_run:
      ops.append(['stray', 0, k])
    i = rng.randrange(nsam)
    if x > 0.95 and not long_run:
      ops.append(['reset', i, k, rng.random() < 0.5])
    if 0.06 < x < 0.16 and cfg['kind'] == 'gibbs':
      ops.append(['fail', i, k, rng.choice((0, 0, 1, 2, 3))])
    ops.append(['next', i, k])
  return {'prop': 'C06', 'seed': seed, 'cfg': cfg, 'nsam': nsam, 'long': long_run,
          'bug': 0. if long_run else rng.choice((0., 0.1)), 'ops': ops}

def slots(n, tsteps):
  """ Chunks of variable positions updated by successive steps """
  if not tsteps:
    return [list(range(n))]
  return [list(range(n))[i:i + tsteps] for i in range(0, n, tsteps)]

def execute(plan, out):
  cfg = plan['cfg']
  names, n = cfg['names'], len(cfg['names'])
  simrng.use('build')
  chain = must('building the process', chains.Chain, cfg)
  keys = [k for k in chain.par.keylist if k in names]
  require(set(keys) == set(names), 'variables of the field')
  chunk = slots(n, cfg['tsteps'])
  nsam = plan['nsam']
  inits, samplers = [], []
  for i in range(nsam):
    init = {m: v + 0.0625 * i for m, v in chain.init.items()}
    inits.append(init)
    samplers.append(must('sampler', chain.sampler, None, init))
  state = [None] * nsam
  steps = [0] * nsam
  order, us, fired = [], [], 0
  args, kwds = chain.next_args()
  for op in plan['ops']:
    i = op[1]
    sim = simrng.use((plan['seed'], op[0], i, op[2]), plan['bug'])
    if op[0] == 'stray':
      must('stray step', chain.par.step, dict(chain.init))
      out.fault('foreign step of the shared field')
      continue
    if op[0] == 'reset':
      must('reset', chain.sp.reset, samplers[i], reset_last=op[3])
      if op[3]: # starts over
        state[i], steps[i] = None, 0
      out.fault('reset of a live sampler')
      order.append('r{}'.format(i))
      continue
    step = lambda: chain.sp.next(samplers[i], inits[i], *args[1:], **kwds)
    calls = getattr(chain, 'calls', None)
    if calls is not None:
      del calls[:]
    if op[0] == 'fail':
      chain.hook.arm(op[3])
      try:
        sample = must('step', step)
        chain.hook.arm(None)
      except Injected as exc:
        chain.hook.arm(None)
        out.fault('callback:' + str(exc))
        order.append('f{}'.format(i))
        fired += 1
        continue
      finally:
        chain.hook.arm(None)
    else:
      edges = sim.edges
      sample = must('step', step)
      out.fault('extreme random draw', sim.edges - edges)
    order.append(i)
    out.simtime += 1
    out.record(i, chains.record(sample))
    pred = chains.values_of(sample.q, keys)
    succ = chains.values_of(sample.q, keys, "'")
    vals = chains.values_of(sample.p, keys)
    before = inits[i] if state[i] is None else state[i]
    require(all(pred[k] == before[k] for k in keys), 'step does not start at the current state',
            lambda: (pred, before))
    require(vals == succ, 'p is not at the sampled values')
    require(bool(sample.u), 'Gibbs step not accepted')
    require(chains.flat(sample.v) == chains.flat(sample.p), 'Gibbs step does not yield the new state')
    want = [keys[j] for j in chunk[steps[i] % len(chunk)]]
    for k in keys:
      if k not in want:
        require(succ[k] == pred[k], 'a variable out of turn was changed',
                lambda: 'sampler {} step {} turn of {} but {} changed'.format(i, steps[i], want, k))
    if calls is not None:
      require([c[0] for c in calls] == want, 'conditionals not evaluated in turn',
              lambda: 'sampler {} step {}: {} instead of {}'.format(i, steps[i], [c[0] for c in calls], want))
      now = dict(pred)
      for unknown, others in calls:
        for k, v in others:
          require(now[k] == v, 'conditional evaluated at other values than the current state',
                  lambda: '{} given {}={} but the state is {}'.format(unknown, k, v, now))
        now[unknown] = succ[unknown]
    else:
      now = dict(pred)
      for k in want:
        j = keys.index(k)
        rest = [m for m in range(n) if m != j]
        cov, mean = chain.cov, chain.means
        # set_prob and set_tran take the variables in the order of the field
        coef = np.linalg.solve(cov[np.ix_(rest, rest)], cov[rest, j])
        loc = mean[j] + float(coef.dot([now[keys[m]] - mean[m] for m in rest]))
        sd = math.sqrt(cov[j, j] - float(coef.dot(cov[rest, j])))
        lo, hi = cfg['vsets'][names.index(k)][:2]
        require(lo <= succ[k] <= hi, 'sampled outside the limits of the variable',
                lambda: '{}={} limits {}'.format(k, succ[k], (lo, hi)))
        a, b = scipy.stats.norm.cdf([lo, hi], loc, sd)
        if b - a > 1e-6:
          us.append((scipy.stats.norm.cdf(succ[k], loc, sd) - a) / (b - a))
        now[k] = succ[k]
    lp = chain.logp(vals)
    got = float(sample.p.prob) if complex(sample.p.pscale) == 0 else \
          (math.log(float(sample.p.prob)) if float(sample.p.prob) > 0. else -math.inf)
    require(abs(got - lp) <= 1e-8 * max(1., abs(lp)) or lp < -700., 'p.prob is not the target density',
            lambda: '{} vs {}'.format(got, lp))
    steps[i] += 1
    state[i] = vals
  if plan['long'] and len(us) >= 250:
    statcheck.uniform(us, 'samples do not follow the conditional distribution')
    out.count('distribution tests')
  out.count('process ' + cfg['kind'])
  out.fault('preemption at a step boundary', sum(1 for a, b in zip(order, order[1:]) if a != b))
  out.sched = [n, cfg['tsteps'], order if not plan['long'] else 'long']
  out.nontrivial = (nsam > 1 or fired) and max(steps) > len(chunk) or plan['long']
  out.sample = {'kind': cfg['kind'], 'variables': n, 'per step': cfg['tsteps'], 'order': order[:40]}

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
