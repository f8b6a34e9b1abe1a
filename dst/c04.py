""" C04: a step that fails leaves every chain where it was. """
import itertools
from dst import chains, simrng, lines
from dst.core import rng_of, require, must, Violation, Injected, InjectedInterrupt

BUDGET = {'quick': {'runs': 1400, 'wall': 300}, 'thorough': {'runs': 36000, 'wall': 3000}}
RULE = ('a run interleaves 1-3 samplers of one process of any kind; seeded steps are made to fail by an exception '
        'from the n-th user callback of the step or by an interrupt before the n-th line of library code; the '
        'successful steps of each sampler are compared with a solo execution without the failed steps (for '
        'interrupts: without, or with, that one step); non-trivial when a fault fired after a first successful '
        'step and was followed by another step of the same sampler')
SCHEDULE_MEASURE = 'distinct (process kind, order of samplers, places where faults fired)'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated, one stream per sampler and attempt)',
         'user callbacks supplied by the workload (they raise on demand)',
         'signal delivery (an exception raised between two lines of library code)']
ASSUMPTIONS = ['user functions are pure apart from the injected failure',
               'asynchronous interrupts are not injected into Gibbs sweeps (position in the sweep and '
               'state are committed by separate statements there)']

def generate(seed, tier):
  rng = rng_of('C04', seed)
  cfg = chains.gen_cfg(rng, ('mh', 'mh', 'mh', 'gibbs', 'gibbs', 'cdf', 'prop', 'matrix', 'plain'))
  interrupts = rng.random() < 0.35 and cfg['kind'] != 'gibbs'
  if cfg['kind'] in ('matrix', 'plain'): # no user callbacks
    interrupts = True
  nsam = rng.choice((1, 2, 2, 3))
  ops, faults = [], 0
  for k in range(rng.choice((6, 10, 16))):
    op = ['next', rng.randrange(nsam), k, None]
    if rng.random() < 0.3 and k:
      if interrupts:
        if faults < 3:
          op[3] = ['interrupt', int(rng.choice((20, 200, 1500)) * rng.random())]
          if rng.random() < 0.3:
            op[3] = ['late interrupt', rng.randrange(25)]
          faults += 1
      else:
        op[3] = ['callback', rng.choice((0, 0, 1, 2, 3, 5))]
    ops.append(op)
  return {'prop': 'C04', 'seed': seed, 'cfg': cfg, 'nsam': nsam, 'interrupts': interrupts,
          'bug': rng.choice((0., 0., 0.1)), 'ops': ops}

def init_of(chain, i):
  if chain.init is None or chain.cfg['kind'] == 'matrix':
    return None
  return {n: v + 0.125 * (i % 3) for n, v in chain.init.items()}

def step_fun(chain, sampler, init):
  args, kwds = chain.next_args()
  if init is not None:
    args = (init,) + tuple(args[1:])
  return lambda: chain.sp.next(sampler, *args, **kwds)

def solo(plan, i, skip):
  """ Records by attempt of sampler i alone, attempts in skip not made """
  simrng.use('build')
  chain = chains.Chain(plan['cfg'])
  init = init_of(chain, i)
  sampler = chain.sampler(None, init)
  fun = step_fun(chain, sampler, init)
  recs = {}
  for op in plan['ops']:
    if op[1] == i and op[2] not in skip:
      simrng.use((plan['seed'], i, op[2]), plan['bug'])
      recs[op[2]] = chains.record(fun())
  return recs

def execute(plan, out):
  simrng.use('build')
  chain = must('building the process', chains.Chain, plan['cfg'])
  hook = chain.hook
  nsam = plan['nsam']
  inits = [init_of(chain, i) for i in range(nsam)]
  samplers = [must('sampler', chain.sampler, None, inits[i]) for i in range(nsam)]
  funs = [step_fun(chain, samplers[i], inits[i]) for i in range(nsam)]
  recs = [{} for _ in range(nsam)]
  failed = [[] for _ in range(nsam)]
  taken = [0] * nsam
  places, order, good = [], [], False
  for op in plan['ops']:
    _, i, k, fault = op
    simrng.use((plan['seed'], i, k), plan['bug'])
    order.append(i)
    out.simtime += 1
    struck = None
    if fault is None:
      sample = must('step', funs[i])
    elif fault[0] == 'callback':
      hook.arm(fault[1])
      try:
        sample = must('step', funs[i])
      except Injected as exc:
        struck = 'callback:' + str(exc)
      armed = hook.where
      hook.arm(None)
      require(struck is not None or armed is None, 'the failure of a user function was swallowed', armed)
    else:
      at = fault[1]
      if fault[0] == 'late interrupt': # among the last lines of the step
        total = count_lines(plan, i, k, recs, failed)
        at = max(0, total - 1 - fault[1])
      sample, where, _ = lines.interrupt_at(at, lambda: must('step', funs[i]))
      struck = None if where is None else 'interrupt:' + where
    if struck is None:
      recs[i][k] = chains.record(sample)
      taken[i] += 1
      out.record(i, k, recs[i][k])
      if failed[i] and taken[i] > 1:
        good = True
    else:
      failed[i].append(k)
      places.append(struck)
      out.fault(struck.split(':')[0] + (':' + struck.split(':')[1] if struck.startswith('callback') else ''))
      out.record('fault', struck)
    if not plan['interrupts']:
      for j in range(nsam):
        c = must('counter', chain.sp.get_counter, samplers[j])
        require(c == taken[j], 'a failed step was counted', lambda: '{} vs {}'.format(c, taken[j]))
  for i in range(nsam):
    if not recs[i]:
      continue
    if plan['interrupts']:
      options = [frozenset(c) for r in range(len(failed[i]) + 1)
                 for c in itertools.combinations(failed[i], r)][::-1]
    else:
      options = [frozenset(failed[i])]
    wrong = None
    for skip in options:
      expect = must('solo run', solo, plan, i, skip)
      diff = [k for k in sorted(recs[i]) if recs[i][k] != expect[k]]
      if not diff:
        break
      wrong = wrong or (diff[0], recs[i][diff[0]], expect[diff[0]])
    else:
      raise Violation('a failed step disturbed a chain',
                      'kind {} sampler {} faults {} step {}\ngot  {}\nsolo {}'.format(
                          plan['cfg']['kind'], i, places, wrong[0], str(wrong[1])[:600], str(wrong[2])[:600]))
  out.count('process ' + plan['cfg']['kind'])
  out.sched = [plan['cfg']['kind'], order, places]
  out.nontrivial = good
  out.sample = {'kind': plan['cfg']['kind'], 'order': order, 'faults': places}

def count_lines(plan, i, k, recs, failed):
  """ Lines of library code that step k of sampler i takes """
  simrng.use('build')
  chain = chains.Chain(plan['cfg'])
  init = init_of(chain, i)
  sampler = chain.sampler(None, init)
  fun = step_fun(chain, sampler, init)
  total = 0
  for op in plan['ops']:
    if op[1] == i and op[2] <= k and op[2] not in failed[i]:
      simrng.use((plan['seed'], i, op[2]), plan['bug'])
      if op[2] == k:
        _, _, total = lines.interrupt_at(None, fun)
      else:
        fun()
  simrng.use((plan['seed'], i, k), plan['bug'])
  return total

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
