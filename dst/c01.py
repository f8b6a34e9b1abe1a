""" C01: interleaved samplers never influence one another. """
import numpy as np
from dst import chains, simrng
from dst.core import rng_of, require, must, Violation

BUDGET = {'quick': {'runs': 1600, 'wall': 300}, 'thorough': {'runs': 40000, 'wall': 3000}}
RULE = ('a run builds one or two processes of any sampler kind, starts 2-4 samplers and advances them in a '
        'seeded interleaving mixed with closing, late creation, evaluation of the process and summaries; each '
        'sampler is compared step by step with a solo execution fed the same randomness; non-trivial when at '
        'least two samplers of one process each made 2 or more steps with another sampler scheduled in between')
SCHEDULE_MEASURE = 'distinct (process kinds, order of scheduled samplers)'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated, one stream per sampler and step)',
         'target/transition/conditional functions supplied by the workload']
ASSUMPTIONS = ['user functions are pure', 'the process is not reconfigured while samplers are live']

def generate(seed, tier):
  rng = rng_of('C01', seed)
  nproc = rng.choice((1, 1, 1, 2))
  cfgs = [chains.gen_cfg(rng) for _ in range(nproc)]
  # bias to schemes with memory between steps
  if rng.random() < 0.3:
    cfgs[0] = chains.gen_cfg(rng, ('gibbs', 'mvn'))
  nsam = rng.choice((2, 2, 3, 4))
  ops = []
  owner = []
  for i in range(nsam):
    owner.append(rng.randrange(nproc))
  started = set()
  n = rng.choice((8, 14, 24))
  burst = rng.choice((1, 1, 3))
  late = rng.random() < 0.5
  if not late:
    ops += [['new', i] for i in range(nsam)]
    started = set(range(nsam))
  closed = set()
  k = 0
  while k < n:
    i = rng.randrange(nsam)
    if i not in started:
      ops.append(['new', i])
      started.add(i)
    x = rng.random()
    if x < 0.04 and i not in closed and k > 2:
      ops.append(['close', i])
      closed.add(i)
    elif x < 0.09:
      ops.append(['summary', i])
    elif x < 0.14:
      ops.append(['eval', i, k])
    elif x < 0.18:
      ops.append(['stray', i, k])
    if i in closed:
      k += 1
      continue
    for _ in range(rng.randint(1, burst)):
      ops.append(['direct' if rng.random() < 0.2 else 'next', i, k])
      k += 1
  stops = [rng.choice((None, None, 3, 100)) for _ in range(nsam)]
  return {'prop': 'C01', 'seed': seed, 'cfgs': cfgs, 'owner': owner, 'stops': stops,
          'bug': rng.choice((0., 0., 0.1)), 'ops': ops}

def init_of(chain, i):
  if chain.init is None or chain.cfg['kind'] == 'matrix':
    return None
  return {n: v + 0.125 * (i % 3) for n, v in chain.init.items()}

def started(chain, i, plan):
  """ Arguments of sampler i, which may be given other values beyond the proposition """
  args, kwds = list(chain.start_args), dict(chain.start_kwds)
  init = init_of(chain, i)
  if init is not None:
    args[0] = init
  how = (i + plan['seed']) % 4
  if len(args) > 1 and chain.cfg['kind'] in ('mh', 'gibbs'):
    if how == 1:
      args[1] = {n: v + 0.25 for n, v in args[1].items()}
    elif how == 2 and not kwds: # left to chance
      args.pop()
    elif how == 3 and 'joint' in kwds:
      kwds.pop('joint')
  return args, kwds

def advance(chain, sampler, how, given):
  """ -> record or 'stop' """
  if how == 'next':
    try:
      return chains.record(next(sampler))
    except StopIteration:
      return 'stop'
  args, kwds = given
  return chains.record(chain.sp.next(sampler, *args, **kwds))

def begin(chain, given, stop):
  args, kwds = given
  return chain.sp.sampler(*args, **kwds, **({} if stop is None else {'stop': stop}))

def solo(plan, i):
  """ The records of sampler i alone on its own process """
  simrng.use('build')
  chain = chains.Chain(plan['cfgs'][plan['owner'][i]])
  sampler = None
  recs = []
  for op in plan['ops']:
    if op[1] != i:
      continue
    if op[0] == 'new':
      given = started(chain, i, plan)
      sampler = begin(chain, given, plan['stops'][i])
    elif op[0] == 'close' and sampler is not None:
      sampler.close()
    elif op[0] in ('next', 'direct') and sampler is not None:
      simrng.use((plan['seed'], i, op[2]), plan['bug'])
      recs.append((op[2], advance(chain, sampler, op[0], given)))
  return recs

def execute(plan, out):
  simrng.use('build')
  procs = [must('building the process', chains.Chain, cfg) for cfg in plan['cfgs']]
  samplers, recs, raw, order = {}, {}, {}, []
  for op in plan['ops']:
    i = op[1]
    chain = procs[plan['owner'][i]]
    if op[0] == 'new':
      if i not in samplers:
        samplers[i] = must('sampler', begin, chain, started(chain, i, plan), plan['stops'][i])
        recs[i] = []
        raw[i] = []
      continue
    if i not in samplers:
      continue
    if op[0] == 'close':
      samplers[i].close()
    elif op[0] == 'summary':
      if raw[i]:
        must('summary', chain.sp, list(raw[i]))
        out.count('summaries')
    elif op[0] == 'eval':
      if chain.init is not None and chain.cfg['kind'] in ('mh',) and raw[i]:
        vals = dict(chain.init)
        for a in chain.start_args[1:]:
          vals.update(a)
        must('evaluation', chain.sp, vals, **chain.start_kwds)
        out.count('evaluations between steps')
    elif op[0] == 'stray':
      # the fields of the process are used for something else in between
      simrng.use((plan['seed'], 'stray', op[2]))
      if chain.cfg['kind'] in ('mh', 'gibbs', 'mvn') and chain.init is not None:
        must('stray step', chain.par.step, dict(chain.init))
        out.count('stray steps between samples')
    else:
      sim = simrng.use((plan['seed'], i, op[2]), plan['bug'])
      edges = sim.edges
      rec = must('step', advance, chain, samplers[i], op[0], started(chain, i, plan))
      out.fault('extreme random draw', sim.edges - edges)
      recs[i].append((op[2], rec))
      out.record(i, rec)
      order.append(i)
      out.simtime += 1
  for i in sorted(recs):
    expect = must('solo run', solo, plan, i)
    for k, (a, b) in enumerate(zip(recs[i], expect)):
      require(a == b, 'sampler diverged from its solo run',
              lambda: 'sampler {} step {} of kind {}\ngot  {}\nsolo {}'.format(
                  i, k, plan['cfgs'][plan['owner'][i]]['kind'], str(a)[:700], str(b)[:700]))
  kinds = [cfg['kind'] for cfg in plan['cfgs']]
  for k in kinds:
    out.count('process ' + k)
  switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
  out.fault('preemption at a step boundary', switches)
  out.sched = [kinds, plan['owner'], order]
  live = [i for i in recs if len(recs[i]) >= 2]
  out.nontrivial = switches >= 3 and any(
      plan['owner'][a] == plan['owner'][b] for a in live for b in live if a < b)
  out.sample = {'kinds': kinds, 'order': order}

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
