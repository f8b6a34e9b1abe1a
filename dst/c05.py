""" C05: summarising samples conserves them. """
import collections
import numpy as np
from dst import chains, simrng
from dst.core import rng_of, require, must, Violation

BUDGET = {'quick': {'runs': 1400, 'wall': 300}, 'thorough': {'runs': 36000, 'wall': 3000}}
RULE = ('a run draws samples of any kind of process from 1-3 samplers in a seeded interleaving, and directly, collects them in '
        'seeded windows and summarises each collection (list, tuple or deque); every retained sample must be in '
        'the summary once, in order, with its values and probability; non-trivial when a summary holds 3 or more '
        'samples of at least two samplers or windows')
SCHEDULE_MEASURE = 'distinct (process kind, order of samplers, windows, pattern of updates)'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated)', 'target/transition functions supplied by the workload']
ASSUMPTIONS = ['user functions are pure']

def generate(seed, tier):
  rng = rng_of('C05', seed)
  cfg = chains.gen_cfg(rng, ('mh', 'mh', 'gibbs', 'mvn', 'matrix', 'cdf', 'prop', 'prop', 'plain'))
  if cfg['kind'] == 'plain':
    cfg['size'] = 0
  nsam = rng.choice((1, 2, 3))
  direct = 1. if cfg['kind'] == 'plain' or rng.random() < 0.6 else rng.choice((0., 0.5, 0.8))
  ops = []
  for k in range(rng.choice((4, 8, 16, 30))):
    if rng.random() < 0.15:
      ops.append(['summary', rng.choice(('list', 'tuple', 'deque')), rng.random() < 0.5])
    ops.append(['next' if rng.random() < direct else 'direct', rng.randrange(nsam), k])
  ops.append(['summary', rng.choice(('list', 'tuple', 'deque')), False])
  return {'prop': 'C05', 'seed': seed, 'cfg': cfg, 'nsam': nsam,
          'bug': rng.choice((0., 0., 0.1)), 'ops': ops}

def compare(name, summ, dists):
  """ summ must be dists laid end to end """
  dists = [d for d in dists if d is not None]
  if not dists:
    require(summ is None, name + ' appears from nothing')
    return
  require(summ is not None, name + ' lost from the summary')
  require(complex(summ.pscale) == complex(dists[0].pscale), name + ' changes its probability scale')
  prob = np.ravel(summ.prob)
  require(prob.size == len(dists), name + ' has the wrong number of probabilities',
          lambda: '{} for {} samples'.format(prob.size, len(dists)))
  expect = np.array([float(d.prob) for d in dists])
  require(np.array_equal(prob, expect), name + ' probabilities differ from the samples',
          lambda: '{} vs {}'.format(prob, expect))
  require(set(summ.keys()) == set(dists[0].keys()), name + ' variables differ from the samples')
  for key in dists[0].keys():
    if isinstance(dists[0][key], (set, frozenset)):
      total = sum(list(d[key])[0] for d in dists)
      require(summ[key] == {total}, name + ' count of observations not conserved',
              lambda: '{} vs {}'.format(summ[key], total))
      continue
    got = np.ravel(summ[key])
    vals = np.array([np.ravel(d[key])[0] for d in dists])
    require(np.array_equal(got, vals), name + ' values differ from the samples',
            lambda: '{}: {} vs {}'.format(key, got, vals))
    if got.size > 1:
      require(prob.shape == got.shape, name + ' values and probabilities do not align')

def check_summary(chain, samples, form, out):
  coll = {'list': list, 'tuple': tuple, 'deque': collections.deque}[form](samples)
  before = [chains.record(s) for s in samples]
  if not hasattr(samples[0], '_fields'):
    summ = must('summary', chain.sp, coll)
    compare('summary', summ, samples)
    kept = samples
  else:
    kept = [s for s in samples if not hasattr(s, 'u') or not (s.u is not None and not s.u)]
    chained = [s for s in kept if hasattr(s, 'u')]
    if not kept:
      return 0
    summ = must('summary', chain.sp, coll)
    for f in ('o', 'p', 'q', 'r', 'v'):
      compare(f, getattr(summ, f), [getattr(s, f, None) for s in kept])
    if chained:
      if chain.sp.update is not None:
        require(list(summ.u) == [s.u for s in chained], 'update verdicts not conserved')
      for f in ('s', 't'):
        want = [getattr(s, f) for s in chained if getattr(s, f) is not None]
        got = getattr(summ, f) or []
        require(len(got) == len(want) and all(
            a == b or (a != a and b != b) for a, b in zip(got, want)), f + ' not conserved')
  require(before == [chains.record(s) for s in samples], 'summarising altered the samples')
  return len(kept)

def execute(plan, out):
  cfg = plan['cfg']
  simrng.use('build')
  chain = must('building the process', chains.Chain, cfg)
  samplers = [must('sampler', chain.sampler) for _ in range(plan['nsam'])]
  direct = {}
  window, everything, order, ups, big = [], [], [], '', False
  for op in plan['ops']:
    if op[0] in ('next', 'direct'):
      sim = simrng.use((plan['seed'], op[1], op[2]), plan['bug'])
      edges = sim.edges
      if op[0] == 'next':
        sample = must('step', next, samplers[op[1]])
      else: # a sample drawn without a sampler, from the start or from another such sample
        args, kwds = chain.next_args()
        if cfg['kind'] != 'prop' and op[1] in direct and op[2] % 2:
          args = (direct[op[1]],) + args[1:]
        sample = direct[op[1]] = must('direct sample', chain.sp.sample, *args, **kwds)
        out.count('direct samples')
      out.fault('extreme random draw', sim.edges - edges)
      window.append(sample)
      everything.append(sample)
      order.append(op[1])
      out.record(chains.record(sample))
      out.simtime += 1
      u = getattr(sample, 'u', '-')
      ups += {True: 'a', None: 'r', False: 'd'}.get(u, '-') if not isinstance(u, np.bool_) else 'ad'[not u]
    else:
      for samples in ((window,) if op[2] else (window, everything)):
        if samples:
          n = check_summary(chain, samples, op[1], out)
          out.count('summaries')
          out.count('samples summarised', n)
          if n >= 3 and (len(set(order)) > 1 or len(everything) > len(window)):
            big = True
      window = []
  out.count('process ' + cfg['kind'])
  out.count('discarded', ups.count('d'))
  out.sched = [cfg['kind'], order, ups, [op[1:] for op in plan['ops'] if op[0] == 'summary']]
  out.nontrivial = big
  out.sample = {'kind': cfg['kind'], 'order': order, 'updates': ups}

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
