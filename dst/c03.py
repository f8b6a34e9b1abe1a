""" C03: a sampler yields exactly the samples asked for, whatever way they are drawn. """
from dst import chains, simrng
from dst.core import rng_of, require, must, Violation

BUDGET = {'quick': {'runs': 1600, 'wall': 300}, 'thorough': {'runs': 40000, 'wall': 3000}}
RULE = ('a run drives one sampler of any kind through a seeded history of single steps, partial and full walks, '
        'drains, resets, closes and creation of idle siblings; the yielded samples are compared with those of an '
        'uninterrupted stepwise execution of the same random stream and counts with a reference counter; '
        'non-trivial when windows of at least two different forms yielded samples')
SCHEDULE_MEASURE = 'distinct (process kind, operation sequence with window sizes)'
REAL = ['probayes (all of it)', 'numpy', 'scipy']
STUBS = ['numpy.random bit source (simulated, one continuous stream per run)',
         'target/transition/conditional functions supplied by the workload']
ASSUMPTIONS = ['user functions are pure', 'a whole-process reset is not made while samplers are live']

def generate(seed, tier):
  rng = rng_of('C03', seed)
  cfg = chains.gen_cfg(rng)
  stop = rng.choice((None, 0, 1, 2, 5, 9, 9, 14))
  ops = []
  for _ in range(rng.choice((3, 6, 10))):
    x = rng.random()
    if x < 0.35:
      ops.append(['next'])
    elif x < 0.6:
      ops.append(['walk', rng.choice((0, 1, 2, 3, 5))])
    elif x < 0.68:
      ops.append(['walkall'])
    elif x < 0.74:
      ops.append(['drain'])
    elif x < 0.84:
      ops.append(['reset', rng.random() < 0.3])
    elif x < 0.86:
      ops.append(['sibreset', rng.randrange(3), rng.random() < 0.5])
    elif x < 0.88:
      ops.append(['close'])
    elif x < 0.94:
      ops.append(['sibling'])
    else:
      ops.append(['direct'])
  return {'prop': 'C03', 'seed': seed, 'cfg': cfg, 'stop': stop,
          'form': rng.choice(('kw', 'kw', 'positional')),
          'byid': rng.random() < 0.5,
          'sibs': [rng.choice((0, 1, 2, 4)) for _ in range(rng.choice((0, 1, 2, 3)))], 'ops': ops}

def execute(plan, out):
  cfg, stop = plan['cfg'], plan['stop']
  simrng.use('build')
  chain = must('building the process', chains.Chain, cfg)
  positional = plan['form'] == 'positional' and cfg['kind'] in ('plain', 'prop') and stop is not None \
               and cfg.get('size', 0) == 0
  if positional:
    sampler = must('sampler', chain.sp.sampler, stop)
  else:
    sampler = must('sampler', chain.sampler, stop)
  ident = 0 if plan['byid'] else sampler
  # siblings which took some steps beforehand
  sibs = []
  for j, steps in enumerate(plan.get('sibs', ())):
    sib = must('sampler', chain.sampler, 5)
    simrng.use((plan['seed'], 'c03 sibling', j))
    for _ in range(0 if cfg['kind'] == 'gibbs' else steps): # (a Gibbs process is not shared)
      must('step of a sibling', next, sib)
    sibs.append([sib, 0 if cfg['kind'] == 'gibbs' else steps, chain.sp.get_last(sib)])
  simrng.use((plan['seed'], 'c03'))
  got, marks, model = [], [], []
  count, alive = 0, True
  forms = set()
  for op in plan['ops']:
    name = op[0]
    remaining = (max(0, stop - count) if stop is not None else None) if alive else 0
    if name == 'next':
      try:
        sample = must('next', lambda: [next(sampler)])[0]
        ended = False
      except Violation as v:
        if 'StopIteration' not in v.kind:
          raise
        ended = True
      should_end = remaining == 0 if remaining is not None else False
      require(ended == should_end, 'sampler ended early' if ended else 'sampler went on past its stop',
              lambda: 'after {} of {}'.format(count, stop))
      if ended:
        alive = False
      else:
        got.append(chains.record(sample)); model.append('s'); count += 1
        forms.add('next')
    elif name in ('walk', 'walkall', 'drain'):
      if name != 'walk' and stop is None and alive:
        continue
      want = op[1] if name == 'walk' else None
      if name == 'drain':
        samples = must('iteration', list, sampler)
      elif not alive: # a finished generator cannot be walked
        continue
      elif name == 'walk':
        samples = must('walk', chain.sp.walk, sampler, want)
      else:
        samples = must('walk', chain.sp.walk, sampler)
      expect = remaining if want is None else (want if remaining is None else min(want, remaining))
      require(len(samples) == expect, 'walk returned the wrong number of samples',
              lambda: '{} {} returned {} expected {}'.format(name, want, len(samples), expect))
      for s in samples:
        got.append(chains.record(s)); model.append('s')
      count += len(samples)
      if len(samples):
        forms.add(name)
      if want is None or (remaining is not None and want > remaining):
        alive = False
    elif name == 'reset':
      keep = op[1]
      must('reset', chain.sp.reset, ident, reset_last=not keep)
      if alive:
        count = 0
      if not keep:
        model.append('r')
      else:
        model.append('k')
      out.count('resets')
    elif name == 'close':
      sampler.close()
      alive = False
    elif name == 'sibreset':
      if not sibs:
        continue
      sib = sibs[op[1] % len(sibs)]
      must('reset of a sibling', chain.sp.reset, sib[0], reset_last=op[2])
      require(not op[2] or chain.sp.get_last(sib[0]) is None, 'a reset kept the last sample')
      sib[1:] = [0, None if op[2] else sib[2]]
      out.count('resets of siblings')
    elif name == 'sibling':
      must('sampler', chain.sampler, 3)
    elif name == 'direct':
      if not alive:
        continue
      args, kwds = chain.next_args()
      sample = must('next by identifier', chain.sp.next, ident, *args, **kwds)
      got.append(chains.record(sample)); model.append('s'); count += 1
      forms.add('direct')
    if alive:
      c = must('counter', chain.sp.get_counter, ident)
      require(c == count, 'counter is not the number of samples yielded',
              lambda: '{} vs {}'.format(c, count))
    for sib, steps, last in sibs:
      require(chain.sp.get_counter(sib) == steps, 'counter of a sibling changed',
              lambda: '{} vs {} after {}'.format(chain.sp.get_counter(sib), steps, op))
      require(chain.sp.get_last(sib) is last, 'last sample of a sibling changed', lambda: str(op))
  simrng.use((plan['seed'], 'c03 siblings'))
  for sib, steps, last in sibs:
    if cfg['kind'] != 'gibbs':
      more = len(must('iteration', list, sib))
      require(more == 5 - steps, 'a sibling yielded the wrong number of samples', lambda: '{} after {} of 5'.format(more, steps))
  # the same random stream, stepped one by one on a fresh process
  simrng.use('build')
  ref = chains.Chain(cfg)
  rs = ref.sampler(None) if not positional else ref.sp.sampler({0})
  simrng.use((plan['seed'], 'c03'))
  expect = []
  for m in model:
    if m == 's':
      expect.append(chains.record(must('solo step', next, rs)))
    elif m == 'r':
      rs = ref.sampler(None) if not positional else ref.sp.sampler({0})
  for k, (a, b) in enumerate(zip(got, expect)):
    require(a == b, 'yielded samples are not the uninterrupted sequence',
            lambda: 'sample {} of kind {}\ngot  {}\nsolo {}'.format(k, cfg['kind'], str(a)[:700], str(b)[:700]))
  out.record(got)
  out.simtime += len(got)
  out.count('samples', len(got))
  out.fault('reset of a live sampler', model.count('r') + model.count('k'))
  out.fault('close', sum(op[0] == 'close' for op in plan['ops']))
  out.sched = [cfg['kind'], stop, plan['ops']]
  out.nontrivial = len(forms) >= 2
  out.sample = {'kind': cfg['kind'], 'stop': stop, 'ops': plan['ops'], 'yielded': len(got)}
