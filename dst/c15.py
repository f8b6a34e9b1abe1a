""" C15: evaluating leaves what is evaluated, and its inputs, unchanged. """
import collections
import numpy as np
import probayes as pb
from dst import bench, chains, lines, simrng
from dst.core import rng_of, require, must, Injected, InjectedInterrupt, brief

BUDGET = {'quick': {'runs': 6000, 'wall': 240}, 'thorough': {'runs': 150000, 'wall': 3000}}
RULE = ('a run builds one object (function tuple, expression, variable, field, conditional, distribution, transition, '
        'process) and makes a seeded history of evaluations on it, some of which are made to fail by an exception from '
        'the n-th user function or an interrupt before the n-th library line, or of which the arrays returned are changed in place; every undisturbed evaluation is compared '
        'with the same one on a freshly made object, and every argument passed, then or when the object was made, with '
        'what it was; non-trivial when a fault fired and was followed by a compared evaluation')
SCHEDULE_MEASURE = 'distinct (kind of object, evaluations, places where faults fired)'
REAL = ['probayes (all of it)', 'numpy', 'scipy', 'sympy']
STUBS = ['numpy.random bit source (simulated, one stream per evaluation)', 'compiler (absent)', 'user functions']
ASSUMPTIONS = ['user functions are pure apart from the injected failure',
               'steps of Gibbs fields made outside a sampler advance the sweep by design and are not evaluated here']

class Hook(chains.Hook):
  def who(self):
    return 0

def generate(seed, tier):
  rng = rng_of('C15', seed)
  cfg = bench.gen(rng, bench.STATELESS)
  ops = []
  for _ in range(rng.choice((3, 5, 8))):
    op, k = rng.randrange(60), rng.randrange(10 ** 6)
    x = rng.random()
    if x < 0.25:
      ops.append([op, k, ['fail', rng.choice((0, 0, 0, 1, 2, 5))]])
    elif x < 0.55:
      ops.append([op, k, ['interrupt', rng.randrange(rng.choice((5, 30, 120, 500)))]])
    if x < 0.55 and rng.random() < 0.5: # retry
      ops.append([op, k, None])
    else:
      ops.append([rng.randrange(60), rng.randrange(10 ** 6), ['spoil'] if rng.random() < 0.3 else None])
  return {'prop': 'C15', 'seed': seed, 'cfg': cfg, 'ops': ops, 'bug': rng.choice((0., 0., 0.05))}

def attempt(obj, op, k, extra, keep=None):
  """ -> comparable outcome, account of the failure if any """
  try:
    res = obj.do(op, k)
    if keep is not None:
      keep.append(res)
    return ('ok', bench.image(res)), extra
  except Exception as exc:
    return ('raised ' + type(exc).__name__, ''), brief(exc)

SHARING = ('pd', 'algebra', 'graph', 'naive') # (distributions share their values and tables with what they come from)

def arrays(x, seen):
  if id(x) in seen:
    return
  seen[id(x)] = x
  if isinstance(x, np.ndarray):
    yield x
  elif isinstance(x, dict):
    for y in x.values():
      yield from arrays(y, seen)
    if isinstance(x, pb.PD):
      yield from arrays(x.prob, seen)
  elif isinstance(x, (list, tuple, collections.deque)):
    for y in x:
      yield from arrays(y, seen)

def spoil(res, passed):
  """ Changes the arrays returned, other than those passed in -> how many """
  n = 0
  given = [a for arg, _ in passed for a in arrays(arg, {})]
  for a in arrays(res, {}):
    if a.flags.writeable and a.dtype.kind in 'bfiu' and not any(np.shares_memory(a, b) for b in given):
      a[...] = np.logical_not(a) if a.dtype.kind == 'b' else a + 1
      n += 1
  return n

def execute(plan, out):
  cfg = plan['cfg']
  simrng.use('build')
  hook = Hook()
  obj = must('building', bench.Bench, cfg, hook)
  trail, fired = [], 0
  compared_after = 0
  for j, (op, k, fault) in enumerate(plan['ops']):
    name = obj.op_name(op)
    simrng.use((plan['seed'], op, k), plan['bug'])
    out.simtime += 1
    if fault is not None and fault[0] != 'spoil':
      struck = None
      if fault[0] == 'fail':
        hook.arm(fault[1])
        try:
          obj.do(op, k)
        except Injected as exc:
          struck = 'callback ' + str(exc)
          out.fault('callback failure')
        except Exception as exc:
          out.count('calls that raise')
        hook.arm(None)
      else:
        try:
          _, struck, _ = lines.interrupt_at(fault[1], lambda: obj.do(op, k))
        except Exception as exc:
          out.count('calls that raise')
        if struck:
          out.fault('interrupt before a library line')
      fired += struck is not None
      trail.append([name, struck])
      require(obj.altered() is None, 'a failed evaluation altered an argument', lambda: '{} {} {}: {}'.format(cfg['kind'], name, struck, obj.altered())[:1900])
      continue
    keep = []
    got, how = attempt(obj, op, k, '', keep)
    changed = obj.altered()
    require(changed is None, 'an evaluation altered an argument', lambda: '{} {}: {}'.format(cfg['kind'], name, changed)[:1900])
    simrng.use('build')
    fresh = must('building', bench.Bench, cfg, Hook())
    simrng.use((plan['seed'], op, k), plan['bug'])
    want, whyw = attempt(fresh, op, k, '')
    require(got == want, 'an evaluation does not yield what it yields on a fresh object',
            lambda: '{} {} {} after {}:\nfresh {} {}\nhere {} {}'.format(
                cfg['kind'], cfg.get('form', ''), name, trail[-6:], str(want)[-500:], whyw[-300:], str(got)[-500:], how[-400:]))
    if want[0] != 'ok':
      out.count('calls that raise: {} {}'.format(cfg['kind'], name))
    out.record(name, want)
    spoilt = 0
    if fault is not None and keep and cfg['kind'] not in SHARING:
      spoilt = spoil(keep[0], obj.passed)
      out.fault('returned arrays changed by the caller', spoilt > 0)
      del obj.passed[:]
      fired += spoilt > 0
    trail.append([name, 'results changed' if spoilt else None])
    compared_after += fired > (spoilt > 0)
  out.count('object ' + cfg['kind'])
  out.count('compared evaluations', sum(1 for t in trail if t[1] in (None, 'results changed')))
  out.sched = [cfg['kind'], cfg.get('form'), trail]
  out.nontrivial = compared_after > 0
  out.sample = {'kind': cfg['kind'], 'form': cfg.get('form'), 'evaluations': trail[:8]}

def simplify(plan):
  if plan['bug']:
    yield dict(plan, bug=0.)
