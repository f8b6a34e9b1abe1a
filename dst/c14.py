""" C14: concurrent evaluation gives what sequential evaluation gives. """
import threading
from dst import bench, lines, simrng
from dst.core import rng_of, require, must, Injected, injected, Violation, HarnessError, brief

BUDGET = {'quick': {'runs': 5000, 'wall': 240}, 'thorough': {'runs': 120000, 'wall': 3000}}
RULE = ('a run builds one shared object (function tuple, conditional function, expression, variable, field, conditional, '
        'distribution, transition, process with one sampler per thread) and lets 2-3 real threads make seeded calls on '
        'it under a seeded scheduler that preempts at library lines; user functions of single calls are made to fail; '
        'every result is compared with that of the same calls made by one thread on an object of its own; non-trivial '
        'when at least two threads were preempted inside the library')
SCHEDULE_MEASURE = 'distinct (kind of object, calls, order in which threads were scheduled)'
REAL = ['probayes (all of it)', 'numpy', 'scipy', 'sympy', 'operating system threads']
STUBS = ['thread scheduler (one thread runs at a time, switched at library lines)',
         'numpy.random bit source (simulated, one stream per thread and call)', 'compiler (absent)', 'user functions']
ASSUMPTIONS = ['single library lines are atomic (preemption inside a line, hence inside NumPy, is not explored)',
               'Gibbs processes are not shared between threads', 'user functions are pure']
SHRINK = ('threads',)

class ThreadHook:
  """ Fails the n-th callback of the call a thread is making """
  def __init__(self):
    self.index, self.left, self.fired = {}, {}, 0

  def who(self):
    return self.index.get(threading.get_ident(), 0)

  def enter(self, i):
    self.index[threading.get_ident()] = i

  def arm(self, n):
    self.left[threading.get_ident()] = n

  def hit(self, where):
    me = threading.get_ident()
    n = self.left.get(me)
    if n is None:
      return
    if n <= 0:
      self.left[me] = None
      self.fired += 1
      raise injected(where, len(where))
    self.left[me] = n - 1

def generate(seed, tier):
  rng = rng_of('C14', seed)
  cfg = bench.gen(rng)
  nthr = rng.choice((2, 2, 3))
  lag = rng.randrange(4) if rng.random() < 0.35 else None # line by line in turn
  same = rng.random() < (0.3 if lag is None else 0.8) # all threads make one kind of call
  op0 = rng.randrange(60)
  threads = [[[op0 if same else rng.randrange(60), rng.randrange(10 ** 6),
               rng.choice((0, 0, 1, 3)) if rng.random() < 0.15 else None]
              for _ in range(rng.choice((1, 2, 3, 5)))] for _ in range(nthr)]
  return {'prop': 'C14', 'seed': seed, 'cfg': cfg, 'threads': threads, 'sched': rng.randrange(10 ** 9),
          'quantum': rng.choice((1, 2, 5, 5, 15, 60, 300)), 'lag': lag}

def calls(plan, i, obj, hook, sim):
  """ What thread i does """
  res = []
  hook.enter(i)
  for j, (op, k, fail) in enumerate(plan['threads'][i]):
    sim.own_stream((plan['seed'], i, j))
    hook.arm(fail)
    try:
      got = ('ok', bench.image(obj.do(op, k)))
    except Injected as exc:
      got = ('failed', str(exc))
    except Exception as exc:
      got = ('raised ' + type(exc).__name__, brief(exc))
    hook.arm(None)
    res.append(got)
  return res

def execute(plan, out):
  cfg, n = plan['cfg'], len(plan['threads'])
  sim = simrng.use('build')
  sim.shared_stream()
  wants = []
  for i in range(n):
    hook = ThreadHook()
    obj = must('building', bench.Bench, cfg, hook)
    wants.append(calls(plan, i, obj, hook, sim))
    for j, w in enumerate(wants[-1]):
      if w[0].startswith('raised'): # (what a call does not support is not our business here)
        out.count('calls that raise: ' + cfg['kind'] + ' ' + obj.op_name(plan['threads'][i][j][0]))
  sim.shared_stream()
  simrng.use('build')
  hook = ThreadHook()
  obj = must('building', bench.Bench, cfg, hook)
  thr = lines.Threads(plan['sched'], plan['quantum'], plan.get('lag'))
  gots = thr.run([lambda i=i: calls(plan, i, obj, hook, sim) for i in range(n)])
  sim.shared_stream()
  ops = [[obj.op_name(c[0]) for c in t] for t in plan['threads']]
  for i, (what, got) in enumerate(gots):
    if what != 'ok':
      if isinstance(got, HarnessError):
        raise got
      raise Violation('a thread died', repr(got))
    for j, (w, g) in enumerate(zip(wants[i], got)):
      require(w == g or w[0] == g[0] and w[0].startswith('raised'), 'a concurrent call does not yield what it yields alone' if not g[0].startswith('raised') else
              'a concurrent call failed', lambda: '{} {} call {} ({}):\nalone {}\nconcurrently {}'.format(
                  cfg['kind'], cfg.get('form', ''), (i, j), ops[i][j], str(w)[-700:], str(g)[-900:]))
  out.record(wants, thr.trail)
  out.fault('callback failure', hook.fired)
  out.fault('preemption at a library line', thr.switches)
  out.simtime += thr.lines
  out.count('object ' + cfg['kind'])
  out.count('calls', sum(len(t) for t in ops))
  out.sched = [cfg['kind'], ops, thr.trail[:400]]
  out.nontrivial = thr.switches > 1
  out.sample = {'kind': cfg['kind'], 'form': cfg.get('form'), 'calls': ops, 'switches': thr.switches, 'lines': thr.lines}

def simplify(plan):
  for i, t in enumerate(plan['threads']):
    for j in range(len(t)):
      if len(t) > 1:
        yield dict(plan, threads=plan['threads'][:i] + [t[:j] + t[j + 1:]] + plan['threads'][i + 1:])
  if any(c[2] is not None for t in plan['threads'] for c in t):
    yield dict(plan, threads=[[[a, b, None] for a, b, _ in t] for t in plan['threads']])
