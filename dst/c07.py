""" C07: seeding the random state makes results repeatable across processes.

A run is a batch of programs executed in several fresh interpreters, each with its own
hash seed, clock, entropy, order of programs and earlier history (other programs, some
cut short by an interrupt or a failing callback).  The parent compares program by program. """
import json
import math
import os
import random
import re
import subprocess
import sys
import time
from dst.core import rng_of, require, brief, HarnessError, InjectedInterrupt, Injected, REPO

BUDGET = {'quick': {'runs': 56, 'wall': 300, 'recheck': 4}, 'thorough': {'runs': 2500, 'wall': 3000}}
RULE = ('a run executes a batch of 40 seeded programs (chains of every kind of sampler with summaries, plain and named '
        'sampling, expressions over several symbols, operations on distributions and shared objects, sympy and scipy '
        'distributions) in three fresh interpreters that differ in hash seed, clock, entropy, Python random state, order '
        'of programs and earlier history, which includes programs cut short; every program seeds NumPy first and must '
        'yield the same in each; non-trivial when at least one program drew random numbers and history was cut short')
SCHEDULE_MEASURE = 'distinct (hash seeds, histories, orders of programs)'
REAL = ['probayes (all of it)', 'numpy (its own generator)', 'scipy', 'sympy', 'the interpreter and its hash seed']
STUBS = ['clock, entropy of the system and Python random state (seeded, different in every interpreter)',
         'C compiler (absent)', 'target/transition/conditional functions supplied by the workload']
ASSUMPTIONS = ['user functions are pure', 'values are compared to a relative 1e-9, everything else exactly']
CHILDREN = 3
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def gen_program(rng):
  what = rng.choice(('chain', 'chain', 'chain', 'bench', 'bench', 'bench', 'symbols', 'symbols', 'sample', 'sympy', 'store', 'algebra'))
  prog = {'what': what, 'seed': rng.randrange(2 ** 31), 'key': rng.randrange(10 ** 9)}
  if what == 'chain':
    from dst import chains
    prog.update(cfg=chains.gen_cfg(rng), steps=rng.choice((3, 6, 12)))
  elif what == 'bench':
    from dst import bench
    prog.update(cfg=bench.gen(rng, bench.STATELESS), ops=[rng.randrange(60) for _ in range(4)])
  elif what == 'symbols':
    from dst import c16
    from dst.chains import NAMES
    names = rng.sample(NAMES, rng.choice((2, 3, 4)))
    prog.update(names=names, tree=[c16.gen_tree(rng, names, 2) for _ in range(2)])
    base = ['v', names[0]]
    for i, n in enumerate(names[1:]): # every name occurs, each in a role of its own
      base = ['+', ['*', base, ['c', 2]], ['exp', ['v', n]]]
    prog['tree'].append(base)
  return prog

def generate(seed, tier):
  rng = rng_of('C07', seed)
  progs = [gen_program(rng) for _ in range(40)]
  procs = []
  for i in range(CHILDREN):
    history = []
    for _ in range(rng.choice((0, 2, 5)) if i else rng.choice((0, 0, 2))):
      p = gen_program(rng)
      history.append([rng.randrange(len(progs)), p, rng.choice((None, ['fail', rng.randrange(4)], ['interrupt', rng.randrange(rng.choice((40, 400, 3000)))]))])
    procs.append({'hash': rng.choice((0, 1, rng.randrange(2 ** 32))) if i else 0, 'entropy': rng.randrange(10 ** 9),
                  'skew': rng.choice((0., 3600., -86400., 1e9)), 'order': rng.randrange(10 ** 9) if i else None, 'history': history})
  return {'prop': 'C07', 'seed': seed, 'ops': progs, 'procs': procs}

#------------------------------------------------------------------------------- in the interpreters
ADDR = re.compile(r'0x[0-9a-f]{5,}')

def show(x):
  """ A form that can be sent and compared """
  import numpy as np
  import probayes as pb
  if x is None or isinstance(x, (bool, np.bool_)):
    return [str(x)]
  if isinstance(x, (int, np.integer)):
    return ['int', str(int(x))]
  if isinstance(x, (float, np.floating)):
    return float(x)
  if isinstance(x, (complex, np.complexfloating)):
    return ['complex', x.real, x.imag]
  if isinstance(x, np.ndarray) and x.dtype != object:
    return ['array', list(x.shape), x.dtype.kind, [show(y) for y in x.ravel().tolist()]]
  if isinstance(x, pb.Distribution):
    d = [[str(k), show(v)] for k, v in x.items()]
    dims = [[str(k), None if v is None else int(v)] for k, v in x.dims.items()] if getattr(x, 'dims', None) else []
    return ['dist', str(getattr(x, 'name', '')), d, dims, show(getattr(x, 'prob', None)), show(getattr(x, 'pscale', None))]
  if hasattr(x, '_fields'):
    return ['tuple', [[f, show(getattr(x, f))] for f in x._fields]]
  if isinstance(x, dict):
    return ['dict', [[show(k), show(v)] for k, v in x.items()]]
  if isinstance(x, (set, frozenset)):
    return ['set', sorted(json.dumps(show(y)) for y in x)]
  if isinstance(x, (list, tuple)):
    return ['list', [show(y) for y in x]]
  return ['repr', ADDR.sub('0x', repr(x))[:400]]

def run_chain(prog, hook):
  from dst import chains
  chain = chains.Chain(prog['cfg'], hook)
  res = [chain.names, sorted(map(str, getattr(chain.sp, 'vars', {}) or {}))]
  sampler = chain.sampler()
  samples = [next(sampler) for _ in range(prog['steps'])]
  res += samples
  res.append(chain.sp(list(samples)))
  return res

def run_bench(prog, hook):
  from dst import bench
  obj = bench.Bench(prog['cfg'], hook)
  res = []
  for i, op in enumerate(prog['ops']):
    try:
      res.append(obj.do(op, prog['key'] + i))
    except (Injected, InjectedInterrupt):
      raise
    except Exception as exc: # (some operations do not apply to some values)
      res.append(type(exc).__name__)
  return res

def run_symbols(prog, hook):
  import numpy as np
  import sympy
  import probayes as pb
  from dst import c16
  rng = rng_of('symbols', prog['key'])
  rvs = {n: pb.RV(n, vtype=float, vset=[-1., 3.]) for n in prog['names']}
  syms = {n: rv[:] for n, rv in rvs.items()}
  exprs = [sympy.sympify(c16.value(t, syms, sympy)) for t in prog['tree']]
  exprs = [e for e in exprs if e.free_symbols]
  res = []
  for form in ('alone', 'tuple', 'dict'):
    if form == 'alone':
      obj = pb.Expression(exprs[-1])
      funs = [obj]
    elif form == 'tuple':
      obj = pb.Expression(tuple(exprs))
      funs = [obj[i] for i in range(len(exprs))]
    else:
      obj = pb.Expression({'k{}'.format(i): e for i, e in enumerate(exprs)})
      funs = [obj['k{}'.format(i)] for i in range(len(exprs))]
    for fun, e in zip(funs, exprs[-1:] if form == 'alone' else exprs):
      names = sorted(s.name for s in e.free_symbols)
      vals = [round(rng.uniform(0.5, 2.), 3) for _ in names]
      res.append(fun(**dict(zip(names, vals))))
      if form == 'alone':
        res.append(fun(*vals)) # values in the order of the symbols
        res.append(fun({n: np.linspace(v, v + 1., 3) for n, v in zip(names, vals)}))
  for e in exprs:
    res.append([str(k) for k in getattr(pb.Expression(e), 'symbols', {}) or {}])
  field = pb.RF(*rvs.values())
  field.set_prob(exprs[-1])
  res.append([field.name, list(field.keylist)])
  res.append(field({n: {2} for n in prog['names']}))
  res.append(field({n: {-2} for n in prog['names']}))
  return res

def run_sample(prog, hook):
  import numpy as np
  import scipy.stats
  import probayes as pb
  rng = rng_of('sample', prog['key'])
  names = rng.sample(('x', 'yy', 'mu', 'b', 'longer_name'), 3)
  a = pb.RV(names[0], [-1., 2.], float)
  b = pb.RV(names[1], range(4))
  c = pb.RV(names[2], (-np.inf, np.inf), float)
  c.set_prob(scipy.stats.norm, loc=0.5, scale=2.)
  rf = pb.RF(a, b)
  res = [a({-4}), b({-5}), c(rng.uniform(-1, 1)), rf({0}), rf({a.name: {-3}, b.name: {-2}}), rf({'{},{}'.format(a.name, b.name): {-3}})]
  res += [a.evaluate({-2}), rf.name, (a & b & c).name]
  joint = a & b & c
  res += [joint.name, list(joint.keylist), joint({c.name: 0.5, a.name: {-2}, b.name: {-2}})]
  a.set_delta([0.25])
  res += [a.eval_delta(), a.apply_delta(0.5, a.eval_delta())]
  return res

def run_sympy(prog, hook):
  import sympy.stats
  import probayes as pb
  rng = rng_of('sympy', prog['key'])
  x = pb.RV('x', [-4., 4.], float)
  x.set_prob(sympy.stats.Normal(x[:], rng.choice((0.5, 1.)), rng.choice((1., 2.))))
  return [x({3}), x({-3}), x.evaluate({-2})]

def run_store(prog, hook):
  from dst import store
  rng = rng_of('store', prog['key'])
  res = []
  for _ in range(3):
    d = store.build(store.gen_spec(rng, True))
    res += [d, d.name, list(d)]
  return res

def run_algebra(prog, hook):
  import probayes as pb
  rng = rng_of('algebra', prog['key'])
  names = rng.sample(('x', 'yy', 'mu', 'b', 'longer_name', 'q0'), 3)
  a, b, c = [pb.RV(n, [0., float(i + 1)], float) if i % 2 == 0 else pb.RV(n, range(3)) for i, n in enumerate(names)]
  rf = pb.RF(a, b, c)
  full = rf({a.name: {2}, b.name: {3}, c.name: {2}})
  res = [full, full.marginalise([a.name, c.name]), full.marginal(b.name), full.marginal([b.name, c.name])]
  cond = full.conditionalise([a.name, b.name])
  res += [cond, cond.name, full.conditionalise(c.name)]
  pa, pb_, pc = a({2}), b({3}), c({2})
  res += [pa * pb_, pb.product(pa, pb_, pc), (pa * pb_).marginal(a.name)]
  m1 = full.conditionalise(c.name)
  res += [m1 * full.marginal(c.name)]
  return [res, [r.name for r in res if hasattr(r, 'name')]]

def run_one(prog, hook):
  from dst import compiler
  compiler.off()
  return globals()['run_' + prog['what']](prog, hook)

def perturb(proc):
  """ Another clock, other entropy, another Python random state """
  rng = rng_of('entropy', proc['entropy'])
  skew = proc['skew']
  for mod, names in ((time, ('time', 'monotonic', 'perf_counter')),):
    for n in names:
      setattr(mod, n, (lambda f: lambda: f() + skew)(getattr(mod, n)))
  time.time_ns = lambda: int(time.time() * 1e9)
  urandom = lambda k: rng.randbytes(k)
  os.urandom = urandom
  random._urandom = urandom
  random.seed(proc['entropy'])

def child(path, i):
  with open(path) as f:
    doc = json.load(f)
  proc = doc['procs'][i]
  perturb(proc)
  import warnings
  warnings.simplefilter('ignore')
  out = os.fdopen(os.dup(1), 'w')
  null = os.open(os.devnull, os.O_WRONLY)
  os.dup2(null, 1)
  import numpy as np
  np.seterr(all='ignore')
  from dst import lines
  from dst.chains import Hook
  order = list(range(len(doc['ops'])))
  if proc['order'] is not None:
    rng_of('order', proc['order']).shuffle(order)
  results, cut = {}, 0
  for pos, j in enumerate(order):
    for at, prog, fault in proc['history']:
      if at != pos:
        continue
      hook = Hook()
      try:
        if fault is None:
          run_one(prog, hook)
        elif fault[0] == 'fail':
          hook.arm(fault[1])
          run_one(prog, hook)
        else:
          cut += bool(lines.interrupt_at(fault[1], lambda: run_one(prog, hook))[1])
      except Injected:
        cut += 1
      except Exception: # (history: whatever it was)
        pass
    prog = doc['ops'][j]
    np.random.seed(prog['seed'])
    before = np.random.get_state()[1:3]
    try:
      res = ['ok', show(run_one(prog, Hook()))]
    except Exception as exc:
      res = ['raised', type(exc).__name__, brief(exc)[-600:]]
    after = np.random.get_state()[1:3]
    results[j] = [res, bool(before[1] != after[1] or (before[0] != after[0]).any())]
  json.dump({'results': results, 'cut': cut}, out)
  out.flush()

#------------------------------------------------------------------------------- in the parent
def differ(a, b, path=''):
  """ -> where two shown results differ, or None """
  if isinstance(a, float) and isinstance(b, float):
    if a == b or a != a and b != b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12):
      return None
    return '{}: {} vs {}'.format(path, a, b)
  if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
    for i, (x, y) in enumerate(zip(a, b)):
      d = differ(x, y, '{}.{}'.format(path, i))
      if d:
        return d
    return None
  return None if a == b else '{}: {} vs {}'.format(path, str(a)[:300], str(b)[:300])

def execute(plan, out):
  import tempfile
  with tempfile.NamedTemporaryFile('w', suffix='.json', prefix='dst-c07-', delete=False) as f:
    json.dump(plan, f)
  try:
    docs = []
    kids = []
    for i, proc in enumerate(plan['procs']):
      env = dict(os.environ, PYTHONHASHSEED=str(proc['hash']), VERIF_REPO=REPO)
      kids.append(subprocess.Popen([sys.executable, '-m', 'dst.c07', f.name, str(i)], env=env, cwd=HERE,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    for kid in kids:
      o, e = kid.communicate(timeout=140)
      if kid.returncode != 0:
        raise HarnessError('interpreter ended with {}: {}'.format(kid.returncode, e.decode()[-1500:]))
      docs.append(json.loads(o))
  finally:
    for kid in kids:
      if kid.poll() is None:
        kid.kill()
    os.unlink(f.name)
  first = docs[0]['results']
  drew = 0
  for j, prog in enumerate(plan['ops']):
    want, used = first[str(j)]
    drew += used
    out.record(prog['what'], want)
    out.count('programs ' + prog['what'])
    if want[0] != 'ok':
      out.count('programs that raise: ' + prog['what'])
    for i, doc in enumerate(docs[1:], 1):
      got, used_here = doc['results'][str(j)]
      d = differ(want[:2], got[:2])
      require(d is None, 'a seeded program does not repeat in another process',
              lambda: '{}: at {}\nhash seeds {} and {}\n{}'.format(
                  {k: v for k, v in prog.items() if k != 'cfg'}, d, plan['procs'][0]['hash'], plan['procs'][i]['hash'], str(got[-1])[-500:] if got[0] != 'ok' else '')[:1900])
  cut = sum(d['cut'] for d in docs)
  out.simtime += len(plan['ops']) * len(docs)
  out.fault('earlier program cut short', cut)
  out.fault('other hash seed', sum(p['hash'] != plan['procs'][0]['hash'] for p in plan['procs'][1:]))
  out.fault('clock jump', sum(p['skew'] != 0 for p in plan['procs']))
  out.fault('other order of programs', sum(p['order'] is not None for p in plan['procs']))
  out.count('programs that drew', drew)
  out.sched = [[p['hash'] for p in plan['procs']], [p['order'] for p in plan['procs']], [len(p['history']) for p in plan['procs']]]
  out.nontrivial = drew > 0 and cut > 0
  out.sample = {'programs': [p['what'] for p in plan['ops']], 'hash seeds': [p['hash'] for p in plan['procs']]}

def simplify(plan):
  procs = plan['procs']
  if len(procs) > 2:
    for i in range(1, len(procs)):
      yield dict(plan, procs=procs[:i] + procs[i + 1:])
  for i, p in enumerate(procs):
    if p['history']:
      yield dict(plan, procs=procs[:i] + [dict(p, history=[])] + procs[i + 1:])
    if p['order'] is not None:
      yield dict(plan, procs=procs[:i] + [dict(p, order=None)] + procs[i + 1:])
    if p['skew']:
      yield dict(plan, procs=procs[:i] + [dict(p, skew=0.)] + procs[i + 1:])

if __name__ == '__main__':
  child(sys.argv[1], int(sys.argv[2]))
