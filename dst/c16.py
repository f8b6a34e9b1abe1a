""" C16: expressions evaluate whatever happens to the compiler. """
import math
import os
import sys
import numpy as np
import scipy.stats
import sympy
import sympy.stats
from dst import compiler, simrng, store
from dst.core import rng_of, require, must, InjectedInterrupt, HarnessError
import probayes as pb

PRELOAD = True
BUDGET = {'quick': {'runs': 1600, 'wall': 300}, 'thorough': {'runs': 40000, 'wall': 3000}}
RULE = ('a run builds a seeded symbolic expression over 1-3 variables, alone, in a tuple or dictionary, as density of a '
        'variable or field, as transform of a variable or as a sympy distribution, while every compilation meets a seeded '
        'fate (success, no program, no process, failing, killed, empty-handed or torn output, undecodable messages, no '
        'temporary folder, full disk or I/O error at a seeded disk event, interrupt); the values at seeded scalar, array '
        'and grid arguments are compared with an independent evaluation; non-trivial when a compilation met a fault and '
        'at least two forms of arguments were evaluated')
SCHEDULE_MEASURE = 'distinct (use, expression, fates of the compilations)'
REAL = ['probayes (all of it)', 'numpy', 'scipy', 'sympy', 'the C compiler (in runs without compiler faults)']
STUBS = ['start of programs (fails, or runs a program that misbehaves)', 'temporary folder (fails)',
         'system calls on files of the temporary folder go through the fault shim']
ASSUMPTIONS = ['a compiler that reports success and links has made correct code',
               'the Python and NumPy needed to evaluate without compilation work']

NAMES = ('x', 'y', 'zeta', 'a1')

def gen_tree(rng, names, depth):
  if depth == 0 or rng.random() < 0.15:
    if rng.random() < 0.7:
      return ['v', rng.choice(names)]
    return ['c', rng.choice((2, -1, 0.5, 1.25, 3))]
  op = rng.choice(('+', '-', '*', '*', 'exp', 'sin', 'cos', 'sq', 'sqrt', 'log', 'tanh', 'frac'))
  if op in '+-*':
    return [op, gen_tree(rng, names, depth - 1), gen_tree(rng, names, depth - 1)]
  return [op, gen_tree(rng, names, depth - 1)]

RESERVED = ['E', 'N', 'S', 'Q', 'O', 'beta', 'gamma', 'zeta']

def value(tree, vals, lib):
  """ Evaluates a tree, with sympy functions (lib sympy) or independently (numpy) """
  op = tree[0]
  if op == 'v':
    return vals[tree[1]]
  if op == 'c':
    return tree[1] if lib is np else sympy.sympify(tree[1])
  a = value(tree[1], vals, lib)
  if op in ('+', '-', '*'):
    b = value(tree[2], vals, lib)
    return a + b if op == '+' else a - b if op == '-' else a * b
  if op == 'sq':
    return a ** 2
  if op == 'exp':
    return lib.exp(lib.tanh(a))
  if op == 'sqrt':
    return lib.sqrt(1 + a ** 2)
  if op == 'log':
    return lib.log(2 + a ** 2)
  if op == 'frac':
    return a / (1 + a ** 2)
  return getattr(lib, op)(a)

def used(tree):
  if tree[0] == 'v':
    return {tree[1]}
  return set().union(*[used(t) for t in tree[1:] if isinstance(t, list)]) if tree[0] != 'c' else set()

def generate(seed, tier):
  rng = rng_of('C16', seed)
  use = rng.choice(('alone', 'alone', 'alone', 'tuple', 'dict', 'density', 'field', 'transform', 'sympy'))
  n = rng.choice((1, 2, 2, 3)) if use in ('alone', 'tuple', 'dict') else 2 if use == 'field' else 1
  names = rng.sample(NAMES, n)
  symbols = 'plain'
  if use in ('alone', 'tuple', 'dict'): # any symbols can be used there
    symbols = rng.choice(('plain', 'plain', 'positive', 'reserved'))
    if symbols == 'reserved': # names that mean something else to sympy
      names = rng.sample(RESERVED, n)
  trees = []
  for _ in range(rng.choice((2, 3)) if use in ('tuple', 'dict') else 1):
    while True:
      tree = gen_tree(rng, names, rng.choice((1, 2, 3)))
      syms = {n: sympy.Symbol(n) for n in names}
      free = {s.name for s in sympy.sympify(value(tree, syms, sympy)).free_symbols}
      if free == used(tree) and (free == set(names) or use in ('tuple', 'dict') and free): # nothing cancels
        break
    trees.append(tree)
  x = rng.random()
  disk = None
  fates, default = [], 'no compiler'
  if x < 0.012:
    default = 'works'
  elif x < 0.035:
    fates, default = [rng.choice(compiler.STAGES)], 'works'
  elif x < 0.2:
    default = 'no compiler'
    disk = [rng.randrange(12), rng.choice(('enospc', 'eio', 'torn', 'openerr', 'full')), rng.choice((0, 10, 300))]
  elif x < 0.27:
    fates = ['interrupt']
  else:
    fates = [rng.choice(compiler.STAGES) for _ in range(8)]
    default = rng.choice(compiler.STAGES)
  evals = [[rng.choice(('scalar', 'scalar', 'mapping', 'positional', 'array', 'array', 'grid', 'column', 'integer', 'integers')),
            rng.randrange(10 ** 6)] for _ in range(rng.choice((2, 4, 6)))]
  dist = rng.choice(('Normal', 'Exponential', 'Beta', 'Poisson'))
  pars = [rng.choice((0.5, 1., 1.5, 2.)), rng.choice((0.5, 1., 1.5, 2.))] # (sympy must be able to invert)
  if dist == 'Beta' and pars == [1., 1.]: # (constant: nothing to evaluate)
    pars = [1.5, 2.]
  translation = rng.choice(sorted(compiler.TRANSLATION)) if default != 'works' and use != 'sympy' and rng.random() < 0.3 else None
  return {'prop': 'C16', 'seed': seed, 'use': use, 'symbols': symbols, 'translation': translation, 'names': names, 'trees': trees, 'fates': fates, 'default': default,
          'disk': disk, 'ops': evals, 'dist': dist, 'pars': pars}

def build(plan):
  """ -> object, {name: variable} """
  use, names = plan['use'], plan['names']
  if use == 'sympy':
    return build_sympy(plan)
  rvs = {n: pb.RV(n, vtype=float, vset=[0.5, 2.5]) for n in names}
  syms = {n: rv[:] for n, rv in rvs.items()}
  if plan['symbols'] != 'plain':
    syms = {n: sympy.Symbol(n, **({'positive': True} if plan['symbols'] == 'positive' else {})) for n in names}
    rvs = syms
  exprs = [sympy.sympify(value(t, syms, sympy)) for t in plan['trees']]
  if use == 'alone':
    return pb.Expression(exprs[0]), rvs
  if use == 'tuple':
    return pb.Expression(tuple(exprs)), rvs
  if use == 'dict':
    return pb.Expression({'e{}'.format(i): e for i, e in enumerate(exprs)}), rvs
  if use == 'density':
    rvs[names[0]].set_prob(exprs[0])
    return rvs[names[0]], rvs
  if use == 'field':
    rf = pb.RF(*[rvs[n] for n in names])
    rf.set_prob(exprs[0])
    return rf, rvs
  var = rvs[names[0]]
  var.set_ufun(sympy.log(syms[names[0]]))
  return var, rvs

def build_sympy(plan):
  dist, (a, b) = plan['dist'], plan['pars']
  name = plan['names'][0]
  vtype, vset = float, [0.05, 0.95]
  pars = (a, b)
  if dist == 'Poisson':
    vtype, vset, pars = int, range(12), (a,)
  elif dist == 'Exponential':
    pars = (a,)
  rv = pb.RV(name, vtype=vtype, vset=vset)
  rv.set_prob(getattr(sympy.stats, dist)(rv[:], *pars))
  return rv, {name: rv}

def sympy_ref(plan, v):
  dist, (a, b) = plan['dist'], plan['pars']
  if dist == 'Normal':
    return scipy.stats.norm.pdf(v, a, b)
  if dist == 'Exponential':
    return scipy.stats.expon.pdf(v, scale=1. / a)
  if dist == 'Beta':
    return scipy.stats.beta.pdf(v, a, b)
  return scipy.stats.poisson.pmf(v, a)

def close(got, want, what, detail):
  got, want = np.asarray(got), np.asarray(want)
  require(got.dtype.kind in 'fib', 'a value is not a number', lambda: '{} {!r}'.format(detail, got)[:900])
  require(got.shape == want.shape, 'values have another shape ' + what, lambda: '{}: {} vs {}'.format(detail, got.shape, want.shape))
  require(np.allclose(np.asarray(got, dtype=float), np.asarray(want, dtype=float), rtol=1e-9, atol=1e-11, equal_nan=True),
          'wrong value ' + what, lambda: '{}: {} vs {}'.format(detail, got, want)[:900])

def arguments(form, rng, names):
  """ -> values by name, all of one type """
  one = lambda: round(rng.uniform(0.5, 2.5), 4)
  if form == 'integer':
    return {n: rng.randint(1, 3) for n in names}
  if form == 'array':
    m = rng.choice((1, 2, 5))
    return {n: np.array([one() for _ in range(m)]) for n in names}
  if form == 'integers':
    m = rng.choice((2, 3))
    return {n: np.array([rng.randint(1, 3) for _ in range(m)]) for n in names}
  if form == 'column':
    first = names[0]
    return {n: np.array([one() for _ in range(3)]) if n == first else one() for n in names}
  if form == 'grid':
    res = {}
    for i, n in enumerate(names):
      shape = [1] * len(names)
      shape[i] = rng.choice((2, 3))
      res[n] = np.array([one() for _ in range(shape[i])]).reshape(shape)
    return res
  return {n: one() for n in names}

def evaluate(plan, obj, rvs, form, k, out):
  use, names, trees = plan['use'], plan['names'], plan['trees']
  rng = rng_of('args', plan['seed'], k)
  detail = '{} {} {} fates {}'.format(use, form, trees, plan['fates'][:2] + [plan['default'], plan['translation']])
  if use == 'sympy':
    detail = '{} {} {}'.format(plan['dist'], plan['pars'], form)
    name = names[0]
    integer = plan['dist'] == 'Poisson'
    size = 4
    if form in ('array', 'grid', 'column', 'integers'):
      arg = np.arange(size) if integer else np.array([rng.uniform(0.1, 0.9) for _ in range(rng.choice((2, 4)))])
    else:
      arg = rng.randrange(size) if integer else rng.uniform(0.1, 0.9)
    res = must('evaluating', obj, {name: arg} if form == 'mapping' else arg)
    close(res.prob, sympy_ref(plan, arg), 'of a density', detail)
    close(res[name], arg, 'of a variable', detail)
    return
  if use == 'transform':
    name = names[0]
    m = rng.choice((3, 5))
    res = must('evaluating', obj, {m})
    want = np.exp(np.linspace(math.log(0.5), math.log(2.5), m))
    close(res[name], want, 'of a transformed grid', detail)
    x, d = rng.uniform(0.8, 1.5), rng.uniform(-0.2, 0.2)
    got = must('stepping', obj.apply_delta, x, d)
    got = got[name] if isinstance(got, dict) else got
    close(got, math.exp(math.log(x) + d), 'of a transformed step', detail)
    return
  if use in ('density', 'field'):
    if form in ('positional', 'integer', 'integers'):
      form = 'scalar'
    vals = arguments(form, rng, names)
    if use == 'field' and form == 'array': # arrays of different variables make a grid
      form = 'grid'
      vals = {n: v for n, v in vals.items()}
      res = must('evaluating', obj, dict(vals))
      want = {n: v.reshape([-1 if j == i else 1 for j in range(len(names))]) for i, (n, v) in enumerate(vals.items())} \
          if np.size(vals[names[0]]) > 1 else {n: v for n, v in vals.items()}
      ref = value(trees[0], {n: np.asarray(res[n], dtype=float) for n in names}, np)
      close(res.prob, np.broadcast_to(ref, np.shape(res.prob)), 'of a density', detail)
      for n in names:
        close(np.ravel(res[n]), np.ravel(vals[n]), 'of a variable', detail)
      return
    if use == 'field' and form == 'grid':
      vals = {n: np.ravel(v) for n, v in vals.items()}
    res = must('evaluating', obj, dict(vals))
    ref = value(trees[0], {n: np.asarray(res[n], dtype=float) for n in names}, np)
    close(res.prob, np.broadcast_to(ref, np.shape(res.prob)), 'of a density', detail)
    for n in names:
      close(np.ravel(res[n]), np.ravel(vals[n]), 'of a variable', detail)
    return
  for i, tree in enumerate(trees):
    mine = sorted(used(tree)) if use != 'alone' else sorted(names)
    vals = arguments(form, rng, mine)
    fun = obj if use == 'alone' else obj[i] if use == 'tuple' else obj['e{}'.format(i)]
    if form == 'mapping':
      got = must('evaluating', fun, {rvs[n]: v for n, v in vals.items()} if k % 2 else dict(vals))
    elif form == 'positional' and use == 'alone' and len(mine) == len(names):
      got = must('evaluating', fun, *[vals[n] for n in sorted(names)])
    else:
      got = must('evaluating', fun, **vals)
    want = value(tree, {n: np.asarray(v, dtype=float) for n, v in vals.items()}, np)
    close(got, want, 'of an expression', detail)

def execute(plan, out):
  disk = store.Disk()
  try:
    run(plan, out, disk)
  finally:
    compiler.on()
    disk.remove()

def run(plan, out, disk):
  simrng.use('build')
  cwd, path = os.getcwd(), list(sys.path)
  with compiler.Seam(plan['fates'], plan['default'], disk.dir, plan['translation']) as seam:
    if plan['disk']:
      disk.arm([tuple(plan['disk'])])
    fired = []
    try:
      obj, rvs = must('building', build, plan)
    except InjectedInterrupt:
      out.fault('compilation: interrupt')
      require(os.getcwd() == cwd, 'the working folder was changed')
      obj, rvs = must('building', build, plan)
    if plan['disk']:
      n, fired = disk.disarm()
      out.simtime += n
    os.chdir(cwd)
    for form, k in plan['ops']:
      out.simtime += 1
      evaluate(plan, obj, rvs, form, k, out)
      out.record(form)
  for f in seam.fired:
    if f != 'interrupt':
      out.fault('compilation: ' + f)
  for what, f in fired:
    out.fault('disk: {} of {}'.format({v: n for n, v in store.KINDS.items()}.get(f, f), what))
  if plan['default'] == 'works':
    out.count('runs with real compilation')
  require(os.getcwd() == cwd, 'the working folder was changed')
  require(sys.path == path, 'the module path was changed')
  out.count('use ' + plan['use'])
  out.sched = [plan['use'], plan['trees'], seam.fired[:6], fired[:4]]
  out.nontrivial = bool(seam.fired or fired) and len({f for f, _ in plan['ops']}) > 1
  out.sample = {'use': plan['use'], 'trees': plan['trees'], 'compilations': seam.fired[:3], 'arguments': [f for f, _ in plan['ops']]}

def simplify(plan):
  if plan['disk']:
    yield dict(plan, disk=None)
  if plan['translation']:
    yield dict(plan, translation=None)
  if plan['fates']:
    yield dict(plan, fates=plan['fates'][:1])
    yield dict(plan, fates=[])
