""" Distributions to save, the disk seam, and what a file must hold. """
import ctypes
import os
import shutil
import tempfile
import numpy as np
from dst.core import rng_of, HarnessError, require, must
from dst.chains import NAMES
import probayes as pb

#-------------------------------------------------------------------------------
# Disk seam
KINDS = {'eio': 1, 'enospc': 2, 'short': 3, 'eintr': 4, 'crash': 5, 'torn': 6, 'openerr': 7, 'full': 8, 'flip': 9, 'eintr_rw': 10}
OPS = {1: 'open', 2: 'read', 3: 'write', 4: 'truncate', 5: 'sync', 6: 'close', 7: 'rename', 8: 'unlink'}

class Disk:
  """ Fault plan of the LD_PRELOAD shim, for files below one scratch folder """
  def __init__(self):
    self.lib = ctypes.CDLL(None)
    try:
      self.lib.iosim_present
    except AttributeError:
      raise HarnessError('the disk shim is not loaded')
    for name in ('iosim_events', 'iosim_fired', 'iosim_nlog'):
      getattr(self.lib, name).restype = ctypes.c_long
    self.dir = tempfile.mkdtemp(prefix='vdst.')
    self.lib.iosim_prefix(self.dir.encode())
    self.lib.iosim_reset()
    self.lib.iosim_enable(0)

  def arm(self, faults):
    """ faults: list of (event, kind, arg) """
    self.lib.iosim_reset()
    for event, kind, arg in faults:
      self.lib.iosim_plan(ctypes.c_long(event), ctypes.c_int(KINDS[kind]), ctypes.c_long(arg))
    self.lib.iosim_enable(1)

  def disarm(self):
    """ -> (number of disk events, [(op, fault)] of those where a fault fired) """
    self.lib.iosim_enable(0)
    n = self.lib.iosim_events()
    return n, [(op, f) for op, f in self.log() if f]

  def log(self):
    res = []
    buf = (ctypes.c_long * 4)()
    for i in range(self.lib.iosim_nlog()):
      self.lib.iosim_log(ctypes.c_long(i), buf)
      res.append((OPS.get(buf[0], '?'), buf[3]))
    return res

  def full_fired(self):
    return self.lib.iosim_fired(KINDS['full'])

  def path(self, i):
    return os.path.join(self.dir, 'f{}.hdf'.format(i))

  def link(self, i):
    """ File i is to be reached through a symbolic link """
    sub = os.path.join(self.dir, 'elsewhere')
    os.makedirs(sub, exist_ok=True)
    os.symlink(os.path.join(sub, 'g{}.hdf'.format(i)), self.path(i))

  def names(self):
    return {os.path.relpath(os.path.join(d, f), self.dir) for d, _, fs in os.walk(self.dir) for f in fs}

  def remove(self):
    self.lib.iosim_enable(0)
    shutil.rmtree(self.dir, ignore_errors=True)

#-------------------------------------------------------------------------------
# Distributions
def gen_spec(rng, small=False):
  kind = rng.choice(('pd', 'pd', 'call', 'call', 'joint', 'cond', 'marg', 'prod', 'plain', 'set', 'scalar', 'step'))
  return {'kind': kind, 'seed': rng.randrange(10 ** 9), 'n': rng.choice((1, 2, 3)), 'names': rng.sample(NAMES, 4),
          'size': rng.choice((2, 3, 5)) if small else rng.choice((1, 2, 3, 5, 9, 40, 300)), 'log': rng.random() < 0.4}

def array(rng, size, vtype):
  if vtype == 'float':
    vals = [rng.choice((0., -1.5, 1e-300, -1e300, np.pi, np.inf, -np.inf, 5e-324, rng.uniform(-5, 5))) for _ in range(size)]
    return np.array(vals, dtype=float)
  if vtype == 'int':
    return np.array([rng.choice((0, -1, 2 ** 40, rng.randint(-9, 9))) for _ in range(size)], dtype=int)
  return np.array([rng.random() < 0.5 for _ in range(size)], dtype=bool)

def build(spec):
  """ A distribution, always the same for the same spec """
  rng = rng_of('dist', spec['seed'])
  kind, n, names = spec['kind'], spec['n'], spec['names']
  size = spec['size'] if n == 1 else min(spec['size'], 12)
  pk = {'pscale': 'log'} if spec['log'] else {}
  if kind in ('pd', 'plain', 'set', 'scalar'):
    vals, dims, shape, dim = {}, {}, [], 0
    for i in range(n):
      vtype = rng.choice(('float', 'float', 'int', 'bool'))
      if kind == 'scalar' or (i and rng.random() < 0.35):
        vals[names[i]] = array(rng, 1, vtype).tolist()[0]
        dims[names[i]] = None
      elif kind == 'set' and i == n - 1:
        vals[names[i]] = {rng.choice((0, 1, 4, 30))}
        dims[names[i]] = None
      else:
        m = size if i == 0 else rng.choice((2, 3, 4))
        vals[names[i]] = array(rng, max(2, m), vtype)
        dims[names[i]] = dim
        shape.append(max(2, m))
        dim += 1
    ndim = len(shape)
    for key, d in dims.items():
      if d is not None and ndim > 1:
        s = [1] * ndim
        s[d] = shape[d]
        vals[key] = vals[key].reshape(s)
    if kind in ('plain', 'set'):
      return pb.Distribution('d', vals, dims=dims)
    if shape:
      prob = np.array([rng.uniform(0.01, 1.) for _ in range(int(np.prod(shape)))]).reshape(shape)
      prob = np.log(prob) if spec['log'] else prob
    else:
      prob = rng.uniform(0.01, 1.) - (2. if spec['log'] else 0.)
    name = ','.join(names[:n])
    if n > 1 and rng.random() < 0.3:
      name = ','.join(names[:n - 1]) + '|' + names[n - 1]
    if not spec['log'] and rng.random() < 0.3:
      pk = {'pscale': round(rng.uniform(1., 4.), 3)}
    return pb.PD(name, vals, dims=dims, prob=prob, **pk)
  rvs = []
  for i in range(max(2, n) if kind != 'step' else 1):
    vt = rng.choice(('float', 'float', 'int'))
    if vt == 'float':
      lo = rng.uniform(-2, 1)
      rvs.append(pb.RV(names[i], [lo, lo + 2.], float, **pk))
    else:
      rvs.append(pb.RV(names[i], range(rng.choice((2, 4))), **pk))
  if kind == 'step':
    m = rng.choice((2, 3, 5))
    rv = pb.RV(names[0], range(m))
    mat = np.array([[rng.uniform(0.1, 1.) for _ in range(m)] for _ in range(m)])
    rv.set_tran(mat / mat.sum(axis=0))
    return rv.step()
  field = pb.RF(*rvs)
  spec_vals = {rv.name: {rng.choice((2, 3, 4))} for rv in rvs}
  if kind == 'call':
    if rng.random() < 0.3:
      spec_vals[rvs[-1].name] = rvs[-1].vlims[0] + 0.5 if rvs[-1].vtype is float else 0
    return field(spec_vals)
  if kind == 'joint':
    k = rng.choice((2, 3, 6))
    return field({','.join(rv.name for rv in rvs): {k}})
  full = field(spec_vals)
  if kind == 'marg':
    return full.marginalise(rvs[0].name)
  if kind == 'cond':
    return full.conditionalise(rvs[0].name)
  return rvs[0]({3}) * rvs[1]({4})

#-------------------------------------------------------------------------------
def same_value(a, b):
  if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
    return isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and set(map(int, a)) == set(map(int, b))
  if a is None or b is None:
    return a is None and b is None
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
    return False
  return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))

def difference(want, got):
  """ None if got equals the distribution that was saved, else what differs """
  if isinstance(want, pb.PD) != isinstance(got, pb.PD):
    return 'type {}'.format(type(got))
  if list(want.keys()) != list(got.keys()):
    return 'variables {} vs {}'.format(list(want.keys()), list(got.keys()))
  for key in want.keys():
    if not same_value(want[key], got[key]):
      return 'values of {}: {} vs {}'.format(key, want[key], got[key])
  a = {k: (None if d is None else int(d)) for k, d in want.dims.items()}
  b = {k: (None if d is None else int(d)) for k, d in got.dims.items()}
  if a != b:
    return 'dimensions {} vs {}'.format(a, b)
  if isinstance(want, pb.PD):
    if not same_value(want.prob, got.prob):
      return 'probabilities {} vs {}'.format(want.prob, got.prob)
    if complex(want.pscale) != complex(got.pscale) or \
        isinstance(want.pscale, complex) != isinstance(got.pscale, complex):
      return 'scale {} vs {}'.format(want.pscale, got.pscale)
    if want.short_name != got.short_name:
      return 'name {} vs {}'.format(want.short_name, got.short_name)
  return None

def mismatch(wants, gots):
  """ Compares what a file should hold with what was read from it """
  gots = list(gots)
  if len(wants) != len(gots):
    return 'holds {} distributions instead of {}'.format(len(gots), len(wants))
  named = {g.short_name: g for g in gots}
  for want in wants:
    if want.short_name not in named:
      return 'lost {}'.format(want.short_name)
    diff = difference(want, named[want.short_name])
    if diff is not None:
      return '{}: {}'.format(want.short_name, diff)
  return None

def frozen(dist):
  """ Deep, comparable picture of a distribution """
  def one(v):
    if isinstance(v, set):
      return ('set', tuple(sorted(v)))
    if isinstance(v, np.ndarray):
      return (v.shape, str(v.dtype), v.tobytes(), v.flags.writeable)
    return (type(v).__name__, repr(v))
  res = [type(dist).__name__, dist.name, [(k, one(v)) for k, v in dist.items()],
         [(k, type(d).__name__, d) for k, d in dist.dims.items()], dist.short_name]
  if isinstance(dist, pb.PD):
    res += [one(dist.prob), repr(dist.pscale), list(dist.marg.items()), list(dist.cond.items())]
  return repr(res)

def gen_group(rng, small=False):
  """ Specs of distributions that may be saved together (distinct names) """
  specs, seen = [], set()
  for _ in range(rng.choice((1, 1, 2, 3))):
    spec = gen_spec(rng, small)
    key = tuple(spec['names'])
    if any(set(key) & s for s in seen):
      continue
    seen.add(frozenset(key))
    specs.append(spec)
  return specs
