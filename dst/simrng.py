""" The randomness seam: NumPy's global generator draws its bits from here.

numpy.random.* and scipy's rvs (the only sources of randomness of probayes) use the
global RandomState.  numpy.random.set_bit_generator() lets us own it at the root:
each simulated step runs on its own named stream, and with probability `bug` a raw
draw is replaced by an extreme but legal one (0, the largest double below 1, values
at and next to the middle), which ordinary generators practically never produce.
"""
import ctypes
import threading
import numpy as np
from dst.core import rng_of

_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)

class _BitGen(ctypes.Structure):
  _fields_ = [('state', ctypes.c_void_p), ('next_uint64', _U64),
              ('next_uint32', _U32), ('next_double', _DBL), ('next_raw', _U64)]

_capsule_new = ctypes.pythonapi.PyCapsule_New
_capsule_new.restype = ctypes.py_object
_capsule_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]

EDGE_DBL = (0., 1. - 2.**-53, 2.**-53, 0.5, 0.5 - 2.**-54, 1. - 2.**-52, 0.25)
EDGE_BITS = (0, -1, 1, -2)

class SimBitGenerator:
  """ A BitGenerator whose every output is decided by a named stream. """
  def __init__(self):
    self._callbacks = _BitGen(None, _U64(self._u64), _U32(self._u32),
                              _DBL(self._dbl), _U64(self._u64))
    self.capsule = _capsule_new(ctypes.addressof(self._callbacks),
                                b"BitGenerator", None)
    self.lock = threading.Lock()
    self.draws = 0
    self.edges = 0
    self._bug = 0.
    self._rng = rng_of('idle')
    self._last_edge = False
    self._threads = {}          # thread -> its own stream

  def own_stream(self, name):
    """ What the calling thread draws from here on comes from its own stream """
    self._threads[threading.get_ident()] = rng_of('stream', name)

  def shared_stream(self):
    self._threads.clear()

  def _source(self):
    return self._threads.get(threading.get_ident(), self._rng) if self._threads else self._rng

  def stream(self, name, bug=0.):
    self._rng = rng_of('stream', name)
    self._bug = bug
    self._last_edge = False

  def _edge(self):
    # never two edges in a row: rejection loops must always terminate
    if self._bug and not self._last_edge and self._rng.random() < self._bug:
      self._last_edge = True
      self.edges += 1
      return True
    self._last_edge = False
    return False

  def _u64(self, _):
    self.draws += 1
    if self._edge():
      return self._rng.choice(EDGE_BITS) & 0xFFFFFFFFFFFFFFFF
    return self._source().getrandbits(64)

  def _u32(self, _):
    self.draws += 1
    if self._edge():
      return self._rng.choice(EDGE_BITS) & 0xFFFFFFFF
    return self._source().getrandbits(32)

  def _dbl(self, _):
    self.draws += 1
    if self._edge():
      return self._rng.choice(EDGE_DBL)
    return self._source().random()

#-------------------------------------------------------------------------------
_SIM = None
_ORIG = None
_ORIG_DEFAULT_RNG = None

def install():
  """ Puts the simulated generator behind numpy.random. """
  global _SIM, _ORIG, _ORIG_DEFAULT_RNG
  if _SIM is None:
    _SIM = SimBitGenerator()
    _ORIG = np.random.get_bit_generator()
    _ORIG_DEFAULT_RNG = np.random.default_rng
    def default_rng(seed=None):
      if seed is None: # unseeded generators must not escape the simulation
        seed = np.random.randint(0, 2**31 - 1)
      return _ORIG_DEFAULT_RNG(seed)
    np.random.default_rng = default_rng
  np.random.set_bit_generator(_SIM)
  return _SIM

def use(name, bug=0.):
  """ Runs what follows on the named stream (also drops NumPy's cached normal). """
  sim = install()
  sim.stream(name, bug)
  np.random.set_bit_generator(sim)
  return sim

def real():
  """ Restores NumPy's own generator. """
  if _ORIG is not None:
    np.random.set_bit_generator(_ORIG)
    np.random.default_rng = _ORIG_DEFAULT_RNG
  globals()['_SIM'] = None
