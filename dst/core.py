""" Shared vocabulary of the simulator: seeds, violations, digests, guarded calls.

A *plan* is a JSON object {'prop', 'seed', 'cfg', 'ops'} that decides everything a
simulated run does: configuration, order of operations, every random stream and
every fault.  generate(seed) -> plan is a pure function; execute(plan) -> Outcome
is a pure function of the plan and of the code in /repo.
"""
import hashlib
import json
import os
import random
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
if sys.path[:1] != [REPO]:
  sys.path.insert(0, REPO)

#-------------------------------------------------------------------------------
class Violation(Exception):
  """ The property does not hold in this run. `kind` identifies the violation
  class (it must survive minimisation), `detail` is for the reader. """
  def __init__(self, kind, detail=''):
    super().__init__(kind, detail)
    self.kind = kind
    self.detail = str(detail)[:2000]

class Injected(Exception):
  """ A fault injected by the simulator through a user callback. """

class InjectedValue(Injected, ValueError):
  pass

class InjectedArithmetic(Injected, FloatingPointError):
  pass

class InjectedType(Injected, TypeError):
  pass

class InjectedKey(Injected, KeyError):
  pass

class InjectedAttribute(Injected, AttributeError):
  pass

class InjectedRuntime(Injected, RuntimeError):
  pass

def injected(where, n):
  """ The failure of a user function, of one of the types such functions raise """
  types = (Injected, InjectedValue, InjectedArithmetic, InjectedType, InjectedKey, InjectedAttribute, InjectedRuntime)
  return types[n % len(types)](where)

class InjectedInterrupt(KeyboardInterrupt):
  """ An asynchronous interrupt injected by the simulator. """

class HarnessError(Exception):
  """ The simulator itself misbehaved: never reported as a violation. """

#-------------------------------------------------------------------------------
def rng_of(*parts):
  """ Deterministic PRNG named by parts. """
  return random.Random(':'.join(str(p) for p in parts))

def int_of(*parts):
  h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
  return int.from_bytes(h[:6], 'big')

#-------------------------------------------------------------------------------
class Outcome:
  """ What a run reports: counters, the interleaving signature, the history. """
  def __init__(self):
    self.stats = {}        # counters (summed over runs)
    self.faults = {}       # fault kind -> times fired
    self.sched = None      # signature of the schedule / state reached
    self.nontrivial = False
    self.simtime = 0       # simulated steps
    self.hist = hashlib.sha256()
    self.sample = None     # short human readable account

  def count(self, key, n=1):
    self.stats[key] = self.stats.get(key, 0) + n

  def fault(self, key, n=1):
    self.faults[key] = self.faults.get(key, 0) + n

  def record(self, *things):
    self.hist.update(repr(things).encode())

  def digest(self):
    return self.hist.hexdigest()[:16]

  def as_dict(self):
    return {'stats': self.stats, 'faults': self.faults, 'sched': self.sched,
            'nontrivial': bool(self.nontrivial), 'simtime': self.simtime,
            'digest': self.digest(), 'sample': self.sample}

#-------------------------------------------------------------------------------
def in_repo(tb):
  """ Whether a traceback goes through code of the repository. """
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
      return True
    tb = tb.tb_next
  return False

def brief(exc):
  return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-1500:]

def must(what, fun, *args, **kwds):
  """ Calls into the code under test where the property says it succeeds. """
  try:
    return fun(*args, **kwds)
  except (Violation, HarnessError, Injected, InjectedInterrupt, MemoryError):
    raise
  except Exception as exc:
    raise Violation(what + ' raised ' + type(exc).__name__, brief(exc))

def require(cond, kind, detail=''):
  if not cond:
    raise Violation(kind, detail() if callable(detail) else detail)

#-------------------------------------------------------------------------------
def dumps(obj):
  return json.dumps(obj, sort_keys=True)
