""" Line-level control of repository code through sys.settrace.

interrupt_at(n, fun): runs fun and raises InjectedInterrupt just before the n-th
line of repository code is executed (a signal handler could strike there).
Threads: runs real threads of which exactly one proceeds at any time; the seeded
schedule decides at every line of repository code who goes on (in lockstep: the
threads take turns line by line).
"""
import os
import sys
import threading
from dst.core import REPO, InjectedInterrupt, HarnessError, rng_of

PREFIX = REPO + os.sep

class Counter:
  def __init__(self, fire_at=None, exc=InjectedInterrupt):
    self.n = 0
    self.fire_at = fire_at
    self.fired = None
    self.exc = exc

  def trace(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(PREFIX):
      return None
    return self.local

  def local(self, frame, event, arg):
    if event == 'line':
      self.n += 1
      if self.fire_at is not None and self.n > self.fire_at and self.fired is None:
        self.fired = '{}:{}'.format(os.path.basename(frame.f_code.co_filename), frame.f_lineno)
        raise self.exc(self.fired)
    return self.local

def interrupt_at(n, fun, exc=InjectedInterrupt):
  """ -> (result, None, lines) or (None, place, lines) when the interrupt struck """
  c = Counter(n, exc)
  old = sys.gettrace()
  sys.settrace(c.trace)
  try:
    res = fun()
  except exc:
    if c.fired is None:
      raise
    return None, c.fired, c.n
  finally:
    sys.settrace(old)
  return res, None, c.n

#-------------------------------------------------------------------------------
class Threads:
  """ Cooperative execution of real threads, preempted at repository lines.

  A thread that waits for something another one holds (a lock) makes no progress:
  the watchdog then passes the turn on, and the thread queues up again at its next line. """
  STALL_S = 0.5

  def __init__(self, seed, quantum, lag=None):
    self.rng = rng_of('threads', seed)
    self.lag = lag              # lockstep: take turns line by line, the first thread ahead by so many
    self.quantum = quantum      # mean number of lines between preemptions
    self.baton = []             # one semaphore per thread
    self.alive = []
    self.blocked = set()
    self.left = 0
    self.switches = 0
    self.lines = 0
    self.stalls = 0
    self.trail = []
    self.running = None
    self.lock = threading.Lock()
    self.done = threading.Semaphore(0)
    self.results = []
    self.tids = {}

  def _quantum(self):
    if self.lag is not None:
      return 1
    return 1 + int(self.rng.expovariate(1. / self.quantum))

  def _trace(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(PREFIX):
      return None
    return self._local

  def _local(self, frame, event, arg):
    if event == 'line':
      self.lines += 1
      if self.blocked:
        me = self.tids[threading.get_ident()]
        with self.lock:
          self.blocked.discard(me)
          mine = self.running == me
        if not mine:
          self._wait(me)
      self.left -= 1
      if self.left <= 0:
        self._switch()
    return self._local

  def _wait(self, me):
    if not self.baton[me].acquire(timeout=130):
      raise HarnessError('thread starved')

  def _switch(self):
    me = self.tids[threading.get_ident()]
    with self.lock:
      others = [i for i, a in enumerate(self.alive) if a and i not in self.blocked]
      if self.lag is None:
        nxt = self.rng.choice(others)
      else:
        nxt = min(others, key=lambda i: (i - me - 1) % len(self.alive))
      self.left = self._quantum()
      if nxt == me:
        return
      self.switches += 1
      self._pass(nxt)
    self._wait(me)

  def _pass(self, nxt):
    if len(self.trail) < 4000:
      self.trail.append(nxt)
    self.running = nxt
    self.baton[nxt].release()

  def _body(self, i, fun):
    self.tids[threading.get_ident()] = i
    if not self.baton[i].acquire(timeout=130):
      return
    sys.settrace(self._trace)
    try:
      res = ('ok', fun())
    except BaseException as exc:
      res = ('exc', exc)
    finally:
      sys.settrace(None)
    with self.lock:
      self.results[i] = res
      self.alive[i] = False
      self.blocked.discard(i)
      others = [j for j, a in enumerate(self.alive) if a]
      if not others:
        self.done.release()
      elif self.running == i:
        self.left = self._quantum()
        self._pass(self.rng.choice([j for j in others if j not in self.blocked] or others))

  def _watch(self):
    """ Waits for the end and passes the turn on when the running thread is stuck """
    seen, calm = -1, 0.
    while not self.done.acquire(timeout=self.STALL_S):
      with self.lock:
        state = (self.lines, self.running, sum(self.alive))
        if state != seen:
          seen, calm = state, 0.
          continue
        calm += self.STALL_S
        free = [i for i, a in enumerate(self.alive) if a and i != self.running and i not in self.blocked]
        if free:
          self.blocked.add(self.running)
          self.stalls += 1
          self.left = self._quantum()
          self._pass(self.rng.choice(free))
      if calm > 130:
        raise HarnessError('threads did not finish')

  def run(self, funs):
    n = len(funs)
    self.baton = [threading.Semaphore(0) for _ in funs]
    self.alive = [True] * n
    self.results = [None] * n
    threads = [threading.Thread(target=self._body, args=(i, f), daemon=True)
               for i, f in enumerate(funs)]
    for t in threads:
      t.start()
    with self.lock:
      self.left = self._quantum() + (self.lag or 0)
      self._pass(self.rng.randrange(n))
    self._watch()
    for t in threads:
      t.join(10)
    return self.results
