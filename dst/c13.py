""" C13: saving, serialising and reading never alter a distribution in memory. """
import io
import numpy as np
from dst import store, forked, lines
from dst.core import rng_of, require, must, Violation, HarnessError
import probayes as pb

PRELOAD = True
BUDGET = {'quick': {'runs': 2400, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 3000}}
RULE = ('a run holds 1-3 distributions and saves, serialises, deserialises, reads and overwrites them in a seeded '
        'history in a child process, with I/O errors, a full disk, torn writes and interrupts at seeded places; after '
        'every operation, successful or not, the distributions and what they compute (marginals, products, scaling) '
        'must be what they were, even when what was read or serialised is then changed in place, and the other way round; non-trivial when a fault fired or the distribution was saved at least twice')
SCHEDULE_MEASURE = 'distinct (operations, kinds of distributions, faults fired)'
REAL = ['probayes (all of it)', 'h5py / HDF5', 'kernel file system (scratch folder)']
STUBS = ['system calls on files of the scratch folder go through the fault shim']
ASSUMPTIONS = ['HDF5 itself may end the process when the disk is full']

def generate(seed, tier):
  rng = rng_of('C13', seed)
  specs = store.gen_group(rng)
  ops = []
  for k in range(rng.choice((1, 3, 6, 10))):
    op = [rng.choice(('save', 'save', 'save', 'serialise', 'writeser', 'memory', 'read', 'trip', 'again')), rng.randrange(2), None]
    x = rng.random()
    if op[0] in ('save', 'writeser', 'read') and x < 0.35:
      op[2] = [rng.randrange(40), rng.choice(('eio', 'enospc', 'torn', 'full')), rng.choice((0, 3, 90))]
    elif x < 0.45:
      op[2] = [rng.randrange(rng.choice((5, 30, 120))), 'interrupt', 0]
    ops.append(op)
  return {'prop': 'C13', 'seed': seed, 'specs': specs, 'ops': ops}

def computes(dist):
  """ What a distribution yields when used """
  res = []
  if isinstance(dist, pb.PD):
    keys = [k for k in dist.marg if not isinstance(dist[k], set)]
    res.append(store.frozen(dist.rescaled('log')))
    if len(keys) > 1:
      res.append(store.frozen(dist.marginalise(keys[0])))
    res.append(store.frozen(dist.rekey({keys[0]: keys[0] + '_'})) if keys and len(keys) == len(dist) and not dist.cond else '')
  res.append(str(dist.dims))
  return res

def used(dist):
  try:
    return computes(dist)
  except Exception as exc:
    return ['raises ' + type(exc).__name__]

def wreck(x):
  """ Changes everything that can be changed in place """
  if isinstance(x, np.ndarray):
    if x.flags.writeable and x.size and x.dtype != object:
      x[...] = np.logical_not(x) if x.dtype.kind == 'b' else 77
  elif isinstance(x, set):
    x.add(1234567)
  elif isinstance(x, (list, tuple)):
    for y in x:
      wreck(y)
  elif isinstance(x, dict):
    if isinstance(x, pb.Distribution):
      wreck(x.dims)
      if isinstance(x, pb.PD):
        for y in (x.prob, x.marg, x.cond):
          wreck(y)
    for y in list(x.values()):
      wreck(y)
    for key in list(x):
      dict.__setitem__(x, key, 99)

def still(x):
  """ Picture of what was read or serialised """
  if isinstance(x, pb.Distribution):
    return store.frozen(x)
  if isinstance(x, dict):
    return [(k, still(v)) for k, v in x.items()]
  if isinstance(x, (list, tuple)):
    return [still(y) for y in x]
  if isinstance(x, np.ndarray):
    return (x.shape, str(x.dtype), x.tobytes())
  return repr(sorted(x) if isinstance(x, set) else x)

def execute(plan, out):
  disk = store.Disk()
  try:
    run(plan, out, disk)
  finally:
    disk.remove()

def run(plan, out, disk):
  dists = must('building distributions', lambda: [store.build(s) for s in plan['specs']])
  want = [store.frozen(d) for d in dists]
  want_used = [used(d) for d in dists]
  def child(say):
    saved = set()
    kept = [] # results that are left alone
    for k, (what, i, fault) in enumerate(plan['ops']):
      path = disk.path(i)
      if what == 'read' and i not in saved:
        continue
      ser = None
      if what == 'save':
        fun = lambda: pb.write_dist(path, *dists)
      elif what == 'serialise':
        fun = lambda: pb.serialise(*dists)
      elif what == 'writeser':
        fun = lambda: pb.write_serialised(path, pb.serialise(*dists))
      elif what == 'memory':
        fun = lambda: pb.write_dist(io.BytesIO(), *dists)
      elif what == 'again': # the serialised form serves more than once
        ser = pb.serialise(*dists)
        was = still(ser)
        fun = lambda: (pb.deserialise(ser), pb.write_serialised(path + '.again', ser), pb.deserialise(ser))
      elif what == 'trip':
        fun = lambda: pb.deserialise(pb.serialise(*dists))
      else:
        fun = lambda: pb.read_dist(path)
      say('begin', k)
      disk.arm([] if fault is None or fault[1] == 'interrupt' else [tuple(fault)])
      struck, ended, res = None, 'ok', None
      try:
        if fault is not None and fault[1] == 'interrupt':
          res, struck, _ = lines.interrupt_at(fault[0], fun)
        else:
          res = fun()
      except Exception as exc:
        ended = type(exc).__name__
      n, fired = disk.disarm()
      hit = bool(fired) or struck is not None or disk.full_fired() > 0
      if ended == 'ok' and struck is None and what in ('save', 'writeser'):
        saved.add(i)
      if ended == 'ok' and struck is None and what in ('serialise', 'trip', 'read'):
        if k % 2: # what was read may be changed
          wreck(res)
        else:
          kept.append((k, what, res, still(res)))
      if ser is not None and still(ser) != was:
        say('consumed', k, what, str(was)[-900:], str(still(ser))[-900:])
        return
      for j, d in enumerate(dists):
        now = store.frozen(d)
        if now != want[j]:
          say('wrong', k, what, want[j][-900:], now[-900:])
          return
        if used(d) != want_used[j]:
          say('wrong', k, what, 'what it computes', '')
          return
      say('end', k, ended, struck, fired, n, hit)
    wreck(dists) # and so may the original
    for k, what, res, was in kept:
      now = still(res)
      if now != was:
        say('depends', k, what, str(was)[-900:], str(now)[-900:])
        return
  msgs, end = forked.run(child)
  seq, hits, saves = [], 0, 0
  begun = None
  for m in msgs:
    if m[0] == 'error':
      raise HarnessError('child: ' + m[2])
    if m[0] == 'wrong':
      raise Violation('saving altered the distribution in memory', 'after {} ({}):\nwas {}\nnow {}'.format(m[1], m[2], m[3], m[4]))
    if m[0] == 'consumed':
      raise Violation('using a serialised form altered it', '{} ({}):\nwas {}\nnow {}'.format(m[1], m[2], m[3], m[4]))
    if m[0] == 'depends':
      raise Violation('changing a distribution changed what had been read or serialised', '{} ({}):\nwas {}\nnow {}'.format(m[1], m[2], m[3], m[4]))
    if m[0] == 'begin':
      begun = m[1]
    if m[0] == 'end':
      op = plan['ops'][m[1]]
      begun = None
      out.simtime += m[5]
      if m[2] != 'ok' and not m[6]:
        raise Violation('an undisturbed {} failed'.format(op[0]), m[2])
      if m[3]:
        out.fault('interrupt')
      for what, f in m[4]:
        out.fault('{} of {}'.format({v: n for n, v in store.KINDS.items()}.get(f, f), what))
      hits += bool(m[6])
      saves += op[0] in ('save', 'writeser')
      seq.append([op[0], op[1], m[2], bool(m[6])])
  if end != 'exit':
    fault = plan['ops'][begun][2] if begun is not None else None
    after = hits > 0 or fault is not None
    require(after, 'saving ended the process', end)
    out.fault('process ' + end.split()[0])
  out.record(seq, want)
  out.count('distributions compared', len(dists) * len(seq))
  out.sched = [[s['kind'] for s in plan['specs']], seq]
  out.nontrivial = hits > 0 or saves > 1
  out.sample = {'kinds': [s['kind'] for s in plan['specs']], 'ops': seq[:6]}
