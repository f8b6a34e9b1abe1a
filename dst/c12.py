""" C12: a save that fails or is cut short costs neither the old file nor the next save. """
import os
from dst import store, forked, lines
from dst.core import rng_of, require, must, Violation, HarnessError, InjectedInterrupt
import probayes as pb

PRELOAD = True
BUDGET = {'quick': {'runs': 2400, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 3000}}
RULE = ('a run lays down 0-3 files by fault-free saves, then makes seeded saves and reads in child processes under a '
        'fault plan over disk events (I/O error, full disk, torn write, error of open, truncate, sync, close or rename, '
        'crash of the process at any system call with a torn write, interrupt at any library line); after each child '
        'every file must read as one complete acknowledged-or-attempted content, acknowledged saves must be there, and '
        'a save without faults must succeed; non-trivial when a fault fired while an existing file was overwritten')
SCHEDULE_MEASURE = 'distinct (operations, disk events at which faults fired, how the child ended)'
REAL = ['probayes (all of it)', 'h5py / HDF5', 'kernel file system (scratch folder)']
STUBS = ['system calls on files of the scratch folder go through the fault shim',
         'process crash is _exit at a system call of a forked child']
ASSUMPTIONS = ['a crash stops the process, not the operating system: completed system calls survive',
               'HDF5 itself may end the process when the disk is full (counted as a crash)',
               'files are given by path (in-memory files have no previous content to keep)']
SHRINK = ('ops',)

SAVE_FAULTS = ('eio', 'enospc', 'torn', 'full', 'crash', 'crash', 'crash', 'openerr', 'eio')

def generate(seed, tier):
  rng = rng_of('C12', seed)
  nfile = rng.choice((1, 1, 2, 3))
  ops = []
  for i in range(nfile):
    if rng.random() < 0.85:
      ops.append(['save', i, store.gen_group(rng, rng.random() < 0.7), []])
  for k in range(rng.choice((1, 2, 3, 5))):
    i = rng.randrange(nfile)
    x = rng.random()
    if x < 0.75:
      faults = []
      for _ in range(rng.choice((1, 1, 1, 2, 3))):
        kind = rng.choice(SAVE_FAULTS)
        arg = rng.choice((0, 1, 8, 100, 700, 5000))
        if kind == 'openerr':
          arg = rng.choice((13, 24, 28, 2))
        faults.append([rng.random(), kind, arg])
      if rng.random() < 0.15:
        faults = [[rng.random(), 'interrupt', 0]]
      ops.append(['save', i, store.gen_group(rng, rng.random() < 0.7), faults])
    else:
      ops.append(['read', i, [], [[rng.random(), rng.choice(('eio', 'short', 'eintr_rw', 'crash', 'openerr')),
                                   rng.choice((1, 13, 24, 2))] for _ in range(rng.choice((1, 2)))]])
  together = rng.random() < 0.25
  return {'prop': 'C12', 'seed': seed, 'nfile': nfile, 'together': together, 'ops': ops,
          'links': [i for i in range(nfile) if rng.random() < 0.12], 'others': rng.sample(OTHERS, rng.choice((0, 1, 3))),
          'mode': rng.choice((None, None, 0o600, 0o666))}

OTHERS = ('f0.hdf~', 'f0.hdf.bak', 'f0.hdf.tmp', 'f0.hdf.old', '.f0.hdf.swp', 'f0', 'tmp', 'f0.h5', 'f1.hdf.bak', 'x.partial')

WANTS = {'torn': ('write',), 'openerr': ('open',), 'short': ('read', 'write'), 'eintr_rw': ('read', 'write')}

def place(faults, log):
  """ Disk faults at events of the undisturbed operation """
  res = []
  for frac, kind, arg in faults:
    if kind == 'interrupt':
      continue
    wants = WANTS.get(kind)
    events = [e for e, (op, _) in enumerate(log) if wants is None or op in wants]
    if events:
      res.append((events[int(frac * len(events))], kind, arg))
  return res

def dry(disk, fun, trace=False):
  """ Disk events (and library lines) of an undisturbed operation """
  def child(say):
    disk.arm([])
    n = 0
    if trace:
      _, _, n = lines.interrupt_at(None, fun)
    else:
      fun()
    disk.lib.iosim_enable(0)
    say('log', disk.log(), n)
  msgs, end = forked.run(child)
  if end != 'exit' or not msgs or msgs[-1][0] != 'log':
    raise Violation('a save without faults failed', str((end, msgs))[-1500:])
  return msgs[-1][1], msgs[-1][2]

def execute(plan, out):
  disk = store.Disk()
  try:
    run(plan, out, disk)
  finally:
    disk.remove()

def attempt(disk, op, faults, frac, nlines, dists, path, say, k):
  """ In the child: one operation under its faults """
  say('begin', k)
  if op[0] == 'save':
    fun = lambda: pb.write_dist(path, *dists)
  else:
    fun = lambda: pb.read_dist(path)
  disk.arm(faults)
  struck = None
  try:
    if frac is not None:
      got, struck, _ = lines.interrupt_at(int(frac * nlines), fun)
    else:
      got = fun()
    ended = 'ok' if struck is None else 'raise'
    what = struck or ''
  except Exception as exc:
    ended, what, got = 'raise', type(exc).__name__, None
  n, fired = disk.disarm()
  full = disk.full_fired()
  if op[0] == 'read' and ended == 'ok':
    wrong = store.mismatch(dists, got) if dists is not None else None
    if wrong is not None:
      say('wrong', k, wrong)
  say('end', k, ended, what, fired, full, n)

def run(plan, out, disk):
  held = {}         # file -> distributions it must hold, None when it must not exist
  modes = {}        # file -> permissions given to it
  content = {}      # op index -> distributions
  for k, op in enumerate(plan['ops']):
    if op[0] == 'save':
      content[k] = must('building distributions', lambda: [store.build(s) for s in op[2]])
  seq, interesting = [], False
  scratch = os.path.join(disk.dir, 'dry.hdf')
  for i in plan.get('links', ()):
    disk.link(i)
    out.count('files reached through a link')
  for name in plan.get('others', ()):
    with open(os.path.join(disk.dir, name), 'w') as f:
      f.write('belongs to ' + name)
  known = disk.names()
  jobs = []
  for k, op in enumerate(plan['ops']):
    jobs.append([k])
  if plan['together']: # several operations in the life of one child
    tail = [k for k, op in enumerate(plan['ops']) if op[3]]
    jobs = [[k] for k, op in enumerate(plan['ops']) if not op[3]] + ([tail] if tail else [])
  for job in jobs:
    tasks = []
    for k in job:
      op = plan['ops'][k]
      i, frac, nlines = op[1], None, 0
      path = disk.path(i)
      if op[0] == 'read':
        if held.get(i) is None:
          continue
        log, _ = dry(disk, lambda: pb.read_dist(path))
        dists = None if plan['together'] else held[i]
      else:
        dists = content[k]
        inter = [f for f in op[3] if f[1] == 'interrupt']
        def save():
          pb.write_dist(scratch, *dists)
        log, nlines = dry(disk, save, bool(inter))
        if os.path.exists(scratch):
          os.remove(scratch)
        frac = inter[0][0] if inter else None
      tasks.append((k, op, place(op[3], log), frac, nlines, dists, path))
    if not tasks:
      continue
    def child(say):
      for k, op, faults, frac, nlines, dists, path in tasks:
        attempt(disk, op, faults, frac, nlines, dists, path, say, k)
    msgs, end = forked.run(child)
    for m in msgs:
      if m[0] == 'error':
        raise HarnessError('child: ' + m[2])
      if m[0] == 'wrong':
        raise Violation('a read under faults returned wrong data', m[2])
    # what may each file hold now?
    begun = [m[1] for m in msgs if m[0] == 'begin']
    ended = {m[1]: m for m in msgs if m[0] == 'end'}
    may = {}
    for k, op, faults, frac, nlines, dists, path in tasks:
      i = op[1]
      if k not in begun:
        continue
      faulty = bool(faults) or frac is not None
      m = ended.get(k)
      how = 'died' if m is None else m[2]
      before = may.get(i, [held.get(i)])
      if m is not None:
        out.simtime += m[6]
        for what, f in m[4]:
          out.fault('{} of {}'.format({v: n for n, v in store.KINDS.items()}.get(f, f), what))
        if m[5]:
          out.fault('disk stays full')
        if frac is not None and how == 'raise':
          out.fault('interrupt')
        happened = bool(m[4]) or m[5] or (frac is not None and how == 'raise')
        if how == 'raise' and not happened:
          raise Violation('an undisturbed {} failed'.format(op[0]), str(m)[:500])
      else:
        happened = True
        out.fault('process ' + end.split()[0])
        if not faulty:
          raise Violation('an undisturbed {} ended the process'.format(op[0]), end)
      if op[0] == 'save':
        if how == 'ok':
          may[i] = [dists]
        else:
          may[i] = before + [dists]
        if happened and any(b is not None for b in before):
          interesting = True
      seq.append([op[0], i, [[e, kd] for e, kd, _ in faults], how])
    if len(begun) < len(tasks) and end == 'exit':
      raise HarnessError('child stopped early: ' + str(msgs)[-500:])
    # look at the folder and every file with a clean disk
    for name in plan.get('others', ()):
      try:
        with open(os.path.join(disk.dir, name)) as f:
          was = f.read()
      except Exception as exc:
        was = repr(exc)
      require(was == 'belongs to ' + name, 'saving changed another file of the folder', lambda: '{} {} {}'.format(seq, name, was[:200]))
    for i in plan.get('links', ()):
      require(os.path.islink(disk.path(i)), 'saving replaced a link', lambda: str(seq))
    names = {n for n in disk.names() if os.path.basename(n)[:1] not in 'fg' or os.path.basename(n)[2:] != '.hdf'}
    if end == 'exit' and all('unlink' not in what for m in ended.values() for what, _ in m[4]):
      require(names <= known, 'a save that failed left files behind', lambda: '{} {}'.format(seq, sorted(names - known)))
      out.count('folders without leftovers')
    known |= names
    for i in range(plan['nfile']):
      options = may.get(i, [held.get(i)])
      path = disk.path(i)
      if not os.path.exists(path):
        require(any(o is None for o in options), 'a saved file disappeared', lambda: str(seq))
        held[i] = None
        modes.pop(i, None)
        continue
      require(any(o is not None for o in options), 'a file appeared', lambda: str(seq))
      try:
        got = pb.read_dist(path)
      except Exception as exc:
        raise Violation('a file cannot be read after a failed or interrupted save',
                        '{}: {} {}'.format(seq, type(exc).__name__, str(exc)[:300]))
      for o in options:
        if o is not None:
          wrong = store.mismatch(o, got)
          if wrong is None:
            held[i] = o
            break
      else:
        raise Violation('a file holds neither the previous nor the new content', '{}: {}'.format(seq, wrong)[:1500])
      out.count('files checked')
      if i in modes:
        require(os.stat(path).st_mode & 0o777 == modes[i], 'saving changed who may read or write the file', lambda: str(seq))
      elif plan.get('mode'):
        os.chmod(path, plan['mode'])
        modes[i] = plan['mode']
    out.record(seq)
  # progress: with a healthy disk the next save succeeds and is read back
  if content and plan['ops']:
    last = max(content)
    i = plan['ops'][last][1]
    must('saving after the faults have stopped', pb.write_dist, disk.path(i), *content[last])
    wrong = store.mismatch(content[last], must('reading', pb.read_dist, disk.path(i)))
    require(wrong is None, 'read back differs from what was saved', wrong)
  out.sched = seq
  out.nontrivial = interesting
  out.sample = {'ops': seq[:6]}
