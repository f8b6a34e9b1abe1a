""" C11: what an acknowledged save wrote is what is read back. """
import io
import numpy as np
from dst import store
from dst.core import rng_of, require, must
import probayes as pb

PRELOAD = True
BUDGET = {'quick': {'runs': 2400, 'wall': 240}, 'thorough': {'runs': 60000, 'wall': 3000}}
RULE = ('a run makes a seeded history of saves, overwrites, reads and copies over 1-3 files (and in-memory files) of '
        'distributions made by every operation of the library, with interrupted and partial reads and writes of the '
        'operating system injected throughout; every read is compared with the last acknowledged save of that file; '
        'non-trivial when a file was overwritten or copied and read back')
SCHEDULE_MEASURE = 'distinct (operation sequence over files, kinds of distributions, disk events at which faults fired)'
REAL = ['probayes (all of it)', 'h5py / HDF5', 'kernel file system (scratch folder)']
STUBS = ['system calls on files of the scratch folder go through the fault shim']
ASSUMPTIONS = ['variables are not named attrs, prob, pscale or order (words of the file format)',
               'arrays hold real numbers, integers or truth values']

def generate(seed, tier):
  rng = rng_of('C11', seed)
  nfile = rng.choice((1, 2, 3))
  ops = []
  for k in range(rng.choice((3, 5, 9, 14))):
    x = rng.random()
    i = rng.randrange(nfile)
    if k == 0 or x < 0.4:
      ops.append(['save', i, store.gen_group(rng), rng.choice(('dist', 'dist', 'serialised', 'aux'))])
    elif x < 0.5:
      ops.append(['memory', i, store.gen_group(rng)])
    elif x < 0.62:
      ops.append(['copy', i, rng.randrange(nfile)])
    elif x < 0.7:
      ops.append(['trip', i])
    elif x < 0.78: # the distributions saved are changed in memory, and perhaps saved again
      ops.append(['change', i, rng.random() < 0.6])
    else:
      ops.append(['read', i, rng.choice(('dist', 'serialised'))])
  for i in range(nfile):
    ops.append(['read', i, 'dist'])
  noisy = rng.random() < 0.6
  faults = []
  if noisy:
    for _ in range(rng.choice((1, 4, 12))):
      faults.append([rng.randrange(rng.choice((10, 60, 200))), rng.choice(('short', 'short', 'eintr_rw')),
                     rng.choice((1, 2, 7, 64, 511))])
  return {'prop': 'C11', 'seed': seed, 'nfile': nfile, 'faults': faults, 'ops': ops}

SHRINK = ('ops', 'faults')

def groups(specs):
  return [store.build(s) for s in specs]

def change(dists):
  """ In place """
  for d in dists:
    for arr in [v for v in d.values()] + [getattr(d, 'prob', None)]:
      if isinstance(arr, np.ndarray) and arr.dtype.kind == 'f' and arr.flags.writeable:
        arr -= 0.125

def changed(specs, times):
  dists = groups(specs)
  for _ in range(times):
    change(dists)
  return dists

def read(path, how):
  if how == 'dist':
    return must('reading', pb.read_dist, path), None
  res = must('reading', pb.read_serialised, path)
  return must('deserialising', pb.deserialise, res[0]), res[1]

def same_aux(want, got):
  if set(want) != set(got):
    return False
  return all(set(want[k]) == set(got[k]) and all(store.same_value(want[k][s], got[k][s]) for s in want[k]) for k in want)

def execute(plan, out):
  disk = store.Disk()
  try:
    run(plan, out, disk)
  finally:
    disk.remove()

def run(plan, out, disk):
  held, aux, live = {}, {}, {}
  seq, over, fired_at = [], 0, []
  total = 0
  for k, op in enumerate(plan['ops']):
    i = op[1]
    path = disk.path(i)
    before = None
    if op[0] in ('save', 'memory'):
      dists = must('building distributions', groups, op[2])
      extra = {}
    disk.arm([(e - total, kind, arg) for e, kind, arg in plan['faults'] if e >= total])
    if op[0] == 'save':
      if op[3] == 'dist':
        must('saving', pb.write_dist, path, *dists)
      elif op[3] == 'serialised':
        must('saving', pb.write_serialised, path, must('serialising', pb.serialise, *dists))
      else:
        rng = rng_of('aux', plan['seed'], k)
        extra = {'aux {}'.format(j): {'a': store.array(rng, rng.choice((1, 3, 50)), 'float'), 'b': np.arange(j + 1)}
                 for j in range(rng.choice((1, 2)))}
        must('saving', pb.write_serialised, path, must('serialising', pb.serialise, *dists), extra)
      over += i in held
      held[i], aux[i] = must('building distributions', groups, op[2]), extra
      live[i] = [dists, op[2], 0]
      kind = [s['kind'] for s in op[2]]
    elif op[0] == 'memory':
      buf = io.BytesIO()
      must('saving to memory', pb.write_dist, buf, *dists)
      buf.seek(0)
      got = must('reading from memory', pb.read_dist, buf)
      wrong = store.mismatch(dists, got)
      require(wrong is None, 'read back differs from what was saved', wrong)
      kind = 'memory'
    elif op[0] == 'copy':
      if i in held:
        got = read(path, 'dist')[0]
        must('saving what was read', pb.write_dist, disk.path(op[2]), *got)
        over += op[2] in held
        held[op[2]], aux[op[2]] = held[i], {}
        live.pop(op[2], None)
      kind = op[2]
    elif op[0] == 'change':
      if i in live:
        dists, specs, times = live[i]
        change(dists)
        live[i][2] = times + 1
        if op[2]:
          must('saving', pb.write_dist, path, *dists)
          held[i], aux[i] = must('building distributions', changed, specs, times + 1), {}
          over += 1
      kind = op[2]
    elif op[0] == 'trip': # without a file
      if i in held:
        got = must('deserialising', pb.deserialise, must('serialising', pb.serialise, *held[i]))
        wrong = store.mismatch(held[i], got)
        require(wrong is None, 'deserialised differs from what was serialised', wrong)
      kind = 'trip'
    else:
      if i in held:
        got, more = read(path, op[2])
        wrong = store.mismatch(held[i], got)
        require(wrong is None, 'read back differs from what was saved', wrong)
        if more is not None:
          require(same_aux(aux[i], more), 'auxiliary data differ from what was saved', lambda: '{} {}'.format(list(aux[i]), list(more)))
        out.count('reads compared')
        out.record([g.name for g in got])
      kind = op[2]
    n, fired = disk.disarm()
    total += n
    out.simtime += n
    for what, f in fired:
      out.fault({3: 'short ', 4: 'interrupted '}.get(f, 'fault {} '.format(f)) + what)
      fired_at.append([k, what, f])
    seq.append([op[0], i, kind])
  out.count('disk events', total)
  out.sched = [seq, fired_at[:20]]
  out.nontrivial = over > 0
  out.sample = {'ops': seq[:8], 'faults': fired_at[:5]}
