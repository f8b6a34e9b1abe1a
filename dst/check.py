""" Decides one property by seeded search over simulated runs.

usage: python -m dst.check <property> [--tier quick|thorough] [--seed N] [--runs N]

exit 0: the property held on everything explored; exit 1 with a VIOLATION line: it
did not, and the replay file reproduces the violation; exit 2: the check could not
decide (an error of the check, never printed as a violation).
"""
import argparse
import collections
import json
import os
import subprocess
import sys
import threading
import time

from dst import core
from dst.core import dumps
from dst.worker import module_of, seed_of

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')

def env_of(mod=None, **extra):
  env = dict(os.environ)
  env.setdefault('PYTHONHASHSEED', '0')
  env.update(getattr(mod, 'ENV', {}) or {})
  if getattr(mod, 'PRELOAD', False):
    from dst import build
    env['LD_PRELOAD'] = build.shim()
  env.update(extra)
  return env

def py(*args):
  return [sys.executable, '-m'] + [str(a) for a in args]

#-------------------------------------------------------------------------------
def replay_doc(doc, mod, timeout=1200):
  """ Runs the plans of a replay document in a fresh process: first bad result """
  os.makedirs(OUT, exist_ok=True)
  path = os.path.join(OUT, '.try.{}.{}.json'.format(os.getpid(), threading.get_ident()))
  with open(path, 'w') as fil:
    json.dump(doc, fil)
  try:
    proc = subprocess.run(py('dst.worker', '--replay', path), cwd=VERIF,
                          env=env_of(mod, **doc.get('env', {})), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, timeout=timeout)
  except subprocess.TimeoutExpired:
    return {'status': 'violation', 'kind': 'no progress', 'detail': 'hang'}
  finally:
    os.remove(path)
  last = None
  for line in proc.stdout.splitlines():
    res = json.loads(line)
    last = res
    if res['status'] != 'ok':
      return res
  if proc.returncode:
    if proc.returncode < 0 or last is not None:
      return {'status': 'violation', 'kind': 'process died',
              'detail': 'exit {} {}'.format(proc.returncode, proc.stderr[-500:])}
    return {'status': 'error', 'kind': 'worker', 'detail': proc.stderr[-1500:]}
  return last or {'status': 'ok'}

def same(res, kind):
  return res['status'] == 'violation' and res['kind'] == kind

#-------------------------------------------------------------------------------
def ddmin(items, fails, budget):
  """ Smallest sublist found within the time budget for which fails() is true """
  end = time.monotonic() + budget
  n = 2
  while len(items) >= 1 and time.monotonic() < end:
    size = max(1, (len(items) + n - 1) // n)
    reduced = False
    for i in range(0, len(items), size):
      if time.monotonic() > end:
        break
      trial = items[:i] + items[i+size:]
      if fails(trial):
        items = trial
        n = max(n - 1, 2)
        reduced = True
        break
    if not reduced:
      if size == 1:
        break
      n = min(len(items), 2 * n)
  return items

class Shrinker:
  """ Replays candidate plans in one long-lived process (falls back to fresh). """
  def __init__(self, prop, mod, kind, env):
    self.prop, self.mod, self.kind, self.env = prop, mod, kind, env

  def fails(self, plans):
    doc = {'property': self.prop, 'plans': plans, 'env': self.env}
    return same(replay_doc(doc, self.mod), self.kind)

  def plan(self, plan, budget=120):
    """ Minimises a single plan """
    end = time.monotonic() + budget
    keys = [k for k in getattr(self.mod, 'SHRINK', ('ops',)) if k in plan]
    for key in keys:
      def fails(items, key=key):
        trial = dict(plan)
        trial[key] = items
        return self.fails([trial])
      plan = dict(plan)
      plan[key] = ddmin(list(plan[key]), fails, max(1., end - time.monotonic()))
    simplify = getattr(self.mod, 'simplify', None)
    changed = simplify is not None
    while changed and time.monotonic() < end:
      changed = False
      for trial in simplify(plan):
        if time.monotonic() > end:
          break
        if dumps(trial) != dumps(plan) and self.fails([trial]):
          plan = trial
          changed = True
          break
    return plan

#-------------------------------------------------------------------------------
class Batch:
  """ Runs `total` seeds over parallel worker processes """
  def __init__(self, prop, mod, tier, seed, total, deadline, jobs, env=None):
    self.prop, self.mod, self.tier, self.seed = prop, mod, tier, seed
    self.total, self.deadline, self.jobs = total, deadline, jobs
    self.env = env or {}
    self.results = {}      # index -> result
    self.bad = []          # results that are not ok
    self.died = []         # (worker, index, returncode, stderr)
    self.stop = threading.Event()
    self.lock = threading.Lock()

  def _drive(self, w):
    first = w
    end = time.monotonic() + self.deadline
    while first < self.total and not self.stop.is_set():
      left = end - time.monotonic()
      if left <= 0:
        return
      proc = subprocess.Popen(
          py('dst.worker', self.prop, self.tier, self.seed, first, self.jobs,
             self.total, left), cwd=VERIF, env=env_of(self.mod, **self.env),
          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
      killer = threading.Timer(left + 240, proc.kill)
      killer.start()
      errs = []
      drain = threading.Thread(target=lambda: errs.append(proc.stderr.read()))
      drain.start()
      started = None
      finished = True
      for line in proc.stdout:
        try:
          res = json.loads(line)
        except ValueError:
          continue
        if res['status'] == 'start':
          started = res['index']
          continue
        if res['status'] == 'deadline':
          continue
        started = None
        with self.lock:
          res['worker'] = w
          self.results[res['index']] = res
          if res['status'] != 'ok':
            self.bad.append(res)
            self.stop.set()
        if self.stop.is_set():
          proc.kill()
          break
      proc.wait()
      drain.join()
      killer.cancel()
      if self.stop.is_set():
        return
      if proc.returncode:
        index = started if started is not None else first
        with self.lock:
          self.died.append({'index': index, 'worker': w, 'rc': proc.returncode,
                            'stderr': (errs or [''])[0][-1500:],
                            'started': started is not None})
          self.stop.set()
      return

  def run(self):
    threads = [threading.Thread(target=self._drive, args=(w,))
               for w in range(self.jobs)]
    for t in threads:
      t.start()
    for t in threads:
      t.join()
    return self

#-------------------------------------------------------------------------------
def known_lines(prop):
  """ KNOWN-FINDING entries of the committed file for this property """
  found = []
  if os.path.exists(KNOWN):
    with open(KNOWN) as fil:
      for line in fil:
        line = line.strip()
        if line.startswith('known: property={} '.format(prop)):
          found.append(line[len('known: '):])
  return found

def report(prop, mod, tier, seed, doc, res, minimise=True):
  os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
  kind = res['kind']
  shr = Shrinker(prop, mod, kind, doc.get('env', {}))
  if minimise:
    if len(doc['plans']) > 1:
      doc['plans'] = ddmin(doc['plans'], shr.fails, 120)
    if len(doc['plans']) == 1:
      doc['plans'] = [shr.plan(doc['plans'][0])]
  final = replay_doc(doc, mod)
  doc.update(kind=kind, detail=final.get('detail', res.get('detail', '')),
             reproduced=same(final, kind), verif_seed=seed, tier=tier)
  path = os.path.join(OUT, 'replays', '{}-{}.json'.format(prop, core.int_of(dumps(doc['plans']))))
  with open(path, 'w') as fil:
    json.dump(doc, fil, indent=1, sort_keys=True)
  return path, doc

def decide(prop, tier, seed, runs=None, jobs=None, minimise=True):
  t0 = time.monotonic()
  mod = module_of(prop)
  env_of(mod) # builds the shim once if the property needs it
  budget = mod.BUDGET[tier]
  total = runs or budget['runs']
  jobs = jobs or min(8, os.cpu_count() or 1, total)
  batch = Batch(prop, mod, tier, seed, total, budget.get('wall', 420), jobs).run()
  wall_batch = time.monotonic() - t0
  violations, errors, notes = [], [], []

  for res in sorted(batch.bad, key=lambda r: r['index']):
    if res['status'] == 'error':
      errors.append('run {}: {} {}'.format(res['index'], res['kind'], res['detail']))
  for died in batch.died:
    if not died['started']:
      errors.append('worker {}: exit {} {}'.format(died['worker'], died['rc'], died['stderr']))
    else:
      batch.bad.append({'status': 'violation', 'kind': 'process died',
                        'detail': died['stderr'], 'index': died['index'],
                        'worker': died['worker']})
  for res in sorted(batch.bad, key=lambda r: r['index']):
    if res['status'] != 'violation':
      continue
    plan = mod.generate(seed_of(prop, seed, res['index']), tier)
    doc = {'property': prop, 'plans': [plan], 'env': {}}
    again = None
    for _ in range(2):
      again = replay_doc(doc, mod)
      if again['status'] == 'violation':
        break
    if again['status'] != 'violation':
      # state carried over from earlier runs of the same process?
      w = res['worker']
      doc['plans'] = [mod.generate(seed_of(prop, seed, i), tier)
                      for i in range(w, res['index'] + 1, jobs)]
      again = replay_doc(doc, mod)
    if again['status'] == 'violation':
      path, doc = report(prop, mod, tier, seed, doc, again, minimise)
      violations.append((path, doc))
      break
    errors.append('run {} failed once ({}: {}) and did not reproduce'.format(
        res['index'], res['kind'], res['detail'][-800:]))

  # Prove determinism on a sample of the runs just made: same plan, new process
  recheck = 0
  if not violations and not errors and getattr(mod, 'RECHECK', True):
    some = sorted(batch.results)[:: max(1, len(batch.results) // budget.get('recheck', 24))]
    plans = [mod.generate(seed_of(prop, seed, i), tier) for i in some]
    path = os.path.join(OUT, '.re.{}.json'.format(os.getpid()))
    os.makedirs(OUT, exist_ok=True)
    with open(path, 'w') as fil:
      json.dump({'property': prop, 'plans': plans}, fil)
    proc = subprocess.run(py('dst.worker', '--replay', path), cwd=VERIF,
                          env=env_of(mod), stdout=subprocess.PIPE,
                          stderr=subprocess.DEVNULL, text=True)
    os.remove(path)
    for index, line in zip(some, proc.stdout.splitlines()):
      recheck += 1
      if json.loads(line)['outcome']['digest'] != batch.results[index]['outcome']['digest']:
        notes.append('run {} replayed to a different history'.format(index))
  write_evidence(prop, mod, tier, seed, batch, violations, errors, notes, recheck,
                 wall_batch, time.monotonic() - t0, total, jobs)
  return batch, violations, errors, notes

def write_evidence(prop, mod, tier, seed, batch, violations, errors, notes, recheck,
                   wall_batch, wall, total, jobs):
  os.makedirs(EVIDENCE, exist_ok=True)
  stats, faults = collections.Counter(), collections.Counter()
  scheds, digests, simtime, nontrivial = set(), set(), 0, set()
  samples = []
  for index in sorted(batch.results):
    o = batch.results[index]['outcome']
    stats.update(o['stats'])
    faults.update(o['faults'])
    simtime += o['simtime']
    digests.add(o['digest'])
    if o['sched'] is not None:
      scheds.add(dumps(o['sched']))
    if o['nontrivial']:
      nontrivial.add(dumps(o['sched']) + o['digest'])
    if o['sample'] and len(samples) < 4 and o['nontrivial']:
      samples.append({'run': index, 'seed': seed_of(prop, seed, index), 'case': o['sample']})
  n = len(batch.results)
  doc = {
    'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
    'coverage': {
      'evaluations': n,
      'distinct_nontrivial': len(nontrivial),
      'rule': mod.RULE,
      'samples': samples,
      'runs_requested': total,
      'runs_per_hour': int(n / max(wall_batch, 1e-9) * 3600),
      'simulated_steps': simtime,
      'simulated_time': 'the code has no clock: simulated time is counted in simulated steps',
      'faults_fired': dict(faults),
      'distinct_schedules': len(scheds),
      'schedule_measure': mod.SCHEDULE_MEASURE,
      'distinct_histories': len(digests),
      'counters': dict(stats),
      'determinism_replays': recheck,
      'determinism_mismatches': len(notes),
      'real_code': mod.REAL,
      'stubs': mod.STUBS,
      'parallel_processes': jobs,
    },
    'assumptions': mod.ASSUMPTIONS,
    'violations': [{'kind': d['kind'], 'detail': d['detail'][-600:], 'replay': p}
                   for p, d in violations],
    'known_findings': known_lines(prop),
    'errors': errors,
    'notes': notes,
    'wall_s': round(wall, 2),
  }
  with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fil:
    json.dump(doc, fil, indent=1)

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--runs', type=int, default=None)
  ap.add_argument('--jobs', type=int, default=None)
  ap.add_argument('--no-minimise', action='store_true')
  args = ap.parse_args()
  print('property={} tier={} VERIF_SEED={}'.format(args.property, args.tier, args.seed), flush=True)
  batch, violations, errors, notes = decide(
      args.property, args.tier, args.seed, args.runs, args.jobs, not args.no_minimise)
  for line in known_lines(args.property):
    print('KNOWN-FINDING: ' + line)
  for path, doc in violations:
    print('kind: {}\n{}'.format(doc['kind'], doc['detail']))
    print('VIOLATION property={} replay={}'.format(args.property, path))
  if violations:
    return 1
  for err in errors:
    print('check error: ' + err)
  for note in notes:
    print('note: ' + note)
  if errors:
    return 2
  if len(batch.results) < 0.2 * (args.runs or module_of(args.property).BUDGET[args.tier]['runs']):
    print('check error: fewer than a fifth of the runs fitted into the time budget')
    return 2
  print('held on {} runs'.format(len(batch.results)))
  return 0

if __name__ == '__main__':
  sys.exit(main())
