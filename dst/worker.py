""" Runs plans of one property in this process, one JSON result line per run.

usage: python -m dst.worker <property> <tier> <verif_seed> <first> <step> <total> <deadline_s>
       python -m dst.worker --replay <file>        (a file of plans, run in order)
"""
import importlib
import json
import os
import signal
import sys
import time

from dst import core
from dst.core import Violation, HarnessError, Outcome, dumps

RUN_TIMEOUT_S = 150
FORM = (TypeError, ValueError, KeyError, IndexError, AttributeError)

class Hang(BaseException):
  pass

def _alarm(signum, frame):
  raise Hang()

def module_of(prop):
  return importlib.import_module('dst.' + prop.lower())

def seed_of(prop, verif_seed, index):
  return core.int_of('run', prop, verif_seed, index)

def run_plan(mod, plan):
  """ -> dict with 'status' in ok / violation / error and the outcome """
  out = Outcome()
  res = {}
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(RUN_TIMEOUT_S)
  try:
    mod.execute(plan, out)
    res['status'] = 'ok'
  except Violation as exc:
    res.update(status='violation', kind=exc.kind, detail=exc.detail)
  except Hang:
    res.update(status='violation', kind='no progress',
               detail='the run did not finish within {} s'.format(RUN_TIMEOUT_S))
  except HarnessError as exc:
    res.update(status='error', kind='harness', detail=core.brief(exc))
  except BaseException as exc:
    if core.in_repo(exc.__traceback__) and isinstance(exc, Exception):
      res.update(status='violation', kind='unexpected ' + type(exc).__name__,
                 detail=core.brief(exc))
    elif isinstance(exc, FORM):
      # our reading of a result stumbled: it has not the form results have
      res.update(status='violation', kind='result of unexpected form: ' + type(exc).__name__,
                 detail=core.brief(exc))
    else:
      res.update(status='error', kind=type(exc).__name__, detail=core.brief(exc))
  finally:
    signal.alarm(0)
  res['outcome'] = out.as_dict()
  return res

def emit(obj):
  sys.__stdout__.write(dumps(obj) + '\n')
  sys.__stdout__.flush()

def quiet():
  """ The code under test may print: keep our result channel clean. """
  sys.__stdout__ = os.fdopen(os.dup(1), 'w')
  null = os.open(os.devnull, os.O_WRONLY)
  os.dup2(null, 1)
  sys.stdout = os.fdopen(1, 'w', closefd=False)
  import warnings
  warnings.simplefilter('ignore')
  import numpy as np
  np.seterr(all='ignore')

def main(argv):
  if argv[0] == '--replay':
    with open(argv[1]) as fil:
      doc = json.load(fil)
    mod = module_of(doc['property'])
    quiet()
    for i, plan in enumerate(doc['plans']):
      res = run_plan(mod, plan)
      res['index'] = i
      emit(res)
    return 0
  prop, tier, verif_seed, first, step, total, deadline = argv
  mod = module_of(prop)
  quiet()
  first, step, total = int(first), int(step), int(total)
  end = time.monotonic() + float(deadline)
  for index in range(first, total, step):
    if time.monotonic() > end:
      emit({'index': index, 'status': 'deadline'})
      break
    plan = mod.generate(seed_of(prop, verif_seed, index), tier)
    emit({'index': index, 'status': 'start'})
    res = run_plan(mod, plan)
    res['index'] = index
    emit(res)
    if res['status'] != 'ok':
      break
  return 0

if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
