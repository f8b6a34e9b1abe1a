""" Replays a file written by a failing check: python -m dst.replay <file> """
import json
import sys
from dst.check import replay_doc
from dst.worker import module_of

def main():
  with open(sys.argv[1]) as fil:
    doc = json.load(fil)
  res = replay_doc(doc, module_of(doc['property']))
  print(json.dumps({k: res.get(k) for k in ('status', 'kind')}))
  print(res.get('detail', ''))
  if res['status'] == 'violation':
    print('VIOLATION property={} replay={}'.format(doc['property'], sys.argv[1]))
    return 1
  return 0 if res['status'] == 'ok' else 2

if __name__ == '__main__':
  sys.exit(main())
