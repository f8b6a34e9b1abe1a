""" usage: uncovered.py FOLDER [FILE.py]: lines of probayes no check reached (FOLDER: as given in VERIF_COV, one subfolder per check). """
import dis, glob, os, sys
repo = os.environ.get('VERIF_REPO', '/repo')
hit = {}
for path in glob.glob(sys.argv[1] + '/**/*', recursive=True):
  if os.path.isfile(path):
    for entry in open(path):
      name, number = entry.strip().rsplit(':', 1)
      hit.setdefault(name, set()).add(int(number))
def lines(code):
  out = {l for _, l in dis.findlinestarts(code) if l}
  for const in code.co_consts:
    if hasattr(const, 'co_code'):
      out |= lines(const)
  return out
for path in sorted(glob.glob(repo + '/probayes/*.py')):
  name = os.path.basename(path)
  text = open(path).read()
  all_ = lines(compile(text, path, 'exec'))
  miss = sorted(all_ - hit.get(name, set()))
  if len(sys.argv) > 2:
    if name == sys.argv[2]:
      src = text.splitlines()
      for m in miss:
        print(m, src[m-1])
  else:
    print(name, len(all_), 'missed', len(miss))
