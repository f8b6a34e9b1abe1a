""" Builds the LD_PRELOAD shim that owns disk I/O (dst/iosim.c). """
import hashlib
import os
import subprocess
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'out')

def shim():
  src = os.path.join(HERE, 'iosim.c')
  with open(src, 'rb') as fil:
    tag = hashlib.sha256(fil.read()).hexdigest()[:12]
  lib = os.path.join(OUT, 'iosim-{}.so'.format(tag))
  if not os.path.exists(lib):
    os.makedirs(OUT, exist_ok=True)
    tmp = '{}.{}.{}'.format(lib, os.getpid(), threading.get_ident())
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
    os.replace(tmp, lib)
  return lib

if __name__ == '__main__':
  print(shim())
