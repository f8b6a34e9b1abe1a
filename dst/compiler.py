""" The compiler seam: the subprocess interface through which expressions are compiled,
and the temporary folder it works in. """
import errno
import os
import subprocess
import sys
import tempfile

_REAL = subprocess.Popen
_TMP = tempfile.tempdir

class NoCompiler(_REAL):
  """ Every attempt to start a program fails """
  def __init__(self, *args, **kwds):
    raise OSError(errno.ENOENT, 'no such program (injected)')

def off():
  subprocess.Popen = NoCompiler

def on():
  subprocess.Popen = _REAL

SCRIPTS = {
    'compiler fails': 'echo error: no; exit 1',
    'compiler fails with undecodable output': "printf '\\377\\376'; exit 1",
    'compiler killed': 'kill -9 $$',
    'compiler makes nothing': 'exit 0',
    'compiler makes an empty library': ': > {mod}.so; exit 0',
    'compiler makes a torn library': "printf '\\177ELF\\002\\001\\001' > {mod}.so; exit 0",
    'compiler half done': 'rm -f *.c; exit 2',
}
ERRNOS = {'no compiler': errno.ENOENT, 'compiler not permitted': errno.EACCES, 'no memory for a process': errno.ENOMEM,
          'no process': errno.EAGAIN, 'no descriptors': errno.EMFILE}
TEMP = ('no temporary folder', 'temporary folder not permitted')
TRANSLATION = {'translation too deep': RecursionError, 'translation too large': MemoryError, 'translation not parsed': SyntaxError}
STAGES = tuple(SCRIPTS) + tuple(ERRNOS) + TEMP

class Seam:
  """ Decides the fate of the k-th, (k+1)-th... compilation """
  def __init__(self, fates, default, home, translation=None):
    self.translation = translation # fate of translations to Python
    self.fates = list(fates)
    self.default = default     # fate of further compilations
    self.home = home
    self.n = 0
    self.fired = []

  def _fate(self):
    fate = self.fates[self.n] if self.n < len(self.fates) else self.default
    self.n += 1
    return fate

  def __enter__(self):
    seam = self
    class Popen(_REAL):
      def __init__(self, args, *rest, **kwds):
        fate = seam._fate()
        if fate == 'interrupt':
          from dst.core import InjectedInterrupt
          seam.fired.append(fate)
          raise InjectedInterrupt(fate)
        if fate in ERRNOS:
          seam.fired.append(fate)
          raise OSError(ERRNOS[fate], fate + ' (injected)')
        if fate in SCRIPTS:
          seam.fired.append(fate)
          mods = [f[:-2] for f in sorted(os.listdir('.')) if f.endswith('.c')] or ['none']
          args = ['/bin/sh', '-c', SCRIPTS[fate].replace('{mod}', mods[-1])]
        super().__init__(args, *rest, **kwds)
    subprocess.Popen = Popen
    tempfile.tempdir = self.home
    real = tempfile.mkdtemp
    self._mkdtemp = real
    def mkdtemp(*args, **kwds):
      fate = seam.fates[seam.n] if seam.n < len(seam.fates) else seam.default
      if fate in TEMP:
        seam.n += 1
        seam.fired.append(fate)
        code = errno.ENOENT if fate == TEMP[0] else errno.EACCES
        raise OSError(code, fate + ' (injected)')
      return real(*args, **kwds)
    tempfile.mkdtemp = mkdtemp
    if self.translation:
      def fail(*args, **kwds):
        seam.fired.append(seam.translation)
        raise TRANSLATION[seam.translation](seam.translation + ' (injected)')
      sys.modules['sympy.utilities.lambdify'].compile = fail
    return self

  def __exit__(self, *exc):
    subprocess.Popen = _REAL
    tempfile.tempdir = _TMP
    tempfile.mkdtemp = self._mkdtemp
    vars(sys.modules['sympy.utilities.lambdify']).pop('compile', None)
    return False
