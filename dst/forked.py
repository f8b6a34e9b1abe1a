""" Runs a function in a forked child and collects what it reported before its end. """
import json
import os
import signal
import sys

def run(fun, timeout=60):
  """ fun(say) runs in the child -> (messages, ending); ending is 'exit', 'crash' or
  'signal N' """
  rfd, wfd = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(rfd)
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      signal.alarm(timeout)
      def say(*msg):
        os.write(wfd, (json.dumps(msg) + '\n').encode())
      fun(say)
      code = 0
    except BaseException as exc:
      try:
        from dst.core import brief
        os.write(wfd, (json.dumps(['error', type(exc).__name__, brief(exc)]) + '\n').encode())
      except BaseException:
        pass
    finally:
      os._exit(code)
  os.close(wfd)
  data = b''
  while True:
    part = os.read(rfd, 65536)
    if not part:
      break
    data += part
  os.close(rfd)
  _, status = os.waitpid(pid, 0)
  msgs = []
  for line in data.decode().splitlines():
    try:
      msgs.append(json.loads(line))
    except ValueError: # cut short
      pass
  if os.WIFSIGNALED(status):
    return msgs, 'signal {}'.format(os.WTERMSIG(status))
  if os.WEXITSTATUS(status) == 77:
    return msgs, 'crash'
  return msgs, 'exit'
