"""Interpreters with other hash seeds: each is started once, forks a process for
every question and ends with the process that started it."""
import ctypes
import importlib
import os
import signal
import socket
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == '__main__':
    sys.path[0] = os.path.dirname(HERE)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

from sim.core import HarnessError  # noqa: E402
from sim import fresh  # noqa: E402

SEEDS = (1, 7, 23)
_running = {}


def _name(pid, k):
    return f'\0vps-hash-{pid}-{k}'


def _die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def start(module):
    """start the interpreters, before the runs are forked"""
    if _running:
        return
    for k in SEEDS:
        r, w = os.pipe()
        env = dict(os.environ, PYTHONHASHSEED=str(k))
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-s', __file__, module,
                              _name(os.getpid(), k)[1:], str(w)], env=env,
                             pass_fds=[w], preexec_fn=_die_with_parent,
                             stdin=subprocess.DEVNULL)
        os.close(w)
        _running[k] = (p, r, os.getpid())
    for p, r, _ in _running.values():
        if os.read(r, 1) != b'r':
            raise HarnessError('an interpreter with another hash seed did not start')
        os.close(r)


def ask(k, question):
    with socket.socket(socket.AF_UNIX) as s:
        s.connect(_name(_running[k][2], k))
        fresh._send(s.fileno(), question)
        out = fresh._receive(s.fileno())
    if isinstance(out, HarnessError):
        raise out
    return out


def main(module, name, ready):
    mod = importlib.import_module(module)
    s = socket.socket(socket.AF_UNIX)
    s.bind('\0' + name)
    s.listen(64)
    os.write(ready, b'r')
    os.close(ready)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        s.close()
        try:
            try:
                out = mod.serve(fresh._receive(c.fileno()))
            except BaseException as e:
                import traceback
                out = HarnessError(f'{type(e).__name__}: {e} {traceback.format_exc()}')
            fresh._send(c.fileno(), out)
        finally:
            os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]))
