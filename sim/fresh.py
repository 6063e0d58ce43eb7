"""A pristine copy of this process that answers questions: every question is
answered by a process of its own, forked before anything else happened."""
import os
import pickle
import signal
import struct

from sim.core import HarnessError


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, min(1 << 20, n - len(out)))
        if not b:
            raise EOFError
        out += b
    return out


def _send(fd, obj):
    d = pickle.dumps(obj)
    d = struct.pack('<Q', len(d)) + d
    off = 0
    while off < len(d):
        off += os.write(fd, d[off:off + (1 << 20)])


def _receive(fd):
    n, = struct.unpack('<Q', _read(fd, 8))
    return pickle.loads(_read(fd, n))


class Fresh:
    def __init__(self, fn):
        """fn(question) is run in a new process for every question"""
        a, self.q = os.pipe()
        self.a, b = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(a)
            os.close(b)
            return
        try:
            os.close(self.q)
            os.close(self.a)
            while True:
                try:
                    question = _receive(a)
                except EOFError:
                    break
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        out = fn(question)
                    except BaseException as e:
                        out = HarnessError(f'{type(e).__name__}: {e}')
                    try:
                        _send(b, out)
                    except BaseException:
                        code = 5
                    os._exit(code)
                _, st = os.waitpid(pid, 0)
                if st:
                    _send(b, HarnessError(f'a fresh process ended with status {st}'))
        finally:
            os._exit(0)

    def ask(self, question):
        _send(self.q, question)
        out = _receive(self.a)
        if isinstance(out, HarnessError):
            raise out
        return out

    def close(self):
        os.close(self.q)
        os.close(self.a)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
