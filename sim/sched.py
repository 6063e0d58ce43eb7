"""Real threads, one at a time: who runs next is decided before every line (or
bytecode) of library code by a schedule that is part of the scenario."""
import os
import sys
import threading
import time

from sim.core import HarnessError, Violation

_real_lock, _real_rlock = threading.Lock, threading.RLock
LIB = tuple(os.path.join(os.environ.get('VERIF_REPO', '/repo'), d)
            for d in ('pyTMD', 'scripts'))
current = threading.local()


class SimLock:
    """a lock of the library: waiting for it lets another thread run"""

    def __init__(self, make):
        self._lock = make()

    def acquire(self, blocking=True, timeout=-1):
        s = getattr(current, 'sched', None)
        if s is None or not blocking:
            return self._lock.acquire(blocking, timeout)
        tries = 0
        while not self._lock.acquire(False):
            tries += 1
            if timeout is not None and timeout >= 0 and tries > 50:
                return False
            s.wait()
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    def __getattr__(self, name):
        return getattr(self._lock, name)


def _factory(real):
    def make(*args):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(LIB):
            return SimLock(real)
        return real(*args)
    return make


def install():
    """before the library is imported"""
    threading.Lock = _factory(_real_lock)
    threading.RLock = _factory(_real_rlock)


class Tracer:
    """calls back before every line of library code in one thread"""

    def __init__(self, step, opcodes=False):
        self.step, self.opcodes = step, opcodes

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(LIB) \
                or frame.f_code.co_name == '<module>':
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            return self.opcode
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.step(frame)
        return self.line

    def opcode(self, frame, event, arg):
        if event == 'opcode':
            self.step(frame)
        return self.opcode


def where(frame):
    return (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name,
            frame.f_lineno)


def measure(fn, opcodes=False):
    """result of fn, steps it takes alone and, by function, the first step of
    every line"""
    n, first, seen = [0], {}, set()

    def step(frame):
        n[0] += 1
        w = (frame.f_code, frame.f_lineno)
        if w not in seen:
            seen.add(w)
            first.setdefault(where(frame)[:2], []).append(n[0])
    old = sys.gettrace()
    sys.settrace(Tracer(step, opcodes))
    try:
        out = fn()
    finally:
        sys.settrace(old)
    return out, n[0], list(first.values())


class Sched:
    """jobs[i] is what thread i does; switches[i] maps the number of steps that
    thread i has taken to the thread that runs next"""

    def __init__(self, jobs, switches, opcodes=False, on_switch=None, limit=400):
        self.jobs, self.switches = jobs, switches
        self.n = len(jobs)
        self.opcodes = opcodes
        self.on_switch = on_switch or (lambda *a: None)
        self.limit = limit
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * self.n
        self.waiting = [False] * self.n
        self.count = [0] * self.n
        self.out = [None] * self.n
        self.over = threading.Semaphore(0)
        self.failed = None
        self.made = 0
        self.frames = [None] * self.n

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True)
                   for i in range(self.n)]
        for t in threads:
            t.start()
        self.go[0].release()
        end = time.monotonic() + self.limit
        while not self.over.acquire(timeout=1.0):
            if time.monotonic() > end:
                raise HarnessError('threads blocked outside of the scheduler')
        if self.failed:
            raise self.failed
        return self.out

    def body(self, i):
        self.go[i].acquire()
        current.sched, current.i = self, i
        sys.settrace(Tracer(self.step, self.opcodes))
        try:
            self.out[i] = self.jobs[i]()
        except BaseException as e:
            self.out[i] = e
        finally:
            sys.settrace(None)
        self.done[i] = True
        # whoever waits for a lock may try again
        self.waiting = [False] * self.n
        nxt = [j for j in range(self.n) if not self.done[j]]
        if nxt:
            self.go[nxt[0]].release()
        else:
            self.over.release()

    def step(self, frame):
        i = current.i
        self.count[i] += 1
        to = self.switches[i].get(self.count[i])
        if to is None:
            return
        to %= self.n
        # somebody that can run
        for k in range(self.n):
            j = (to + k) % self.n
            if j != i and not self.done[j] and not self.waiting[j]:
                break
        else:
            return
        self.made += 1
        self.on_switch(i, j, where(frame))
        self.swap(i, j)

    def swap(self, i, j):
        tr = sys.gettrace()
        self.go[j].release()
        self.go[i].acquire()
        if self.failed:
            sys.settrace(None)
            raise SystemExit
        return tr

    def wait(self):
        """the running thread cannot get a lock: let the others run"""
        i = current.i
        self.waiting[i] = True
        nxt = [j for j in range(self.n) if not self.done[j] and not self.waiting[j]]
        if not nxt:
            # all are waiting: let every one of them try once more
            if getattr(self, 'stuck', 0) > 3 * self.n:
                self.failed = Violation('deadlock', 'all threads wait for locks')
                self.over.release()
                raise SystemExit
            self.stuck = getattr(self, 'stuck', 0) + 1
            nxt = [j for j in range(self.n) if not self.done[j] and j != i]
            if not nxt:
                self.failed = Violation('deadlock', 'a thread waits for a lock that '
                                        'nobody will release')
                self.over.release()
                raise SystemExit
        else:
            self.stuck = 0
        self.swap(i, nxt[0])
        self.waiting[i] = False
