"""Disk seam: every Python-level file operation below the scratch root.

Reads and writes go to the real scratch directory; the seam decides which
operation fails and how.  Crash model: process crash (everything that reached
the file system stays, everything buffered in the process is lost).
"""
import builtins
import errno
import io
import os
import random
import shutil
import tempfile

from .core import SimCrash, HarnessError

_real = dict(
    open=io.open, os_open=os.open, os_write=os.write, os_close=os.close,
    replace=os.replace, rename=os.rename, unlink=os.unlink, remove=os.remove,
    utime=os.utime, chmod=os.chmod, mkdir=os.mkdir, rmdir=os.rmdir,
    truncate=os.truncate, ftruncate=os.ftruncate, link=os.link,
    symlink=os.symlink, sendfile=getattr(os, 'sendfile', None),
)
BASE_TIME = 1_700_000_000       # simulated epoch of the disk clock


class SimRaw(io.FileIO):
    """raw file whose writes and reads pass through the disk model"""

    def __init__(self, disk, file, mode, closefd=True, opener=None, path=None):
        self._disk = disk
        super().__init__(file, mode, closefd=closefd, opener=opener)
        self._path = path
        self._w = any(c in mode for c in 'wxa+')

    def write(self, b):
        data = bytes(b)
        n = self._disk.on_write(self._path, data,
                                lambda d: super(SimRaw, self).write(d))
        self._disk.stamp_fd(self.fileno())
        return n

    def truncate(self, size=None):
        self._disk.event('truncate', self._path)
        r = super().truncate(size)
        self._disk.stamp_fd(self.fileno())
        return r

    def readinto(self, b):
        self._disk.on_read(self._path)
        return super().readinto(b)

    def read(self, size=-1):
        self._disk.on_read(self._path)
        return super().read(size)

    def readall(self):
        self._disk.on_read(self._path)
        return super().readall()

    def close(self):
        if not self.closed and self._w and not self._disk.dead:
            self._disk.event('close', self._path, fallible=False)
        super().close()


class Disk:
    """installs the seam; use as a context manager"""

    def __init__(self, ctx, faults=(), also=()):
        self.ctx = ctx
        self.root = os.path.realpath(ctx.root)
        self.also = [os.path.realpath(p) for p in also]     # only reads fail there
        self.faults = [f for f in faults if f.get('dev', 'disk') == 'disk']
        self.active = []
        self.op = None
        self.n = 0            # mutating operations in this op
        self.nr = 0           # reads in this op
        self.no = 0           # files opened for reading in this op
        self.written = 0      # bytes written in this op
        self.dead = False
        self.full = False
        self.fds = {}
        self.history = []     # (kind, path) of this op
        self.opened = []      # files opened for reading in this op
        self.observer = None  # called after every mutating event
        self.installed = False

    # ---------------------------------------------------------------- scope
    def begin(self, op):
        self.op = op
        self.n = self.nr = self.no = self.written = 0
        self.dead = self.full = False
        self.history = []
        self.opened = []
        self.active = [dict(f, fired=False) for f in self.faults
                       if f.get('op') == op]

    def end(self):
        fired = [f for f in self.active if f['fired']]
        self.op = None
        self.active = []
        self.dead = self.full = False
        return fired

    # ------------------------------------------------------------ mechanics
    def inside(self, path):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        if any(p.startswith(d + os.sep) for d in self.also):
            return p
        return None

    def rel(self, p):
        p = os.path.relpath(p, self.root) if p else '?'
        # temporary names are drawn by the library from its own generator
        return p

    def now_ns(self):
        return int((BASE_TIME + self.ctx.sim_time) * 1e9)

    def stamp_fd(self, fd):
        try:
            _real['utime'](fd, ns=(self.now_ns(),) * 2)
        except OSError:
            pass

    def err(self, no, path):
        return OSError(no, os.strerror(no), path)

    def check_dead(self):
        if self.dead:
            raise SimCrash('process is dead')

    def event(self, kind, path, fallible=True):
        """one mutating operation is about to happen"""
        self.check_dead()
        self.ctx.step()
        n = self.n
        self.n += 1
        self.history.append((kind, path))
        self.ctx.log('disk', self.op, n, kind, self.rel(path))
        for f in self.active:
            if f['fired'] or f['kind'] in ('read_eio', 'full', 'short', 'no_open'):
                continue
            on = f.get('on')
            if on:
                # n-th operation of one kind
                if on != kind:
                    continue
                f['seen'] = f.get('seen', 0) + 1
                if f['seen'] - 1 != f['at']:
                    continue
            elif f['at'] != n:
                continue
            if f['kind'] == 'crash':
                if kind == 'write':
                    continue        # handled in on_write (partial write)
                f['fired'] = True
                self.ctx.fault('crash', kind, self.rel(path))
                self.dead = True
                raise SimCrash(f'crash before {kind}')
            if not fallible:
                continue
            if f['kind'] == 'eio':
                f['fired'] = True
                self.ctx.fault('eio', kind, self.rel(path))
                raise self.err(errno.EIO, path)
            if f['kind'] == 'eacces':
                if kind == 'write':
                    continue
                f['fired'] = True
                self.ctx.fault('eacces', kind, self.rel(path))
                raise self.err(errno.EACCES, path)
            if f['kind'] == 'enospc':
                if kind in ('write', 'open', 'mkdir'):
                    f['fired'] = True
                    self.full = True
                    self.ctx.fault('enospc', kind, self.rel(path))
                    raise self.err(errno.ENOSPC, path)
        return n

    def after(self, kind, path):
        if self.observer and not self.dead:
            self.observer(kind, path)

    def on_write(self, path, data, do):
        n = self.event('write', path)
        if self.full:
            raise self.err(errno.ENOSPC, path)
        for f in self.active:
            if f['fired']:
                continue
            if f['kind'] == 'crash' and not f.get('on') and f['at'] == n:
                f['fired'] = True
                k = int(len(data) * f.get('frac', 0.5))
                if k:
                    do(data[:k])
                self.ctx.fault('crash', 'write', self.rel(path), k)
                self.dead = True
                raise SimCrash('crash in write')
            if f['kind'] == 'crash' and f.get('on') == 'write' and f.get('seen', 0) - 1 == f['at']:
                f['fired'] = True
                k = int(len(data) * f.get('frac', 0.5))
                if k:
                    do(data[:k])
                self.ctx.fault('crash', 'write', self.rel(path), k)
                self.dead = True
                raise SimCrash('crash in write')
            if f['kind'] == 'full' and self.written + len(data) > f['bytes']:
                k = max(0, f['bytes'] - self.written)
                f['fired'] = True
                self.full = True
                self.ctx.fault('disk_full', self.rel(path), k)
                if k:
                    w = do(data[:k])
                    self.written += w
                    self.after('write', path)
                    return w
                raise self.err(errno.ENOSPC, path)
            if f['kind'] == 'short' and f['at'] == n and len(data) > 1:
                f['fired'] = True
                k = max(1, int(len(data) * f.get('frac', 0.5)))
                self.ctx.fault('short_write', self.rel(path), k)
                w = do(data[:k])
                self.written += w
                self.after('write', path)
                return w
        w = do(data)
        self.written += w or 0
        self.after('write', path)
        return w

    def on_read(self, path):
        self.check_dead()
        self.ctx.step()
        n = self.nr
        self.nr += 1
        for f in self.active:
            if f['kind'] == 'read_eio' and not f['fired'] and f['at'] == n:
                f['fired'] = True
                self.ctx.fault('read_eio', self.rel(path))
                raise self.err(errno.EIO, path)

    def on_open(self, path):
        n = self.no
        self.no += 1
        self.opened.append(path)
        for f in self.active:
            if f['kind'] == 'no_open' and not f['fired'] and f['at'] == n:
                f['fired'] = True
                self.ctx.fault('no_open', f['errno'], self.rel(path))
                raise self.err(getattr(errno, f['errno']), path)

    # ----------------------------------------------------------------- open
    def _open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        path = self.inside(file)
        if path is None:
            return _real['open'](file, mode, buffering, encoding, errors,
                                 newline, closefd, opener)
        self.check_dead()
        writing = any(c in mode for c in 'wxa+')
        if writing and not isinstance(file, int):
            # a file that is created or truncated is a mutation
            self.event('open', path)
        if not writing and not isinstance(file, int):
            self.on_open(path)
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '')
        raw = SimRaw(self, file, rawmode, closefd, opener, path)
        if writing and not isinstance(file, int) and 'a' not in mode \
                and 'r' not in mode:
            self.stamp_fd(raw.fileno())
            self.after('open', path)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                                line_buffering=(buffering == 1))
        text.mode = mode
        return text

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.inside(path) if dir_fd is None else None
        if p is None or flags & os.O_DIRECTORY:
            return _real['os_open'](path, flags, mode, dir_fd=dir_fd)
        self.check_dead()
        if flags & (os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_RDWR):
            self.event('open', p)
        existed = os.path.exists(p)
        fd = _real['os_open'](path, flags, mode)
        self.fds[fd] = p
        if (flags & os.O_CREAT and not existed) or flags & os.O_TRUNC:
            self.stamp_fd(fd)
            self.after('open', p)
        return fd

    def _os_write(self, fd, data):
        p = self.fds.get(fd)
        if p is None:
            return _real['os_write'](fd, data)
        n = self.on_write(p, bytes(data), lambda d: _real['os_write'](fd, d))
        self.stamp_fd(fd)
        return n

    def _os_close(self, fd):
        self.fds.pop(fd, None)
        return _real['os_close'](fd)

    def _two(self, name):
        real = _real[name]

        def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None, **kw):
            p, q = self.inside(src), self.inside(dst)
            if src_dir_fd is not None:
                kw['src_dir_fd'] = src_dir_fd
            if dst_dir_fd is not None:
                kw['dst_dir_fd'] = dst_dir_fd
            if kw or (p is None and q is None):
                return real(src, dst, **kw)
            if p and q and self.xdev and self.device(p) != self.device(q):
                self.check_dead()
                self.ctx.log('disk', self.op, name, 'EXDEV', self.rel(p))
                raise self.err(errno.EXDEV, src)
            self.event(name, q or p)
            r = real(src, dst)
            self.after(name, q or p)
            return r
        return f

    xdev = False

    def device(self, p):
        """simulated mounts: directories named mnt<n> are other file systems"""
        parts = os.path.relpath(p, self.root).split(os.sep)
        return parts[0] if parts and parts[0].startswith('mnt') else ''

    def _one(self, name, real_name=None):
        real = _real[real_name or name]

        def f(path, *args, **kw):
            p = self.inside(path)
            if p is None or kw.get('dir_fd') is not None:
                return real(path, *args, **kw)
            self.event(name, p)
            r = real(path, *args, **kw)
            self.after(name, p)
            return r
        return f

    # -------------------------------------------------------------- install
    def __enter__(self):
        if self.installed:
            raise HarnessError('disk seam installed twice')
        self.installed = True
        self.saved = []

        def patch(obj, name, value):
            self.saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, value)
        patch(builtins, 'open', self._open)
        patch(io, 'open', self._open)

        class Shim:
            open = staticmethod(self._open)

            def __getattr__(s, k):
                return getattr(io, k)
        patch(tempfile, '_io', Shim())
        # deterministic temporary names
        names = tempfile._RandomNameSequence()
        names._rng = random.Random(12345)
        names._rng_pid = os.getpid()
        patch(tempfile, '_name_sequence', names)
        patch(os, 'open', self._os_open)
        patch(os, 'write', self._os_write)
        patch(os, 'close', self._os_close)
        for k in ('replace', 'rename', 'link'):
            patch(os, k, self._two(k))
        patch(os, 'unlink', self._one('unlink'))
        patch(os, 'remove', self._one('unlink', 'remove'))
        for k in ('utime', 'chmod', 'mkdir', 'rmdir', 'truncate'):
            patch(os, k, self._one(k))
        patch(shutil, '_USE_CP_SENDFILE', False)
        if hasattr(shutil, '_USE_CP_COPY_FILE_RANGE'):
            patch(shutil, '_USE_CP_COPY_FILE_RANGE', False)
        return self

    def __exit__(self, *exc):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)
        self.installed = False
        return False


def snapshot(root):
    """relative path -> (bytes, mode, mtime) of everything below root"""
    out = {}
    for d, subs, files in os.walk(root):
        subs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            st = os.lstat(p)
            with _real['open'](p, 'rb') as h:
                b = h.read()
            out[os.path.relpath(p, root)] = (b, st.st_mode & 0o777, st.st_mtime)
    return out


def put(path, data, mtime=None, mode=None):
    """place a file on the scratch disk behind the seam"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with _real['open'](path, 'wb') as h:
        h.write(data)
    if mode is not None:
        _real['chmod'](path, mode)
    t = BASE_TIME if mtime is None else mtime
    _real['utime'](path, (t, t))


def peek(path):
    """content of a file behind the seam, or None"""
    try:
        with _real['open'](path, 'rb') as h:
            return h.read()
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None
