"""P12: a result file that could not be completely written is reported."""
import os
import pickle
import resource
import signal

import numpy as np
import pyTMD.spatial as S

from sim.core import Violation, HarnessError
from sim.disk import peek
from props import p11

ID = 'P12'
RUNS = dict(quick=1500, thorough=60000)
RULE = ('a run writes 1-3 result files (5 formats, 3 layouts, new files, '
        'replacements and updates) on a disk that fills at a chosen byte or in a '
        'process that dies at that byte, reads what is left, and writes again once '
        'there is space; non-trivial: the disk filled or the process died; distinct '
        'by hash of the event trace')
STATE_MEASURE = '(format, layout, fault, sixteenth of the file reached, prior file, outcome)'
COMPONENTS = dict(real=['pyTMD.spatial writers and readers', 'netCDF4', 'h5py', 'GDAL',
                        'pyarrow', 'kernel enforcing the size limit'],
                  simulated=['full disk and process death at a byte offset'])
ASSUMPTIONS = ['a full disk refuses every byte beyond one offset of the file',
               'incomplete text and GeoTIFF files carry nothing that tells a reader '
               'they are incomplete: only their writer is required to report it']
CPU_LIMIT = 60


def generate(rng, idx, tier):
    data = [dict(layout=rng.choice(['drift', 'grid', 'time series']),
                 seed=rng.randrange(10**6), n=rng.choice([1, 3, 30, 400]),
                 m=rng.choice([1, 3, 40]), t=rng.choice([1, 2, 5]),
                 mask=rng.choice([0, 0.3]), fill=rng.choice([None, -9999.0]),
                 dtype=rng.choice(['f8', 'f4']), names=['time', 'y', 'x', 'data'],
                 root=rng.random() < 0.3, crs=rng.random() < 0.2,
                 extra=rng.random() < 0.3, strtime=False)]
    ops, faults = [], []
    for i in range(rng.randint(1, 3)):
        fmts = dict(drift=['ascii', 'ascii', 'netCDF4', 'HDF5', 'parquet'],
                    grid=['netCDF4', 'HDF5', 'GTiff', 'GTiff', 'cog']).get(
                        data[0]['layout'], ['netCDF4', 'HDF5'])
        ops.append(dict(id=i, fmt=rng.choice(fmts), file=rng.choice('ab'),
                        mode=rng.choice([None, None, 'a']), geo=rng.random() < 0.4,
                        delim=',', header=rng.choice([False, 'YAML']),
                        retry=rng.choice(['now', 'inside', 'later']),
                        pq=rng.choice(['snappy', None])))
        if rng.random() < 0.9:
            faults.append(dict(op=i, dev='disk', kind=rng.choice(['full', 'full', 'die']),
                               frac=rng.choice([0, 1e-9, 0.999999, rng.random(),
                                                rng.random(), rng.random(), 'less1',
                                                'same'])))
    return dict(data=data, ops=ops, faults=faults)


def write(spec, op, path, version, mode):
    out, att = p11.build(spec, version)
    fmt, (tn, yn, xn, vn) = op['fmt'], spec['names']
    kw = {}
    if fmt == 'ascii':
        kw = dict(columns=[tn, yn, xn, vn], header=bool(op['header']))
    elif fmt in ('netCDF4', 'HDF5'):
        kw = {'mode': mode} if mode else {}
        if fmt == 'netCDF4':
            kw['data_type'] = spec['layout']
    elif fmt in ('GTiff', 'cog'):
        kw = dict(varname=vn, driver=fmt)
    elif fmt == 'parquet':
        out.pop('crs', None)
        kw = dict(geoparquet=op['geo'], compression=op['pq'], crs=4326)
    S.to_file(out, att, path, fmt, **kw)


def read(spec, op, path):
    tn, yn, xn, vn = spec['names']
    fmt = op['fmt']
    kw = {}
    if fmt == 'ascii':
        kw = dict(columns=[tn, yn, xn, vn], header='YAML' if op['header'] else 0)
    elif fmt in ('netCDF4', 'HDF5'):
        kw = dict(timename=tn, xname=xn, yname=yn, varname=vn)
    res = S.from_file(path, fmt, **kw)
    keys = ('x', 'y', 'data') if fmt in ('GTiff', 'cog') else ('x', 'y', 'data', 'time')
    return {k: np.array(np.ma.getdata(res[k])) for k in keys}


def equal(a, b):
    return a is not None and b is not None and all(
        a[k].shape == b[k].shape and a[k].tobytes() == b[k].tobytes() for k in b)


def in_child(fn, limit=None, die=False):
    """run fn in a process of its own; returns (status, payload)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
            code = fn(w, limit)
        except BaseException as e:
            os.write(w, repr(e)[:300].encode())
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return -os.WTERMSIG(st), buf
    return os.WEXITSTATUS(st), buf


def answer(fn):
    """what a fresh process gets from fn, or the text of its error"""
    def job(w, limit):
        os.write(w, pickle.dumps(fn()))
        return 0
    status, buf = in_child(job)
    return pickle.loads(buf) if status == 0 else \
        f'status {status} {buf.decode("utf8", "replace")}'


def reading(spec, op, path):
    got = answer(lambda: read(spec, op, path))
    return (None, got) if isinstance(got, str) else (got, None)


def set_limit(n):
    resource.setrlimit(resource.RLIMIT_FSIZE,
                       (resource.RLIM_INFINITY if n is None else n,
                        resource.RLIM_INFINITY))


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    spec = sc['data'][0]
    store = {}          # file -> (fmt, version) of its complete content
    for op in sc['ops']:
        ctx.advance(60)
        one(sc, spec, op, store, ctx)


def quiet():
    # the C libraries print what the exceptions say
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 2)
    os.close(n)


def one(sc, spec, op, store, ctx):
    fmt = op['fmt']
    path = os.path.join(ctx.root, op['file'] + dict(GTiff='.tif', cog='.cog').get(
        fmt, '.' + fmt))
    ref = path + '.ref'
    pre = store.get(path)
    mode = op['mode'] if fmt in ('netCDF4', 'HDF5') else None
    version = op['id'] + 1
    if peek(path) is not None:
        with open(ref, 'wb') as f:
            f.write(peek(path))
    want = answer(lambda: (write(spec, op, ref, version, mode), read(spec, op, ref))[1])
    if isinstance(want, str):
        raise Violation('write-failed', f'{fmt}, no fault: {want}')
    size = os.path.getsize(ref)
    os.unlink(ref)
    fault = ([f for f in sc['faults'] if f['op'] == op['id']] or [None])[0]
    limit = None
    if fault:
        fr = fault['frac']
        limit = size - 1 if fr == 'less1' else size if fr == 'same' else int(fr * size)
        limit = max(0, limit)
    die = bool(fault) and fault['kind'] == 'die'

    def job(w, limit):
        set_limit(limit)
        try:
            write(spec, op, path, version, mode)
        except BaseException as e:
            if op['retry'] != 'inside':
                os.write(w, repr(e)[:300].encode())
            set_limit(None)
            if op['retry'] == 'inside':
                # the caller handles the error by writing again
                write(spec, op, path, version, None)
                return 2
            if op['retry'] == 'now':
                del e
                write(spec, op, path, version, None)
                return 2
            return 1
        set_limit(None)
        return 0
    status, msg = in_child(job, limit, die)
    hit = status in (1, 2) or status < 0
    got, err = reading(spec, op, path)
    complete = equal(got, want)
    if limit is not None:
        ctx.fault('disk_full' if not die else 'process_death', fmt,
                  'hit' if hit else 'not reached')
    if hit and fmt in ('netCDF4', 'HDF5') and \
            status in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT):
        # the HDF5 library can crash after a failed flush: a dead process,
        # which is no silent loss
        status = -signal.SIGXFSZ
    outcome = {0: 'returned', 1: 'raised', 2: 'raised-retried'}.get(
        status, 'died' if status == -signal.SIGXFSZ else 'other')
    if hit and fmt in ('netCDF4', 'HDF5'):
        outcome = 'failed'      # raised, or died in the library
        ctx.log('op', op['id'], fmt, spec['layout'], mode, bool(pre), outcome)
    else:
        ctx.log('op', op['id'], fmt, spec['layout'], mode, bool(pre), outcome, complete)
    # libraries differ in how much they write before they notice
    ctx.state(fmt, spec['layout'], bool(fault) and fault['kind'], mode, bool(pre),
              None if limit is None else limit * 16 // (size + 1), outcome)
    if hit:
        ctx.nontrivial = True
    ctx.probe(outcome)
    where = (f"{fmt} ({spec['layout']}, {'update' if mode else 'write'}"
             f"{', replacing a file' if pre else ''}) with the disk full after "
             f'{limit} of {size} bytes')
    if status not in (0, 1, 2, -signal.SIGXFSZ):
        if status == 3:
            raise Violation('repeat-failed', f'{where}: writing again in the same process '
                            f'({op["retry"]}) failed: {msg.decode("utf8", "replace")}')
        raise Violation('abort', f'{where}: process ended with status {status}')
    if status == 0 and not complete:
        raise Violation('silent-loss', f'{where}: the writer returned, but the file '
                        f'{"cannot be read: %r" % err if err else "has other values"}')
    if status == 2 and not complete:
        raise Violation('repeat-incomplete', f'{where}: written again, but the file '
                        f'{"cannot be read: %r" % err if err else "has other values"}')
    if status != 0 and limit is None:
        raise Violation('spurious-error', f'{fmt}: {msg!r}')
    if complete and status in (0, 2):
        store[path] = version
        return
    # there is space again: a new attempt by a new process
    status, msg = in_child(lambda w, l: write(spec, op, path, version, None) or 0)
    got, err = reading(spec, op, path)
    if status != 0 or not equal(got, want):
        raise Violation('repeat-failed', f'{where}: writing again later: status {status}, '
                        f'{msg.decode("utf8", "replace")} {err!r}')
    store[path] = version
    ctx.probe('repaired_later')

