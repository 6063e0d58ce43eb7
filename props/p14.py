"""P14: a damaged tide-model file never yields harmonic constants silently."""
import gzip
import os
import shutil

import numpy as np
from pyTMD.io import ATLAS, FES, GOT, OTIS

from sim import deep, models
from sim.core import Violation
from props import p13
from props.p12 import answer, in_child, set_limit

ID = 'P14'
RUNS = dict(quick=2000, thorough=100000)
RULE = ('a run stores one model (9 families, plain or gzip), records what every reader '
        'answers, then cuts, removes or rewrites (full disk, process death) one of '
        'its files and reads again; non-trivial: the file changed; distinct by hash '
        'of the event trace')
STATE_MEASURE = '(family, reader, damage, sixteenth of the file left, outcome)'
COMPONENTS = dict(real=['pyTMD.io readers, extract_constants, read_constants, writers',
                        'netCDF4', 'gzip'],
                  simulated=['damage to stored files', 'full disk and process death '
                             'while a model file is written'])
ASSUMPTIONS = ['text files are cut by whole values or lines',
               'an ATLAS compact file cut exactly between two local solutions is a '
               'well-formed file of fewer local solutions']
CPU_LIMIT = 60
FAMS = ['otis', 'otis', 'tmd3', 'atlas', 'atlas', 'got-nc', 'got-ascii', 'fes-nc',
        'fes-ascii', 'atlasc', 'atlasc']
TEXT = ('got-ascii', 'fes-ascii')


def generate(rng, idx, tier):
    fam = rng.choice(FAMS)
    nx = rng.choice([2, 3, 5, 8, 12, 23]) if fam not in TEXT else \
        rng.choice([31, 32, 35, 61])
    sp = dict(seed=rng.randrange(10**6), nx=nx, ny=rng.choice([2, 3, 4, 6]),
              cons=rng.sample(models.CONS, rng.randint(1, 4)),
              lims=rng.choice([[0, 360, -90, 90], [10, 40, 50, 62]]), land=0.2,
              nob=rng.choice([0, 1, 3]), dt=12.0)
    gz = fam in ('atlas', 'got-nc', 'got-ascii', 'fes-nc', 'fes-ascii') \
        and rng.random() < 0.4
    faults = []
    for i in range(rng.randint(1, 3)):
        kind = rng.choice(['cut', 'cut', 'cut', 'missing', 'torn'])
        faults.append(dict(dev='disk', kind=kind, file=rng.randrange(9),
                           how=rng.choice(['any', 'any', 'unit', 'unit', 'edge', 'end']),
                           pos=rng.random(), off=rng.randrange(-3, 4),
                           mode=rng.choice(['full', 'die'])))
    return dict(fam=fam, spec=sp, gz=gz, slots=rng.randrange(4), faults=faults,
                version=rng.choice(['FES2014', 'FES2012', 'HAMTIDE11', 'EOT20']),
                t=rng.choice('zuv'), method=rng.choice(['bilinear', 'spline', 'linear',
                                                        'nearest']),
                by=rng.choice(['lib', 'raw']))


def op(sc, kind, c=0):
    return dict(kind=kind, by=sc['by'], c=c, t=sc['t'], version=sc['version'],
                bits='c8', lim='>f4', end='>', masked='ma', shuffle=sc['slots'])


def build(sc, d, root):
    """write the files of the model; returns {role: (path, kind, constituent)}"""
    fam = sc['fam']
    out = {}
    if fam in ('otis', 'atlasc'):
        for k in ('grid', 'z', 'uv'):
            out[k] = (f'{fam}-{k}', 0)
    elif fam == 'tmd3':
        out['all'] = ('tmd3', 0)
    elif fam == 'atlas':
        out['grid'] = ('atlas-grid', 0)
        for i, c in enumerate(d['cons']):
            out[f'z{i}'] = ('atlas-z', i)
            out[f'uv{i}'] = ('atlas-uv', i)
    else:
        for i, c in enumerate(d['cons']):
            out[f'{i}'] = (fam, i)
    files = {}
    for role, (kind, i) in out.items():
        # names from which the constituent can be parsed
        name = f'{role}_{d["cons"][i]}' if role != 'grid' else 'grid'
        path = os.path.join(root, name + ('.gz' if sc['gz'] else ''))
        put(sc, d, kind, i, path)
        files[role] = (path, kind, i)
    return files


def put(sc, d, kind, i, path):
    o = op(sc, kind, i)
    if kind in p13.RAW:
        o['by'] = 'raw'
    plain = path + '.plain' if sc['gz'] else path
    p13.write(o, d, p13.inputs(o, d), plain)
    if sc['gz']:
        with open(plain, 'rb') as f, gzip.GzipFile(path, 'wb', mtime=0) as g:
            g.write(f.read())
        os.unlink(plain)


def readers(sc, d, files):
    """the calls a user makes: name -> (function, roles it reads)"""
    fam, cons, calls = sc['fam'], d['cons'], {}
    P = {r: f[0] for r, f in files.items()}
    x = d['x'][0] + d['dx'] * (d['nx'] - 1) * np.array([0.1, 0.4877, 0.73, 0.9])
    y = d['y'][0] + d['dy'] * (d['ny'] - 1) * np.array([0.3, 0.61, 0.4877, 0.9])
    kw = dict(method=sc['method'])
    z = dict(compressed=sc['gz'])

    def add(name, fn, *roles):
        calls[name] = (fn, roles)
    if fam in ('otis', 'atlasc', 'tmd3'):
        g, e, t = (P['all'],) * 3 if fam == 'tmd3' else (P['grid'], P['z'], P['uv'])
        rg, re_, rt = ('all',) * 3 if fam == 'tmd3' else ('grid', 'z', 'uv')
        gr = dict(otis='OTIS', atlasc='ATLAS', tmd3='TMD3')[fam]
        add('names-z', lambda: OTIS.read_constituents(e, grid=gr), re_)
        add('names-uv', lambda: OTIS.read_constituents(t, grid=gr), rt)
        grid = dict(otis=OTIS.read_otis_grid, atlasc=OTIS.read_atlas_grid,
                    tmd3=OTIS.read_netcdf_grid)[fam]
        add('grid', lambda: grid(g), rg)
        for i, c in enumerate(cons):
            if fam == 'otis':
                add(f'z{i}', lambda i=i: OTIS.read_otis_elevation(e, i), re_)
                add(f'uv{i}', lambda i=i: OTIS.read_otis_transport(t, i), rt)
            elif fam == 'tmd3':
                for v in 'zuV':
                    add(f'{v}{i}', lambda i=i, v=v: OTIS.read_netcdf_file(
                        g, i, variable=v), rg)
            else:
                add(f'z{i}', lambda i=i, c=c: OTIS.read_atlas_elevation(e, i, c), re_)
                add(f'uv{i}', lambda i=i, c=c: OTIS.read_atlas_transport(t, i, c), rt)
        if fam != 'atlasc':
            for v in 'zuV':
                f, rf = (e, re_) if v == 'z' else (t, rt)
                add(f'extract-{v}', lambda v=v, f=f: OTIS.extract_constants(
                    x, y, g, f, 4326, type=v, grid=gr, **kw), rg, rf)
                add(f'read-{v}', lambda v=v, f=f: OTIS.read_constants(
                    g, f, 4326, type=v, grid=gr), rg, rf)
    elif fam == 'atlas':
        n = range(len(cons))
        for v in 'zuV':
            add(f'grid-{v}', lambda v=v: ATLAS.read_netcdf_grid(P['grid'], v, **z), 'grid')
            k = 'z' if v == 'z' else 'uv'
            fs, roles = [P[f'{k}{i}'] for i in n], [f'{k}{i}' for i in n]
            for i in n:
                add(f'{v}{i}', lambda v=v, i=i, k=k: ATLAS.read_netcdf_file(
                    P[f'{k}{i}'], v, **z), f'{k}{i}')
            add(f'extract-{v}', lambda v=v, fs=fs: ATLAS.extract_constants(
                x, y, P['grid'], fs, type=v, **kw, **z), 'grid', *roles)
            add(f'read-{v}', lambda v=v, fs=fs: ATLAS.read_constants(
                P['grid'], fs, type=v, **z), 'grid', *roles)
    else:
        roles = [f'{i}' for i in range(len(cons))]
        fs = [P[r] for r in roles]
        M = GOT if fam.startswith('got') else FES
        if M is GOT:
            o = dict(grid='netcdf' if fam == 'got-nc' else 'ascii', **z)
            low = GOT.read_netcdf_file if fam == 'got-nc' else GOT.read_ascii_file
            lk = z
        else:
            ver = 'FES2004' if fam == 'fes-ascii' else \
                'FES2014' if sc['by'] == 'lib' else sc['version']
            o = dict(version=ver, type=sc['t'], **z)
            low = FES.read_ascii_file if fam == 'fes-ascii' else FES.read_netcdf_file
            lk = dict(o)
        for r in roles:
            add(f'one{r}', lambda r=r: low(P[r], **lk), r)
        add('extract', lambda: M.extract_constants(x, y, fs, **o, **kw), *roles)
        add('read', lambda: M.read_constants(fs, **o), *roles)
    return calls


def ask(calls):
    out = {}
    for name, (fn, roles) in calls.items():
        try:
            out[name] = ('ok', deep.snap(fn()))
        except Exception as e:
            out[name] = ('err', f'{type(e).__name__}: {e}'[:120])
    return out


def units(sc, d, kind, b):
    """sizes at which a file of this kind is most easily mistaken for whole"""
    u = [4, 8, 8 * d['nx'], 16 * d['nx'], 4 * d['nx'], 32, 28 + 4 * len(d['cons'])]
    return [n for n in u if n < len(b)] or [1]


def cut_at(sc, d, kind, f, b):
    n = len(b)
    if f['how'] == 'end':
        return max(0, n - 1 - abs(f['off']) * 4)
    if f['how'] == 'edge':
        return min(n - 1, abs(f['off']) * 4)
    if f['how'] == 'unit' and kind[0] in 'oa' and not sc['gz']:
        u = units(sc, d, kind, b)
        k = u[int(f['pos'] * 997) % len(u)]
        return max(0, min(n - 1, int(f['pos'] * n) // k * k + 4 * f['off']))
    return int(f['pos'] * n)


def cut_text(f, b):
    lines = b.decode().split('\n')[:-1]
    i = int(f['pos'] * len(lines)) if f['how'] != 'end' else len(lines) - 1
    kept = lines[:i]
    if f['off'] > -2 and i < len(lines):
        v = lines[i].split()
        k = min(len(v) - 1, max(0, len(v) + f['off'] - 3) if f['off'] < 3 else 1)
        if k > 0:
            kept.append(' '.join(v[:k]))
    return ('\n'.join(kept) + '\n').encode() if kept else b''


def boundaries(sc, d, kind):
    """lengths at which an ATLAS compact file is well formed"""
    ls = models_locs(sc, d)
    full = dict(grid=models.atlas_grid, z=models.atlas_elevation,
                uv=models.atlas_transport)[kind.split('-')[1]]
    return {len(full(d, ls[:k])) for k in range(len(ls) + 1)}


def models_locs(sc, d):
    return p13.locs(d, op(sc, ''))


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    p13.quiet()
    d = models.data(sc['spec'])
    files = build(sc, d, ctx.root)
    calls = readers(sc, d, files)
    first = ask(calls)
    for name, (st, what) in first.items():
        if st == 'err':
            raise Violation('unreadable', f'{sc["fam"]} {name}: {what} for an intact file')
    for f in sc['faults']:
        ctx.advance(60)
        role = sorted(files)[f['file'] % len(files)]
        path, kind, i = files[role]
        keep = open(path, 'rb').read()
        damage(sc, ctx, d, f, role, files, calls, first, keep)
        with open(path, 'wb') as g:
            g.write(keep)


def damage(sc, ctx, d, f, role, files, calls, first, keep):
    path, kind, i = files[role]
    done = f['kind']
    if f['kind'] == 'missing':
        os.unlink(path)
    elif f['kind'] == 'torn' and sc['by'] == 'lib' and kind not in p13.RAW \
            and not sc['gz']:
        if not torn(sc, ctx, d, f, path, kind, i):
            return
        done = 'torn-' + f['mode']
    else:
        if kind in TEXT and not sc['gz']:
            b = cut_text(f, keep)
        else:
            b = keep[:cut_at(sc, d, kind, f, keep)]
        done = 'cut'
        if kind.startswith('atlasc') and len(b) in boundaries(sc, d, kind):
            ctx.probe('between_local_solutions')
            return
        with open(path, 'wb') as g:
            g.write(b)
    left = os.path.getsize(path) if os.path.exists(path) else -1
    ctx.fault(done, kind, left)
    ctx.nontrivial = True
    got = answer(lambda: ask(calls))
    if isinstance(got, str):
        if got.startswith('status -'):
            # the HDF5 library can crash on damaged files: no silent answer
            ctx.probe('reader_died')
            return
        raise Violation('reader', got)
    for name, (st, what) in got.items():
        reads = role in calls[name][1]
        same = st == 'ok' and what == first[name][1]
        ctx.state(sc['fam'], name, done, left * 16 // max(1, len(keep)), st, same)
        where = f'{sc["fam"]} {name}, {os.path.basename(path)} ({kind}) {done}' + \
            f' to {left} of {len(keep)} bytes' * (done == 'cut')
        if not reads and not same:
            raise Violation('unrelated', f'{where}: a reader of other files answers '
                            f'{what if st == "err" else "differently"}')
        if st == 'ok' and not same:
            raise Violation('silent', f'{where}: read without an error, but with other '
                            f'values: {deep.diff(first[name][1], what)}')
        if reads and done == 'missing' and st == 'ok':
            raise Violation('missing', f'{where}: no error')
        ctx.probe('error' if st == 'err' else 'intact_part')
    ctx.log(done, role, left, {n: g[0] for n, g in sorted(got.items())})


def torn(sc, ctx, d, f, path, kind, i):
    size = os.path.getsize(path)
    limit = max(0, min(size - 1, int(f['pos'] * size) if f['how'] != 'end'
                       else size - 1 - abs(f['off'])))
    # another model is stored under the name; its write is cut short
    o = op(sc, kind, i)
    m = p13.inputs(o, d)

    def job(w, limit):
        set_limit(limit)
        try:
            p13.write(o, d, m, path)
        finally:
            set_limit(None)
        return 0
    status, msg = in_child(job, limit, f['mode'] == 'die')
    ctx.log('torn', kind, limit, size, f['mode'])
    if status == 0:
        got = open(path, 'rb').read()
        if len(got) > limit:
            # nothing stopped the writer
            return False
        raise Violation('writer', f'{kind}: the writer returned with the disk full after '
                        f'{limit} of {size} bytes')
    return True
