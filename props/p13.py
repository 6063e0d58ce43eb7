"""P13: stored tide models read back the same harmonic constants."""
import gzip
import logging
import os
import warnings

import netCDF4
import numpy as np
from pyTMD.io import ATLAS, FES, GOT, OTIS

from sim import models
from sim.core import Violation
from props.p12 import in_child, set_limit

ID = 'P13'
RUNS = dict(quick=1500, thorough=80000)
RULE = ('a run is a history of writing, replacing, compressing and reading model '
        'files of 14 kinds under 3 names, some writes dying or hitting a full disk; '
        'non-trivial: a file was replaced or a write was cut short; distinct by hash '
        'of the event trace')
STATE_MEASURE = '(kind, writer, compressed, kind stored before, fault, order of reading)'
COMPONENTS = dict(real=['pyTMD.io OTIS, ATLAS, GOT and FES readers and writers',
                        'netCDF4', 'kernel file system'],
                  simulated=['full disk and process death at a byte offset',
                             'files of other producers (independent writers)'])
ASSUMPTIONS = ['OTIS: four-character names, single precision; ATLAS netCDF: missing '
               'points are zero and the mask is that of the bathymetry',
               'GOT and FES text files have a partial last line in each row, as the '
               'published ones do']
CPU_LIMIT = 60
KINDS = ['otis-grid', 'otis-z', 'otis-uv', 'atlas-grid', 'atlas-z', 'atlas-uv',
         'got-nc', 'fes-nc', 'got-ascii', 'fes-ascii', 'tmd3', 'atlasc-grid',
         'atlasc-z', 'atlasc-uv']
GZ = ('atlas-grid', 'atlas-z', 'atlas-uv', 'got-nc', 'fes-nc', 'got-ascii', 'fes-ascii')
RAW = ('got-ascii', 'fes-ascii', 'tmd3', 'atlasc-grid', 'atlasc-z', 'atlasc-uv')


def spec(rng):
    nx = rng.choice([1, 2, 3, 5, 12, 13, 21, 31, 35])
    ny = rng.choice([1, 2, 3, 4, 7, 12])
    cons = rng.sample(models.CONS, rng.randint(1, 6))
    return dict(seed=rng.randrange(10**6), nx=nx, ny=ny, cons=cons,
                lims=rng.choice([[0, 360, -90, 90], [-30, 30, -12, 12],
                                 [10, 40, 50, 62], [-2500, 2500, -1800, 900]]),
                land=rng.choice([0, 0.2, 0.8]), nob=rng.choice([0, 0, 1, 2, 7]),
                dt=rng.choice([0.0, 12.0]))


def generate(rng, idx, tier):
    specs = [spec(rng) for _ in range(2)]
    ops, faults = [], []
    kinds = rng.sample(KINDS, rng.randint(1, 2))
    for i in range(rng.randint(3, 8)):
        what = rng.choice(['write', 'write', 'gz', 'read']) if i else 'write'
        kind = rng.choice(kinds)
        op = dict(id=i, op=what, slot=rng.choice(['a', 'a', 'b']), kind=kind,
                  data=rng.randrange(2), by='raw' if kind in RAW or rng.random() < 0.2
                  else 'lib', t=rng.choice('zuv'), c=rng.randrange(6),
                  version=rng.choice(['FES2014', 'FES2022', 'EOT20', 'FES2012',
                                      'HAMTIDE11']),
                  bits=rng.choice(['c8', 'c16']), lim=rng.choice(['list', '>f4', 'f4', 'f8']),
                  end=rng.choice(['<', '>', '=']), masked=rng.choice(['ma', 'ma', 'nomask']),
                  shuffle=rng.randrange(1000))
        ops.append(op)
        if what == 'write' and op['by'] == 'lib' and rng.random() < 0.2:
            faults.append(dict(op=i, dev='disk', kind=rng.choice(['full', 'die']),
                               frac=rng.choice([0, rng.random(), rng.random(), 0.999])))
    return dict(specs=specs, ops=ops, faults=faults)


def valid(sc):
    return len(sc['ops']) > 0


def inputs(op, d):
    """the arrays in the form one caller happens to have them"""
    m = dict(land=d['land'] if op['masked'] == 'ma' else np.zeros_like(d['land']))
    lim = (lambda a: [float(v) for v in a]) if op['lim'] == 'list' else \
        (lambda a: np.array(a, op['lim']))
    m['xlim'], m['ylim'] = lim(d['xlim']), lim(d['ylim'])
    f = op['end'] + 'f4'
    m['hz'] = d['hz'].astype(f)
    m['mz'] = d['mz'].astype(op['end'] + 'i4') if op['bits'] == 'c8' else \
        d['mz'].astype('i8')
    m['iob'] = np.array(d['iob'], op['end'] + 'i4') if len(d['iob']) else []

    def field(t, c):
        z = d[t, c].astype(op['bits'])
        return np.ma.array(z, mask=m['land'].copy()) if op['masked'] == 'ma' \
            else np.ma.array(z)
    m['field'] = field
    return m


def write(op, d, m, path):
    k, c = op['kind'], d['cons'][op['c'] % len(d['cons'])]
    x, y = d['x'], d['y']
    if op['by'] == 'raw':
        return raw_write(op, d, c, path)
    if k == 'otis-grid':
        OTIS.output_otis_grid(path, m['xlim'], m['ylim'], m['hz'], m['mz'], m['iob'],
                              float(d['dt']))
    elif k == 'otis-z':
        h = np.ma.stack([m['field']('z', n) for n in d['cons']], -1)
        OTIS.output_otis_elevation(path, h, m['xlim'], m['ylim'], d['cons'])
    elif k == 'otis-uv':
        u = np.ma.stack([m['field']('u', n) for n in d['cons']], -1)
        v = np.ma.stack([m['field']('v', n) for n in d['cons']], -1)
        OTIS.output_otis_transport(path, u, v, m['xlim'], m['ylim'], d['cons'])
    elif k == 'atlas-grid':
        ATLAS.output_netcdf_grid(path, d['hz'], d['hz'] * 2, d['hz'] * 3, x, y,
                                 x - d['dx'] / 2, y, x, y - d['dy'] / 2)
    elif k == 'atlas-z':
        ATLAS.output_netcdf_elevation(path, m['field']('z', c), x, y, c)
    elif k == 'atlas-uv':
        ATLAS.output_netcdf_transport(path, m['field']('u', c), m['field']('v', c),
                                      x - d['dx'] / 2, y, x, y - d['dy'] / 2, c)
    elif k == 'got-nc':
        GOT.output_netcdf_file(path, m['field']('z', c), x, y, c)
    elif k == 'fes-nc':
        FES.output_netcdf_file(path, m['field'](op['t'], c), x, y, c, type=op['t'])


def locs(d, op):
    return [models.local_model(dict(seed=op['shuffle'], cons=d['cons']), k)
            for k in range(op['shuffle'] % 4)]


def raw_write(op, d, c, path):
    k = op['kind']
    if k == 'otis-grid':
        models.save(path, models.otis_grid(d))
    elif k == 'otis-z':
        models.save(path, models.otis_elevation(d))
    elif k == 'otis-uv':
        models.save(path, models.otis_transport(d))
    elif k == 'atlas-grid':
        models.atlas_nc_grid(path, d)
    elif k == 'atlas-z':
        models.atlas_nc_elevation(path, d, c)
    elif k == 'atlas-uv':
        models.atlas_nc_transport(path, d, c)
    elif k == 'got-nc':
        models.got_nc(path, d, c)
    elif k == 'fes-nc':
        models.fes_nc(path, d, c, op['t'], op['version'])
    elif k == 'got-ascii':
        models.save(path, models.got_ascii(d, c))
    elif k == 'fes-ascii':
        models.save(path, models.fes_ascii(d, c))
    elif k == 'tmd3':
        models.tmd3(path, d)
    elif k == 'atlasc-grid':
        models.save(path, models.atlas_grid(d, locs(d, op)))
    elif k == 'atlasc-z':
        models.save(path, models.atlas_elevation(d, locs(d, op)))
    elif k == 'atlasc-uv':
        models.save(path, models.atlas_transport(d, locs(d, op)))


def same(what, got, want, tol=0.0):
    """values and mask; want may be a masked array"""
    g, w = np.ma.getdata(got), np.ma.getdata(want)
    if np.shape(g) != np.shape(w):
        raise Violation('shape', f'{what}: {np.shape(g)} instead of {np.shape(w)}')
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    if np.any(gm != wm):
        raise Violation('mask', f'{what}: {int(np.sum(gm & ~wm))} valid points masked, '
                        f'{int(np.sum(wm & ~gm))} missing points valid')
    g, w = np.asarray(g)[~wm], np.asarray(w)[~wm]
    scale = np.max(np.abs(w)) if w.size else 0
    bad = ~(np.abs(g.astype('c16') - w.astype('c16')) <= tol * (1 + scale))
    if np.any(bad):
        i = int(np.argmax(bad))
        raise Violation('values', f'{what}: {int(bad.sum())} of {w.size} values differ, '
                        f'e.g. {g[i]} instead of {w[i]}')


def check(op, d, path, gz, ctx):
    """read the file as a user does and compare with what was stored"""
    k, by = op['kind'], op['by']
    c = d['cons'][op['c'] % len(d['cons'])]
    land = d['land'] if (op['masked'] == 'ma' and by == 'lib') else \
        np.zeros_like(d['land'])
    what = f'{k} ({by}{", gz" if gz else ""})'
    kw = dict(compressed=gz)
    order = list(np.random.RandomState(op['shuffle']).permutation(len(d['cons'])))
    if k in ('otis-grid', 'atlasc-grid'):
        if k == 'otis-grid':
            x, y, hz, mz, iob, dt = OTIS.read_otis_grid(path)
        else:
            x, y, hz, mz, iob, dt, pm, local = OTIS.read_atlas_grid(path)
            same(what + ' pmask', pm, d['mz'])
            want = {m['name'].encode(): m for m in locs(d, op)}
            if set(local) != set(want):
                raise Violation('locals', f'{what}: local solutions {sorted(local)} '
                                f'instead of {sorted(want)}')
            for n, m in want.items():
                z = np.ma.masked_all((m['ny'], m['nx']))
                z[m['jz'] - 1, m['iz'] - 1] = m['depth']
                same(f'{what} {n} depth', local[n]['depth'], z)
                same(f'{what} {n} lon', local[n]['lon'], m['lon'])
                same(f'{what} {n} lat', local[n]['lat'], m['lat'])
        off = 360.0 if k == 'otis-grid' and d['xlim'][0] < 0 and d['xlim'][1] < 0 \
            and d['dt'] > 0 else 0.0
        same(what + ' x', x, d['x'] + off, 1e-6)
        same(what + ' y', y, d['y'], 1e-6)
        same(what + ' hz', hz, d['hz'])
        same(what + ' mz', mz, d['mz'])
        same(what + ' iob', np.asarray(iob), np.asarray(d['iob']))
        same(what + ' dt', dt, d['dt'])
        if k == 'otis-grid' and not gz:
            p = parse(what, lambda: models.parse_otis_grid(open(path, 'rb').read()))
            for n in ('hz', 'mz', 'xlim', 'ylim', 'dt'):
                same(f'{what} record {n}', p[n], d[n])
            same(f'{what} record iob', np.asarray(p['iob']), np.asarray(d['iob']))
    elif k in ('otis-z', 'otis-uv', 'atlasc-z', 'atlasc-uv'):
        names, nc = OTIS.read_constituents(path)
        if list(names) != d['cons'] or nc != len(d['cons']):
            raise Violation('names', f'{what}: {list(names)} instead of {d["cons"]}')
        for ic in order:
            n = d['cons'][ic]
            if k[0] == 'o':
                got = OTIS.read_otis_elevation(path, ic) if k == 'otis-z' else \
                    OTIS.read_otis_transport(path, ic)
            else:
                got = OTIS.read_atlas_elevation(path, ic, n) if k == 'atlasc-z' else \
                    OTIS.read_atlas_transport(path, ic, n)
                local, got = got[-1], got[:-1]
            vs = ('z',) if k[-1] == 'z' else ('u', 'v')
            got = (got,) if k == 'otis-z' else got
            for v, g in zip(vs, got):
                same(f'{what} {v} {n}', g, np.ma.array(d[v, n], mask=land))
            if k[0] == 'a':
                locals_of(what, op, d, n, vs, local)
        if k[0] == 'o' and not gz:
            p = parse(what, lambda: models.parse_otis(open(path, 'rb').read(),
                                                      1 if k == 'otis-z' else 2))
            if p['cons'] != d['cons']:
                raise Violation('names', f'{what}: record {p["cons"]}')
            for n in ('xlim', 'ylim'):
                same(f'{what} record {n}', p[n], d[n])
            for i, n in enumerate(d['cons']):
                for v, g in zip(('z',) if k == 'otis-z' else ('u', 'v'), p['data'][i]):
                    same(f'{what} record {v} {n}', np.ma.array(g, mask=land),
                         np.ma.array(d[v, n], mask=land))
    elif k == 'atlas-grid':
        for v, f, ox, oy in (('z', 1, 0, 0), ('u', 2, .5, 0), ('U', 2, .5, 0),
                             ('v', 3, 0, .5), ('V', 3, 0, .5)):
            lon, lat, b = ATLAS.read_netcdf_grid(path, v, **kw)
            f = f if by == 'lib' else 1
            same(f'{what} lon_{v}', lon, d['x'] - ox * d['dx'])
            same(f'{what} lat_{v}', lat, d['y'] - oy * d['dy'])
            same(f'{what} h{v}', b, np.ma.array(d['hz'] * f, mask=(d['hz'] == 0)))
    elif k in ('atlas-z', 'atlas-uv'):
        for v in (('z',) if k == 'atlas-z' else ('u', 'V', 'v', 'U')):
            hc, con = ATLAS.read_netcdf_file(path, v, **kw)
            if con != c:
                raise Violation('names', f'{what}: {con!r} instead of {c!r}')
            same(f'{what} {v} {c}', hc, np.where(land, 0, d[v.lower(), c]))
    elif k in ('got-nc', 'got-ascii'):
        f = GOT.read_netcdf_file if k == 'got-nc' else GOT.read_ascii_file
        hc, lon, lat, con = f(path, **kw)
        if con != c:
            raise Violation('names', f'{what}: {con!r} instead of {c!r}')
        lonlat(what, lon, lat, d, k)
        m = d['land'] if by == 'raw' else land
        same(f'{what} {c}', hc, np.ma.array(d['z', c], mask=m), 1e-4 if by == 'raw' else
             1e-6 if op['bits'] == 'c8' else 1e-13)
    elif k in ('fes-nc', 'fes-ascii'):
        t = op['t'] if k == 'fes-nc' else 'z'
        if k == 'fes-nc':
            hc, lon, lat = FES.read_netcdf_file(
                path, type=t, version=op['version'] if by == 'raw' else 'FES2014', **kw)
        else:
            hc, lon, lat = FES.read_ascii_file(path, **kw)
        lonlat(what, lon, lat, d, k)
        m = d['land'] if by == 'raw' else land
        same(f'{what} {t} {c}', hc, np.ma.array(d[t, c], mask=m), 1e-4 if by == 'raw' else
             1e-6 if op['bits'] == 'c8' else 1e-13)
    elif k == 'tmd3':
        names, nc = OTIS.read_constituents(path, grid='TMD3')
        if list(names) != d['cons'] or nc != len(d['cons']):
            raise Violation('names', f'{what}: {list(names)} instead of {d["cons"]}')
        x, y, hz, mz, sf = OTIS.read_netcdf_grid(path)
        same(what + ' x', x, d['x'])
        same(what + ' y', y, d['y'])
        same(what + ' hz', hz, np.ma.array(d['hz'], mask=(d['hz'] == 0)))
        same(what + ' mz', mz, d['mz'])
        same(what + ' sf', sf, np.ones_like(d['hz']))
        for ic in order:
            for v in 'zuvUV':
                same(f'{what} {v}', OTIS.read_netcdf_file(path, ic, variable=v),
                     d[v.lower(), d['cons'][ic]])
    ctx.probe('read_' + k)


def parse(what, fn):
    try:
        return fn()
    except (ValueError, IndexError) as e:
        raise Violation('format', f'{what}: damaged record structure: {e}')


def lonlat(what, lon, lat, d, k):
    tol = 1e-6 if 'ascii' in k else 0.0
    same(what + ' lon', np.ma.getdata(lon), d['x'], tol)
    same(what + ' lat', np.ma.getdata(lat), d['y'], tol)


def locals_of(what, op, d, n, vs, local):
    want = {m['name'].encode(): m for m in locs(d, op) if n in m['cons']}
    if set(local) != set(want):
        raise Violation('locals', f'{what} {n}: local solutions {sorted(local)} '
                        f'instead of {sorted(want)}')
    for name, m in want.items():
        for v in vs:
            z = np.ma.masked_all((m['ny'], m['nx']), 'c8')
            jj, ii = (m['jv'], m['iv']) if v == 'v' else (m['jz'], m['iz'])
            z[jj - 1, ii - 1] = m['c'][v, n]
            same(f'{what} {n} {name} {v}', local[name][v], z)


def usable(op, d):
    """which synthetic grids a kind of file can hold"""
    k = op['kind']
    if k == 'got-ascii':
        return d['nx'] > 11 and d['nx'] % 11
    if k == 'fes-ascii':
        return d['nx'] > 30 and d['nx'] % 30
    return True


def quiet():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 2)
    os.close(n)


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    datas = [models.data(s) for s in sc['specs']]
    made = {}           # caller objects, used again by later writes
    store = {}          # path -> (op, data) of its complete content
    for op in sc['ops']:
        ctx.advance(60)
        one(sc, op, datas, made, store, ctx)
    for path in sorted(store):
        if store[path]:
            w, d = store[path]
            check(w, d, path, path.endswith('.gz'), ctx)


def one(sc, op, datas, made, store, ctx):
    path = os.path.join(ctx.root, op['slot'])
    if op['op'] == 'write':
        d = datas[op['data']]
        if not usable(op, d):
            return
        key = (op['data'], op['masked'], op['bits'], op['lim'], op['end'])
        if key not in made:
            made[key] = inputs(op, d)
        m = made[key]
        before = store.get(path)
        fault = ([f for f in sc['faults'] if f['op'] == op['id']] or [None])[0]
        ctx.state(op['kind'], op['by'], before and before[0]['kind'],
                  path in store and before is None, fault and fault['kind'])
        if before or fault or path in store:
            ctx.nontrivial = True
        if fault:
            cut_short(op, d, m, path, fault, ctx)
            store[path] = None
            ctx.log('cut', op['id'], op['kind'], fault['kind'])
            return
        if op['by'] == 'lib' and op['kind'] in ('otis-z', 'otis-uv') \
                and op['shuffle'] % 30 == 0:
            too_long(op, d, m, path, ctx)
            store[path] = None
            return
        write(op, d, m, path)
        store[path] = (op, d)
        ctx.log('write', op['id'], op['kind'], op['by'], before and before[0]['kind'])
        check(op, d, path, False, ctx)
    elif op['op'] == 'gz':
        w = store.get(path)
        if not w or w[0]['kind'] not in GZ:
            return
        with open(path, 'rb') as f, gzip.GzipFile(path + '.gz', 'wb', mtime=0) as g:
            g.write(f.read())
        store[path + '.gz'] = w
        ctx.state('gz', w[0]['kind'], w[0]['by'])
        ctx.log('gz', op['id'], w[0]['kind'])
    else:
        p = path + '.gz' if store.get(path + '.gz') and op['c'] % 2 else path
        if store.get(p):
            w, d = store[p]
            w = dict(w, shuffle=w['shuffle'])
            check(w, d, p, p.endswith('.gz'), ctx)
            ctx.log('read', op['id'], w['kind'], p.endswith('.gz'))


def too_long(op, d, m, path, ctx):
    """names the format cannot hold are refused, or kept"""
    e = models.Data(d)
    e['cons'] = ['lambda2'] + d['cons'][1:]
    e['c'] = dict(d['c'])
    for v in 'zuv':
        e['c'][v, 'lambda2'] = d[v, d['cons'][0]]
    try:
        write(op, e, inputs(op, e), path)
    except ValueError:
        ctx.probe('long_name_refused')
        return
    check(op, e, path, False, ctx)


def cut_short(op, d, m, path, fault, ctx):
    ref = path + '.ref'
    write(op, d, m, ref)
    limit = int(os.path.getsize(ref) * fault['frac'])
    os.unlink(ref)

    def job(w, limit):
        set_limit(limit)
        try:
            write(op, d, m, path)
        finally:
            set_limit(None)
        return 0
    in_child(job, limit, fault['kind'] == 'die')
    ctx.fault('disk_full' if fault['kind'] == 'full' else 'process_death', op['kind'])
