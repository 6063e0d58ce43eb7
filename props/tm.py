"""Synthetic tide models on the simulated disk, definitions of them, and points
to compute at: shared by the checks of interpolation and computation."""
import os

import numpy as np

from sim import models

FORMATS = ['OTIS', 'OTIS-list', 'TMD3', 'ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf',
           'FES-ascii', 'FES-netcdf']
CURRENTS = {'OTIS', 'TMD3', 'ATLAS-netcdf', 'FES-netcdf', 'FES-ascii'}
METHODS = ['bilinear', 'spline', 'linear', 'nearest']
CONS = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', '2n2', 'mf', 'mm', 'm4']
POLAR = 'EPSG:3031'


def spec(rng, formats=FORMATS, currents=False, cons=None, small=False,
         projected=True):
    """one model: format, grid and content"""
    fmt = rng.choice([f for f in formats if not currents or f in CURRENTS])
    n = rng.randint(1, 3 if small else 4)
    cons = cons or rng.sample(CONS[:8] if rng.random() < 0.7 else CONS, n)
    ny = rng.randint(5, 8 if small else 12)
    proj = None
    kind = rng.choice(['global', 'global', 'global180', 'regional', 'regional',
                       'polar'])
    if kind == 'polar' and (not projected or fmt not in ('OTIS', 'TMD3', 'OTIS-list')):
        kind = 'regional'
    ascii = {'GOT-ascii': [12, 15, 18, 24], 'FES-ascii': [36, 40]}.get(fmt)
    if kind in ('global', 'global180'):
        nx = rng.choice(ascii or [12, 15, 18, 24])
        x0 = 0.0 if kind == 'global' else -180.0
        lims = [x0, x0 + 360.0, -90.0, 90.0]
        if rng.random() < 0.4:
            # half a cell off: the first node lies on the limit
            lims = [x0 - 180.0 / nx, x0 + 360.0 - 180.0 / nx, -90.0, 90.0]
    elif kind == 'polar':
        nx, w = rng.randint(6, 14), rng.choice([5e5, 1.5e6])
        c = [rng.choice([0.0, 1.0e6, -1.6e6]) for _ in range(2)]
        lims = [c[0] - w, c[0] + w, c[1] - w, c[1] + w]
        proj = POLAR
    else:
        nx = rng.choice(ascii or [6, 7, 9, 12, 14])
        d = rng.choice([0.25, 1.0, 2.0])
        x0 = rng.choice([-20.0, 5.0, 170.0, 190.0, 300.0, -170.0, 352.0])
        y0 = rng.choice([-78.0, -10.0, 40.0, 66.0])
        lims = [x0, x0 + nx * d, y0, y0 + ny * d]
        if fmt.startswith('GOT') or fmt.startswith('FES'):
            lims[:2] = [x0 % 360, x0 % 360 + nx * d]
    return dict(format=fmt, kind=kind, currents=bool(currents), cons=list(cons),
                nx=nx, ny=ny, lims=lims, proj=proj,
                # files of projected models have no positive time step
                dt=0.0 if proj else 12.0, seed=rng.randint(1, 10**6),
                land=rng.choice([0.0, 0.1, 0.25, 0.5]),
                blocky=rng.random() < 0.4, smooth=rng.random() < 0.3,
                zeros=rng.random() < 0.2,
                gz=fmt in ('ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-ascii',
                           'FES-netcdf') and rng.random() < 0.25)


def content(sp):
    d = models.data(sp)
    r = np.random.RandomState(sp['seed'] + 5)
    for (v, c), z in d['c'].items():
        # transports and heights vanish on land as in the real files
        z[d['land']] = 0
        if sp.get('zeros') and sp['format'].startswith(('OTIS', 'TMD3', 'ATLAS')):
            # and at the odd node of the sea
            z[r.rand(*z.shape) < 0.05] = 0
    return d


def variables(sp):
    return ['u', 'v'] if sp['currents'] else ['z']


def write(sp, directory, d=None):
    """write the files of one model; returns its definition as a dictionary"""
    d = content(sp) if d is None else d
    os.makedirs(directory, exist_ok=True)
    fmt, gz, cons = sp['format'], sp['gz'], sp['cons']
    suffix = '.gz' if gz else ''
    types = variables(sp)
    p = lambda n: os.path.join(directory, n)
    out = dict(name='SYNTH', format=fmt, scale=1.0, compressed=gz,
               type=types if sp['currents'] else 'z',
               variable='tide_ocean')
    made = []

    def nc(name, fn, *args):
        tmp = p(name + '.tmp')
        fn(tmp, *args)
        with open(tmp, 'rb') as f:
            b = f.read()
        os.unlink(tmp)
        models.save(p(name + suffix), b, gz)
        made.append(name + suffix)
        return p(name + suffix)

    def put(name, b):
        models.save(p(name + suffix), b, gz)
        made.append(name + suffix)
        return p(name + suffix)

    if fmt in ('OTIS', 'OTIS-list'):
        out['format'] = 'OTIS'
        out['projection'] = sp['proj'] or 'EPSG:4326'
        out['grid_file'] = put('grid', models.otis_grid(d))
        if fmt == 'OTIS-list' and not sp['currents']:
            out['model_file'] = [put(f'h_{c}', models.otis_elevation(d, [c]))
                                 for c in cons]
        elif sp['currents']:
            f = put('uv', models.otis_transport(d))
            out['model_file'] = {'u': f, 'v': f}
        else:
            out['model_file'] = put('h', models.otis_elevation(d))
    elif fmt == 'TMD3':
        out['projection'] = sp['proj'] or 'EPSG:4326'
        flex = 50 + 50 * np.random.RandomState(sp['seed'] + 9).rand(d['ny'], d['nx'])
        f = nc('tmd3.nc', models.tmd3, d, flex)
        out['grid_file'] = f
        out['model_file'] = {'u': f, 'v': f} if sp['currents'] else f
    elif fmt == 'ATLAS-netcdf':
        out['projection'] = 'EPSG:4326'
        out['grid_file'] = nc('grid.nc', models.atlas_nc_grid, d)
        if sp['currents']:
            fs = [nc(f'u_{c}.nc', models.atlas_nc_transport, d, c) for c in cons]
            out['model_file'] = {'u': fs, 'v': list(fs)}
            out['scale'] = 1e-4 * 100
        else:
            out['model_file'] = [nc(f'h_{c}.nc', models.atlas_nc_elevation, d, c)
                                 for c in cons]
            out['scale'] = 1e-3
    elif fmt.startswith('GOT'):
        out['scale'] = 0.01
        out['model_file'] = [
            put(f'{c}.d', models.got_ascii(d, c)) if fmt == 'GOT-ascii' else
            nc(f'{c}.nc', models.got_nc, d, c) for c in cons]
    else:
        out['scale'] = 0.01
        out['version'] = 'FES2004' if fmt == 'FES-ascii' else 'FES2014'
        if fmt == 'FES-ascii':
            out['version'] = 'FES1999'
        fs = {t: [put(f'{t}_{c}.asc', models.fes_ascii(d, c, t))
                  if fmt == 'FES-ascii' else
                  nc(f'{t}_{c}.nc', models.fes_nc, d, c, t, out['version'])
                  for c in cons] for t in types}
        out['model_file'] = fs if sp['currents'] else fs['z']
    out['constituents'] = list(cons)
    return out


def nodes(sp, d, t='z'):
    """coordinates of the nodes of a variable"""
    x, y = np.array(d['x']), np.array(d['y'])
    if sp['format'].startswith(('OTIS', 'TMD3', 'ATLAS')):
        if t in 'uU':
            x = x - d['dx'] / 2
        elif t in 'vV':
            y = y - d['dy'] / 2
    return x, y


class Geo:
    """to and from the coordinates of the grid"""
    def __init__(self, proj):
        if proj:
            import pyproj
            self.t = pyproj.Transformer.from_crs(4326, proj, always_xy=True)
        else:
            self.t = None

    def lonlat(self, x, y):
        if self.t is None:
            return np.array(x, float), np.array(y, float)
        return self.t.transform(x, y, direction='INVERSE')


def cutoff(r, sp):
    """kilometers: fixed, or some cells of the grid"""
    if r.random() < 0.5:
        return r.choice([10.0, 500.0, np.inf])
    cell = (sp['lims'][1] - sp['lims'][0]) / sp['nx'] * (1 if sp['proj'] else 111.0)
    return float(cell * r.uniform(0.3, 4))


def points(rng, sp, d, n):
    """n points: on nodes, inside, at the edges, outside; any convention"""
    x0, x1, y0, y1 = sp['lims']
    xs, ys = [], []
    for _ in range(n):
        k = rng.random()
        if k < 0.2:
            x = d['x'][rng.randrange(d['nx'])]
            y = d['y'][rng.randrange(d['ny'])]
        elif k < 0.3:
            # near the limits
            x = rng.choice([x0, x1]) + rng.uniform(-1.2, 1.2) * d['dx']
            y = rng.uniform(y0, y1)
        elif k < 0.37:
            x = rng.uniform(x0, x1)
            y = rng.choice([y0, y1]) + rng.uniform(-1.2, 1.2) * d['dy']
        elif k < 0.42:
            x = rng.uniform(x0 - 30 * d['dx'], x1 + 30 * d['dx'])
            y = rng.uniform(y0 - 3 * d['dy'], y1 + 3 * d['dy'])
        else:
            x, y = rng.uniform(x0, x1), rng.uniform(y0, y1)
        if not sp['proj']:
            y = min(90.0, max(-90.0, y))
        xs.append(float(x))
        ys.append(float(y))
    lon, lat = Geo(sp['proj']).lonlat(xs, ys)
    out = []
    for a, b in zip(lon, lat):
        if not sp['proj']:
            # stay within -180:360
            while a < -180:
                a += 360
            while a > 360:
                a -= 360
            k = rng.random()
            if k < 0.3 and a > 180:
                a -= 360
            elif k < 0.3 and a < 0:
                a += 360
        out.append([float(a), float(b)])
    return out


def make(definition):
    import pyTMD.io
    df = dict(definition)
    return pyTMD.io.model(verify=False).from_dict(df)


def equal(what, a, b, rtol=0.0, atol=0.0):
    """masks equal and values equal where they are not masked; None or text"""
    if np.shape(a) != np.shape(b):
        return f'{what}: shape {np.shape(a)} instead of {np.shape(b)}'
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if not np.array_equal(ma, mb):
        i = tuple(int(k) for k in np.argwhere(ma != mb)[0])
        return f'{what}: at {i} {"masked" if ma[i] else "valid"} ' \
               f'instead of {"masked" if mb[i] else "valid"}'
    x, y = np.asarray(np.ma.getdata(a)), np.asarray(np.ma.getdata(b))
    if rtol or atol:
        with np.errstate(all='ignore'):
            ok = np.abs(x - y) <= atol + rtol * np.abs(y)
        ok |= (x == y) | ((x != x) & (y != y))
    else:
        ok = (x == y) | ((x != x) & (y != y))
    bad = ~ok & ~ma
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        return f'{what}: at {i} {x[i]!r} instead of {y[i]!r}'
    return None
