"""A registry of library calls: each one is described by a kind and a seed, so
that any process can build its inputs, run it and compare what it gives."""
import gzip
import json
import os
import random

import numpy as np

import sim.warm  # noqa: F401
import pyTMD
import pyTMD.arguments
import pyTMD.astro
import pyTMD.compute
import pyTMD.crs
import pyTMD.ellipse
import pyTMD.interpolate
import pyTMD.io
import pyTMD.io.IERS
import pyTMD.math
import pyTMD.predict
import pyTMD.solve
import pyTMD.spatial
import timescale.time

from props import tm
from sim import deep, spk

CORR = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']
MAJOR = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2']
MANY = MAJOR + ['2n2', 'mf', 'mm', 'ssa', 'sa', 'm4', 'ms4', 'mn4', 'm1', 'j1', 'oo1',
                'mu2', 'nu2', 'l2', 't2', 'eta2', 's1', 'mtm', 'msqm', 'm6', '2q1',
                'rho1', 'lambda2', 'eps2', 'node', 'm3', 'mk3', 's4', 'msf', 'z0']
SHIFT = [0.0, 360.0]


def ocean_pole_file(path, seed=7):
    """ocean pole tide coefficients for a strip of the globe"""
    r = random.Random(seed)
    rows = ['SIMULATED', '-' * 40]
    for i in range(0, 720, 3):
        for j in range(100, 260, 4):
            v = ' '.join(f'{r.uniform(-.01, .01):.6f}' for _ in range(6))
            rows.append(f'{i * 0.5 + 0.25:.2f} {89.75 - j * 0.5:.2f} {v}')
    with gzip.GzipFile(path, 'wb', mtime=0) as f:
        f.write('\n'.join(rows).encode())


class Env:
    """the files and shared objects the calls of one scenario use"""

    def __init__(self, root, specs):
        self.root = root
        self.models = []
        for i, sp in enumerate(specs):
            d = tm.content(sp)
            where = os.path.join(root, f'model{i}')
            df = tm.write(sp, where, d)
            df['name'] = f'SYNTH{i}'
            df['reference'] = 'https://doi.org/10.0000/synthetic'
            # definitions with only the documented parameters
            for k in sp.get('lean', ()):
                df.pop(k)
            path = os.path.join(root, f'model{i}.json')
            with open(path, 'w') as f:
                json.dump(df, f)
            self.models.append(dict(spec=sp, data=d, df=df, path=path, dir=where))
        self.kernel = os.path.join(root, 'de.bsp')
        with open(self.kernel, 'wb') as f:
            f.write(spk.kernel('calls', 48000, 60000, days=400))
        self.pole = os.path.join(root, 'pole.txt.gz')
        ocean_pole_file(self.pole)
        pyTMD.io.IERS._ocean_pole_tide_file = self.pole
        pyTMD.astro._default_kernel = self.kernel
        self.buffers = {}
        self.shared = {}

    def model(self, i):
        """a model object that is used by many calls"""
        if i not in self.shared:
            self.shared[i] = tm.make(dict(self.models[i]['df']))
        return self.shared[i]

    def cached(self, i, t):
        """a model object whose constants were read once"""
        k = ('cached', i, t)
        if k not in self.shared:
            m = tm.make(dict(self.models[i]['df']))
            m.read_constants(type=t)
            self.shared[k] = m
        return self.shared[k]

    def one(self, key, make):
        if key not in self.shared:
            self.shared[key] = make()
        return self.shared[key]


class B:
    """what a builder needs: random numbers, the environment, the call"""

    def __init__(self, env, call):
        self.env, self.call = env, call
        self.r = random.Random(call['s'])
        self.np = np.random.RandomState(call['s'] % 2**32)
        self.n = call.get('n', 3)

    def arr(self, a, key=None):
        """an input array: contiguous, strided or in a buffer that is reused"""
        a = np.ascontiguousarray(a)
        form = self.call.get('form')
        if form == 'strided' and a.ndim == 1:
            b = np.zeros(2 * len(a), a.dtype)
            b[::2] = a
            return b[::2]
        if form == 'list' and a.ndim == 1 and a.dtype.kind in 'fc':
            return a.tolist()
        if form == 'f4' and a.dtype.kind == 'f':
            return a.astype('f4')
        if form == 'int' and a.dtype.kind == 'f':
            return a.astype(int)
        if form == 'big' and a.dtype.kind == 'f':
            return a.astype('>f8')
        if form == 'fortran':
            return np.asfortranarray(a)
        if form == 'readonly':
            a.flags.writeable = False
            return a
        if form == 'masked' and a.dtype.kind == 'f':
            return np.ma.array(a, mask=self.np.rand(*a.shape) < 0.2)
        if form == 'scalar' and a.ndim == 1 and a.size == 1 and a.dtype.kind == 'f':
            return float(a[0])
        if form == '2d' and a.ndim == 1:
            return a[:, None]
        if form == 'reused' and key:
            k = (key, a.shape, a.dtype.str)
            if k in self.env.buffers:
                self.env.buffers[k][...] = a
            else:
                self.env.buffers[k] = a.copy()
            return self.env.buffers[k]
        return a

    def times(self, n, lo=48000, hi=58500):
        m = self.r.uniform(lo, hi)
        k = self.r.random()
        if k < 0.5:
            v = m + np.arange(n) * self.r.choice([1 / 24, 0.01, 1.0])
        else:
            v = np.array([self.r.uniform(lo, hi) for _ in range(n)])
        return v

    def mjd(self, n=None):
        return self.arr(self.times(self.n if n is None else n), 'mjd')

    def tide_time(self, n=None):
        return self.arr(self.times(self.n if n is None else n) - 48622.0, 'tide')

    def deltat(self, n):
        k = self.r.random()
        if k < 0.4:
            return 0.0
        if k < 0.5:
            return 6.9e-4
        return self.arr(6e-4 + 1e-4 * self.np.rand(n), 'deltat')

    def cons(self, lo=1, hi=10, among=MANY):
        return self.r.sample(among, self.r.randint(lo, min(hi, len(among))))

    def hc(self, n, cons, mask=True):
        z = self.np.randn(n, len(cons)) + 1j * self.np.randn(n, len(cons))
        m = np.zeros(z.shape, bool)
        if mask and self.r.random() < 0.5:
            m[self.np.rand(n) < 0.3] = True
        return np.ma.array(z, mask=m, fill_value=np.nan)

    def xyz(self, n, key, scale=6.4e6):
        v = self.np.randn(n, 3)
        return self.arr(scale * v / np.sqrt((v**2).sum(1))[:, None], key)

    def lonlat(self, n, key='p'):
        lon = self.np.uniform(-180, 360, n)
        lat = np.degrees(np.arcsin(self.np.uniform(-1, 1, n)))
        return self.arr(lon, key + 'x'), self.arr(lat, key + 'y')

    def corr(self):
        return self.r.choice(CORR)


# ------------------------------------------------------------------ compute
def space(b, model=None):
    """x, y, time and layout of a computation"""
    r, kw = b.r, {}
    layout = b.call.get('layout') or r.choice(['drift', 'drift', 'grid', 'time series'])
    n = b.n
    np_, nt = {'drift': (n, n), 'grid': (n, r.randint(1, 3)),
               'time series': (r.randint(1, 3), n)}[layout]
    if model is not None:
        m = b.env.models[model]
        pts = np.array(tm.points(r, m['spec'], m['data'], np_))
        x, y = pts[:, 0], pts[:, 1]
    else:
        x = b.np.uniform(-180, 180, np_)
        y = b.np.uniform(-89, 89, np_)
    k = r.random()
    if k < 0.2 and np.all(y < -20):
        kw['EPSG'] = r.choice([3031, '3031', 'EPSG:3031'])
        x, y = tm.Geo('EPSG:3031').t.transform(x, y)
    elif k < 0.3:
        kw['EPSG'] = r.choice([4326, '4326', 'EPSG:4326'])
    if layout == 'grid':
        form = r.choice(['axes', 'axes', '2d'])
        ny = r.randint(1, 3)
        if form == 'axes':
            y = np.resize(y, ny + (ny == len(x)))
        else:
            x, y = np.meshgrid(x, np.resize(y, ny))
    t = b.times(nt)
    std = r.choice(['UTC', 'UTC', 'GPS', 'LORAN', 'TAI', 'datetime'])
    std = b.call.get('std', std)
    if std == 'datetime':
        t = (t - 51544.0) * 86400
        t = np.datetime64('2000-01-01T00:00:00') + t.astype(int).astype('timedelta64[s]')
    else:
        ep = r.choice([None, (2000, 1, 1, 0, 0, 0), [2018, 1, 1, 0, 0, 0]])
        if ep:
            kw['EPOCH'] = ep
        base = 58119.0 if ep and ep[0] == 2018 else 51544.0
        t = (t - base) * 86400.0
    kw['TIME'] = std if r.random() < 0.8 else std.lower()
    kw['TYPE'] = layout
    if layout == 'drift' and n > 1 and r.random() < 0.2:
        kw['TYPE'] = None
    return [b.arr(x, 'x'), b.arr(y, 'y'), b.arr(t, 't')], kw


def model_options(b, model, elevations):
    r = b.r
    sp = b.env.models[model]['spec']
    kw = dict(DEFINITION_FILE=b.env.models[model]['path'],
              METHOD=r.choice(tm.METHODS),
              EXTRAPOLATE=r.random() < 0.3, INFER_MINOR=r.random() < 0.6)
    if kw['EXTRAPOLATE']:
        kw['CUTOFF'] = tm.cutoff(r, sp)
    if r.random() < 0.4:
        kw['CORRECTIONS'] = r.choice(['OTIS', 'GOT', 'FES'])
    if r.random() < 0.3:
        kw['MINOR_CONSTITUENTS'] = r.sample(['2q1', 'rho1', 'mu2', 'nu2', 'l2', 't2',
                                             'j1', 'oo1', 'sigma1', 'mtm'], 4)
        if sp['cons'] and r.random() < 0.4:
            kw['MINOR_CONSTITUENTS'].insert(r.randint(0, 4), r.choice(sp['cons']))
    if r.random() < 0.3:
        kw['FILL_VALUE'] = r.choice([-9999.0, np.nan])
    if r.random() < 0.25:
        x0, x1, y0, y1 = sp['lims']
        dx, dy = (x1 - x0) / sp['nx'], (y1 - y0) / sp['ny']
        kw['CROP'] = True
        if r.random() < 0.7:
            kw['BOUNDS'] = [x0 + dx, x1 - dx, y0 + dy, y1 - dy]
            if r.random() < 0.5:
                kw['BOUNDS'] = np.array(kw['BOUNDS'])
        kw['BUFFER'] = 2.5 * max(dx, dy)
    if elevations:
        if r.random() < 0.2:
            kw['APPEND_NODE'] = True
        if sp['format'] == 'TMD3' and r.random() < 0.3:
            kw['APPLY_FLEXURE'] = True
    return kw


def bad_compute(b, a, kw):
    """an invalid version of the arguments"""
    k = b.call.get('bad')
    if k == 'value':
        which = b.r.choice(['TIME', 'TYPE', 'EPSG', 'METHOD', 'ELLIPSOID', 'CONVENTION',
                            'TIDE_SYSTEM', 'EPHEMERIDES'])
        kw[which] = 'nonsense'
    elif k == 'shape':
        a[1] = np.r_[np.ravel(a[1]), 1.0, 2.0, 3.0, 4.0]
        kw['TYPE'] = 'drift'
    elif k == 'file':
        kw['DEFINITION_FILE'] = os.path.join(b.env.root, 'missing.json')
    elif k == 'nan':
        a[0] = np.array(a[0], float)
        a[0].ravel()[0] = np.nan


def compute(fn, elevations=None, options=None):
    def build(b):
        m = b.call.get('m')
        a, kw = space(b, m if elevations is not None else None)
        if elevations is not None:
            kw.update(model_options(b, m, elevations))
        if options:
            kw.update(options(b))
        bad_compute(b, a, kw)
        f = getattr(pyTMD.compute, fn)
        if elevations and b.r.random() < 0.1:
            return pyTMD.compute.corrections, a, dict(kw, CORRECTION='ocean')
        return f, a, kw
    return build


def masks(b):
    m = b.call.get('m')
    a, kw = space(b, m)
    kw = {k: v for k, v in kw.items() if k == 'EPSG'}
    kw.update(DEFINITION_FILE=b.env.models[m]['path'], METHOD=b.r.choice(tm.METHODS))
    if np.shape(a[0]) != np.shape(a[1]):
        a[0], a[1] = np.meshgrid(a[0], a[1])
    bad_compute(b, a, kw)
    kw = {k: v for k, v in kw.items() if k in ('EPSG', 'DEFINITION_FILE', 'METHOD')}
    return pyTMD.compute.tide_masks, a[:2], kw


def pole_options(b):
    kw = {}
    if b.r.random() < 0.4:
        kw['CONVENTION'] = b.r.choice(['2003', '2010', '2015', '2018'])
    if b.r.random() < 0.3:
        kw['ELLIPSOID'] = b.r.choice(['WGS84', 'IERS', 'TOPEX', 'GRS80'])
    return kw


def ocean_pole_options(b):
    return dict(pole_options(b), METHOD=b.r.choice(['spline', 'linear', 'nearest']))


def solid_options(b):
    kw = {}
    if b.r.random() < 0.4:
        kw['TIDE_SYSTEM'] = b.r.choice(['tide_free', 'mean_tide'])
    if b.r.random() < 0.3:
        kw['ELLIPSOID'] = b.r.choice(['WGS84', 'IERS'])
    if b.r.random() < 0.4:
        kw['EPHEMERIDES'] = 'JPL'
    return kw


# ------------------------------------------------------------------ predict
def predict(name):
    def build(b):
        r, n = b.r, b.n
        among = MANY
        corr = b.corr()
        cons = b.cons(2, 12, among)
        if name == 'infer_minor' or r.random() < 0.3:
            cons = r.sample(MAJOR, r.randint(6, 8))
            if r.random() < 0.4:
                cons += ['2n2', 'mf', 'mm'][:r.randint(1, 3)]
        if r.random() < 0.3:
            cons = np.array(cons)
        kw = dict(corrections=corr)
        if name == 'map':
            t, hc = b.arr(b.tide_time(1)), b.hc(n, cons)
            if r.random() < 0.4:
                t = float(np.ravel(t)[0])
            kw['deltat'] = r.choice([0.0, 7e-4])
        elif name == 'time_series':
            t, hc = b.tide_time(n), b.hc(1, cons)
            kw['deltat'] = b.deltat(n)
        else:
            t, hc = b.tide_time(n), b.hc(n, cons)
            kw['deltat'] = b.deltat(n)
        if name == 'infer_minor' and r.random() < 0.4:
            kw['minor'] = r.sample(['2q1', 'sigma1', 'rho1', 'm1', 'mu2', 'nu2', 'l2', 't2',
                                    'eps2', 'mtm', 'msqm'], 5)
            if r.random() < 0.5:
                kw['minor'] += r.sample(list(cons), min(2, len(cons)))
                r.shuffle(kw['minor'])
        if b.call.get('bad'):
            if b.call['bad'] == 'value':
                cons = list(cons)
                cons[0] = 'zz9'
                kw['raise_exception'] = True
                if name != 'infer_minor':
                    del kw['raise_exception']
            else:
                hc = hc[:, :1]
        return getattr(pyTMD.predict, name), [t, hc, cons], kw
    return build


def equilibrium(b):
    t, lat = b.tide_time(), b.lonlat(b.n)[1]
    kw = dict(deltat=b.deltat(b.n), corrections=b.corr())
    if b.r.random() < 0.4:
        kw['constituents'] = b.r.sample(['node', 'sa', 'ssa', 'msm', '065.445', 'mm', 'msf',
                                         'mf', 'mst', 'mt'], 5)
        if b.call.get('bad'):
            kw['constituents'][0] = 'zz9'
    if b.r.random() < 0.3:
        t = np.ravel(t)[:1]
        kw['deltat'] = 0.0
    return pyTMD.predict.equilibrium_tide, [t, lat], kw


def load_pole(b):
    kw = dict(deltat=b.deltat(b.n), convention=b.r.choice(['2003', '2010', '2015', '2018']))
    if b.call.get('bad'):
        kw['convention'] = '1066'
    return pyTMD.predict.load_pole_tide, [b.tide_time(), b.xyz(b.n, 'xyz')], kw


def ocean_pole(b):
    u = b.np.randn(b.n, 3) + 1j * b.np.randn(b.n, 3)
    kw = dict(deltat=b.deltat(b.n), convention=b.r.choice(['2003', '2010', '2015', '2018']))
    if b.call.get('bad'):
        u = u[:, :2]
    return pyTMD.predict.ocean_pole_tide, [b.tide_time(), b.xyz(b.n, 'xyz'),
                                           b.arr(u, 'u')], kw


def solid(b):
    kw = {}
    if b.r.random() < 0.5:
        kw['tide_system'] = b.r.choice(['tide_free', 'mean_tide'])
    if b.call.get('bad'):
        kw['tide_system'] = 'nonsense'
    if b.r.random() < 0.3:
        kw.update(h2=0.6, l2=0.08)
    return pyTMD.predict.solid_earth_tide, [
        b.tide_time(), b.xyz(b.n, 'xyz'), b.xyz(b.n, 'sun', 1.5e11),
        b.xyz(b.n, 'moon', 3.8e8)], kw


# ------------------------------------------------------------------ arguments
def arguments(name):
    def build(b):
        r = b.r
        cons = b.cons()
        if r.random() < 0.3:
            cons = r.choice([tuple, np.array])(cons)
        if b.call.get('bad'):
            cons = list(cons)
            cons[-1] = 'zz9'
        f = getattr(pyTMD.arguments, name)
        kw = dict(corrections=b.corr())
        if name == 'arguments':
            if r.random() < 0.4:
                kw['M1'] = r.choice(['Doodson', 'Ray', 'perth5'])
            kw['deltat'] = b.deltat(b.n)
            return f, [b.mjd(), cons], kw
        if name == 'minor_arguments':
            kw['deltat'] = b.deltat(b.n)
            return f, [b.mjd()], kw
        if name == 'nodal':
            n, p = b.np.uniform(0, 360, b.n), b.np.uniform(0, 360, b.n)
            if r.random() < 0.4:
                kw['M1'] = r.choice(['Doodson', 'Ray', 'perth5'])
            return f, [b.arr(n, 'n'), b.arr(p, 'p'), cons], kw
        if name == 'doodson_number':
            kw['formalism'] = r.choice(['Doodson', 'Cartwright', 'Extended'])
            if r.random() < 0.3:
                cons = cons[0]
            if r.random() < 0.3:
                kw['raise_error'] = False
            return f, [cons], kw
        if name == 'aliasing_period':
            return f, [cons, b.r.choice([86400.0, 9.9156 * 86400, 3600.0])], kw
        return f, [cons], kw
    return build


def potential(b):
    c = b.r.choice(MANY)
    f = b.r.choice(['_constituent_parameters', '_love_numbers'])
    if f == '_love_numbers':
        w = pyTMD.arguments.frequency([c])
        return pyTMD.arguments._love_numbers, [float(w[0])], \
            dict(model=b.r.choice(['1066A', 'PEM-C', 'C2', 'PREM']))
    kw = {}
    if b.call.get('bad'):
        c, kw = 'zz9', dict(raise_error=True)
    return pyTMD.arguments._constituent_parameters, [c], kw


# ------------------------------------------------------------------ astro
def astro(name):
    def build(b):
        f, kw = getattr(pyTMD.astro, name), {}
        a = [b.mjd()]
        if name == 'mean_longitudes':
            kw = b.r.choice([{}, dict(MEEUS=True), dict(ASTRO5=True)])
        elif name == 'doodson_arguments':
            kw = dict(equinox=b.r.random() < 0.5, apply_correction=b.r.random() < 0.5)
        elif name in ('solar_ecef', 'lunar_ecef'):
            kw = dict(ephemerides=b.r.choice(['approximate', 'JPL']))
            if b.call.get('bad'):
                kw = dict(ephemerides='nonsense')
            if b.r.random() < 0.2:
                kw['kernel'] = b.env.kernel
                if b.call.get('bad'):
                    kw = dict(ephemerides='JPL',
                              kernel=os.path.join(b.env.root, 'missing.bsp'))
        elif name in ('gast', 'itrs'):
            a = [b.arr((b.times(b.n) - 51544.5) / 36525.0, 'T')]
        return f, a, kw
    return build


# ------------------------------------------------------------------ interpolate
def grid(b):
    nx, ny = b.r.randint(4, 9), b.r.randint(4, 8)
    x = np.sort(b.np.uniform(0, 40, nx)) + np.arange(nx)
    y = np.sort(b.np.uniform(-40, 30, ny)) + np.arange(ny)
    z = b.np.randn(ny, nx)
    if b.r.random() < 0.4:
        z = z + 1j * b.np.randn(ny, nx)
    m = b.np.rand(ny, nx) < b.r.choice([0, 0.2])
    z = np.ma.array(z, mask=m, fill_value=np.nan)
    lon = b.np.uniform(x[0] - 1, x[-1] + 1, b.n)
    lat = b.np.uniform(y[0] - 1, y[-1] + 1, b.n)
    return b.arr(x, 'gx'), b.arr(y, 'gy'), z, b.arr(lon, 'px'), b.arr(lat, 'py')


def interp(name):
    def build(b):
        x, y, z, lon, lat = grid(b)
        kw = dict(dtype=z.dtype)
        if name == 'bilinear' and b.r.random() < 0.3:
            z = np.array(z)
        elif name == 'spline':
            z.data[z.mask] = 0
            if b.r.random() < 0.4:
                kw.update(kx=2, ky=2)
            kw['reducer'] = b.r.choice([np.ceil, np.floor])
        elif name == 'regulargrid':
            kw.update(method=b.r.choice(['linear', 'nearest']), bounds_error=False)
            if b.call.get('bad'):
                kw.update(bounds_error=True)
        if name in ('bilinear', 'extrapolate', 'regulargrid') and b.r.random() < 0.3:
            # not masked
            np.ma.getdata(z)[b.r.randrange(z.shape[0]), b.r.randrange(z.shape[1])] = \
                b.r.choice([np.nan, np.inf])
        if name == 'extrapolate':
            if b.r.random() < 0.7:
                z.data[z.mask] = np.nan
            kw.update(cutoff=b.r.choice([100.0, 1000.0, 3000.0, np.inf,
                                         10 ** b.r.uniform(0.5, 3.7)]),
                      is_geographic=b.r.random() < 0.6)
        if b.call.get('bad'):
            x = x[:-1]
        kw['fill_value'] = b.r.choice([np.nan, -9999.0])
        return getattr(pyTMD.interpolate, name), [x, y, z, lon, lat], kw
    return build


# ------------------------------------------------------------------ spatial
def spatial(name):
    def build(b):
        r, n = b.r, b.n
        f = getattr(pyTMD.spatial, name)
        lon, lat = b.lonlat(n)
        h = b.arr(b.np.uniform(-100, 5000, n), 'h')
        if b.call.get('bad'):
            lat = lat[:-1] if n > 1 else np.zeros(3)
        A = dict(
            convert_ellipsoid=lambda: ([lat, h, 6378137.0, 1 / 298.257223563, 6378136.3,
                                        1 / 298.257],
                                       dict(eps=1e-12, itmax=r.choice([3, 10]))),
            compute_delta_h=lambda: ([lat, 6378137.0, 1 / 298.257223563, 6378136.3,
                                      1 / 298.257], {}),
            wrap_longitudes=lambda: ([lon], {}),
            to_dms=lambda: ([lat], {}),
            from_dms=lambda: ([np.floor(lat), b.np.uniform(0, 60, n),
                               b.np.uniform(0, 60, n)], {}),
            to_cartesian=lambda: ([lon, lat], r.choice([{}, dict(h=h)])),
            to_sphere=lambda: (list(b.xyz(n, 'q').T), {}),
            to_geodetic=lambda: (list(b.xyz(n, 'q').T),
                                 dict(method=r.choice(['moritz', 'bowring', 'zhu']
                                                      if not b.call.get('bad')
                                                      else ['nonsense']))),
            to_ENU=lambda: (list(b.xyz(n, 'q').T), dict(lon0=12.0, lat0=-70.0, h0=5.0)),
            from_ENU=lambda: (list(b.xyz(n, 'q', 1e5).T), dict(lon0=12.0, lat0=-70.0)),
            to_horizontal=lambda: (list(b.xyz(n, 'q', 1e5).T), {}),
            to_zenith=lambda: (list(b.xyz(n, 'q').T), dict(lon0=12.0, lat0=-70.0)),
            scale_factors=lambda: ([lat], dict(reference_latitude=r.choice([70.0, -71.0]),
                                               metric=r.choice(['area', 'distance']))),
            data_type=lambda: ([lon, lat, b.mjd()], {}),
        )
        a, kw = A[name]()
        return f, a, kw
    return build


def ellipse(b):
    n = b.n
    if b.r.random() < 0.5:
        u = b.np.randn(n) + 1j * b.np.randn(n)
        v = b.np.randn(n) + 1j * b.np.randn(n)
        return pyTMD.ellipse.ellipse, [b.arr(u, 'u'), b.arr(v, 'v')], {}
    return pyTMD.ellipse.inverse, [b.arr(b.np.rand(n) + 1, 'a'), b.arr(b.np.rand(n), 'b'),
                                   b.arr(360 * b.np.rand(n), 'c'),
                                   b.arr(360 * b.np.rand(n), 'd')], {}


def maths(b):
    n, r = b.n, b.r
    k = r.randrange(5)
    if k == 0:
        return pyTMD.math.polynomial_sum, [[1.0, -2.0, 0.5, 3.0], b.mjd()], {}
    if k == 1:
        return pyTMD.math.normalize_angle, [b.arr(1e4 * b.np.randn(n), 'q')], \
            dict(circle=r.choice([360.0, 1296000.0]))
    if k == 2:
        return pyTMD.math.rotate, [b.arr(b.np.randn(n), 'q')], \
            dict(axis=r.choice('xyz' if not b.call.get('bad') else 'w'))
    if k == 3:
        l = r.randint(1, 3)
        return pyTMD.math.legendre, [l, b.arr(b.np.uniform(-1, 1, n), 'q')], \
            dict(m=r.randint(0, l) if not b.call.get('bad') else 9)
    l = r.randint(1, 3)
    return pyTMD.math.sph_harm, [l, b.arr(b.np.rand(n), 'q'), b.arr(b.np.rand(n), 'w')], \
        dict(m=r.randint(0, l))


def projections(b):
    crs = b.env.one('crs', pyTMD.crs) if b.r.random() < 0.6 else pyTMD.crs()
    p = b.r.choice(['EPSG:3031', 'EPSG:3031', 'EPSG:3413', 3976, 'EPSG:4326', '4326'])
    if b.call.get('bad'):
        p = 'nonsense'
    n = b.n
    bf = b.r.choice('FB')
    if bf == 'F' or p in ('EPSG:4326', '4326'):
        x, y = b.np.uniform(-180, 180, n), b.np.uniform(60, 85, n)
        if p in ('EPSG:3031', 3976):
            y = -y
    else:
        x, y = b.np.uniform(-2e6, 2e6, n), b.np.uniform(-2e6, 2e6, n)
    kw = {}
    if b.r.random() < 0.6:
        kw['EPSG'] = b.r.choice([4326, 3031, 3413, 4258, '4326'])
    return crs.convert, [b.arr(x, 'x'), b.arr(y, 'y'), p, bf], kw


def ellipsoid(b):
    name = b.r.choice(list(pyTMD._ellipsoids)) if not b.call.get('bad') else 'nonsense'

    def datum(name, units):
        d = pyTMD.datum(ellipsoid=name, units=units)
        out = dict(vars(d))
        for k in ('rad_e', 'b_axis', 'ecc', 'gamma_a', 'gamma_b', 'J2', 'area', 'U0'):
            try:
                out[k] = getattr(d, k)
            except (AttributeError, TypeError) as e:
                out[k] = repr(e)
        return out
    return datum, [name, b.r.choice(['MKS', 'CGS'])], {}


def solve(b):
    cons = b.r.sample(['m2', 's2', 'k1', 'o1', 'n2'], b.r.randint(1, 3))
    if b.call.get('bad'):
        cons[0] = 'zz9'
    n = 2 * len(cons) + 30
    t = b.arr(b.r.uniform(0, 9000) + np.arange(n) / 24.0, 'tt')
    h = b.arr(b.np.randn(n), 'hh')
    kw = dict(corrections=b.corr(), deltat=b.deltat(n),
              solver=b.r.choice(['lstsq', 'gelsd', 'gelsy', 'gelss', 'bvls']))
    if b.r.random() < 0.2:
        cons = np.array(cons)
    return pyTMD.solve.constants, [t, h, cons], kw


# ------------------------------------------------------------------ models
def on_model(name):
    def build(b):
        m = b.call['m']
        rec = b.env.models[m]
        sp = rec['spec']
        pts = np.array(tm.points(b.r, sp, rec['data'], b.n))
        x, y = b.arr(pts[:, 0], 'x'), b.arr(pts[:, 1], 'y')
        t = b.r.choice(tm.variables(sp))
        kw = dict(type=t, method=b.r.choice(tm.METHODS), extrapolate=b.r.random() < 0.3)
        if kw['extrapolate']:
            kw['cutoff'] = tm.cutoff(b.r, sp)
        if name == 'extract':
            if b.r.random() < 0.2 and t == 'z':
                kw['append_node'] = True
            if b.r.random() < 0.3:
                x0, x1, y0, y1 = sp['lims']
                dx, dy = (x1 - x0) / sp['nx'], (y1 - y0) / sp['ny']
                kw.update(crop=True, bounds=[x0 + dx, x1 - dx, y0 + dy, y1 - dy],
                          buffer=2.5 * max(dx, dy))
            if b.call.get('bad'):
                kw['method'] = 'nonsense'
            obj = b.env.model(m)
            return obj.extract_constants, [x, y], kw
        obj = b.env.cached(m, t)
        if b.call.get('bad'):
            kw['method'] = 'nonsense'
        return obj.interpolate_constants, [x, y], kw
    return build


def definition(b):
    m = b.env.models[b.call['m']]
    k = b.r.randrange(3)
    if k == 0:
        d = json.loads(json.dumps(m['df']))
        if b.call.get('bad'):
            del d['model_file']
        return lambda d: vars(pyTMD.io.model(verify=False).from_dict(d)), [d], {}
    if k == 1:
        return lambda p: vars(pyTMD.io.model().from_file(p)), \
            [m['path'] if not b.call.get('bad') else m['path'] + 'x'], {}
    name = b.r.choice(['GOT4.7', 'FES2014', 'CATS2008', 'TPXO9-atlas-v5', 'GOT5.5'])
    if b.call.get('bad'):
        name = 'nonsense'

    def known(directory, name, databases):
        return vars(pyTMD.io.model(directory, verify=False).elevation(
            name, extra_databases=databases))
    extra = []
    if b.r.random() < 0.5:
        extra = [os.path.join(b.env.root, 'extra.json')]
        with open(extra[0], 'w') as f:
            json.dump({'elevation': {'mine': dict(m['df'], name='mine')}}, f)
    return known, [b.env.root, name, extra], {}


def constituents(b):
    """reading from a collection of constituents that is shared"""
    m = b.call['m']
    t = tm.variables(b.env.models[m]['spec'])[0]
    c = b.env.cached(m, t)._constituents
    k = b.r.choice(['iterate', 'nested', 'amplitude', 'numbers', 'get', 'parse'])
    if k == 'iterate':
        return lambda c: [(f, z.copy()) for f, z in c], [c], {}
    if k == 'nested':
        return lambda c: [(f, g) for f, _ in c for g, _ in c], [c], {}
    if k == 'amplitude':
        return lambda c: [(c.amplitude(f), c.phase(f)) for f in c.fields], [c], {}
    if k == 'numbers':
        return lambda c: [c.doodson_number, c.cartwright_number, c.extended_doodson,
                          c.shape, len(c), str(c)], [c], {}
    if k == 'get':
        f = 'zz9' if b.call.get('bad') else c.fields[0]
        return lambda c: c.get(f), [c], {}
    return lambda c: [c.parse(s) for s in ('m2_tpxo9.nc', 'K1.d', 'h_la2.nc', '2n')], [c], {}


KINDS = {
    'tide_elevations': compute('tide_elevations', True),
    'tide_currents': compute('tide_currents', False),
    'tide_masks': masks,
    'LPET': compute('LPET_elevations'),
    'LPT': compute('LPT_displacements', options=pole_options),
    'OPT': compute('OPT_displacements', options=ocean_pole_options),
    'SET': compute('SET_displacements', options=solid_options),
    'predict.map': predict('map'), 'predict.drift': predict('drift'),
    'predict.time_series': predict('time_series'),
    'predict.infer_minor': predict('infer_minor'),
    'predict.equilibrium_tide': equilibrium, 'predict.load_pole_tide': load_pole,
    'predict.ocean_pole_tide': ocean_pole, 'predict.solid_earth_tide': solid,
    'arguments._parameters': potential,
    'ellipse': ellipse, 'math': maths, 'crs.convert': projections, 'datum': ellipsoid,
    'solve.constants': solve, 'model.extract': on_model('extract'),
    'model.interpolate': on_model('interpolate'), 'model.define': definition,
    'constituents': constituents,
}
for _n in ('arguments', 'minor_arguments', 'coefficients_table', 'doodson_number',
           'nodal', 'frequency', 'aliasing_period'):
    KINDS['arguments.' + _n] = arguments(_n)
for _n in ('mean_longitudes', 'phase_angles', 'doodson_arguments', 'delaunay_arguments',
           'mean_obliquity', 'solar_ecef', 'lunar_ecef', 'gast', 'itrs'):
    KINDS['astro.' + _n] = astro(_n)
for _n in ('bilinear', 'spline', 'regulargrid', 'extrapolate'):
    KINDS['interpolate.' + _n] = interp(_n)
for _n in ('convert_ellipsoid', 'compute_delta_h', 'wrap_longitudes', 'to_dms', 'from_dms',
           'to_cartesian', 'to_sphere', 'to_geodetic', 'to_ENU', 'from_ENU',
           'to_horizontal', 'to_zenith', 'scale_factors', 'data_type'):
    KINDS['spatial.' + _n] = spatial(_n)

MODELLED = {'tide_elevations': 'z', 'tide_currents': 'uv', 'tide_masks': 'z',
            'model.extract': '', 'model.interpolate': '', 'model.define': '',
            'constituents': ''}
WEIGHT = {'tide_elevations': 14, 'tide_currents': 5, 'tide_masks': 5, 'LPET': 4, 'LPT': 4,
          'OPT': 0.5, 'SET': 5, 'predict.map': 3, 'predict.drift': 3,
          'predict.time_series': 3, 'predict.infer_minor': 4,
          'predict.equilibrium_tide': 3, 'predict.load_pole_tide': 2,
          'predict.ocean_pole_tide': 2, 'predict.solid_earth_tide': 3,
          'model.extract': 5, 'model.interpolate': 6, 'constituents': 4,
          'arguments.arguments': 4, 'arguments.coefficients_table': 3,
          'arguments.nodal': 3, 'solve.constants': 2, 'crs.convert': 4}


def generate(rng, specs, kinds=None, faults=True):
    """one call on one of the models"""
    names = [k for k in (kinds or KINDS)]
    ok = []
    for k in names:
        v = MODELLED.get(k)
        if v is None:
            ok.append(k)
            continue
        if any(possible(k, s) for s in specs):
            ok.append(k)
    k = rng.choices(ok, [WEIGHT.get(x, 1) for x in ok])[0]
    call = dict(k=k, s=rng.randrange(10**9), n=rng.choice([1, 2, 3, 5]))
    if k in MODELLED:
        call['m'] = rng.choice([i for i, s in enumerate(specs) if possible(k, s)])
    f = rng.random()
    if f < 0.3:
        call['form'] = 'reused'
    elif f < 0.4:
        call['form'] = 'strided'
    elif f < 0.6 and faults:
        call['form'] = rng.choice(['list', 'f4', 'int', 'big', 'fortran', 'readonly',
                                   'masked', 'scalar', '2d'])
        if call['form'] == 'scalar':
            call['n'] = 1
    if faults and rng.random() < 0.12:
        call['bad'] = rng.choice(['value', 'shape', 'file', 'nan'])
    return call


def possible(k, sp):
    v = MODELLED[k]
    return not v or ('u' if sp['currents'] else 'z') in v


def build(env, call):
    b = B(env, call)
    f, a, kw = KINDS[call['k']](b)
    a, kw = list(a), dict(kw)
    if 'v' in call:
        vary(env, a, kw, call['v'])
    return f, a, kw


def run(f, a, kw):
    """('ok', value) or ('error', type and text)"""
    try:
        return 'ok', f(*a, **kw)
    except Exception as e:
        return 'error', f'{type(e).__name__}: {str(e)[:200]}'


def result(out):
    return (out[0], deep.snap(out[1]))


# ------------------------------------------------------------------ variations
OTHER = dict(corrections=CORR, CORRECTIONS=['OTIS', 'GOT', 'FES'], METHOD=tm.METHODS,
             method=tm.METHODS, ELLIPSOID=['WGS84', 'IERS', 'TOPEX', 'GRS80'],
             TIDE_SYSTEM=['tide_free', 'mean_tide'],
             tide_system=['tide_free', 'mean_tide'],
             TIME=['UTC', 'GPS', 'TAI', 'LORAN'], convention=['2003', '2010', '2015', '2018'],
             CONVENTION=['2003', '2010', '2015', '2018'], M1=['Doodson', 'Ray', 'perth5'],
             formalism=['Doodson', 'Cartwright', 'Extended'],
             ephemerides=['approximate', 'JPL'], EPHEMERIDES=['approximate', 'JPL'],
             model=['1066A', 'PEM-C', 'C2', 'PREM'], CUTOFF=[10.0, 500.0, np.inf],
             cutoff=[10.0, 500.0, np.inf], reducer=[np.ceil, np.floor],
             solver=['lstsq', 'gelsd', 'gelsy', 'gelss', 'bvls'], axis=['x', 'y', 'z'],
             EPSG=[4326, '4326', 3031, 3413, 'EPSG:3031'],
             EPOCH=[(2000, 1, 1, 0, 0, 0), (2018, 1, 1, 0, 0, 0)], deltat=[0.0, 6e-4],
             FILL_VALUE=[-9999.0, np.nan, 0.0], fill_value=[-9999.0, np.nan])


def vary(env, a, kw, v):
    """nearly the same call: one element or option is another one"""
    r = random.Random(v)
    todo = []
    for i, x in enumerate(a):
        if isinstance(x, np.ndarray) and x.size and x.dtype.kind in 'fcM':
            todo += [('element', i)] * 2
        elif isinstance(x, list) and len(x) > 1 and all(isinstance(s, str) for s in x):
            todo += [('rotate', i)] * 2
    for k in sorted(kw):
        x = kw[k]
        if isinstance(x, bool):
            todo.append(('toggle', k))
        elif k in OTHER and not isinstance(x, np.ndarray):
            todo.append(('other', k))
        elif k == 'DEFINITION_FILE':
            todo += [('model', k)] * 2
        elif isinstance(x, np.ndarray) and x.size and x.dtype.kind == 'f':
            todo.append(('kwelement', k))
    if not todo:
        return 'same'
    what, k = r.choice(todo)
    if what in ('element', 'kwelement'):
        box = a if what == 'element' else kw
        # a buffer that is reused is changed in place, everything else is copied
        x = box[k]
        if not any(x is y for y in env.buffers.values()):
            x = box[k] = x.copy()
        j = r.choice([0, x.size - 1, x.size // 2, r.randrange(x.size)])
        j = np.unravel_index(j, x.shape)
        if not x.flags.writeable:
            x = box[k] = x.copy()
        if x.dtype.kind == 'M':
            x[j] += np.timedelta64(3600, 's')
        elif r.random() < 0.1:
            x[j] = np.nan
        else:
            x[j] = x[j] * 0.999 + 1e-3
    elif what == 'rotate':
        a[k] = a[k][1:] + a[k][:1]
    elif what == 'toggle':
        kw[k] = not kw[k]
    elif what == 'other':
        kw[k] = r.choice([o for o in OTHER[k] if repr(o) != repr(kw[k])])
    elif what == 'model':
        kw[k] = r.choice(env.models)['path']
    return f'{what} {k}'


def describe(call):
    return ' '.join(f'{k}={call[k]}' for k in sorted(call) if k != 'k')
