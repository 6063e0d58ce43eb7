"""P20: splitting a job into pieces in any order gives the same result."""
import os
import random
import sys

import numpy as np
import pyTMD.compute

from props import calls, p18, tm
from props.p13 import quiet
from sim.core import Violation
from sim.fresh import Fresh

ID = 'P20'
RUNS = dict(quick=1500, thorough=80000)
RULE = ('a run computes one job in one call and again in 2-14 pieces: random parts of '
        'the points, stations or times, in other layouts, with the model cropped, by '
        'workers that crash at a chosen line, lose their model files or answer twice, '
        'in a random order; non-trivial: at least two pieces were put together; '
        'distinct by hash of the event trace')
STATE_MEASURE = '(kind of job, layout, how pieces differ, faults, model format and grid)'
COMPONENTS = dict(real=['pyTMD (compute, predict, arguments, astro, interpolate, spatial, '
                        'crs, io)', 'numpy, scipy, netCDF4, pyproj, timescale'],
                  simulated=['splitting, ordering, crashes and repeats of pieces',
                             'model files, ephemerides and pole tide coefficients '
                             '(independent writers)'])
ASSUMPTIONS = ['values agree within 1e-9 of their scale (1e-6 if cropped): sums of a '
               'few terms may be rounded differently',
               'when cropping nothing is extrapolated and the buffer is at least two '
               'cells wide',
               'the axes of grids have different lengths: axes of one length are taken '
               'as coordinates of points']
CPU_LIMIT = 240

COMPUTE = ['tide_elevations', 'tide_currents', 'tide_masks', 'LPET', 'LPT', 'OPT', 'SET']

# arguments and options with one row per point, and the axis of the results
POINTWISE = {
    'predict.map': ([1], [], 0), 'predict.drift': ([0, 1], ['deltat'], 0),
    'predict.time_series': ([0], ['deltat'], 0),
    'predict.infer_minor': ([0, 1], ['deltat'], 0),
    'predict.equilibrium_tide': ([0, 1], ['deltat'], 0),
    'predict.load_pole_tide': ([0, 1], ['deltat'], 0),
    'predict.ocean_pole_tide': ([0, 1, 2], ['deltat'], 0),
    'predict.solid_earth_tide': ([0, 1, 2, 3], [], 0),
    'arguments.arguments': ([0], ['deltat'], 0),
    'arguments.minor_arguments': ([0], ['deltat'], 0),
    'arguments.nodal': ([0, 1], [], 0),
    'astro.mean_longitudes': ([0], [], 0), 'astro.phase_angles': ([0], [], 0),
    'astro.doodson_arguments': ([0], [], 0), 'astro.delaunay_arguments': ([0], [], 0),
    'astro.mean_obliquity': ([0], [], 0), 'astro.solar_ecef': ([0], [], 0),
    'astro.lunar_ecef': ([0], [], 0), 'astro.gast': ([0], [], 0),
    'astro.itrs': ([0], [], -1),
    'interpolate.bilinear': ([3, 4], [], 0), 'interpolate.spline': ([3, 4], [], 0),
    'interpolate.regulargrid': ([3, 4], [], 0),
    'interpolate.extrapolate': ([3, 4], [], 0),
    'spatial.convert_ellipsoid': ([0, 1], [], 0),
    'spatial.to_geodetic': ([0, 1, 2], [], 0), 'spatial.to_cartesian': ([0, 1], ['h'], 0),
    'spatial.wrap_longitudes': ([0], [], 0), 'spatial.to_horizontal': ([0, 1, 2], [], 0),
    'spatial.scale_factors': ([0], [], 0), 'ellipse': None,
    'crs.convert': ([0, 1], [], 0),
    'model.extract': ([0, 1], [], 0), 'model.interpolate': ([0, 1], [], 0),
}


def generate(rng, idx, tier):
    sp = p18.specs(rng, 1)
    if rng.random() < 0.6:
        names = [k for k in COMPUTE if k not in calls.MODELLED or
                 calls.possible(k, sp[0])]
        w = dict(tide_elevations=10, tide_currents=8, tide_masks=2, LPET=2, LPT=2,
                 OPT=0.4, SET=3)
        k = rng.choices(names, [w[n] for n in names])[0]
    else:
        k = rng.choice(sorted(p for p in POINTWISE if p not in calls.MODELLED or
                              calls.possible(p, sp[0])))
    n = rng.choice([2, 3, 4, 6, 9, 14])
    job = dict(k=k, m=0, n=n, s=rng.randrange(10**9),
               layout=rng.choice(['drift', 'drift', 'grid', 'time series']))
    ops, faults = [], []
    for i in range(rng.choice([2, 3, 4, 6, 10])):
        op = dict(id=i, cut=round(rng.random(), 6), axis=rng.randrange(3),
                  order=rng.randrange(10**6), mix=rng.random() < 0.4,
                  layout=rng.choice([None, None, 'drift', 'grid', 'time series']),
                  where=rng.choice(['here', 'here', 'other']))
        if rng.random() < 0.35:
            op['crop'] = rng.choice(['points', 'points', 'box', 'default'])
            op['buffer'] = rng.choice([2.2, 3.0, 5.5])
        ops.append(op)
        if rng.random() < 0.25:
            faults.append(dict(op=i, kind=rng.choice(['crash', 'crash', 'files', 'twice']),
                               at=int(10 ** rng.uniform(0, 3.2)),
                               which=rng.randrange(100)))
    return dict(specs=sp, job=job, ops=ops, faults=faults)


def valid(sc):
    return bool(sc['ops'])


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    env = calls.Env(ctx.root, sc['specs'])
    env.one = lambda key, make: make()
    (Compute if sc['job']['k'] in COMPUTE else Pointwise)(sc, ctx, env).run()


def close(a, b, tol):
    """first difference of value or mask of two arrays of one shape"""
    if a.shape != b.shape:
        return f'shape {b.shape} instead of {a.shape}'
    ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
    if not np.array_equal(ma, mb):
        i = tuple(np.argwhere(ma != mb)[0])
        return f'mask {bool(mb[i])} instead of {bool(ma[i])} at {list(map(int, i))}'
    x, y = np.ma.getdata(a), np.ma.getdata(b)
    if x.dtype.kind not in 'fciu':
        return None if np.array_equal(x[~ma], y[~mb]) else 'values'
    with np.errstate(all='ignore'):
        scale = np.max(np.abs(x[~ma & np.isfinite(x)]), initial=0.0)
        bad = ~(np.abs(x - y) <= tol * (scale + 1e-30)) & ~ma
        bad &= ~((x == y) | (np.isnan(x) & np.isnan(y)))
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        return f'{y[i]} instead of {x[i]} at {list(map(int, i))}'
    return None


class Job:
    tol = 1e-9

    def __init__(self, sc, ctx, env):
        self.sc, self.ctx, self.env = sc, ctx, env
        self.rng = random.Random(sc['job']['s'] + 1)
        self.setup()

    def run(self):
        sc, ctx = self.sc, self.ctx
        fresh = Fresh(lambda q: calls.run(self.piece, list(q), {}))
        whole = calls.run(self.piece, [self.everything(), None], {})
        k = sc['job']['k']
        ctx.log('whole', k, whole[0])
        if whole[0] == 'error':
            raise Violation('job-failed', f'{self.what()}: {whole[1]}')
        whole = whole[1]
        parts = self.split()
        out = {n: self.blank(v) for n, v in whole.items()}
        for op, part in parts:
            if part is None:
                continue
            got = self.work(op, part, fresh)
            ctx.advance(60)
            ctx.log('piece', op['id'], [len(p) for p in part], op.get('layout'),
                    op.get('crop'))
            for n, v in got.items():
                if n not in out:
                    raise Violation('pieces', f'{self.what()}: a piece gives {n}')
                want = self.take(whole[n], part)
                try:
                    v = v.reshape(want.shape)
                except ValueError:
                    raise Violation('pieces', f'{self.what()}: {self.piecewhat(op, part)} '
                                    f'gives {n} of shape {v.shape} instead of '
                                    f'{want.shape}')
                d = close(want, v, 1e-6 if op.get('crop') and self.crops else self.tol)
                if d:
                    raise Violation('pieces', f'{self.what()}: {self.piecewhat(op, part)} '
                                    f'gives {n} {d}')
            if set(got) != set(out):
                raise Violation('pieces', f'{self.what()}: a piece lacks '
                                f'{sorted(set(out) - set(got))}')
        n = sum(p is not None for _, p in parts)
        if n > 1:
            ctx.nontrivial = True
        ctx.probe('pieces', n)
        fresh.close()

    def blank(self, v):
        return None

    def work(self, op, part, fresh):
        """one worker: it may crash, lose its files or answer twice"""
        ctx = self.ctx
        fault = ([f for f in self.sc['faults'] if f['op'] == op['id']] or [None])[0]
        how = dict(op)
        if not self.crops:
            how.pop('crop', None)
        ctx.state(self.sc['job']['k'], self.layout, op.get('layout'), how.get('crop'),
                  fault and fault['kind'], op.get('where'),
                  self.sc['specs'][0]['format'] if self.modelled else None,
                  self.sc['specs'][0]['kind'] if self.modelled else None)
        if fault and fault['kind'] == 'crash':
            strike = p18.Strike(fault['at'], 'MemoryError')
            sys.settrace(strike)
            try:
                calls.run(self.piece, [part, how], {})
            except MemoryError:
                pass
            finally:
                sys.settrace(None)
            if strike.hit:
                ctx.fault('worker_crash', strike.hit)
        elif fault and fault['kind'] == 'files' and self.modelled:
            d = self.env.models[0]['dir']
            os.rename(d, d + '.away')
            out = calls.run(self.piece, [part, how], {})
            os.rename(d + '.away', d)
            ctx.fault('files_unreachable', out[0])
        elif fault and fault['kind'] == 'twice':
            calls.run(self.piece, [part, how], {})
            ctx.fault('done_twice')
        if op['where'] == 'other':
            out = fresh.ask([part, how])
            ctx.probe('other_process')
        else:
            out = calls.run(self.piece, [part, how], {})
        if out[0] == 'error':
            raise Violation('piece-failed', f'{self.what()}: {self.piecewhat(op, part)}: '
                            f'{out[1]}')
        return out[1]

    def split(self):
        """parts of the job: index arrays for every axis"""
        parts = [self.everything()]
        for op in self.sc['ops'][1:]:
            # the largest part is split
            i = max(range(len(parts)), key=lambda j: np.prod([len(a) for a in parts[j]]))
            p = parts[i]
            ax = op['axis'] % len(p)
            if len(p[ax]) < 2:
                ax = max(range(len(p)), key=lambda j: len(p[j]))
            if len(p[ax]) < 2:
                break
            idx = list(p[ax])
            if op['mix']:
                random.Random(op['order']).shuffle(idx)
            c = 1 + int(op['cut'] * (len(idx) - 1))
            a, b = list(p), list(p)
            a[ax], b[ax] = np.array(idx[:c]), np.array(idx[c:])
            parts[i:i + 1] = [a, b]
        random.Random(self.sc['ops'][0]['order']).shuffle(parts)
        return list(zip(self.sc['ops'], parts + [None] * len(self.sc['ops'])))

    def piecewhat(self, op, part):
        t = f'the piece {[list(map(int, p)) for p in part]}'
        if op.get('layout'):
            t += f" as {op['layout']}"
        if op.get('crop') and self.crops:
            t += f" cropped ({op['crop']})"
        return t


def jitter(b, x, y, sp, all):
    """no point is as far from one node as from another (if all) or so close to a
    node that it counts as the node (in one convention of longitude only)"""
    x0, x1, y0, y1 = sp['lims']
    dx, dy = (x1 - x0) / sp['nx'], (y1 - y0) / sp['ny']
    if sp['proj']:
        return x + 1e-4 * b.np.rand(len(x)), y + 1e-4 * b.np.rand(len(x))
    if all:
        e = b.np.uniform(0.02, 0.1, len(x))
        return x + e * dx, y + e * b.np.uniform(0.8, 1.2, len(x)) * dy \
            * np.where(y > y0 + dy, -1, 1)
    q = np.mod((x - x0) / dx * 2, 1.0)
    off = np.minimum(q, 1 - q) * dx / 2
    return np.where((off < 5e-3) & (off > 1e-7), x + 0.03 * dx, x), y


class Compute(Job):
    """a computation for points and times in one of the layouts"""

    def setup(self):
        call = self.sc['job']
        env = self.env
        self.call = call
        k = self.k = call['k']
        self.modelled = k in calls.MODELLED
        b = calls.B(env, call)
        self.layout = call['layout'] if k != 'tide_masks' else 'points'
        r, n = b.r, call['n']
        if self.layout in ('drift', 'points'):
            np_, nt = n, n
        elif self.layout == 'grid':
            np_, nt = min(n, 5), r.randint(1, 3)
        else:
            np_, nt = r.randint(1, 4), n
        kw = {}
        sp = self.sc['specs'][0]
        if self.modelled:
            pts = np.array(tm.points(r, sp, env.models[0]['data'], np_))
            o = calls.model_options(b, 0, k == 'tide_elevations')
            x, y = jitter(b, pts[:, 0], pts[:, 1], sp,
                          o['EXTRAPOLATE'] and k != 'tide_masks')
            # splines give the value at a limit of the grid to the points beyond it
            d = env.models[0]['data']
            out = np.mod(x - d['x'][0], 360.0) > d['x'][-1] - d['x'][0]
            beyond = sp['kind'] == 'regional' and not sp['proj'] and \
                o['METHOD'] == 'spline' and not sp['format'].startswith('OTIS')
            if beyond and r.random() < 0.7:
                x = np.where(out, b.np.uniform(d['x'][0], d['x'][-1], len(x)), x)
                beyond = False
            beyond = beyond and np.any(out)
        else:
            x, y = b.np.uniform(-180, 180, np_), b.np.uniform(-89, 89, np_)
        y2 = np.resize(y, r.choice([1, 2, 3]))
        if self.layout == 'grid' and len(y2) == len(x):
            y2 = y2[:-1] if len(y2) > 1 else np.r_[y2, y2]
        if r.random() < 0.25 and np.all(y < -20):
            kw['EPSG'] = r.choice([3031, 'EPSG:3031'])
            x, y = tm.Geo('EPSG:3031').t.transform(x, y)
            y2 = y[:len(y2)] if len(y2) <= len(y) else np.resize(y, len(y2))
        if self.layout == 'grid':
            y = y2
        self.x, self.y = np.array(x), np.array(y)
        t = b.times(nt)
        std = r.choice(['UTC', 'UTC', 'GPS', 'TAI', 'datetime'])
        if std == 'datetime':
            t = np.datetime64('2000-01-01T00:00:00') + \
                ((t - 51544.0) * 86400).astype(int).astype('timedelta64[s]')
        else:
            t = (t - 51544.0) * 86400.0
        self.t = t
        self.crops = False
        if k == 'tide_masks':
            kw['METHOD'] = r.choice(tm.METHODS)
        else:
            kw['TIME'] = std
        if k in ('tide_elevations', 'tide_currents'):
            for q in ('CROP', 'BOUNDS', 'BUFFER'):
                o.pop(q, None)
            kw.update(o)
            self.crops = not (o['EXTRAPOLATE'] or beyond)
        elif k == 'LPT':
            kw.update(calls.pole_options(b))
        elif k == 'OPT':
            kw.update(calls.ocean_pole_options(b))
        elif k == 'SET':
            kw.update(calls.solid_options(b))
        if self.modelled:
            kw['DEFINITION_FILE'] = env.models[0]['path']
        self.kw = kw
        self.fn = getattr(pyTMD.compute, dict(
            LPET='LPET_elevations', LPT='LPT_displacements', OPT='OPT_displacements',
            SET='SET_displacements').get(k, k))

    def everything(self):
        n = {'drift': [len(self.x)], 'points': [len(self.x)],
             'grid': [len(self.y), len(self.x), len(self.t)],
             'time series': [len(self.x), len(self.t)]}[self.layout]
        return [np.arange(i) for i in n]

    def what(self):
        sp = self.sc['specs'][0]
        o = {k: v for k, v in self.kw.items() if k != 'DEFINITION_FILE'}
        return f"{self.k} {self.layout} {o}" + \
            (f" on {sp['format']} {sp['kind']}" if self.modelled else '')

    def take(self, v, part):
        return v[np.ix_(*part)]

    def piece(self, part, how):
        """compute one part, possibly in another layout"""
        how = how or {}
        kw = dict(self.kw)
        layout = self.layout
        to = how.get('layout') or layout
        if layout == 'points':
            x, y = self.x[part[0]], self.y[part[0]]
            return {'mask': np.asarray(self.fn(x, y, **kw))}
        if how.get('crop') and self.crops:
            kw['CROP'] = True
            self.box(kw, how)
        shape = [len(p) for p in part]
        if layout == 'drift':
            x, y, t = self.x[part[0]], self.y[part[0]], self.t[part[0]]
            if to != 'drift' and len(part[0]) > 1:
                # one call for each point
                out = [self.one(x[i:i + 1], y[i:i + 1], t[i:i + 1], to, kw)
                       for i in range(len(x))]
                return {n: np.ma.concatenate([o[n].ravel() for o in out])
                        if np.ma.isMaskedArray(out[0][n]) else
                        np.concatenate([o[n].ravel() for o in out]) for n in out[0]}
            return {n: v.reshape(shape) for n, v in self.one(x, y, t, to, kw).items()}
        if layout == 'grid':
            x, y, t = self.x[part[1]], self.y[part[0]], self.t[part[2]]
            if to == 'grid':
                if len(x) == len(y) or how.get('mix'):
                    x, y = np.meshgrid(x, y)
                return self.one(x, y, t, 'grid', kw)
            x, y = np.meshgrid(x, y)
            if to == 'time series':
                out = self.one(x.ravel(), y.ravel(), t, to, kw)
            else:
                out = self.one(np.repeat(x.ravel(), len(t)), np.repeat(y.ravel(), len(t)),
                               np.tile(t, x.size), to, kw)
            return {n: v.reshape(shape) for n, v in out.items()}
        x, y, t = self.x[part[0]], self.y[part[0]], self.t[part[1]]
        if to == 'grid':
            out = self.one(x[None, :], y[None, :], t, to, kw)
        elif to == 'drift':
            out = self.one(np.repeat(x, len(t)), np.repeat(y, len(t)),
                           np.tile(t, len(x)), to, kw)
        else:
            out = self.one(x, y, t, to, kw)
        return {n: v.reshape(shape) for n, v in out.items()}

    def box(self, kw, how):
        sp = self.sc['specs'][0]
        x0, x1, y0, y1 = sp['lims']
        cell = max((x1 - x0) / sp['nx'], (y1 - y0) / sp['ny'])
        if how['crop'] != 'default':
            kw['BUFFER'] = how['buffer'] * cell
        if how['crop'] == 'box':
            # around all points of the job, in the coordinates of the model
            lon, lat = self.x, self.y
            if self.layout == 'grid':
                lon, lat = (v.ravel() for v in np.meshgrid(lon, lat))
            if str(kw.get('EPSG', 4326)).endswith('3031'):
                lon, lat = tm.Geo('EPSG:3031').t.transform(lon, lat, direction='INVERSE')
            if sp['proj']:
                lon, lat = tm.Geo(sp['proj']).t.transform(lon, lat)
            kw['BOUNDS'] = [np.min(lon), np.max(lon), np.min(lat), np.max(lat)]

    def one(self, x, y, t, layout, kw):
        out = self.fn(x, y, t, TYPE=layout, **kw)
        return dict(out) if isinstance(out, dict) else {'value': out}


class Pointwise(Job):
    """a building block that gives one row for every row of its inputs"""
    crops = False
    layout = 'rows'

    def setup(self):
        call = dict(self.sc['job'])
        self.k = call['k']
        self.modelled = self.k in calls.MODELLED
        if self.k == 'spatial.convert_ellipsoid':
            self.tol = 1e-7
        self.fn, self.a, self.kw = calls.build(self.env, call)
        if self.k == 'ellipse':
            self.per = (list(range(len(self.a))), [], 0)
        else:
            self.per = POINTWISE[self.k]
        b = calls.B(self.env, call)
        n = self.n = call['n']
        if self.k in ('model.extract', 'model.interpolate'):
            self.a[0], self.a[1] = jitter(b, self.a[0], self.a[1], self.sc['specs'][0],
                                          self.kw.get('extrapolate'))
            if self.kw.get('append_node') and not self.sc['specs'][0]['cons']:
                self.kw.pop('append_node')
            for q in ('crop', 'bounds', 'buffer'):
                self.kw.pop(q, None)
        if self.k == 'predict.equilibrium_tide' and np.size(self.a[0]) == 1:
            self.a[0] = np.full(n, np.ravel(self.a[0])[0])
        if self.k == 'interpolate.extrapolate':
            self.a[3] = self.a[3] + 1e-3 * b.np.rand(n)
        self.rows = [i for i in self.per[0]]
        self.opts = [k for k in self.per[1]
                     if k in self.kw and np.ndim(self.kw[k]) and np.size(self.kw[k]) == n]

    def everything(self):
        return [np.arange(self.n)]

    def what(self):
        return f'{self.k} {({k: v for k, v in self.kw.items() if np.size(v) < 4})}'

    def take(self, v, part):
        return np.take(v, part[0], axis=self.per[2]) if not np.ma.isMaskedArray(v) \
            else v[part[0]]

    def piece(self, part, how):
        a, kw = list(self.a), dict(self.kw)
        for i in self.rows:
            a[i] = a[i][part[0]]
        for k in self.opts:
            kw[k] = kw[k][part[0]]
        out = self.fn(*a, **kw)
        res = {}
        n = len(part[0])
        if not isinstance(out, (tuple, list)):
            out = [out]
        for i, v in enumerate(out):
            if not isinstance(v, (np.ndarray, float, np.generic)):
                continue
            v = np.ma.atleast_1d(v) if np.ma.isMaskedArray(v) else np.atleast_1d(v)
            if v.shape[self.per[2]] != n and v.size == 1 and n > 1:
                v = np.repeat(v, n)
            if v.shape[self.per[2]] != n:
                raise Violation('pieces', f'{self.what()} gives shape {v.shape} for {n} '
                                'points')
            res[i] = v
        return res
