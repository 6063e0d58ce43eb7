"""P24: batch programs under disk errors, crashes, damaged files and repeats."""
import io
import json
import logging
import math
import os
import pickle
import socket
import sys
import warnings

import h5py
import netCDF4
import numpy as np
import osgeo.gdal
import osgeo.osr
import pandas as pd
import pyarrow.parquet
import pyproj
import shapely
import timescale.time

from props import calls, tm
from props.p12 import in_child, set_limit
from sim import scripts
from sim.core import REPO, HarnessError, Violation

ID = 'P24'
RUNS = dict(quick=1300, thorough=80000)
RULE = ('a run gives 1-3 input files (5 formats, 3 layouts, several time standards, '
        'units, projections, variable names) to the command-line programs for ocean '
        'tides, currents, equilibrium, pole and solid earth tides, while the disk fills '
        'at a byte, an operation fails or the process dies at a line or byte, the input '
        'or a model file is cut short or missing, and repeats what failed undisturbed; '
        'non-trivial: the records of an output were compared after a fault, or for more '
        'than one program; distinct by hash of the event trace')
STATE_MEASURE = '(program, format, layout, time standard, options, fault, outcome)'
COMPONENTS = dict(real=['scripts/compute_*.py main', 'pyTMD (spatial, io, predict, crs, ...)',
                        'netCDF4, h5py, GDAL, pyarrow, pyproj, timescale',
                        'kernel enforcing the size limit'],
                  simulated=['input files, models, ephemerides and pole tide coefficients '
                             '(independent writers)', 'disk errors, full disk, death',
                             'cut and missing files'])
ASSUMPTIONS = ['the value for a record is what pyTMD.compute gives for it (decided by P20)',
               'csv and parquet files hold drift data; images are grids with times given '
               'as arguments',
               'a cut text file or image may still be valid and is not used as a fault']
CPU_LIMIT = 120

PROGRAMS = {'tide_elevations': 'compute_tidal_elevations',
            'tide_currents': 'compute_tidal_currents',
            'LPET_elevations': 'compute_LPET_elevations',
            'LPT_displacements': 'compute_LPT_displacements',
            'OPT_displacements': 'compute_OPT_displacements',
            'SET_displacements': 'compute_SET_displacements'}
VARS = {'LPET_elevations': 'tide_lpe', 'LPT_displacements': 'tide_pole',
        'OPT_displacements': 'tide_oc_pole', 'SET_displacements': 'tide_earth'}
FAULTS = ['full', 'full', 'die', 'error', 'error', 'memory', 'crash', 'crash', 'input',
          'missing input', 'model', 'missing model', 'directory']
UNITS = dict(seconds=1.0, minutes=60.0, hours=3600.0, days=86400.0)
SHRINK_LISTS = ()


def generate(rng, idx, tier):
    currents = rng.random() < 0.25
    sp = tm.spec(rng, currents=currents,
                 cons=rng.sample(calls.MAJOR, rng.choice([2, 3, 7, 8])))
    sp['lean'] = [k for k in ('reference', 'variable', 'scale', 'compressed')
                  if rng.random() < 0.2 and (k != 'compressed' or not sp['gz'])
                  and (k != 'scale' or sp['format'] in ('OTIS', 'ATLAS-compact', 'TMD3'))]
    ops, faults = [], []
    names = ['tide_currents'] * 3 if currents else ['tide_elevations'] * 5
    names += ['LPET_elevations', 'LPT_displacements', 'SET_displacements']
    for i in range(rng.choice([1, 1, 2, 3])):
        prog = rng.choice(names)
        if rng.random() < 0.03:
            prog = 'OPT_displacements'
        layout = rng.choice(['drift', 'drift', 'grid', 'time series'])
        fmt = rng.choice(dict(drift=['csv', 'csv', 'netCDF4', 'HDF5', 'parquet', 'parquet'],
                              grid=['netCDF4', 'HDF5', 'GTiff', 'cog']).get(
                                  layout, ['netCDF4', 'HDF5']))
        std = rng.choice(['UTC', 'UTC', 'GPS', 'LORAN', 'TAI', None])
        if fmt == 'csv' and rng.random() < 0.3:
            std = 'datetime'
        ops.append(dict(id=i, prog=prog, layout=layout, fmt=fmt, std=std,
                        n=rng.choice([1, 2, 3, 5, 12, 40]), seed=rng.randrange(10**9),
                        units=rng.choice(sorted(UNITS)), opt=rng.random() < 0.7,
                        epoch=rng.choice(['1858-11-17T00:00:00', '2000-01-01T00:00:00',
                                          '1992-01-01 00:00:00', '2018-01-01T12:00:00']),
                        out=rng.choice(['new', 'new', 'same', 'default']),
                        mode=rng.choice([None, '664', '600', '775']),
                        verbose=rng.choice([0, 1, 2]),
                        proj=rng.choice([None, None, 'argument', 'file'])))
        if rng.random() < 0.6:
            faults.append(dict(op=i, dev='disk', kind=rng.choice(FAULTS),
                               at=int(math.exp(rng.uniform(0, math.log(9000)))),
                               byte=rng.choice([0, 1, int(math.exp(rng.uniform(0, 10.5))),
                                                int(math.exp(rng.uniform(5, 9.5)))]),
                               frac=rng.random(), which=rng.randrange(100)))
    return dict(spec=sp, ops=ops, faults=faults)


def valid(sc):
    return bool(sc['ops'])


class Seam:
    """an error or death at the k-th line of the program or the library"""

    def __init__(self, at, kind):
        self.left, self.kind, self.hit = at, kind, None
        self.lib = tuple(os.path.join(REPO, d) for d in ('pyTMD', 'scripts'))
        self.work = 0

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.lib):
            return None
        if frame.f_code.co_name in PROGRAMS.values():
            self.work += 1
        return self.line

    def line(self, frame, event, arg):
        if event == 'return' and frame.f_code.co_name in PROGRAMS.values():
            self.work -= 1
        if event == 'line' and self.hit is None and self.work:
            self.left -= 1
            if self.left <= 0:
                self.hit = f'{os.path.basename(frame.f_code.co_filename)}:' \
                           f'{frame.f_code.co_name}'
                if self.kind == 'crash':
                    os._exit(77)
                raise (MemoryError('injected') if self.kind == 'memory' else
                       OSError(5, 'injected'))
        return self.line


class Job:
    """one input file, its arguments and what the output has to hold"""

    def __init__(self, env, op, where):
        self.env, self.op, self.where = env, op, where
        self.b = calls.B(env, dict(s=op['seed'], n=op['n']))
        self.r = self.b.r
        self.modelled = op['prog'] in ('tide_elevations', 'tide_currents')
        self.m = env.models[0]
        self.place()
        self.times()
        self.write_input()
        self.options()

    # ------------------------------------------------------------ content
    def place(self):
        op, r = self.op, self.r
        n = op['n']
        self.np_ = {'drift': n, 'grid': min(n, 7), 'time series': r.randint(1, 4)}[op['layout']]
        if self.modelled:
            # not exactly on nodes or limits: projections round differently
            sp = dict(self.m['spec'])
            pts = np.array(tm.points(r, sp, self.m['data'], self.np_))
            pts = pts + self.b.np.uniform(1e-4, 2e-4, pts.shape)
            x, y = pts[:, 0], np.clip(pts[:, 1], -89.9999, 89.9999)
        else:
            x = self.b.np.uniform(-180, 180, self.np_)
            y = self.b.np.uniform(-89, 89, self.np_)
        self.epsg = 4326
        if op['proj'] and np.all(y < -30):
            self.epsg = 3031
        elif op['proj'] and np.all(y > 40):
            self.epsg = 3413
        elif op['proj'] and np.all(np.abs(y) < 80) and r.random() < 0.3:
            self.epsg = 3857
        if self.epsg != 4326:
            x, y = pyproj.Transformer.from_crs(4326, self.epsg, always_xy=True).transform(x, y)
            x, y = np.array(x), np.array(y)
        if op['layout'] == 'grid':
            ny = r.randint(1, 5)
            k = 1.0 if self.epsg == 4326 else 1e5
            dx, dy = k * r.uniform(0.2, 3.0), k * r.uniform(0.2, 2.0)
            if op['fmt'] in ('GTiff', 'cog') or r.random() < 0.5:
                x = x[0] + dx * np.arange(self.np_)
                y = y[0] - dy * (np.arange(ny) - ny // 2)
                if self.epsg == 4326:
                    y = y - max(0, y.max() - 89.9) + max(0, -89.9 - y.min())
            else:
                y = np.resize(y, ny) + 0.1 * np.arange(ny)
                if self.epsg == 4326:
                    y = np.clip(y, -89.99, 89.99)
        if self.epsg == 4326 and op['layout'] == 'grid' and np.ptp(x) < 300 and x.min() < -180:
            x = x + 360.0
        self.x, self.y = x, y

    def times(self):
        op, r = self.op, self.r
        n = op['n'] if op['layout'] == 'drift' else r.choice([1, 2, 3])
        if op['layout'] == 'time series':
            n = op['n']
        mjd = np.asarray(self.b.times(n), 'f8')
        # all times are after the ephemerides begin
        if op['std'] == 'datetime':
            s = ((mjd - 51544.0) * 86400).astype('i8')
            self.dates = np.datetime64('2000-01-01T00:00:00') + s.astype('timedelta64[s]')
            self.t = None
            return
        d, h = op['epoch'][:10], op['epoch'][11:]
        y, m, dd = (int(v) for v in d.split('-'))
        hh, mm, ss = (int(v) for v in h.split(':'))
        base = float(timescale.time.convert_calendar_dates(
            y, m, dd, hour=hh, minute=mm, second=ss,
            epoch=(1858, 11, 17, 0, 0, 0), scale=1.0))
        self.t = np.array([float(f'{v:.10f}') for v in
                           (mjd - base) * 86400.0 / UNITS[op['units']]])
        self.epoch = [y, m, dd, hh, mm, ss]

    # -------------------------------------------------------------- files
    def write_input(self):
        op, r = self.op, self.r
        ext = dict(csv='csv', netCDF4='nc', HDF5='h5', GTiff='tif', cog='tif',
                   parquet='parquet')[op['fmt']]
        self.ext = ext
        self.infile = os.path.join(self.where, f'input {op["id"]}.{ext}'
                                   if r.random() < 0.2 else f'input{op["id"]}.{ext}')
        self.args = ['--format', op['fmt'], '--type', op['layout']]
        self.unit_text = f'{op["units"]} since {op["epoch"]}'
        data = self.b.np.randn(len(self.x) if op['layout'] == 'drift' else 1)
        getattr(self, 'write_' + dict(cog='GTiff').get(op['fmt'], op['fmt']))(data)
        if op['std']:
            self.args += ['--standard', op['std']]
        if self.t is not None and (self.unit_text is not None):
            self.args += ['--epoch', self.unit_text]
        if self.epsg != 4326 and not self.crs_in_file:
            self.args += ['--projection', r.choice([str(self.epsg), f'EPSG:{self.epsg}'])]
        elif self.epsg == 4326 and op['proj'] == 'argument':
            self.args += ['--projection', '4326']

    crs_in_file = False

    def write_csv(self, data):
        r = self.r
        geo = self.epsg == 4326
        cols = r.choice([['time', 'lat', 'lon', 'data']] * 3 +
                        [['time', 'y', 'x'], ['x', 'y', 'time', 'data'],
                         ['lon', 'lat', 'time'], ['data', 'time', 'lat', 'lon']])
        if not geo:
            cols = [dict(lat='y', lon='x').get(c, c) for c in cols]
        val = dict(lat=self.y, y=self.y, lon=self.x, x=self.x, data=data)
        text = {k: [repr(float(v)) for v in vs] for k, vs in val.items()}
        if self.t is None:
            text['time'] = [str(v) for v in self.dates]
        else:
            text['time'] = [f'{v:.10f}' for v in self.t]
        sep = r.choice([',', ',', ',', ';', '|', '\t'])
        nh = r.choice([0, 0, 1, 3])
        lines = [f'# header {i}' for i in range(nh)]
        lines += [sep.join(text[c][i] for c in cols) for i in range(len(self.x))]
        with open(self.infile, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        if cols != ['time', 'lat', 'lon', 'data']:
            self.args += ['--variables'] + cols
        if nh:
            self.args += ['--header', str(nh)]
        if sep != ',':
            self.args += ['--delimiter', sep]
        self.sep = sep

    def names(self):
        r = self.r
        v = r.choice([['time', 'lat', 'lon', 'data']] * 2 +
                     [['time', 'y', 'x', 'data'], ['t', 'yc', 'xc', 'h'], ['delta_time', 'y', 'x']])
        if v != ['time', 'lat', 'lon', 'data']:
            self.args += ['--variables'] + v
        return v

    def arrays(self, data):
        op = self.op
        if op['layout'] == 'grid':
            data = self.b.np.randn(len(self.y), len(self.x))
        elif op['layout'] == 'time series':
            data = self.b.np.randn(len(self.x), len(self.t))
        return data

    def write_netCDF4(self, data):
        v, op, data = self.names(), self.op, self.arrays(data)
        with netCDF4.Dataset(self.infile, 'w') as nc:
            n = dict(t=len(self.t), y=len(self.y), x=len(self.x))
            if op['layout'] == 'grid':
                dims = dict(time=('t',), y=('y',), x=('x',), data=('y', 'x'))
            elif op['layout'] == 'drift':
                dims = dict.fromkeys(['time', 'y', 'x', 'data'], ('t',))
            else:
                dims = dict(time=('t',), y=('x',), x=('x',), data=('x', 't'))
            for k in sorted({a for d in dims.values() for a in d}):
                nc.createDimension(k + '_dim', n[k])
            vals = [self.t, self.y, self.x, data]
            for name, key, val in zip(v, ['time', 'y', 'x', 'data'], vals):
                var = nc.createVariable(name, 'f8', [a + '_dim' for a in dims[key]])
                var[:] = val
                if key == 'time' and self.r.random() < 0.6:
                    var.units = self.unit_text
                    # the units in the file are used rather than the argument
                    self.unit_text = self.r.choice([None, self.unit_text,
                                                    'days since 1950-01-01T00:00:00'])
            if self.epsg != 4326 and op['proj'] == 'file':
                nc.projection = self.r.choice([f'EPSG:{self.epsg}',
                                               pyproj.CRS(self.epsg).to_wkt()])
                self.crs_in_file = True

    def write_HDF5(self, data):
        v, op, data = self.names(), self.op, self.arrays(data)
        with h5py.File(self.infile, 'w') as f:
            for name, key, val in zip(v, ['time', 'y', 'x', 'data'],
                                      [self.t, self.y, self.x, data]):
                d = f.create_dataset(name, data=val)
                if key == 'time' and self.r.random() < 0.6:
                    d.attrs['units'] = self.unit_text
                    self.unit_text = self.r.choice([None, self.unit_text,
                                                    'days since 1950-01-01T00:00:00'])
            if self.epsg != 4326 and op['proj'] == 'file':
                f.attrs['projection'] = f'EPSG:{self.epsg}'
                self.crs_in_file = True

    def write_GTiff(self, data):
        op = self.op
        nx, ny = len(self.x), len(self.y)
        dx = self.x[1] - self.x[0] if nx > 1 else 0.5
        dy = self.y[1] - self.y[0] if ny > 1 else -0.5
        srs = osgeo.osr.SpatialReference()
        srs.ImportFromEPSG(self.epsg)
        drv = osgeo.gdal.GetDriverByName('GTiff')
        ds = drv.Create(self.infile, nx, ny, 1, osgeo.gdal.GDT_Float32)
        self.gt = [self.x[0] - dx / 2, dx, 0, self.y[0] - dy / 2, 0, dy]
        ds.SetGeoTransform(self.gt)
        ds.SetProjection(srs.ExportToWkt())
        ds.GetRasterBand(1).WriteArray(self.b.np.randn(ny, nx).astype('f4'))
        ds.FlushCache()
        ds = None
        self.x = self.gt[0] + dx / 2 + dx * np.arange(nx)
        self.y = self.gt[3] + dy / 2 + dy * np.arange(ny)
        self.args += ['--deltatime'] + [f'{v:.10f}' for v in self.t]
        self.crs_in_file = True

    def write_parquet(self, data):
        r = self.r
        geo = r.random() < 0.5
        self.geo = geo
        meta = {}
        if geo:
            v = ['time', 'lat', 'lon', 'data']
            df = pd.DataFrame({'time': self.t, 'data': data,
                               'geometry': shapely.to_wkb(shapely.points(self.x, self.y))})
            col = dict(encoding='WKB')
            if self.epsg == 4326 or self.op['proj'] == 'file':
                col['crs'] = pyproj.CRS(self.epsg).to_json_dict()
                self.crs_in_file = True
            meta[b'geo'] = json.dumps(dict(version='1.1.0', primary_column='geometry',
                                           columns=dict(geometry=col))).encode()
        else:
            v = self.names()
            df = pd.DataFrame(dict(zip(v, [self.t, self.y, self.x, data])))
        table = pyarrow.Table.from_pandas(df)
        m = dict(table.schema.metadata)
        m.update(meta)
        pyarrow.parquet.write_table(table.replace_schema_metadata(m), self.infile)

    # ------------------------------------------------------------ options
    def options(self):
        op, r, a = self.op, self.r, self.args
        kw = {}
        self.fill = -9999.0
        if self.modelled:
            kw = dict(DEFINITION_FILE=self.m['path'], INFER_MINOR=False)
            a += ['--definition-file', self.m['path']]
        if op['opt']:
            if r.random() < 0.4:
                self.fill = r.choice([-9999.0, float('nan'), -1e10, 0.5, 1e20])
                a += ['--fill-value', repr(self.fill)]
            if self.modelled:
                self.model_options(kw)
            elif op['prog'] in ('LPT_displacements', 'OPT_displacements'):
                kw.update(calls.pole_options(self.b))
            elif op['prog'] == 'SET_displacements':
                kw.update(calls.solid_options(self.b))
            for k, flag in (('CONVENTION', '--convention'), ('ELLIPSOID', '--ellipsoid'),
                            ('TIDE_SYSTEM', '--tide-system'), ('EPHEMERIDES', '--ephemerides')):
                if k in kw:
                    a += [flag, kw[k]]
        if op['mode']:
            a += ['--mode', op['mode']]
        a += ['-V'] * op['verbose']
        self.kw = kw

    def model_options(self, kw):
        o = calls.model_options(self.b, 0, self.op['prog'] == 'tide_elevations')
        a = self.args
        o.pop('FILL_VALUE', None)
        o.pop('BOUNDS', None)
        kw.update(o)
        a += ['--interpolate', o['METHOD']]
        for k, flag in (('EXTRAPOLATE', '-E'), ('INFER_MINOR', '--infer-minor'),
                        ('APPEND_NODE', '--append-node'), ('APPLY_FLEXURE', '--apply-flexure'),
                        ('CROP', '--crop')):
            if o.get(k):
                a.append(flag)
        if 'BUFFER' in o:
            a += ['--buffer', repr(float(o['BUFFER']))]
        if 'CUTOFF' in o:
            a += ['--cutoff', repr(float(o['CUTOFF']))]
        if 'CORRECTIONS' in o:
            a += ['--nodal-corrections', o['CORRECTIONS']]
        if 'MINOR_CONSTITUENTS' in o:
            a += ['--minor-constituents'] + o['MINOR_CONSTITUENTS']

    # ------------------------------------------------------------- oracle
    def want(self):
        """records the output must hold, by the library itself"""
        import pyTMD.compute
        op = self.op
        x, y = np.array(self.x), np.array(self.y)
        if op['layout'] == 'grid':
            x, y = np.meshgrid(x, y)
        if self.t is None:
            t, kw = self.dates, dict(TIME='datetime')
            ts = timescale.time.Timescale().from_datetime(t.astype('datetime64[ns]'))
        else:
            t = self.t * UNITS[op['units']]
            std = op['std'] or 'UTC'
            kw = dict(TIME=std, EPOCH=self.epoch)
            ts = timescale.time.Timescale().from_deltatime(t, epoch=self.epoch, standard=std)
        lon, lat = pyproj.Transformer.from_crs(self.epsg, 4326, always_xy=True).transform(x, y)
        f = getattr(pyTMD.compute, op['prog'])
        try:
            v = f(x, y, t, EPSG=self.epsg, TYPE=op['layout'], **kw, **self.kw)
        except Exception as e:
            return None, f'{type(e).__name__}: {e}'
        if not isinstance(v, dict):
            name = VARS.get(op['prog'])
            v = {name: v}
        return dict(lon=np.asarray(lon), lat=np.asarray(lat), time=np.asarray(ts.tide),
                    values=v), None

    def got(self, path):
        """the records of an output file, by independent readers"""
        op, fmt = self.op, self.op['fmt']
        out = {}
        if fmt == 'csv':
            with open(path) as f:
                rows = [ln.split(self.sep) for ln in f.read().splitlines()]
            cols = ['time', 'lat', 'lon'] + (['u', 'v'] if op['prog'] == 'tide_currents'
                                             else [None])
            if any(len(q) != len(cols) for q in rows):
                raise ValueError('number of columns')
            for i, c in enumerate(cols):
                v = [q[i] for q in rows]
                if c == 'time' and self.t is None:
                    out[c] = np.array(v, 'datetime64[ms]')
                else:
                    out[c] = np.array([float(z) for z in v])
        elif fmt == 'netCDF4':
            with netCDF4.Dataset(path) as nc:
                nc.set_auto_mask(False)
                out = {k: np.array(v[:]) for k, v in nc.variables.items()}
                self.fills = {k: getattr(v, '_FillValue', None) for k, v in nc.variables.items()}
                self.units = nc.variables['time'].units
        elif fmt == 'HDF5':
            with h5py.File(path, 'r') as f:
                out = {k: np.array(v) for k, v in f.items()}
                self.units = f['time'].attrs['units']
        elif fmt in ('GTiff', 'cog'):
            ds = osgeo.gdal.Open(path)
            if not np.allclose(ds.GetGeoTransform(), self.gt, rtol=1e-12, atol=1e-9):
                raise ValueError(f'georeference {ds.GetGeoTransform()}, input {self.gt}')
            a = ds.ReadAsArray()
            a = a[None] if a.ndim == 2 else a
            nt = len(self.t)
            a = np.moveaxis(a, 0, -1)
            if op['prog'] == 'tide_currents':
                out = dict(u=a[..., :nt], v=a[..., nt:])
            else:
                out = {None: a}
            srs = osgeo.osr.SpatialReference()
            srs.ImportFromEPSG(self.epsg)
            if ds.GetSpatialRef().ExportToProj4() != srs.ExportToProj4():
                raise ValueError(f'projection {ds.GetSpatialRef().ExportToProj4()}')
            ds = None
        elif fmt == 'parquet':
            t = pyarrow.parquet.read_table(path)
            df = t.to_pandas()
            out = {k: np.array(df[k]) for k in df.columns}
            if self.geo:
                g = shapely.from_wkb(out.pop('geometry'))
                out['lon'], out['lat'] = shapely.get_x(g), shapely.get_y(g)
        return out

    def compare(self, path, want):
        try:
            got = self.got(path)
        except Exception as e:
            raise Violation('malformed', f'{self.op["fmt"]} {self.op["prog"]}: '
                            f'{type(e).__name__}: {e}')
        names = {k for k in got if k not in ('time', 'lon', 'lat')}
        vals = dict(want['values'])
        if self.op['prog'] not in ('tide_currents',):
            if len(names) != 1:
                raise Violation('variables', f'{sorted(map(str, names))}')
            n = names.pop()
            if self.op['prog'] in VARS and n not in (None, VARS[self.op['prog']]):
                raise Violation('variables', n)
            vals = {n: list(vals.values())[0]}
        elif names != {'u', 'v'}:
            raise Violation('variables', f'{sorted(map(str, names))}')
        where = f'{self.op["prog"]} {self.op["fmt"]} {self.op["layout"]}'
        if 'units' in self.__dict__ and self.units != 'days since 1992-01-01T00:00:00':
            raise Violation('time', f'{where}: units {self.units}')
        for c in ('time', 'lon', 'lat'):
            if c not in got:
                if self.op['fmt'] in ('GTiff', 'cog'):
                    continue
                raise Violation('variables', f'{where}: no {c}')
            w, g = want[c], got[c]
            if c == 'time' and self.t is None:
                w = self.dates
                bad = len(g) != len(w) or \
                    np.abs((g - w).astype('timedelta64[ms]').astype(float)) > 2
            else:
                if np.shape(g) != np.shape(w):
                    raise Violation('records', f'{where}: {c} has shape {np.shape(g)}, '
                                    f'want {np.shape(w)}')
                off = np.asarray(g, 'f8') - w
                if c == 'lon':
                    off -= 360.0 * np.round(off / 360.0)
                bad = ~(np.abs(off) < 1e-8)
            if np.any(bad):
                raise Violation('records', f'{where}: {c} is {np.ravel(g)[:4]}, '
                                f'want {np.ravel(w)[:4]}')
        for k, w in vals.items():
            g = got[k]
            nan = ~np.ma.getmaskarray(w) & np.isnan(np.ma.getdata(w))
            m = np.ma.getmaskarray(w) | nan
            if g.shape != w.shape:
                raise Violation('records', f'{where}: {k} has shape {g.shape}, want {w.shape}')
            f = self.fill
            isfill = np.isnan(g) if np.isnan(f) else g == f
            if self.op['fmt'] == 'parquet':
                # tables have missing values of their own
                isfill |= np.isnan(g)
            # invalid values that are not masked stay what they are
            isfill |= nan & np.isnan(g)
            if np.any(m & ~isfill):
                i = tuple(int(z) for z in np.argwhere(m & ~isfill)[0])
                raise Violation('fill', f'{where}: masked {k} at {i} is {g[i]}, fill value {f}')
            ok = ~m & np.isfinite(np.ma.getdata(w))
            scale = np.max(np.abs(np.ma.getdata(w)[ok]), initial=1e-30)
            with np.errstate(all='ignore'):
                bad = ~m & ~((np.abs(g - np.ma.getdata(w)) <= 1e-8 * scale) |
                             (g == np.ma.getdata(w)))
            if np.any(bad):
                i = tuple(int(z) for z in np.argwhere(bad)[0])
                raise Violation('values', f'{where}: {k} at {i} is {g[i]}, want {w[i]} '
                                f'({self.kw})'.replace(self.env.root, '$ROOT'))
            if getattr(self, 'fills', None) and np.any(m):
                fv = self.fills[k]
                if fv is None or not (fv == f or (np.isnan(fv) and np.isnan(f))):
                    raise Violation('fill', f'{where}: attribute {fv}, fill value {f}')
        return int(sum(np.ma.size(v) for v in vals.values()))


def offline(*args, **kwargs):
    raise socket.gaierror(-3, 'Temporary failure in name resolution')


def run(job, argv, fault):
    """the program in a process of its own"""
    name = PROGRAMS[job.op['prog']]
    prog = scripts.load(name)

    def child(w, _):
        err = io.StringIO()
        old, sys.stderr = sys.stderr, err
        for h in list(logging.root.handlers):
            logging.root.removeHandler(h)
        logging.root.setLevel(logging.WARNING)
        logging.disable(logging.NOTSET)
        warnings.simplefilter('ignore')
        os.umask(0o22)
        seam, code = None, None
        if fault and fault['kind'] in ('error', 'memory', 'crash'):
            seam = Seam(fault['at'], fault['kind'])
        if fault and fault['kind'] in ('full', 'die'):
            set_limit(fault['byte'])
        sys.argv = [name + '.py'] + argv
        note, show = [], logging.Logger.handle

        def keep(logger, record):
            # a failure is reported at least as an error
            if record.levelno >= logging.ERROR:
                note.append(record.getMessage())
            show(logger, record)
        logging.Logger.handle = keep
        socket.getaddrinfo = offline
        sys.settrace(seam)
        try:
            prog.main()
        except SystemExit as e:
            code = f'exit {e.code}' if e.code else None
        except Exception as e:
            code = repr(e)[:200]
        finally:
            sys.settrace(None)
        sys.stderr = old
        set_limit(None)
        text = err.getvalue()
        os.write(w, pickle.dumps((code, bool(note), ''.join(note)[-6000:], seam.hit if seam else None)))
        return 0
    st, buf = in_child(child, die=bool(fault) and fault['kind'] == 'die')
    if st == 0:
        code, failed, log, hit = pickle.loads(buf)
        return bool(code) or failed, code or log, hit
    if st in (77, -25):
        return True, f'died {st}', 'died'
    if st in (-11, -7, -6) and fault:
        # a library gives up
        return True, f'died {st}', f'{fault["kind"]} {job.op["fmt"]}'
    raise HarnessError(f'status {st}: {buf[:300]!r}')


def tree(root):
    out = {}
    for base, _, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            with open(p, 'rb') as f:
                out[p] = (f.read(), os.stat(p).st_mode & 0o7777)
    return out


def model_files(root):
    return sorted(p for p in tree(root) if not p.endswith('.json'))


def attempt(job, ctx, op, out, argv, fault, want, wrong):
    """one run: True if it failed"""
    before = tree(ctx.root)
    # left by an earlier attempt
    old = {p for p in before if p not in job.first and p != out}
    kind = fault and fault['kind']
    hurt = None
    if kind in ('input', 'missing input'):
        hurt = job.infile
        if kind == 'input' and op['fmt'] not in ('netCDF4', 'HDF5', 'parquet'):
            kind, hurt = None, None
    elif kind in ('model', 'missing model'):
        if job.modelled:
            files = model_files(job.m['dir'])
            hurt = files[fault['which'] % len(files)]
            if kind == 'model' and before[hurt][0][:2] not in (b'\x1f\x8b', b'\x89H', b'CD') \
                    and job.m['spec']['format'] not in ('OTIS', 'OTIS-list', 'ATLAS-compact',
                                                        'TMD3'):
                kind, hurt = 'missing model', hurt
        else:
            kind = None
    if hurt:
        raw, mode = before[hurt]
        if kind.startswith('missing'):
            os.unlink(hurt)
        else:
            with open(hurt, 'wb') as f:
                f.write(raw[:int(fault['frac'] * len(raw))])
    args = list(argv)
    if kind == 'directory':
        args[1] = os.path.join(ctx.root, 'missing directory', 'out.' + job.ext)
    failed, why, hit = run(job, args, dict(fault, kind=kind) if kind else None)
    if hurt:
        if kind.startswith('missing') and os.path.exists(hurt):
            raise Violation('input-changed', f'{os.path.basename(hurt)} created')
        with open(hurt, 'wb') as f:
            f.write(raw)
        os.chmod(hurt, mode)
    after = tree(ctx.root)
    for p, v in before.items():
        if p != out and p not in old and after.get(p) != v:
            what = 'input' if p == job.infile else 'file'
            raise Violation('input-changed', f'{what} {os.path.basename(p)} is '
                            f'{"changed" if p in after else "removed"} by {op["prog"]}')
    short = str(why).strip().splitlines()[-1:] if failed else ''
    short = str(short)[:200].replace(ctx.root, '$ROOT')
    if kind:
        ctx.fault(kind, op['id'], hit)
    ctx.log('run', op['id'], op['prog'], op['fmt'], op['layout'], kind, failed)
    ctx.state(op['prog'], op['fmt'], op['layout'], op['std'], kind, failed, bool(wrong))
    made = [p for p in after if p not in before or
            ((p == out or p in old) and after[p] != before[p])]
    if out is None and not made and not failed:
        # the same bytes again
        made = sorted(old)
    if failed:
        if wrong:
            return False
        if not kind:
            raise Violation('fails', f'{op["prog"]} {op["fmt"]} {op["layout"]}: {why}'
                            .replace(ctx.root, '$ROOT')[-3900:])
        if kind in ('error', 'memory', 'crash') and not hit:
            raise Violation('fails', f'{short} ({kind} not reached)')
        return True
    if kind in ('input', 'missing input', 'missing model', 'directory') and not made:
        raise Violation('silent', f'{kind}: nothing written and nothing said')
    if wrong:
        raise Violation('unreported', f'the library fails with {wrong[:200]}, '
                        f'the program says nothing')
    target = args[1] if kind == 'directory' else out
    if target is None:
        if len(made) != 1:
            raise Violation('output', f'files written: {sorted(map(os.path.basename, made))}')
        target = made[0]
    elif not os.path.exists(target) or [p for p in made if p != target]:
        raise Violation('output', f'files written: {sorted(map(os.path.basename, made))}')
    mode = int(op['mode'], 8) if op['mode'] else 0o775
    if after[target][1] != mode:
        raise Violation('mode', f'{after[target][1]:o}, asked for {mode:o}')
    n = job.compare(target, want)
    ctx.probe('values compared', n)
    ctx.probe(f'{op["prog"]} outputs')
    ctx.log('same', n)
    if out is None:
        # the next run writes to the same name
        os.unlink(target)
    if kind:
        ctx.nontrivial = True
    return False


def execute(sc, ctx):
    from props.p13 import quiet
    quiet()
    osgeo.gdal.UseExceptions()
    osgeo.gdal.DontUseExceptions()
    env = calls.Env(ctx.root, [sc['spec']])
    faults = {f['op']: f for f in sc['faults']}
    where = os.path.join(ctx.root, 'work')
    os.makedirs(where)
    for op in sc['ops']:
        ctx.step()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            job = Job(env, op, where)
            want, wrong = job.want()
        if wrong:
            ctx.probe('jobs the library refuses')
        out = None
        argv = [job.infile]
        if op['out'] != 'default':
            out = os.path.join(where, ('out.' if op['out'] == 'same' else f'out{op["id"]}.')
                               + job.ext)
            argv.append(out)
        elif faults.get(op['id'], {}).get('kind') == 'directory':
            argv.append(os.path.join(where, f'out{op["id"]}.{job.ext}'))
            out = argv[1]
        # positional arguments first: lists of values follow options
        argv += job.args
        f = faults.get(op['id'])
        job.first = set(tree(ctx.root))
        if attempt(job, ctx, op, out, argv, f, want, wrong):
            attempt(job, ctx, op, out, argv, None, want, wrong)
            ctx.nontrivial = True
            ctx.probe('repeats')
        if len(sc['ops']) > 1:
            ctx.nontrivial = True
