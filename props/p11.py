"""P11: result files read back exactly what was written, over any history."""
import copy
import gzip
import io
import os
import pathlib
import random

import h5py
import netCDF4
import numpy as np
import osgeo.gdal
import osgeo.osr
import pyTMD.spatial as S

from sim.core import Violation
from sim.deep import snap, diff
from sim.disk import Disk, peek, put

ID = 'P11'
RUNS = dict(quick=1500, thorough=60000)
RULE = ('a run is a history of 3-10 writes, updates, reads, copies and deletions of '
        'up to 4 result files in 5 formats and 3 layouts that share their data, '
        'attribute and option objects, with failing requests, unreadable disks and '
        'shuffled directory listings in between; non-trivial: an object or file was '
        'used more than once, or a fault fired; distinct by hash of the event trace')
STATE_MEASURE = '(operation, format, layout, options, earlier use of file and objects, outcome)'
COMPONENTS = dict(real=['pyTMD.spatial', 'netCDF4', 'h5py', 'GDAL', 'pandas', 'pyarrow',
                        'file system below the seam'],
                  simulated=['directory order', 'read errors of the disk',
                             'failing requests'])
ASSUMPTIONS = ['masked points hold the fill value of their attributes, as the '
               'computing functions leave them',
               'one program uses a file at a time']
FMT = ['ascii', 'netCDF4', 'HDF5', 'GTiff', 'cog', 'parquet']
FILES = ['Tide.out', 'tide_2.DAT', 'a+b(1).nc', 'ü x.h5']
WGS = osgeo.osr.SpatialReference()
WGS.ImportFromEPSG(4326)
POLAR = osgeo.osr.SpatialReference()
POLAR.ImportFromEPSG(3031)
LIST = ['description', 'units', 'long_name', 'calendar', 'standard_name']
TEXT = dict(description=['tide height', 'ocean tide from EOT20', 'marée (µm)'],
            units=['meters', 'm s-1', 'µm', 'days since 1992-01-01T00:00:00'],
            long_name=['Ocean Tide', 'Latitude', 'x-coordinate (projected)'],
            calendar=['standard'], standard_name=['tide', 'time'],
            units_metadata=['temperature: unknown'], reference=['https://x.org/a_b'],
            units_long=['centimetres per second'])


def generate(rng, idx, tier):
    data = []
    for i in range(rng.randint(1, 3)):
        layout = rng.choice(['drift', 'grid', 'time series'])
        data.append(dict(layout=layout, seed=rng.randrange(10**6),
                         n=rng.choice([1, 2, 3, 7, 30]), m=rng.choice([1, 2, 3, 5, 8]),
                         t=rng.choice([1, 1, 2, 3]), mask=rng.choice([0, 0, 0.3, 1]),
                         fill=rng.choice([None, -9999.0, 0.0, 'nan', 1e20, -9999.0]),
                         dtype=rng.choice(['f8', 'f8', 'f4', 'i4']),
                         names=rng.choice([['time', 'lat', 'lon', 'tide'],
                                           ['time', 'y', 'x', 'data'],
                                           ['time', 'latitude', 'longitude', 'z']]),
                         root=rng.random() < 0.5, crs=rng.random() < 0.3,
                         near=rng.random() < 0.3,
                         extra=rng.random() < 0.3, strtime=rng.random() < 0.2))
    ops, faults = [], []
    for i in range(rng.randint(3, 10)):
        r = rng.random()
        op = dict(id=i, file=rng.choice(FILES[:rng.choice([1, 2, 4])]),
                  data=rng.randrange(len(data)), path=rng.choice(['str', 'path']))
        if r < 0.42:
            op.update(do='write', fmt=rng.choice(FMT), delim=rng.choice([',', ' ', ';', '\t']),
                      header=rng.choice([False, 'YAML', 2]),
                      mode=rng.choice([None, None, None, 'a']),
                      pq=rng.choice(['snappy', 'gzip', None]),
                      geo=rng.choice([False, True]), crs=rng.choice([None, 4326, 3031]),
                      wrap=rng.random() < 0.5,
                      fail=rng.choice([None] * 6 + ['attr', 'dir']))
        elif r < 0.9:
            op.update(do='read', how=rng.choice(['plain', 'plain', 'gzip', 'bytes', 'text']),
                      case=rng.choice([None, None, 'upper', 'lower', 'swap']),
                      order=rng.randrange(1000), wrap=rng.random() < 0.5,
                      map=rng.choice(['args', 'mapping', 'emptymap', 'default']),
                      bounds=rng.random() < 0.3, regex=rng.random() < 0.5,
                      again=rng.random() < 0.3,
                      group=rng.choice([None, None, 'data_01', 'Science Data', 'gt1l']),
                      fail=rng.choice([None] * 8 + ['var', 'gone', 'group']))
            if rng.random() < 0.12:
                faults.append(dict(op=i, dev='disk', kind='read_eio', at=rng.randint(0, 1)))
        else:
            op.update(do='delete')
        ops.append(op)
    decoys = [f for f in ['Tide.out.bak', 'TideXout', 'Tide.OUT', 'xTide.out',
                          'a+b(1).nc~', 'aab1.nc', 'tide_2.dat.gz'] if rng.random() < 0.3]
    return dict(data=data, ops=ops, decoys=decoys, faults=faults)


SHRINK_LISTS = ('decoys',)


def valid(sc):
    return bool(sc['data']) and all(o['data'] < len(sc['data']) for o in sc['ops'])


def build(spec, version=0):
    """output dictionary, attributes and georeference of one data set"""
    g = np.random.default_rng([spec['seed'], version])
    n, m, t = spec['n'], spec['m'], spec['t']
    tn, yn, xn, vn = spec['names']
    if spec['layout'] == 'drift':
        dims = dict(t=n, y=n, x=n)
        shape = (n,)
    elif spec['layout'] == 'grid':
        dims = dict(t=t, y=n, x=m)
        shape = (n, m, t)
    else:
        dims = dict(t=t, y=n, x=n)
        shape = (n, t)

    def numbers(shape, dtype='f8'):
        if dtype == 'i4':
            return g.integers(-2**31 + 1, 2**31 - 1, shape).astype('i4')
        v = g.standard_normal(shape) * 10.0**g.integers(-9, 9, shape)
        v = np.where(g.random(shape) < 0.1, np.round(v), v)
        return v.astype(dtype)
    fill = spec['fill']
    fill = np.nan if fill == 'nan' else fill
    dtype = spec['dtype']
    if dtype == 'i4' and fill is not None:
        fill = -2**31
    elif dtype == 'f4' and fill is not None and np.isfinite(fill):
        fill = float(np.float32(fill))

    def field(shape):
        v = numbers(shape, dtype)
        if fill is None:
            return v
        if not np.isnan(fill):
            if spec.get('near'):
                # valid values that almost are the fill value
                e = 10.0**g.integers(-15, -3, shape) * g.choice([-1, 1], shape)
                f = fill + np.sign(e) if dtype == 'i4' else fill * (1 + e) if fill else e
                f = np.where(g.random(shape) < 0.3, np.nextafter(fill, np.sign(e) * np.inf), f) \
                    if dtype == 'f8' else f
                v = np.where(g.random(shape) < 0.3, f, v).astype(v.dtype)
            v = np.where(v == fill, v / 2 + 1, v).astype(v.dtype)
        mask = g.random(shape) < spec['mask']
        v = np.ma.array(v, mask=mask, fill_value=fill)
        v.data[mask] = fill
        return v
    out = {xn: numbers(dims['x']), yn: numbers(dims['y']), vn: field(shape)}
    out[tn] = np.sort(numbers(dims['t']))
    if spec['layout'] == 'grid':
        dx, dy = 2.0**g.integers(-3, 5), -(2.0**g.integers(-3, 5))
        x0, y0 = float(g.integers(-100, 100)), float(g.integers(-50, 50))
        out[xn] = x0 + dx / 2 + np.arange(m) * dx
        out[yn] = y0 + dy / 2 + np.arange(n) * dy
    if spec['strtime']:
        out[tn] = (np.datetime64('2000-01-01T00:00:00') + g.integers(
            0, 10**9, dims['t']).astype('timedelta64[s]')).astype(str)
    att = {}
    for k in out:
        att[k] = {a: str(g.choice(TEXT[a])) for a in sorted(TEXT)
                  if g.random() < 0.5}
    if fill is not None:
        att[vn]['_FillValue'] = fill
    if spec['extra']:
        out['error'] = field(shape)
        att['error'] = dict(att[vn], long_name='Error')
    srs = POLAR if spec['crs'] else WGS
    if spec['crs']:
        out['crs'] = np.array(0, dtype='i4')
        att['crs'] = dict(crs_wkt=POLAR.ExportToWkt(),
                          grid_mapping_name='polar_stereographic')
        att[vn]['grid_mapping'] = 'crs'
    if spec['root']:
        att['ROOT'] = dict(title='Tides', description='test file', institution='UW')
    if spec['layout'] == 'grid':
        att['extent'] = (x0, x0 + (m - 1) * dx, y0 + (n - 1) * dy, y0)
        att['spacing'] = (dx, dy)
        att['wkt'] = srs.ExportToWkt()
    return out, att


def supported(spec, op):
    f = op['fmt']
    lay = spec['layout']
    if f == 'ascii':
        return lay == 'drift' and not (spec['strtime'] and op['delim'] == ' ')
    if spec['strtime'] and f != 'GTiff' and f != 'cog':
        return False
    if f in ('GTiff', 'cog'):
        return lay == 'grid'
    if f == 'parquet':
        # points only: the file has one geometry per record
        return lay == 'drift' and not spec['crs']
    return True


def merge(old, new):
    """an update adds and replaces attributes and keeps the others"""
    out = copy.deepcopy(new)
    for k, v in (old or {}).items():
        if isinstance(v, dict):
            out[k] = dict(v, **out.get(k, {}))
    return out


def regroup(src, dst, name, order, fmt):
    """the variables of a file in a group, beside others of the same names"""
    g = random.Random(order)
    if fmt == 'HDF5':
        with h5py.File(src) as a, h5py.File(dst, 'w') as b:
            for k, v in a.attrs.items():
                b.attrs[k] = v
            for where in (name, '/', 'other'):
                grp = b.require_group(where)
                for k, v in a.items():
                    x = v[()]
                    if where != name:
                        if g.random() < 0.3:
                            continue
                        x = x + x.dtype.type(1) if x.dtype.kind in 'if' else x
                    d = grp.create_dataset(k, data=x, dtype=v.dtype)
                    for i, j in v.attrs.items():
                        d.attrs[i] = j if where == name or i == '_FillValue' \
                            or not isinstance(j, str) else 'other ' + j
        return
    with netCDF4.Dataset(src) as a, netCDF4.Dataset(dst, 'w') as b:
        b.setncatts({k: a.getncattr(k) for k in a.ncattrs()})
        a.set_auto_mask(False)
        for where in (name, '/', 'other'):
            grp = b if where == '/' else b.createGroup(where)
            for k, v in a.dimensions.items():
                grp.createDimension(k, None if v.isunlimited() else len(v))
            for k, v in a.variables.items():
                x = v[:]
                if where != name:
                    if g.random() < 0.3:
                        continue
                    x = x + x.dtype.type(1) if x.dtype.kind in 'if' else x
                att = {i: v.getncattr(i) for i in v.ncattrs()}
                d = grp.createVariable(k, v.dtype, v.dimensions,
                                       fill_value=att.pop('_FillValue', None))
                d.set_auto_mask(False)
                d[:] = x
                for i, j in att.items():
                    d.setncattr(i, j if where == name or not isinstance(j, str)
                                else 'other ' + j)


class Sim:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.dir = os.path.join(ctx.root, 'out')
        os.makedirs(self.dir)
        self.files = {}        # name -> what it holds
        self.objs = [build(d) for d in sc['data']]
        self.used = [0] * len(self.objs)
        self.mapping = {}      # options shared between requests
        self.options = ['COMPRESS=LZW']
        self.base = [(snap(o), snap(a)) for o, a in self.objs]
        self.pick = random.Random(0)

    def unchanged(self, when):
        for i, ((o, a), (so, sa)) in enumerate(zip(self.objs, self.base)):
            d = diff(so, snap(o), 'data') or diff(sa, snap(a), 'attributes')
            if d:
                raise Violation('caller-changed', f'{when} changed the objects of '
                                f'its caller: {d}')
        if self.mapping != {}:
            raise Violation('caller-changed', f'{when} changed the field mapping')
        if self.options != ['COMPRESS=LZW']:
            raise Violation('caller-changed', f'{when} changed the options')

    def path(self, op, name=None):
        p = os.path.join(self.dir, name or op['file'])
        return p if op['path'] == 'str' else pathlib.Path(p)

    # ---------------------------------------------------------------- write
    def write(self, op):
        spec = self.sc['data'][op['data']]
        if not supported(spec, op):
            return
        out, att = self.objs[op['data']]
        fmt = op['fmt']
        tn, yn, xn, vn = spec['names']
        path, kw = self.path(op), {}
        pre = self.files.get(op['file'])
        version = 0
        if fmt == 'ascii':
            cols = [tn, yn, xn, vn] + (['error'] if spec['extra'] else [])
            header = op['header'] == 'YAML'
            kw = dict(delimiter=op['delim'], columns=cols, header=header)
        elif fmt in ('netCDF4', 'HDF5'):
            if fmt == 'netCDF4':
                kw['data_type'] = spec['layout']
            if op['mode'] == 'a':
                # update of an existing file with new values, or a new file
                if pre and (pre['fmt'] != fmt or pre['data'] != op['data']):
                    return
                if not pre and os.path.exists(str(path)):
                    return
                version = op['id'] + 1 if pre else 0
                kw['mode'] = 'a'
                if version:
                    out, att = build(spec, version)
        elif fmt in ('GTiff', 'cog'):
            kw = dict(varname=vn, driver=fmt, options=self.options)
            if fmt == 'GTiff' and spec['dtype'] == 'f4':
                kw['dtype'] = osgeo.gdal.GDT_Float32
        elif fmt == 'parquet':
            kw = dict(compression=op['pq'], geoparquet=op['geo'], crs=op['crs'])
        if op['fail'] == 'attr':
            if fmt in ('parquet', 'cog'):
                return
            att = {k: v for k, v in att.items() if k != (
                'wkt' if fmt == 'GTiff' else vn)}
            if fmt == 'ascii' and not kw['header']:
                return
        if op['fail'] == 'dir':
            path = pathlib.Path(self.dir, 'missing', op['file'])
        keep = (snap(out), snap(att))
        reuse = self.used[op['data']]
        self.used[op['data']] += 1
        names = list(out)
        exc = None
        try:
            if op['wrap']:
                S.to_file(out, att, path, fmt, **kw)
            else:
                dict(ascii=S.to_ascii, netCDF4=S.to_netCDF4, HDF5=S.to_HDF5,
                     GTiff=S.to_geotiff, cog=S.to_geotiff,
                     parquet=S.to_parquet)[fmt](out, att, path, **kw)
        except Exception as e:
            exc = e
        what = f"writing {fmt} ({spec['layout']})"
        self.ctx.log('write', op['id'], fmt, spec['layout'], op['fail'],
                     type(exc).__name__, reuse, bool(pre))
        self.ctx.state('w', fmt, spec['layout'], op['fail'], min(reuse, 2), bool(pre),
                       op['mode'], spec['fill'] is None, exc is None)
        self.unchanged(what)
        if version and (snap(out), snap(att)) != keep:
            raise Violation('caller-changed', f'{what} in update mode: ' + str(
                diff(keep[0], snap(out)) or diff(keep[1], snap(att))))
        if reuse or pre:
            self.ctx.nontrivial = True
        if op['fail']:
            self.ctx.fault('failing_request_' + op['fail'])
            self.ctx.nontrivial = True
            if exc is None:
                raise Violation('no-error', f"{what} with a missing {op['fail']} succeeded")
            if op['fail'] != 'dir':
                self.files.pop(op['file'], None)
                exc = None
                if os.path.exists(self.path(op)):
                    os.unlink(self.path(op))
            return
        if exc is not None:
            raise Violation('write-failed', f"{what}, use {reuse} of these objects, "
                            f"{'over an existing file' if pre else 'new file'}"
                            f"{', update' if kw.get('mode') else ''}: {exc!r}")
        if fmt == 'ascii' and op['header'] == 2:
            b = peek(str(path))
            put(str(path), b'# two lines\n# of header\n' + b)
        self.files[op['file']] = dict(
            fmt=fmt, data=op['data'], version=version, op=op, names=names, kw=kw,
            att=merge((pre or {}).get('att') if kw.get('mode') else None, att))
        self.ctx.probe('write_' + fmt)

    # ----------------------------------------------------------------- read
    def read(self, op):
        name = op['file']
        rec = self.files.get(name)
        full = os.path.join(self.dir, name)
        src, kw = None, {}
        if rec is None:
            # nothing of this name was written: only decoys can be there
            lower = [f.lower() for f in os.listdir(self.dir)]
            if name.lower() in lower or op['how'] != 'plain':
                return
            exc = None
            self.pick = random.Random(op['order'])
            try:
                S.from_ascii(self.path(op))
            except Exception as e:
                exc = e
            self.ctx.log('absent', op['id'], name, type(exc).__name__)
            if not isinstance(exc, FileNotFoundError):
                raise Violation('confused', f'{name} is not there, but reading gave {exc!r}')
            return
        spec = self.sc['data'][rec['data']]
        fmt = rec['fmt']
        tn, yn, xn, vn = spec['names']
        how = op['how']
        if how == 'text' and fmt != 'ascii':
            how = 'bytes'
        if fmt == 'parquet':
            how = 'plain'
        want_out, want_att = build(spec, rec['version'])[0], rec['att']
        wop = rec['op']
        if fmt == 'ascii':
            kw = dict(columns=rec['kw']['columns'], delimiter=wop['delim'],
                      header=wop['header'] or 0)
            if spec['strtime']:
                kw['parse_dates'] = True
            elif op['regex'] and wop['delim'] == ' ' and spec['fill'] != 'nan':
                kw['delimiter'] = None
        elif fmt in ('netCDF4', 'HDF5'):
            if op['map'] == 'mapping':
                kw['field_mapping'] = S.default_field_mapping([tn, yn, xn, vn])
                if spec['extra']:
                    kw['field_mapping']['error'] = 'error'
            else:
                kw = dict(timename=tn, yname=yn, xname=xn, varname=vn)
                if op['map'] == 'emptymap':
                    kw['field_mapping'] = self.mapping
        elif fmt == 'parquet':
            kw['columns'] = [tn, yn, xn, vn]
            if wop['geo']:
                kw['columns'] = [tn, 'y', 'x', vn]
        if fmt in ('GTiff', 'cog') and op['bounds']:
            # an interior box of pixel centres
            x, y = want_out[xn], want_out[yn]
            i, j = sorted(random.Random(op['order']).choices(range(len(x)), k=2))
            k, l = sorted(random.Random(op['order'] + 1).choices(range(len(y)), k=2))
            kw['bounds'] = [x[i], x[j], y[l], y[k]]
            box = (slice(k, l + 1), slice(i, j + 1))
        else:
            box = (slice(None), slice(None))
        if op['fail'] == 'var' and fmt in ('netCDF4', 'HDF5'):
            if 'field_mapping' in kw and kw['field_mapping']:
                kw['field_mapping']['data'] = 'nothing'
            else:
                kw['varname'] = 'nothing'
            failing = True
        elif op['fail'] == 'gone':
            failing = True
        else:
            failing = False
        if op['fail'] == 'group' and not op.get('group'):
            failing = False
        target, extra, grouped = name, None, None
        if op.get('group') and fmt in ('netCDF4', 'HDF5'):
            # the same content in a group of a file with other variables
            target = name + '.grp'
            full = grouped = os.path.join(self.dir, target)
            if os.path.exists(full):
                return
            regroup(os.path.join(self.dir, name), full, op['group'], op['order'], fmt)
            kw['group'] = op['group']
            if op['fail'] == 'group':
                kw['group'], failing = 'no ' + op['group'], True
            self.ctx.probe('group_' + fmt)
        if how == 'gzip':
            target = target + '.gz'
            extra = os.path.join(self.dir, target)
            if os.path.exists(extra):
                if grouped:
                    os.unlink(grouped)
                return
            with open(extra, 'wb') as f:
                f.write(gzip.compress(peek(full), 1))
            kw['compression'] = 'gzip'
            src = self.path(op, target)
        elif how in ('bytes', 'text'):
            b = peek(full)
            src = io.BytesIO(b) if how == 'bytes' else io.StringIO(b.decode('utf8'))
            kw['compression'] = 'bytes'
            if op['fail'] == 'gone':
                src, failing = io.BytesIO(b'') if how == 'bytes' else io.StringIO(''), True
                if fmt == 'ascii':
                    return
        else:
            src = self.path(op, target)
        if how in ('plain', 'gzip'):
            if op['case']:
                new = dict(upper=target.upper(), lower=target.lower(),
                           swap=target.swapcase())[op['case']]
                same = [f for f in os.listdir(self.dir) if f.lower() == new.lower()]
                if len(same) == 1:
                    src = self.path(op, new)
            if op['fail'] == 'gone':
                src = self.path(op, 'No' + target)
        keep = snap(kw)
        self.pick = random.Random(op['order'])
        res, exc = None, None
        fn = dict(ascii=S.from_ascii, netCDF4=S.from_netCDF4, HDF5=S.from_HDF5,
                  GTiff=S.from_geotiff, cog=S.from_geotiff, parquet=S.from_parquet)[fmt]
        self.disk.begin(op['id'])
        try:
            res = S.from_file(src, fmt, **kw) if op['wrap'] else fn(src, **kw)
        except Exception as e:
            exc = e
        fired = self.disk.end()
        for f in (extra, grouped):
            if f:
                os.unlink(f)
        self.ctx.log('read', op['id'], fmt, spec['layout'], how, op['case'], failing,
                     type(exc).__name__)
        self.ctx.state('r', fmt, spec['layout'], how, op['case'], failing, bool(fired),
                       wop['mode'], exc is None)
        what = f"reading {fmt} ({spec['layout']}, {how})"
        self.unchanged(what)
        d = diff(keep, snap(kw), 'options')
        if d:
            raise Violation('caller-changed', f'{what} changed {d}')
        if failing or fired:
            self.ctx.nontrivial = True
        if failing:
            self.ctx.fault('failing_request_' + op['fail'])
            if exc is None:
                raise Violation('no-error', f"{what}: {op['fail']} missing, no error")
            return
        if fired:
            if exc is None:
                raise Violation('no-error', f'{what} ignored a read error of the disk')
            return
        if exc is not None:
            raise Violation('read-failed', f'{what}, options {kw}: {exc!r}')
        self.ctx.probe('read_' + fmt + '_' + how)
        self.compare(res, want_out, want_att, spec, rec, fmt, box, what, kw)
        if fmt in ('GTiff', 'cog') and op['again']:
            self.rewrite(res, fmt, what)

    def same(self, got, want, what, name, cast=None):
        gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
        g, w = np.asarray(np.ma.getdata(got)), np.asarray(np.ma.getdata(want))
        if cast is not None:
            w = w.astype(cast)
        if g.shape != w.shape:
            raise Violation('wrong-shape', f'{what}: {name} has shape {g.shape} '
                            f'instead of {w.shape}')
        if not np.array_equal(gm, wm):
            raise Violation('wrong-mask', f'{what}: {name} has {gm.sum()} masked points '
                            f'instead of {wm.sum()}')
        ok = ~wm
        if g.dtype.kind in 'Mmf' and w.dtype.kind != g.dtype.kind and g.dtype.kind == 'M':
            w = w.astype(g.dtype)
        if not np.array_equal(g[ok], w[ok]):
            i = np.flatnonzero(~(g[ok] == w[ok]))[:3]
            raise Violation('wrong-value', f'{what}: {name} reads {g[ok][i]} '
                            f'instead of {w[ok][i]}')

    def compare(self, res, out, att, spec, rec, fmt, box, what, kw):
        tn, yn, xn, vn = spec['names']
        op = rec['op']
        if fmt == 'ascii':
            pairs = list(zip(kw['columns'], kw['columns']))
        elif fmt in ('GTiff', 'cog'):
            self.same(res['x'], out[xn][box[1]], what, 'x')
            self.same(res['y'], out[yn][box[0]], what, 'y')
            # no times are stored
            self.same(res['time'], np.zeros(spec['t']), what, 'time')
            w = out[vn][box[0], box[1], :]
            w = np.ma.getdata(w)
            if fmt == 'cog' or 'dtype' not in rec['kw']:
                w = w.astype('f8')
            if spec['t'] == 1:
                w = w[:, :, 0]
            else:
                w = np.moveaxis(w, 2, 0)
            if spec['fill'] is not None:
                f = att[vn]['_FillValue']
                m = np.isnan(w) if np.isnan(f) else w == f
                w = np.ma.array(w, mask=m)
            self.same(res['data'], w, what, 'data')
            a = res['attributes']
            if spec['fill'] is not None:
                got = a['data'].get('_FillValue')
                if got is None or not (got == f or (np.isnan(got) and np.isnan(f))):
                    raise Violation('wrong-attribute', f'{what}: fill value {got!r} '
                                    f'instead of {f!r}')
            srs = osgeo.osr.SpatialReference()
            srs.ImportFromWkt(a['wkt'])
            if not srs.IsSame(POLAR if spec['crs'] else WGS):
                raise Violation('wrong-crs', f'{what}: projection {a["projection"]}')
            if tuple(a['spacing']) != tuple(att['spacing']):
                raise Violation('wrong-attribute', f'{what}: spacing {a["spacing"]}')
            if box == (slice(None),) * 2 and tuple(a['extent']) != tuple(att['extent']):
                raise Violation('wrong-attribute', f'{what}: extent {a["extent"]} '
                                f'instead of {att["extent"]}')
            return
        elif fmt == 'parquet':
            n = {tn: 'time', vn: 'data', 'error': 'error'}
            n.update({yn: 'y', xn: 'x'})
            for k in out:
                g = np.asarray(res[n[k]].values)
                w = out[k]
                if np.ma.isMaskedArray(w):
                    # masked points are missing values of the table
                    m = np.ma.getmaskarray(w)
                    w = np.where(m, np.nan, np.ma.getdata(w)) if m.any() else \
                        np.ma.getdata(w)
                    if not np.array_equal(np.isnan(g.astype('f8')), np.isnan(w.astype('f8'))):
                        raise Violation('wrong-mask', f'{what}: {k} has '
                                        f'{np.isnan(g.astype("f8")).sum()} missing values')
                    m = np.isnan(w.astype('f8'))
                    self.same(g[~m].astype(w.dtype), w[~m], what, k)
                else:
                    self.same(g, w, what, k)
            a = res.attrs
            for k in out:
                if op['geo'] and k in (xn, yn):
                    continue
                if str(a['pyTMD'].get(k)) != str(att[k]):
                    raise Violation('wrong-attribute', f'{what}: {k} has '
                                    f'{a["pyTMD"].get(k)} instead of {att[k]}')
            if bool(a['geoparquet']) != bool(op['geo']):
                raise Violation('wrong-attribute', f'{what}: geoparquet {a["geoparquet"]}')
            if op['crs']:
                srs = osgeo.osr.SpatialReference()
                srs.ImportFromWkt(a['wkt'])
                if not srs.IsSame(POLAR if op['crs'] == 3031 else WGS):
                    raise Violation('wrong-crs', f'{what}: {a["projection"]}')
            return
        else:
            pairs = [('x', xn), ('y', yn), ('data', vn), ('time', tn)]
            if 'error' in kw.get('field_mapping', {}):
                pairs.append(('error', 'error'))
        yaml = fmt == 'ascii' and op['header'] == 'YAML'
        for g, w in pairs:
            val = out[w]
            if fmt == 'ascii':
                if not (g == 'data' and yaml and spec['fill'] is not None):
                    val = np.ma.getdata(val)      # fill values stay in the text
                    gotv = np.ma.getdata(res[g])
                    f = att[w].get('_FillValue')
                    if f is not None and np.isnan(f):
                        if not np.array_equal(np.isnan(gotv), np.isnan(val)):
                            raise Violation('wrong-mask', f'{what}: {w}')
                        ok = ~np.isnan(val)
                        if spec['strtime']:
                            gotv = gotv.astype(val.dtype)
                        self.same(gotv[ok], val[ok], what, w, 'f8')
                        continue
                    if spec['strtime'] and val.dtype == 'f4':
                        # written as text of the shortest single precision number
                        gotv = gotv.astype('f4')
                    self.same(gotv, val, what, w, None if val.dtype.kind in 'US' else 'f8')
                    continue
                res = dict(res)
                if spec['strtime']:
                    res[g] = res[g].astype(val.dtype)
                self.same(res[g], val, what, w, 'f8')
            elif g == 'error':
                # only the mask of the data variable is documented
                m = np.ma.getmaskarray(val)
                self.same(np.ma.getdata(res[g])[~m], np.ma.getdata(val)[~m], what, w)
            else:
                self.same(res[g], val, what, w)
            if fmt == 'ascii' and not yaml:
                continue
            a = res['attributes'][g]
            names = LIST + ['_FillValue', 'grid_mapping']
            if yaml:
                names = list(att[w])
            for k in names:
                x, y = a.get(k), att[w].get(k)
                if yaml and y is not None and k == '_FillValue':
                    x = float(x) if x is not None else None
                if x is None or y is None:
                    ok = x is None and y is None
                elif isinstance(y, str):
                    ok = str(x) == y
                else:
                    ok = x == y or (np.isnan(x) and np.isnan(y))
                if not ok:
                    raise Violation('wrong-attribute', f'{what}: {w}.{k} reads {x!r} '
                                    f'instead of {y!r}')
        if fmt == 'ascii':
            return
        a = res['attributes']
        if spec['root']:
            for k in ('title', 'description'):
                if a.get(k) != att['ROOT'][k]:
                    raise Violation('wrong-attribute', f'{what}: global {k} {a.get(k)!r}')
        if spec['crs']:
            srs = osgeo.osr.SpatialReference()
            srs.ImportFromWkt(a['crs']['crs_wkt'])
            if not srs.IsSame(POLAR):
                raise Violation('wrong-crs', what)

    def rewrite(self, res, fmt, what):
        """what was read can be written again with its own attributes"""
        d = np.ma.getdata(res['data'])
        out = dict(data=np.moveaxis(d, 0, 2) if d.ndim == 3 else d)
        keep = snap(out), snap(res['attributes'])
        p = os.path.join(self.ctx.root, 'again.tif')
        S.to_geotiff(out, res['attributes'], p, driver=fmt)
        if (snap(out), snap(res['attributes'])) != keep:
            raise Violation('caller-changed', f'writing after {what}')
        new = S.from_geotiff(p)
        for k in ('x', 'y', 'data'):
            a, b = new[k], res[k]
            m = np.ma.getmaskarray(b)
            if np.shape(a) != np.shape(b) or not np.array_equal(np.ma.getmaskarray(a), m) \
                    or not np.array_equal(np.ma.getdata(a)[~m],
                                          np.ma.getdata(b)[~m].astype('f8')):
                raise Violation('wrong-value', f'{k} differs after {what} and writing '
                                'it again')
        os.unlink(p)


def execute(sc, ctx):
    sim = Sim(sc, ctx)
    for d in sc['decoys']:
        put(os.path.join(sim.dir, d), b'1,2,3,4\n')
    listdir = os.listdir

    def shuffled(path='.'):
        names = sorted(listdir(path))
        sim.pick.shuffle(names)
        return names
    os.listdir = shuffled
    try:
        with Disk(ctx, sc['faults']) as disk:
            sim.disk = disk
            for op in sc['ops']:
                ctx.advance(60)
                if op['do'] == 'write':
                    # a decoy of exactly this name is overwritten
                    sim.write(op)
                elif op['do'] == 'read':
                    sim.read(op)
                else:
                    p = os.path.join(sim.dir, op['file'])
                    sim.files.pop(op['file'], None)
                    if os.path.exists(p):
                        os.unlink(p)
    finally:
        os.listdir = listdir
