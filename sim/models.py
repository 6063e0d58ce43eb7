"""Synthetic tide models and readers/writers of their formats that share no
code with the library (the independent side of every comparison)."""
import gzip
import struct

import netCDF4
import numpy as np

CONS = ['m2', 's2', 'k1', 'o1', 'n2', 'p1', 'k2', 'q1', '2n2', 'mf', 'mm', 'm4',
        'mn4', 'ms4', 's1', 'mtm', 'msqm', '2sm2', 'eps2']
I4, F4 = '>i4', '>f4'


def arrays(spec):
    """the content of one synthetic model; masked points differ per variable"""
    r = np.random.RandomState(spec['seed'])
    ny, nx = spec['ny'], spec['nx']
    x0, x1, y0, y1 = spec['lims']
    out = dict(nx=nx, ny=ny, cons=list(spec['cons']),
               xlim=np.array([x0, x1], F4), ylim=np.array([y0, y1], F4),
               dt=np.float32(spec.get('dt', 12.0)))
    dx, dy = (x1 - x0) / nx, (y1 - y0) / ny
    out['dx'], out['dy'] = dx, dy
    out['x'] = x0 + dx * (np.arange(nx) + 0.5)
    out['y'] = y0 + dy * (np.arange(ny) + 0.5)
    land = r.rand(ny, nx) < spec.get('land', 0.2)
    if land.all():
        land[ny // 2, nx // 2] = False
    if spec.get('blocky') and ny > 3 and nx > 3:
        # connected land and sea rather than speckle
        land[:] = False
        i, j = r.randint(0, ny), r.randint(0, nx)
        land[i:i + max(1, ny // 3), j:j + max(1, nx // 3)] = True
    out['land'] = land
    hz = (r.rand(ny, nx) * 4000 + 10).astype('f4')
    hz[land] = 0
    out['hz'] = hz
    out['mz'] = np.logical_not(land).astype('i4')
    nob = spec.get('nob', 0)
    out['iob'] = (r.randint(1, max(nx, ny) + 1, (nob, 2)).astype('i4')
                  if nob else [])
    out['c'] = {}
    for v, scale in (('z', 1.0), ('u', 30.0), ('v', 30.0)):
        for c in spec['cons']:
            if spec.get('smooth'):
                k = r.rand(4) * 3 + 0.5
                a = (1.2 + np.cos(k[0] * np.arange(nx) / nx * 2 * np.pi)[None, :]
                     * np.sin(k[1] * (np.arange(ny) + 1) / ny)[:, None])
                p = (k[2] * np.arange(nx)[None, :] / nx
                     + k[3] * np.arange(ny)[:, None] / ny) * 2 * np.pi
                z = scale * a * np.exp(-1j * p)
            else:
                z = scale * (r.randn(ny, nx) + 1j * r.randn(ny, nx))
            z = (np.round(z.real, 4) + 1j * np.round(z.imag, 4)).astype('c8')
            out['c'][v, c] = z
    return out


# ------------------------------------------------------------------ OTIS
def rec(b):
    n = struct.pack('>i', len(b))
    return n + b + n


def otis_grid(d):
    nob = len(d['iob'])
    head = struct.pack('>2i', d['nx'], d['ny']) + d['ylim'].tobytes() \
        + d['xlim'].tobytes() + struct.pack('>f', d['dt']) + struct.pack('>i', nob)
    b = rec(head)
    b += rec(struct.pack('>i', 0)) if nob == 0 else \
        rec(np.asarray(d['iob'], I4).tobytes())
    return b + rec(d['hz'].astype(F4).tobytes()) + rec(d['mz'].astype(I4).tobytes())


def otis_head(d, cons):
    b = struct.pack('>3i', d['nx'], d['ny'], len(cons)) + d['ylim'].tobytes() \
        + d['xlim'].tobytes() + b''.join(c.ljust(4).encode() for c in cons)
    return rec(b)


def planes(*zs):
    return np.stack([p for z in zs for p in (z.real, z.imag)], -1).astype(F4).tobytes()


def otis_elevation(d, cons=None):
    cons = d['cons'] if cons is None else cons
    return otis_head(d, cons) + b''.join(rec(planes(d['z', c])) for c in cons)


def otis_transport(d, cons=None):
    cons = d['cons'] if cons is None else cons
    return otis_head(d, cons) + b''.join(
        rec(planes(d['u', c], d['v', c])) for c in cons)


class Bytes:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise ValueError(f'file ends at {len(self.b)}, needs {self.i + n}')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def rec(self):
        n, = struct.unpack('>i', self.take(4))
        r = self.take(n)
        if struct.unpack('>i', self.take(4))[0] != n:
            raise ValueError(f'record at {self.i}: markers differ')
        return r

    def end(self):
        if self.i != len(self.b):
            raise ValueError(f'{len(self.b) - self.i} bytes after the last record')


def parse_otis_grid(b):
    s = Bytes(b)
    h = s.rec()
    nx, ny = struct.unpack('>2i', h[:8])
    out = dict(nx=nx, ny=ny, ylim=np.frombuffer(h[8:16], F4),
               xlim=np.frombuffer(h[16:24], F4), dt=struct.unpack('>f', h[24:28])[0])
    nob, = struct.unpack('>i', h[28:32])
    r = s.rec()
    out['iob'] = np.frombuffer(r, I4).reshape(nob, 2) if nob else []
    out['hz'] = np.frombuffer(s.rec(), F4).reshape(ny, nx)
    out['mz'] = np.frombuffer(s.rec(), I4).reshape(ny, nx)
    s.end()
    return out


def parse_otis(b, nvar):
    """nvar: 1 for elevations, 2 for transports"""
    s = Bytes(b)
    h = s.rec()
    nx, ny, nc = struct.unpack('>3i', h[:12])
    out = dict(nx=nx, ny=ny, ylim=np.frombuffer(h[12:20], F4),
               xlim=np.frombuffer(h[20:28], F4))
    out['cons'] = [h[28 + 4 * i:32 + 4 * i].decode().strip() for i in range(nc)]
    if len(h) != 28 + 4 * nc:
        raise ValueError('header length')
    out['data'] = []
    for i in range(nc):
        a = np.frombuffer(s.rec(), F4).reshape(ny, nx, 2 * nvar)
        out['data'].append([a[..., 2 * k] + 1j * a[..., 2 * k + 1]
                            for k in range(nvar)])
    s.end()
    return out


# --------------------------------------------------- ATLAS compact (OTIS)
def local_model(spec, k):
    """content of the k-th local solution of an ATLAS compact model"""
    r = np.random.RandomState(spec['seed'] + 1000 + k)
    ny, nx = r.randint(2, 6), r.randint(2, 6)
    n = r.randint(1, ny * nx + 1)
    idx = r.permutation(ny * nx)[:n]
    jz, iz = idx // nx + 1, idx % nx + 1
    m = r.randint(1, n + 1)
    cons = [c for c in spec['cons'] if r.rand() < 0.8] or [spec['cons'][0]]
    r.shuffle(cons)
    d = dict(name=f'local{k}', nx=nx, ny=ny, iz=iz.astype(I4), jz=jz.astype(I4),
             iv=iz[:m].astype(I4), jv=jz[:m].astype(I4), cons=list(cons),
             lat=np.array([10 + k, 10 + k + ny / 30], F4),
             lon=np.array([20 + k, 20 + k + nx / 30], F4),
             depth=(r.rand(n) * 100 + 1).astype('f4'), c={})
    for c in cons:
        for v, cnt in (('z', n), ('u', n), ('v', m)):
            d['c'][v, c] = (r.randn(cnt) + 1j * r.randn(cnt)).astype('c8')
    return d


def atlas_grid(d, locs):
    nob = len(d['iob'])
    head = struct.pack('>2i', d['nx'], d['ny']) + d['ylim'].tobytes() \
        + d['xlim'].tobytes() + struct.pack('>f', d['dt']) + struct.pack('>i', nob)
    b = rec(head)
    b += rec(struct.pack('>i', 0)) if nob == 0 else \
        rec(np.asarray(d['iob'], I4).tobytes())
    b += rec(d['hz'].astype(F4).tobytes()) + rec(d['mz'].astype(I4).tobytes())
    b += rec(d['mz'].astype(I4).tobytes())
    for m in locs:
        b += rec(struct.pack('>3i', m['nx'], m['ny'], len(m['iz'])) + m['lat'].tobytes()
                 + m['lon'].tobytes() + m['name'].encode().ljust(20))
        b += rec(m['iz'].tobytes() + m['jz'].tobytes())
        b += rec(m['depth'].astype(F4).tobytes())
    return b


def atlas_elevation(d, locs):
    b = otis_elevation(d)
    for m in locs:
        b += rec(struct.pack('>4i', m['nx'], m['ny'], len(m['cons']), len(m['iz']))
                 + m['lat'].tobytes() + m['lon'].tobytes()
                 + b''.join(c.ljust(4).encode() for c in m['cons'])
                 + m['name'].encode().ljust(20))
        b += rec(m['iz'].tobytes() + m['jz'].tobytes())
        for c in m['cons']:
            b += rec(planes(m['c']['z', c]))
    return b


def atlas_transport(d, locs):
    b = otis_transport(d)
    for m in locs:
        b += rec(struct.pack('>5i', m['nx'], m['ny'], len(m['cons']), len(m['iz']),
                             len(m['iv'])) + m['lat'].tobytes() + m['lon'].tobytes()
                 + b''.join(c.ljust(4).encode() for c in m['cons'])
                 + m['name'].encode().ljust(20))
        b += rec(m['iz'].tobytes() + m['jz'].tobytes())
        b += rec(m['iv'].tobytes() + m['jv'].tobytes())
        for c in m['cons']:
            b += rec(planes(m['c']['u', c])) + rec(planes(m['c']['v', c]))
    return b


# ----------------------------------------------------------------- netCDF
def put_chars(nc, name):
    v = nc.createVariable('con', 'S1', ('nct',))
    v[:] = np.array([ch.encode() for ch in name.ljust(4)], 'S1')


def atlas_nc_grid(path, d):
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('nx', d['nx'])
        nc.createDimension('ny', d['ny'])
        for t, ox, oy in (('z', 0, 0), ('u', -0.5, 0), ('v', 0, -0.5)):
            nc.createVariable(f'lon_{t}', 'f8', ('nx',))[:] = d['x'] + ox * d['dx']
            nc.createVariable(f'lat_{t}', 'f8', ('ny',))[:] = d['y'] + oy * d['dy']
            nc.createVariable(f'h{t}', 'f4', ('nx', 'ny'))[:] = d['hz'].T


def atlas_nc_elevation(path, d, c):
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('nx', d['nx'])
        nc.createDimension('ny', d['ny'])
        nc.createDimension('nct', 4)
        nc.createVariable('lon_z', 'f8', ('nx',))[:] = d['x']
        nc.createVariable('lat_z', 'f8', ('ny',))[:] = d['y']
        nc.createVariable('hRe', 'f4', ('nx', 'ny'))[:] = d['z', c].real.T
        nc.createVariable('hIm', 'f4', ('nx', 'ny'))[:] = d['z', c].imag.T
        put_chars(nc, c)


def atlas_nc_transport(path, d, c):
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('nx', d['nx'])
        nc.createDimension('ny', d['ny'])
        nc.createDimension('nct', 4)
        for t in 'uv':
            nc.createVariable(f'{t}Re', 'f4', ('nx', 'ny'))[:] = d[t, c].real.T
            nc.createVariable(f'{t}Im', 'f4', ('nx', 'ny'))[:] = d[t, c].imag.T
        put_chars(nc, c)


def tmd3(path, d, flexure=None):
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('x', d['nx'])
        nc.createDimension('y', d['ny'])
        nc.createDimension('constituents', len(d['cons']))
        nc.createVariable('x', 'f8', ('x',))[:] = d['x']
        nc.createVariable('y', 'f8', ('y',))[:] = d['y'][::-1]
        v = nc.createVariable('constituents', 'i4', ('constituents',))
        v[:] = np.arange(len(d['cons']))
        v.constituent_order = ' '.join(d['cons'])
        nc.createVariable('wct', 'f4', ('y', 'x'))[:] = d['hz'][::-1]
        nc.createVariable('mask', 'i4', ('y', 'x'))[:] = d['mz'][::-1]
        f = np.full(d['hz'].shape, 100.0) if flexure is None else flexure
        nc.createVariable('flexure', 'f4', ('y', 'x'))[:] = f[::-1]
        for n, t in (('h', 'z'), ('U', 'u'), ('V', 'v')):
            for part, sign in (('Re', 1), ('Im', -1)):
                w = nc.createVariable(n + part, 'f4', ('constituents', 'y', 'x'))
                for i, c in enumerate(d['cons']):
                    z = d[t, c]
                    w[i] = (sign * (z.real if part == 'Re' else z.imag))[::-1]


def ampph(z):
    a = np.abs(z.astype('c16'))
    p = np.degrees(np.arctan2(-z.imag, z.real).astype('f8'))
    return a, np.where(p < 0, p + 360, p)


def fes_nc(path, d, c, t, version):
    names = {'FES2012': ('lon', 'lat', dict(z='Ha', u='Ua', v='Va'),
                         dict(z='Hg', u='Ug', v='Vg')),
             'HAMTIDE11': ('LON', 'LAT', dict(z='AMPL', u='UAMP', v='VAMP'),
                           dict(z='PHAS', u='UPHA', v='VPHA'))}.get(
        version, ('lon', 'lat', dict(z='amplitude', u='Ua', v='Va'),
                  dict(z='phase', u='Ug', v='Vg')))
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('lon', d['nx'])
        nc.createDimension('lat', d['ny'])
        nc.createVariable(names[0], 'f8', ('lon',))[:] = d['x']
        nc.createVariable(names[1], 'f8', ('lat',))[:] = d['y']
        a, p = ampph(d[t, c])
        for n, arr in ((names[2][t], a), (names[3][t], p)):
            v = nc.createVariable(n, 'f4', ('lat', 'lon'), fill_value=np.float32(9e36))
            v[:] = np.ma.array(arr.astype('f4'), mask=d['land'])


def got_nc(path, d, c):
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('longitude', d['nx'])
        nc.createDimension('latitude', d['ny'])
        nc.createVariable('longitude', 'f8', ('longitude',))[:] = d['x']
        nc.createVariable('latitude', 'f8', ('latitude',))[:] = d['y']
        a, p = ampph(d['z', c])
        for n, arr in (('amplitude', a), ('phase', p)):
            v = nc.createVariable(n, 'f4', ('latitude', 'longitude'),
                                  fill_value=np.float32(999))
            v[:] = np.ma.array(arr.astype('f4'), mask=d['land'])
        nc.Constituent = c.upper()


# ------------------------------------------------------------------ ascii
def chunks(row, n, fmt):
    return [' '.join(fmt % v for v in row[i:i + n]) for i in range(0, len(row), n)]


def got_ascii(d, c):
    """two blocks: amplitudes and phases, 11 values in a line"""
    a, p = ampph(d['z', c])
    a, p = np.where(d['land'], 999, a), np.where(d['land'], 999, p)
    head = [f'{c.upper()} ocean tide synthetic', 'made by a simulator',
            f'{d["ny"]:10d}{d["nx"]:10d}',
            f'{d["y"][0]:12.6f}{d["y"][-1]:12.6f}',
            f'{d["x"][0]:12.6f}{d["x"][-1]:12.6f}',
            f'{999.0:10.2f}{999.0:10.2f}', '(11f7.2)']
    lines = list(head)
    for row in a:
        lines += chunks(row, 11, '%.4f')
    lines += head
    for row in p:
        lines += chunks(row, 11, '%.4f')
    return ('\n'.join(lines) + '\n').encode()


def fes_ascii(d, c, t='z'):
    """amplitude and phase lines alternate, 30 values in a line"""
    a, p = ampph(d[t, c])
    a, p = np.where(d['land'], 9999, a), np.where(d['land'], 9999, p)
    lines = [f'{d["x"][0]:.6f} {d["x"][-1]:.6f}', f'{d["y"][0]:.6f} {d["y"][-1]:.6f}',
             f'{d["dx"]:.6f} {d["dy"]:.6f}', f'{d["nx"]} {d["ny"]}',
             '9999.000 9999.000']
    for ra, rp in zip(a, p):
        for la, lp in zip(chunks(ra, 30, '%.4f'), chunks(rp, 30, '%.4f')):
            lines += [la, lp]
    return ('\n'.join(lines) + '\n').encode()


# ------------------------------------------------------------------ whole
class Data(dict):
    """arrays, indexed also by (variable, constituent)"""
    def __getitem__(self, k):
        if isinstance(k, tuple):
            return dict.__getitem__(self, 'c')[k]
        return dict.__getitem__(self, k)


def data(spec):
    return Data(arrays(spec))


def save(path, b, compressed=False):
    with open(path, 'wb') as f:
        f.write(gzip.compress(b, mtime=0) if compressed else b)
