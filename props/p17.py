"""P17: interpolating cached constants equals extracting them from the files."""
import os
import shutil

import numpy as np

from props import tm
from props.p13 import quiet
from sim import deep
from sim.core import Violation

ID = 'P17'
RUNS = dict(quick=900, thorough=60000)
RULE = ('a run is a history of reads, interpolations and extractions on up to two '
        'model objects while the files below them are replaced, damaged, removed and '
        'restored; non-trivial: constants were interpolated after the files changed, '
        'after a failed read, or more than once; distinct by hash of the event trace')
STATE_MEASURE = '(format, grid kind, type, method, extrapolate, crop, event before)'
COMPONENTS = dict(real=['pyTMD.io.model', 'pyTMD.io OTIS, ATLAS, GOT and FES',
                        'pyTMD.io.constituents', 'pyTMD.interpolate', 'pyTMD.crs',
                        'numpy, scipy, netCDF4, pyproj'],
                  simulated=['model files (independent writers)',
                             'replacement, damage and loss of files between calls',
                             'callers that change what they were given'])
ASSUMPTIONS = ['bounds and buffers are given to both when cropping',
               'the nodal equilibrium tide appended on request is interpolated from '
               'the grid when cached and exact when extracted: compared as complex '
               'values within the error of the interpolation',
               'ATLAS-compact is left out: its grids have 58 million nodes']
CPU_LIMIT = 120


def options(rng, sp):
    o = dict(method=rng.choice(tm.METHODS), extrapolate=rng.random() < 0.35)
    if o['extrapolate']:
        o['cutoff'] = tm.cutoff(rng, sp)
        if o['cutoff'] == np.inf:
            o['cutoff'] = 'inf'
    return o


def box(rng, sp):
    """bounds around some part of the grid, with a buffer"""
    x0, x1, y0, y1 = sp['lims']
    dx, dy = (x1 - x0) / sp['nx'], (y1 - y0) / sp['ny']
    a, b = sorted(rng.uniform(x0, x1) for _ in range(2))
    c, e = sorted(rng.uniform(y0, y1) for _ in range(2))
    b, e = max(b, a + 2 * dx), max(e, c + 2 * dy)
    if not sp['proj'] and rng.random() < 0.3 and sp['kind'].startswith('global'):
        s = -360.0 if a >= 180 else 360.0 if b <= 0 else 0.0
        a, b = a + s, b + s
    return dict(crop=True, bounds=[a, b, c, e],
                buffer=rng.choice([1.5, 3.0]) * max(dx, dy))


def generate(rng, idx, tier):
    specs, ops = [], []
    for m in range(rng.choice([1, 1, 2])):
        cur = rng.random() < 0.35
        a = tm.spec(rng, currents=cur)
        b = dict(a, seed=rng.randint(1, 10**6))
        if a['format'] not in ('FES-ascii', 'FES-netcdf') and rng.random() < 0.5:
            b['cons'] = rng.sample(tm.CONS[:8], len(a['cons']))
        specs.append([a, b])
    n = rng.randint(4, 9)
    for i in range(n):
        m = rng.randrange(len(specs))
        sp = specs[m][0]
        k = rng.random()
        t = rng.choice(['u', 'v'] if sp['format'].startswith('FES') else
                       ['u', 'v', 'U', 'V']) if sp['currents'] else 'z'
        op = dict(id=i, m=m, t=t)
        if i and k < 0.10:
            op['op'] = 'swap'
        elif i and k < 0.20:
            op.update(op='break', how=rng.choice(['remove', 'empty', 'cut']),
                      which=rng.randrange(100), by=rng.choice(['read', 'extract']))
        elif i and k < 0.27:
            op.update(op='scribble', what=rng.choice(['get', 'result', 'points']))
        elif k < 0.42:
            op.update(op='read')
            if rng.random() < 0.3:
                op['crop'] = box(rng, sp)
            if not sp['currents'] and sp['cons'] and rng.random() < 0.15:
                op['append_node'] = True
            if sp['format'] == 'TMD3' and rng.random() < 0.4:
                op['apply_flexure'] = True
        else:
            op.update(op='interp', points=rng.randrange(3), opts=options(rng, sp),
                      same=rng.random() < 0.7)
        ops.append(op)
    return dict(specs=specs, ops=ops, pseed=rng.randrange(10**6),
                npts=rng.randint(1, 14))


def valid(sc):
    return any(o['op'] == 'interp' for o in sc['ops'])


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    Run(sc, ctx).run()


class Run:
    def __init__(self, sc, ctx):
        import random
        self.sc, self.ctx = sc, ctx
        rng = random.Random(sc['pseed'])
        self.m = []
        for i, (a, b) in enumerate(sc['specs']):
            dirs = [os.path.join(ctx.root, f'm{i}v{k}') for k in (0, 1)]
            data = [tm.content(a), tm.content(b)]
            defs = [tm.write(s, d, c) for s, d, c in zip((a, b), dirs, data)]
            live = os.path.join(ctx.root, f'm{i}')
            shutil.copytree(dirs[0], live)
            df = retarget(defs[0], dirs[0], live)
            pts = [tm.points(rng, a, data[0], sc['npts']) for _ in range(3)]
            self.m.append(dict(spec=(a, b), dirs=dirs, defs=defs, live=live, now=0,
                               data=data, df=df, obj=tm.make(df), pts=pts,
                               cached=None, last=None, before='start'))
        self.count = 0

    def run(self):
        for op in self.sc['ops']:
            self.ctx.step()
            self.ctx.advance(60)
            s = self.m[op['m']]
            getattr(self, 'do_' + op['op'])(op, s)
            self.ctx.log(op['id'], op['op'], op['m'])

    # ------------------------------------------------------------ files
    def do_swap(self, op, s):
        """other content at the same paths"""
        s['now'] = 1 - s['now']
        shutil.rmtree(s['live'])
        fit(s['dirs'][s['now']], s['live'], s['defs'][s['now']], s['df'],
            s['dirs'][0])
        s['before'] = 'swap'
        self.ctx.fault('files-replaced', op['m'])

    def do_break(self, op, s):
        names = sorted(os.listdir(s['live']))
        name = names[op['which'] % len(names)]
        path = os.path.join(s['live'], name)
        with open(path, 'rb') as f:
            b = f.read()
        if op['how'] == 'remove':
            os.unlink(path)
        else:
            n = 0 if op['how'] == 'empty' else int(len(b) * 0.6)
            with open(path, 'wb') as f:
                f.write(b[:n])
        self.ctx.fault('file-' + op['how'], op['m'])
        t = 'u' if s['spec'][0]['currents'] else 'z'
        had = s['cached'] is not None
        before = deep.snap(vars(s['obj']._constituents)) if had else None
        failed = False
        try:
            if op['by'] == 'read':
                s['obj'].read_constants(type=t)
            else:
                s['obj'].extract_constants(*self.xy(s, 0), type=t)
        except Exception:
            failed = True
        with open(path, 'wb') as f:
            f.write(b)
        if failed:
            self.ctx.probe('failed ' + op['by'])
            if had:
                s['before'] = 'failed'
                d = deep.diff(before, deep.snap(vars(s['obj']._constituents)))
                if d:
                    raise Violation('failed-read-changed-cache', f'{op}: {d}')
        elif op['by'] == 'read':
            # the damage did not reach what is read for this component; read anew
            self.ctx.probe('damage not noticed')
            self.do_read(dict(op, t=t), s)

    # ------------------------------------------------------------ reading
    def do_read(self, op, s):
        kw = dict(type=op['t'])
        for k in ('append_node', 'apply_flexure'):
            if op.get(k):
                kw[k] = True
        if op.get('crop'):
            kw.update(op['crop'])
        try:
            c = s['obj'].read_constants(**kw)
        except Exception as e:
            raise Violation('read-failed', f'{self.what(s)} {op}: {e!r}')
        self.adopt(s, op, kw, c)

    def adopt(self, s, op, kw, c):
        cons = s['spec'][s['now']]['cons']
        if s['spec'][0]['format'].startswith('FES'):
            cons = s['spec'][0]['cons']
        want = cons + (['node'] if kw.get('append_node') else [])
        if list(c.fields) != want:
            raise Violation('constituents', f'{self.what(s)}: {c.fields} not {want}')
        if s['obj']._constituents is not c:
            raise Violation('not-cached', f'{self.what(s)}: {op}')
        s['cached'] = dict(kw=kw, ver=s['now'], snap=deep.snap(strip(vars(c))))
        s['before'] = 'read'

    def xy(self, s, k):
        p = np.array(s['pts'][k], float)
        return p[:, 0].copy(), p[:, 1].copy()

    def what(self, s):
        a = s['spec'][0]
        return f'{a["format"]} {a["kind"]} {a["lims"]}'

    def fresh(self, s, ver):
        return tm.make(dict(s['defs'][ver]))

    # ------------------------------------------------------------ the check
    def do_interp(self, op, s):
        a = s['spec'][0]
        t = op['t']
        if s['cached'] and op['same']:
            ct = s['cached']['kw']['type']
            t = ct if ct == 'z' or t.lower() != ct.lower() else t
        opts = dict(op['opts'])
        if opts.get('cutoff') == 'inf':
            opts['cutoff'] = np.inf
        x, y = self.xy(s, op['points'])
        keep = deep.snap([x, y])
        auto = s['cached'] is None or s['cached']['kw']['type'].lower() != t.lower()
        self.ctx.state(a['format'], a['kind'], t, opts['method'], opts['extrapolate'],
                       bool(s['cached'] and s['cached']['kw'].get('crop')), s['before'])
        try:
            amp, ph = s['obj'].interpolate_constants(x, y, type=t, **opts)
        except Exception as e:
            raise Violation('interpolate-failed', f'{self.what(s)} {op}: {e!r}')
        if auto:
            self.adopt(s, op, dict(type=t), s['obj']._constituents)
        if deep.snap([x, y]) != keep:
            raise Violation('points-changed', f'{self.what(s)} {op}')
        d = deep.diff(s['cached']['snap'], deep.snap(strip(vars(s['obj']._constituents))))
        if d:
            raise Violation('cache-changed', f'{self.what(s)} {op}: {d}')
        # from the same files
        kw = dict(s['cached']['kw'], type=t)
        ver = s['cached']['ver']
        ref = self.fresh(s, ver)
        try:
            ramp, rph, rc = ref.extract_constants(x, y, **opts, **kw)
        except Exception as e:
            raise Violation('extract-failed', f'{self.what(s)} {op} {kw}: {e!r}')
        cons = list(s['spec'][ver]['cons'])
        node = bool(kw.get('append_node'))
        if list(rc) != cons + ['node'] * node:
            raise Violation('constituents', f'{self.what(s)}: extracted {rc} not {cons}')
        n = len(cons)
        for name, p, q in (('amplitude', amp, ramp), ('phase', ph, rph)):
            if np.shape(p) != (len(x), n + node) or np.shape(q) != np.shape(p):
                raise Violation('shape', f'{self.what(s)} {op}: {np.shape(p)} {np.shape(q)}')
            bad = tm.equal(name, p[:, :n], q[:, :n], rtol=1e-9, atol=1e-12)
            if bad:
                raise Violation('differs', f'{self.what(s)} {op} {kw}: {bad}; '
                                f'points {np.c_[x, y].tolist()}')
        if node:
            self.nodal(s, op, opts, amp, ph, ramp, rph)
        self.absolute(s, op, ver, t, opts, kw, x, y, ramp, rph)
        again = s['obj'].interpolate_constants(x, y, type=t, **opts)
        if tm.equal('amplitude', again[0], amp) or tm.equal('phase', again[1], ph):
            raise Violation('not-repeatable', f'{self.what(s)} {op}')
        s['last'] = (amp, ph, x, y)
        if s['before'] in ('swap', 'failed') or self.count:
            self.ctx.nontrivial = True
        self.count += 1
        s['before'] = 'interp'

    def nodal(self, s, op, opts, amp, ph, ramp, rph):
        a = s['spec'][0]
        z = np.ma.array(amp[:, -1] * np.exp(-1j * np.radians(ph[:, -1])))
        w = np.ma.array(ramp[:, -1] * np.exp(-1j * np.radians(rph[:, -1])))
        ok = ~(np.ma.getmaskarray(z) | np.ma.getmaskarray(w)
               | np.ma.getmaskarray(amp[:, 0]))
        if opts['extrapolate'] or a['proj']:
            return
        # outside of the limits splines return what is on the limit
        x, y = self.xy(s, op['points'])
        half = (a['lims'][3] - a['lims'][2]) / a['ny'] / 2
        ok &= (y >= a['lims'][2] + half) & (y <= a['lims'][3] - half)
        b = s['cached']['kw'].get('bounds')
        if b:
            ok &= (y >= b[2]) & (y <= b[3])
        h = np.radians((a['lims'][3] - a['lims'][2]) / a['ny'])
        tol = 0.06 * (h if opts['method'] == 'nearest' else h * h) + 1e-4
        # the land side of a cell weighs in differently
        if opts['method'] == 'bilinear':
            tol += 0.06 * h
        e = np.abs(np.ma.getdata(z) - np.ma.getdata(w))[ok]
        if e.size and e.max() > tol:
            raise Violation('nodal-tide', f'{self.what(s)} {op}: off by {e.max():.3g} m')
        self.ctx.probe('nodal tide')

    def absolute(self, s, op, ver, t, opts, kw, x, y, amp, ph):
        """at nodes surrounded by sea the constants are those of the files"""
        a, d = s['spec'][ver], s['data'][ver]
        if kw.get('apply_flexure') or t in 'uv' and not a['format'].startswith('FES'):
            return
        nx_, ny_ = tm.nodes(a, d, t)
        g = tm.Geo(a['proj'])
        px, py = x, y
        if a['proj']:
            px, py = g.t.transform(x, y)
        scale = {'ATLAS-netcdf': s['defs'][ver]['scale'], 'GOT-ascii': 0.01,
                 'GOT-netcdf': 0.01, 'FES-ascii': 0.01, 'FES-netcdf': 0.01}.get(
            a['format'], 1.0)
        var = t.lower()
        land = d['land']
        for i in range(len(x)):
            if a['proj']:
                kx = np.abs(nx_ - px[i])
            else:
                kx = np.abs((nx_ - px[i] + 180) % 360 - 180)
            ky = np.abs(ny_ - py[i])
            ix, iy = int(kx.argmin()), int(ky.argmin())
            if kx[ix] > 1e-4 * d['dx'] or ky[iy] > 1e-4 * d['dy']:
                continue
            if not (1 < ix < d['nx'] - 2 and 1 < iy < d['ny'] - 2):
                continue
            if land[iy - 2:iy + 3, ix - 2:ix + 3].any():
                continue
            b = kw.get('bounds')
            if b and not (b[0] <= px[i] <= b[1] and b[2] <= py[i] <= b[3]):
                continue
            for k, c in enumerate(a['cons']):
                z = d[var, c][iy - 1:iy + 2, ix - 1:ix + 2]
                if (z == 0).any():
                    continue
                w = complex(z[1, 1]) * scale
                if np.ma.getmaskarray(amp)[i, k]:
                    raise Violation('sea-masked', f'{self.what(s)} {op} {kw}: point {i} '
                                    f'({x[i]}, {y[i]}) on node ({iy}, {ix})')
                got = amp[i, k] * np.exp(-1j * np.radians(ph[i, k]))
                tol = (2e-3 if 'ascii' in a['format'] else 1e-3) * \
                    max(1.0, float(np.abs(z).max())) * scale
                if abs(got - w) > tol:
                    raise Violation('not-the-model', f'{self.what(s)} {op} {kw}: {c} at '
                                    f'({x[i]}, {y[i]}) is {got:.6g}, file has {w:.6g}')
                self.ctx.probe('node value')

    def do_scribble(self, op, s):
        """callers may do what they like with what they were given"""
        if s['cached'] is None:
            return
        if op['what'] == 'get':
            for f in list(s['obj']._constituents.fields):
                c = s['obj']._constituents.get(f)
                c.data[...] = -7.0
                c.mask = True
                s['obj']._constituents.amplitude(f)[...] = 3.0
                s['obj']._constituents.phase(f)[...] = 3.0
        elif s['last']:
            if op['what'] == 'result':
                s['last'][0].data[...] = 5.0
                s['last'][1].mask[...] = True
            else:
                s['last'][2][...] = 11.0
                s['last'][3][...] = 12.0
        self.ctx.probe('scribble ' + op['what'])
        d = deep.diff(s['cached']['snap'],
                      deep.snap(strip(vars(s['obj']._constituents))))
        if d:
            raise Violation('cache-shared', f'{self.what(s)} {op}: {d}')


def strip(v):
    """the constants and their coordinates"""
    return {k: x for k, x in v.items() if k != 'crs' and not k.startswith('__')}


def retarget(df, old, new):
    def one(v):
        if isinstance(v, str) and v.startswith(old + os.sep):
            return new + v[len(old):]
        if isinstance(v, list):
            return [one(x) for x in v]
        if isinstance(v, dict):
            return {k: one(x) for k, x in v.items()}
        return v
    return {k: one(v) for k, v in df.items()}


def leaves(v):
    if isinstance(v, list):
        return [y for x in v for y in leaves(x)]
    if isinstance(v, dict):
        return [y for k in sorted(v) for y in leaves(v[k])]
    return [v]


def fit(src, live, df, live_df, first):
    """files of src at the paths the live definition names"""
    os.makedirs(live)
    want = [live_df.get('grid_file')] + leaves(live_df['model_file'])
    have = [df.get('grid_file')] + leaves(df['model_file'])
    for w, h in zip(want, have):
        if w and not os.path.exists(w):
            shutil.copyfile(h, w)
