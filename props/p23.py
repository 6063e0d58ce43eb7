"""P23: regional subsets of OTIS models under disk errors, crashes and repeats."""
import io
import logging
import math
import os
import pickle
import sys
import warnings

import numpy as np

from props.p12 import in_child, set_limit
from props.p22 import candidate, load
from sim import models, sched
from sim.core import REPO, HarnessError, Violation

ID = 'P23'
RUNS = dict(quick=1500, thorough=100000)
RULE = ('a run builds one OTIS model of a known name (lat/lon or polar grid, single file '
        'or a file for every constituent, elevations, currents or both) and reduces it '
        '1-4 times to seeded boxes with the command-line program, alone or two programs '
        'at once, while the disk fills at a byte, an operation fails or the process dies '
        'at a line or byte, or a parent file is cut short; what failed is repeated '
        'undisturbed; non-trivial: a subset was compared with its parent after a fault '
        'or an earlier reduction, or two programs overlapped; distinct by hash of the '
        'event trace')
STATE_MEASURE = '(model, files, shape of the box, fault, outcome, number of earlier outputs)'
COMPONENTS = dict(real=['scripts/reduce_OTIS_files.py main', 'pyTMD.io.model',
                        'pyTMD.io.OTIS readers and writers', 'pyTMD.crs', 'pyproj',
                        'kernel enforcing the size limit'],
                  simulated=['full disk and death at a byte', 'errors and death at a line',
                             'schedule of two programs', 'cut parent files'])
ASSUMPTIONS = ['boxes are given in the projection of the model, in its longitude '
               'convention, with edges between the grid points (or at them where no rounding can occur)',
               'open boundary nodes of the parent grid are copied, not renumbered',
               'a full disk refuses every byte beyond one offset of any file']
CPU_LIMIT = 60

STERE = '+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=-70 +x_0=0 +y_0=0 +datum=WGS84 +units={}'
AEQD = '+proj=aeqd +lat_0=90 +lon_0=270 +x_0=0 +y_0=0 +R=6399938.5716113 +units={}'
ATLAS = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', 'm4', 'ms4', 'mn4', '2n2']
A = 'TPXO9_atlas/'
# name: projection, grids, elevation files, transport files
MODELS = {
    'CATS0201': (None, ['cats0201_tmd/grid_CATS'], ['cats0201_tmd/h0_CATS02_01'],
                 ['cats0201_tmd/UV0_CATS02_01']),
    'CATS2008': (STERE, ['CATS2008/grid_CATS2008'], ['CATS2008/hf.CATS2008.out'],
                 ['CATS2008/uv.CATS2008.out']),
    'CATS2008_load': (STERE, ['CATS2008a_SPOTL_Load/grid_CATS2008a_opt'],
                      ['CATS2008a_SPOTL_Load/h_CATS2008a_SPOTL_load'], []),
    'TPXO9-atlas': (None, [A + 'grid_tpxo9_atlas'],
                    [A + f'h_{c}_tpxo9_atlas_30' for c in ATLAS],
                    [A + f'u_{c}_tpxo9_atlas_30' for c in ATLAS]),
    'TPXO9.1': (None, ['TPXO9.1/DATA/grid_tpxo9', 'TPXO9.1/grid_tpxo9'],
                ['TPXO9.1/DATA/h_tpxo9.v1'], ['TPXO9.1/u_tpxo9.v1']),
    'TPXO7.2': (None, ['TPXO7.2_tmd/grid_tpxo7.2'], ['TPXO7.2_tmd/h_tpxo7.2'],
                ['TPXO7.2_tmd/u_tpxo7.2']),
    'TPXO7.2_load': (None, ['TPXO7.2_load/grid_tpxo6.2'],
                     ['TPXO7.2_load/h_tpxo7.2_load'], []),
    'AODTM-5': (AEQD, ['aodtm5_tmd/grid_Arc5km'], ['aodtm5_tmd/h0_Arc5km.oce'],
                ['aodtm5_tmd/UV0_Arc5km']),
    'AOTIM-5': (AEQD, ['aotim5_tmd/grid_Arc5km'], ['aotim5_tmd/h_Arc5km.oce'],
                ['aotim5_tmd/UV_Arc5km']),
    'AOTIM-5-2018': (AEQD, ['Arc5km2018/grid_Arc5km2018'], ['Arc5km2018/h_Arc5km2018'],
                     ['Arc5km2018/UV_Arc5km2018'])}
FAULTS = ['full', 'full', 'die', 'error', 'error', 'memory', 'crash', 'crash', 'cut']


def edge(rng, n):
    """an interval between grid points (or ending at them), as (first, last, offsets)"""
    k = rng.random()
    if k < 0.15:
        i, j = 0, n - 1
    elif k < 0.25:
        i = j = rng.randrange(n)
    else:
        i, j = sorted([rng.randrange(n), rng.randrange(n)])
    # zero: at the grid point itself (see exact)
    f = [rng.choice([rng.uniform(0.02, 0.98), 0.02, 0.5, 0.98, 0.0]) for _ in (0, 1)]
    return [i, j, f[0], f[1], rng.choice([0] * 6 + [1, 2, 3])]


def exact(c, s):
    """are grid points and spacing free of rounding?"""
    return all(float(v) * 1024 == int(float(v) * 1024) for v in [s, *c])


def box(rng, nx, ny):
    b = dict(x=edge(rng, nx), y=edge(rng, ny), units=rng.choice(['km', 'km', 'm']),
             epsg=rng.choice(['4326', 'default', 'EPSG:4326', 'longlat']),
             flip=rng.choice([0] * 5 + [1, 2, 3]), empty=rng.random() < 0.06,
             args=rng.choice(['plain', 'plain', 'short', 'file']))
    return b


def generate(rng, idx, tier):
    name = rng.choice(sorted(MODELS))
    polar = MODELS[name][0]
    nx, ny = rng.choice([4, 7, 12, 25]), rng.choice([4, 6, 11, 19])
    if polar:
        s = rng.choice([5.0, 20.0, 40.0])
        x0, y0 = rng.choice([-nx * s / 2, -400.0, 35.0]), rng.choice([-ny * s / 2, 60.0])
        lims = [x0, x0 + nx * s, y0, y0 + ny * s]
    else:
        lims = rng.choice([[0.0, 360.0, -90.0, 90.0], [20.0, 20.0 + nx / 2, -10.0, -10.0 + ny / 4],
                           [-60.0, -60.0 + nx, 40.0, 40.0 + ny],
                           [0.0, 360.0, -86.0, -58.0], [170.0, 170.0 + 2 * nx, 5.0, 5.0 + ny]])
    multi = name == 'TPXO9-atlas'
    cons = ATLAS if multi else rng.sample(models.CONS, rng.choice([1, 2, 4, 8]))
    spec = dict(seed=rng.randrange(10**6), nx=nx, ny=ny, lims=lims, cons=cons,
                land=rng.choice([0.0, 0.2, 0.6]), nob=rng.choice([0, 0, 3]),
                dt=rng.choice([-12.0, 0.0] if polar else [12.0, 30.0, 6.5]))
    have = rng.choice(['zu', 'zu', 'zu', 'z', 'u']) if MODELS[name][3] else 'z'
    ops, faults = [], []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        op = dict(id=i, box=box(rng, nx, ny), mode=rng.choice([None, '664', '600', '775', '444']),
                  verbose=rng.choice([0, 1, 2]))
        if i and rng.random() < 0.3:
            op['box'] = ops[-1]['box']
        if rng.random() < 0.15:
            op['other'] = box(rng, nx, ny)
            op['switches'] = [[rng.randrange(2), rng.randint(1, 1500), rng.randrange(2)]
                              for _ in range(rng.choice([3, 10, 25]))]
        ops.append(op)
        if rng.random() < 0.6:
            f = dict(op=i, dev='disk', kind=rng.choice(FAULTS))
            f['at'] = int(math.exp(rng.uniform(0, math.log(3000))))
            f['frac'] = rng.choice([0, 0.999999, rng.random(), rng.random(), 'less1'])
            f['which'] = rng.randrange(30)
            faults.append(f)
    return dict(name=name, spec=spec, have=have, ops=ops, faults=faults)


def valid(sc):
    return bool(sc['ops'])


class Seam:
    """an error or death at the k-th line of the program or the library"""

    def __init__(self, at, kind):
        self.left, self.kind, self.hit = at, kind, None
        self.lib = tuple(os.path.join(REPO, d) for d in ('pyTMD', 'scripts'))

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.lib) else None

    def line(self, frame, event, arg):
        # the handling of an error is not disturbed again
        if event == 'line' and self.hit is None and frame.f_code.co_name != '<module>':
            self.left -= 1
            if self.left <= 0 and self.inside(frame):
                self.hit = f'{os.path.basename(frame.f_code.co_filename)}:' \
                           f'{frame.f_code.co_name}'
                if self.kind == 'crash':
                    os._exit(77)
                raise (MemoryError('injected') if self.kind == 'memory' else
                       OSError(5, 'injected'))
        return self.line

    @staticmethod
    def inside(frame):
        """is this below the part of the program that does the work?"""
        while frame is not None:
            if frame.f_code.co_name == 'make_regional_OTIS_files':
                return True
            frame = frame.f_back
        return False


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx, self.name = sc, ctx, sc['name']
        self.d = models.data(sc['spec'])
        self.root = os.path.join(ctx.root, 'tide')
        self.polar, grids, hs, us = MODELS[self.name]
        self.grids = grids
        # grids in western longitudes are read as 180 to 360
        self.wrap = 360.0 if not self.polar and self.d['xlim'][1] < 0 else 0.0
        self.hs = hs if 'z' in sc['have'] else []
        self.us = us if 'u' in sc['have'] else []
        self.grid = grids[0] if self.hs else grids[-1]
        g = models.otis_grid(self.d)
        self.parents = {n: g for n in grids}
        for files, fn in ((self.hs, models.otis_elevation), (self.us, models.otis_transport)):
            for i, n in enumerate(files):
                self.parents[n] = fn(self.d, self.cons(files, i))
        for n, b in self.parents.items():
            p = os.path.join(self.root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b)
        self.prog = load('a')

    def cons(self, files, i):
        return [ATLAS[i]] if len(files) > 1 else self.d['cons']

    def files(self):
        return [self.grid] + self.hs + self.us

    def listing(self):
        out = {}
        for base, _, names in os.walk(self.root):
            for n in names:
                p = os.path.join(base, n)
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, self.root)] = (f.read(), os.stat(p).st_mode & 0o7777)
        return out

    def region(self, b):
        """indices of the grid points in a box and the box itself"""
        d, out = self.d, []
        for k, n in (('x', d['nx']), ('y', d['ny'])):
            i, j, f, g, far = b[k]
            i, j = min(i, n - 1), min(j, n - 1)
            c, s = d[k], d['d' + k]
            # limits at a grid point only where nothing is rounded
            if self.polar or b['epsg'] == 'longlat' or not exact(c, s):
                f, g = f or 0.5, g or 0.5
            lo, hi = c[i] - f * s, c[j] + g * s
            # beyond the limits of the grid
            if far & 1 and i == 0:
                lo -= 3 * s
            if far & 2 and j == n - 1:
                hi += 3 * s
            if not self.polar and k == 'y':
                lo, hi = max(lo, -90.0), min(hi, 90.0)
            if not self.polar and k == 'x':
                lo, hi = max(lo, -180.0), min(hi, 360.0)
                lo, hi = lo + self.wrap, hi + self.wrap
            out.append((i, j, lo, hi))
        if b['empty']:
            i, j, lo, hi = out[0]
            out[0] = (0, -1, *[d['x'][i] + self.wrap + g * d['dx'] for g in (0.3, 0.6)])
        return out

    def args(self, op, b):
        (i, j, x0, x1), (k, l, y0, y1) = self.region(b)
        a = ['--directory', self.root, '--tide', self.name]
        bounds = [x0, x1, y0, y1]
        if self.polar:
            u = b['units']
            bounds = [v * (1000.0 if u == 'm' else 1.0) for v in bounds]
            a += ['--projection', self.polar.format(u)]
        elif b['epsg'] != 'default':
            # PROJ would wrap longitudes of other systems
            a += ['--projection', '4326' if b['epsg'] == 'longlat' and x1 > 180 else
                  b['epsg'].replace('longlat', '+proj=longlat +datum=WGS84')]
        if b['flip'] & 1:
            bounds[:2] = bounds[1::-1]
        if b['flip'] & 2:
            bounds[2:] = bounds[:1:-1]
        a += ['--bounds'] + [f'{v:.9f}' for v in bounds]
        if op['mode']:
            a += ['--mode', op['mode']]
        a += ['-V'] * op['verbose']
        if b['args'] == 'short':
            short = {'--directory': '-D', '--tide': '-T', '--projection': '-P',
                     '--bounds': '-B', '--mode': '-M'}
            a = [short.get(x, x) for x in a]
        return a

    def run(self, op, boxes, fault):
        """one or two programs in a process of their own"""
        argvs = [self.args(op, b) for b in boxes]

        def job(w, limit):
            err = io.StringIO()
            old, sys.stderr = sys.stderr, err
            for h in list(logging.root.handlers):
                logging.root.removeHandler(h)
            logging.root.setLevel(logging.WARNING)
            logging.disable(logging.NOTSET)
            warnings.simplefilter('ignore')
            os.umask(0o22)
            code, seam = [None] * len(argvs), None
            if fault and fault['kind'] in ('error', 'memory', 'crash'):
                seam = Seam(fault['at'], fault['kind'])
            if limit is not None:
                set_limit(limit)

            def go(k, mod):
                try:
                    mod.main()
                except SystemExit as e:
                    code[k] = f'exit {e.code}' if e.code else None
                except Exception as e:
                    code[k] = repr(e)[:200]
            if len(argvs) == 1:
                sys.argv = ['reduce_OTIS_files.py'] + argvs[0]
                if self.argfile:
                    sys.argv = ['reduce_OTIS_files.py', '@' + self.argfile]
                sys.settrace(seam)
                try:
                    go(0, self.prog)
                finally:
                    sys.settrace(None)
            else:
                jobs = [lambda k=k, m=load(k): go2(k, m) for k in (0, 1)]

                def go2(k, mod):
                    args = mod.arguments().parse_args(argvs[k])
                    try:
                        mod.make_regional_OTIS_files(
                            args.directory, args.tide, BOUNDS=args.bounds,
                            PROJECTION=args.projection, MODE=args.mode)
                    except Exception as e:
                        code[k] = repr(e)[:200]
                sched.install()
                maps = [{}, {}]
                for t, at, to in op['switches']:
                    maps[t][at] = to
                s = sched.Sched(jobs, maps)
                s.run()
            logging.disable(logging.CRITICAL)
            sys.stderr = old
            set_limit(None)
            os.write(w, pickle.dumps((code, err.getvalue()[:6000],
                                      seam.hit if seam else None)))
            return 0
        limit = None
        if fault and fault['kind'] in ('full', 'die'):
            n = self.expected_size(boxes[0], fault)
            f = fault['frac']
            limit = max(0, n - 1) if f == 'less1' else int(f * n)
        self.argfile = None
        if boxes[0]['args'] == 'file' and len(boxes) == 1 and \
                not any(' ' in x for x in argvs[0]):
            self.argfile = os.path.join(self.ctx.root, 'args.txt')
            with open(self.argfile, 'w') as f:
                f.write('# arguments\n' + '\n'.join(arglines(argvs[0])) + '\n')
        st, buf = in_child(lambda w, _: job(w, limit), die=bool(fault) and fault['kind'] == 'die')
        if st == 0:
            code, log, hit = pickle.loads(buf)
            return code, log, hit
        if st in (77, -25):
            return None, f'died {st}', 'died'
        raise HarnessError(f'status {st}: {buf[:300]!r}')

    def expected_size(self, b, fault):
        (i, j, *_), (k, l, *_) = self.region(b)
        n = max(0, (j - i + 1)) * (l - k + 1)
        nc = len(self.d['cons']) if len(self.hs) <= 1 and len(self.us) <= 1 else 1
        sizes = [80 + 8 * n, 60 + nc * (8 * n + 8), 60 + nc * (16 * n + 8)]
        if not self.us:
            sizes = sizes[:2]
        elif not self.hs:
            sizes = [sizes[0], sizes[2]]
        return sizes[fault['which'] % len(sizes)]

    def compare(self, b, names, made, log, mode):
        """the files of one reduction against the parent"""
        d = self.d
        (i, j, *_), (k, l, *_) = self.region(b)
        ys, xs = slice(k, l + 1), slice(i, j + 1)
        lim = {}
        for v, p, q in (('x', i, j), ('y', k, l)):
            o = float(d[v + 'lim'][0])
            lim[v] = (o + d['d' + v] * p, o + d['d' + v] * (q + 1))
        for src, name in names.items():
            if name not in made:
                raise Violation('no-output', f'{name} of {src}: {log}')
            raw, m = made[name]
            if m != mode:
                raise Violation('mode', f'{name}: {m:o}, asked for {mode:o}')
            try:
                if src == self.grid:
                    g = models.parse_otis_grid(raw)
                else:
                    g = models.parse_otis(raw, 1 if src in self.hs else 2)
            except Exception as e:
                raise Violation('malformed', f'{name} of {src}: {e}')
            want = (j - i + 1, l - k + 1)
            if (g['nx'], g['ny']) != want:
                raise Violation('shape', f'{name}: {(g["nx"], g["ny"])}, box has {want}')
            for v in 'xy':
                tol = 1e-3 * d['d' + v] + 4e-7 * max(abs(float(z)) for z in d[v + 'lim'])
                off = np.asarray(g[v + 'lim'], 'f8') - lim[v]
                if v == 'x' and not self.polar:
                    off -= 360.0 * np.round(off[0] / 360.0)
                if np.max(np.abs(off)) > tol:
                    raise Violation('limits', f'{name}: {v} {g[v + "lim"]}, want {lim[v]}')
            if src == self.grid:
                if not np.array_equal(g['hz'], d['hz'][ys, xs]):
                    raise Violation('values', f'{name}: depth differs from the parent')
                if not np.array_equal(g['mz'], d['mz'][ys, xs]):
                    raise Violation('values', f'{name}: mask differs from the parent')
                if np.float32(g['dt']) != d['dt']:
                    raise Violation('values', f'{name}: time step {g["dt"]}')
                continue
            files, vs = (self.hs, 'z') if src in self.hs else (self.us, 'uv')
            cons = list(self.cons(files, files.index(src)))
            if g['cons'] != cons:
                raise Violation('constituents', f'{name}: {g["cons"]}, parent {cons}')
            for n, c in enumerate(cons):
                for p, v in enumerate(vs):
                    if not np.array_equal(g['data'][n][p], d[v, c][ys, xs]):
                        raise Violation('values', f'{name}: {v} of {c} differs from the parent')

    def one(self, op, fault):
        ctx = self.ctx
        boxes = [op['box']] + ([op['other']] if op.get('other') else [])
        if len(boxes) == 2 and any(b['empty'] for b in boxes):
            boxes = boxes[:1]
        if len(boxes) == 2:
            fault = None
        before = self.listing()
        if fault and fault['kind'] == 'cut':
            fs = self.files()
            cutf = fs[fault['which'] % len(fs)]
            n = len(self.parents[cutf])
            n = n - 1 if fault['frac'] == 'less1' else int(fault['frac'] * n)
            with open(os.path.join(self.root, cutf), 'wb') as f:
                f.write(self.parents[cutf][:n])
        code, log, hit = self.run(op, boxes, fault)
        if fault and fault['kind'] == 'cut':
            hit = 'cut'
            with open(os.path.join(self.root, cutf), 'rb') as f:
                if f.read() != self.parents[cutf][:n]:
                    raise Violation('parent-changed', cutf)
            with open(os.path.join(self.root, cutf), 'wb') as f:
                f.write(self.parents[cutf])
        after = self.listing()
        for n, v in before.items():
            if after.get(n) != v:
                what = 'parent' if n in self.parents else 'earlier output'
                raise Violation('changed', f'{what} {n} {"removed" if n not in after else "changed"} '
                                           f'by a reduction ({fault and fault["kind"]})')
        made = {n: v for n, v in after.items() if n not in before}
        failed = code is None or any(code) or 'failed' in log or 'Traceback' in log
        why = [ln for ln in log.splitlines() if ln.strip()][-1:] if failed else ''
        short = str(why or code).replace(self.ctx.root, '$ROOT')[:200]
        if fault:
            ctx.fault(fault['kind'], op['id'], hit)
            if fault['kind'] in ('full', 'die') and failed:
                hit = fault['kind']
        mode = int(op['mode'], 8) if op['mode'] else 0o775
        names = [{s: self.free(s, before, k) for s in self.files()} for k in range(len(boxes))]
        allowed = {n for ns in names for n in ns.values()}
        stray = sorted(set(made) - allowed)
        if stray:
            raise Violation('stray', f'{stray} beside {sorted(allowed)[:3]} ({short})')
        ctx.log('reduce', op['id'], self.name, len(boxes), sorted(made), failed,
                hit if fault else '')
        ctx.state(self.name, self.sc['have'], len(boxes), boxes[0]['empty'],
                  fault and fault['kind'], failed, min(len(before), 40))
        if boxes[0]['empty'] and len(boxes) == 1:
            if not failed:
                raise Violation('empty', 'a box without grid points is not reported')
            if made and not fault:
                raise Violation('empty', f'a box without grid points leaves {sorted(made)}')
            return False
        if failed:
            if not (fault and hit):
                raise Violation('fails', f'{self.name} {short}: {log[-300:]}'.replace(ctx.root, '$ROOT'))
            return True
        if len(boxes) == 1:
            self.compare(boxes[0], names[0], made, log[-300:], mode)
        else:
            # each source has one complete output for every box
            for s in self.files():
                errs = []
                for p, q in ((0, 1), (1, 0)):
                    try:
                        self.compare(boxes[0], {s: names[p][s]}, made, log[-300:], mode)
                        self.compare(boxes[1], {s: names[q][s]}, made, log[-300:], mode)
                        break
                    except Violation as e:
                        errs.append(e)
                else:
                    raise errs[0]
        ctx.probe('subsets compared', len(boxes))
        if len(boxes) == 2 or fault or len(before) > len(self.parents):
            ctx.nontrivial = True
        return False

    def free(self, src, before, skip):
        base, n = os.path.split(src)
        k = 0
        while True:
            c = os.path.join(base, candidate(n, k))
            if c not in before:
                if skip == 0:
                    return c
                skip -= 1
            k += 1


def arglines(a):
    """an option and its values on every line"""
    out = []
    for x in a:
        if x.startswith('-') and not x.lstrip('-')[:1].isdigit():
            out.append(x)
        else:
            out[-1] += ' ' + x
    return out


def execute(sc, ctx):
    w = World(sc, ctx)
    faults = {f['op']: f for f in sc['faults']}
    for op in sc['ops']:
        ctx.step()
        if w.one(op, faults.get(op['id'])):
            # nothing disturbs the repeat
            if w.one(dict(op, other=None), None):
                raise Violation('repeat', 'a repeat without faults fails')
            ctx.nontrivial = True
            ctx.probe('repeats')
