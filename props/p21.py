"""P21: results do not depend on the clock, the time zone, the current directory,
the environment, directory order, hashing or the state of random generators."""
import json
import locale
import os
import random
import sys
import time

import netCDF4
import numpy as np
import pyTMD.io
import pyTMD.spatial
import pyTMD.utilities as U

from props import calls, p04, p11, p12, p13, p18, tm
from props.p13 import quiet
from props.p16 import Order
from sim import clock, deep, hashed, models
from sim.core import Violation
from sim.fresh import Fresh
from sim.world import World, HTTP_HOST, FTP_HOST

ID = 'P21'
RUNS = dict(quick=1000, thorough=70000)
RULE = ('a run is 2-6 operations (computations, listings of known models, definitions '
        'with glob strings, files written and read back, dates, listings of servers) '
        'between which, and at chosen lines inside of which, the wall clock, time zone, '
        'locale, current directory, environment, order of directory listings and state '
        'of the random generators change; some are executed by an interpreter with '
        'another hash seed; every result is compared with that of a process in a fixed '
        'environment; non-trivial: a result was compared in another environment; '
        'distinct by hash of the event trace')
STATE_MEASURE = '(operation, kinds of environment changed, hash seed, changed inside)'
COMPONENTS = dict(real=['pyTMD', 'numpy, scipy, netCDF4, h5py, GDAL, pyproj, timescale',
                        'interpreters with other hash seeds', 'urllib, ftplib'],
                  simulated=['wall clock (preloaded library)', 'order of os.scandir and '
                             'os.listdir', 'sockets and servers', 'model files, '
                             'ephemerides (independent writers)'])
ASSUMPTIONS = ['the creation date stored in a file and the names of logs may carry the '
               'wall clock', 'paths are absolute: a relative path follows the current '
               'directory', 'locales are those of this sandbox (C and C.UTF-8)']
CPU_LIMIT = 240

NORMAL = dict(clock=1577880000.0, tz='UTC', cwd='root', order=0, locale='C.UTF-8',
              env=None, rng=0, umask=0o022)
CLOCKS = [0.0, 951782399.5, 1230767999.9, 1483228799.0, 1709164800.0, 1583020799.0,
          2147483646.5, 4102444800.0, 1604203200.0, 1616893199.7, 86399.9]
ZONES = ['UTC', 'America/Los_Angeles', 'Asia/Kathmandu', 'XYZ-14', 'ABC12',
         'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'LHST-10:30']
DIRS = ['root', 'model', 'decoy', 'slash', 'empty', 'home']
ENVS = [None, dict(HOME='/nonexistent'), dict(LANG='de_DE.UTF-8', LC_ALL='de_DE.UTF-8'),
        dict(LC_ALL='C', LANG='C'), dict(TMPDIR='/nonexistent'),
        dict(EARTHDATA_USERNAME='x', EARTHDATA_PASSWORD='y'), dict(USER='nobody'),
        dict(PYTHONIOENCODING='ascii', COLUMNS='20'), dict(SOURCE_DATE_EPOCH='1')]
VALUES = dict(clock=CLOCKS, tz=ZONES, cwd=DIRS, order=list(range(1, 50)),
              locale=['C', 'C.UTF-8'], env=ENVS, rng=list(range(1, 50)),
              umask=[0, 0o077, 0o027])
DATED = ['tide_elevations', 'tide_currents', 'LPET', 'LPT', 'OPT', 'SET']
OWN = ['listings', 'glob', 'write', 'model write', 'dates', 'remote', 'text']


def generate(rng, idx, tier):
    hashed.start('props.p21')
    sp = p18.specs(rng, rng.choice([1, 1, 2]))
    ops, faults = [], []
    for i in range(rng.randint(2, 6)):
        zone = False
        if rng.random() < 0.55:
            call = calls.generate(rng, sp, faults=rng.random() < 0.3)
            # dates in another time zone
            if call['k'] in DATED and rng.random() < 0.4:
                call['std'], zone = 'datetime', True
        else:
            k = rng.choice(OWN)
            call = dict(k=k, s=rng.randrange(10**9))
            if k == 'glob':
                call['m'] = rng.randrange(len(sp))
            elif k == 'write':
                p = p12.generate(rng, 0, tier)
                call['spec'] = dict(p['data'][0], n=rng.choice([1, 3, 5]),
                                    m=rng.choice([2, 3]), t=rng.choice([1, 2]))
                call['op'] = p['ops'][0]
            elif k == 'model write':
                call['spec'] = p13.spec(rng)
                call['op'] = rng.choice(
                    [o for _ in range(20) for o in p13.generate(rng, 0, tier)['ops']
                     if o['kind'] not in p13.RAW])
                call['op']['by'] = 'lib'
            elif k == 'remote':
                call['op'] = rng.choice(
                    [o for _ in range(4) for o in p04.generate(rng, 0, tier)['ops']])
        op = dict(id=i, call=call)
        if rng.random() < 0.35:
            op['hs'] = rng.choice(hashed.SEEDS)
        ops.append(op)
        kinds = rng.sample(sorted(VALUES), rng.choice([0, 1, 1, 2, 4]))
        if zone and 'tz' not in kinds and rng.random() < 0.7:
            kinds.append('tz')
        for kind in kinds:
            f = dict(op=i, kind=kind, value=rng.choice(VALUES[kind]))
            if rng.random() < 0.4 and not op.get('hs'):
                f['at'] = int(10 ** rng.uniform(0, 3.2))
            faults.append(f)
    return dict(specs=sp, ops=ops, faults=faults)


class Around:
    """the environment of a process"""

    def __init__(self, root, order, first=True):
        self.root, self.order = root, order
        self.env = dict(os.environ)
        self.now = dict(NORMAL)
        home = os.path.join(root, 'home')
        if first:
            for d in ('home', 'decoy', 'empty'):
                os.makedirs(os.path.join(root, d), exist_ok=True)
            # files of this name in the current directory are not those of the library
            names = {'de.bsp', 'pole.txt.gz', 'data', 'database.json', 'doodson.json',
                     'opoleloadcoefcmcor.txt.gz', 'mean-pole.tab', 'model0.json', 'm2'}
            for d, _, fs in os.walk(root):
                names.update(fs)
            for n in names:
                with open(os.path.join(root, 'decoy', n), 'wb') as f:
                    f.write(b'{"decoy": 1}\n')
        self.env['HOME'] = home
        self.env.pop('LD_PRELOAD', None)

    def set(self, kind, value):
        if kind == 'clock':
            clock.set_clock(value)
        elif kind == 'tz':
            os.environ['TZ'] = value
            time.tzset()
        elif kind == 'cwd':
            d = dict(root=self.root, model=os.path.join(self.root, 'model0'),
                     decoy=os.path.join(self.root, 'decoy'), slash='/',
                     home=os.path.join(self.root, 'home'),
                     empty=os.path.join(self.root, 'empty'))[value]
            os.chdir(d)
        elif kind == 'order':
            self.order.seed = value
        elif kind == 'locale':
            locale.setlocale(locale.LC_ALL, value)
        elif kind == 'env':
            tz = os.environ.get('TZ')
            os.environ.clear()
            os.environ.update(self.env)
            os.environ.update(value or {})
            os.environ['TZ'] = tz or 'UTC'
        elif kind == 'rng':
            random.seed(value)
            np.random.seed(value)
        elif kind == 'umask':
            os.umask(value)
        self.now[kind] = value

    def all(self, state):
        for k in sorted(state):
            self.set(k, state[k])

    def changed(self):
        return sorted(k for k in NORMAL if self.now[k] != NORMAL[k])


class Sorted(Order):
    """the listing order: that of the names for seed 0"""

    def mix(self, names, path):
        if self.seed == 0:
            return sorted(names, key=lambda e: getattr(e, 'name', e))
        return Order.mix(self, names, path)


class During:
    """changes of the environment at chosen lines of library code"""

    def __init__(self, around, todo):
        self.around, self.todo = around, sorted(todo, key=lambda f: f['at'])
        self.n, self.done = 0, []
        self.lib = os.path.dirname(pyTMD.io.__file__)[:-3]

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.lib) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            while self.todo and self.n >= self.todo[0]['at']:
                f = self.todo.pop(0)
                self.around.set(f['kind'], f['value'])
                self.done.append(f['kind'])
        return self.line


# --------------------------------------------------------------- operations
def listings(env, call, ctx):
    def f():
        out = {'database': pyTMD.io.load_database()}
        for n in ('formats', 'global_ocean', 'ocean_elevation', 'load_elevation',
                  'ocean_current', 'global_load', 'global_current', 'antarctic_ocean',
                  'arctic_ocean', 'arctic_current', 'antarctic_current'):
            v = getattr(pyTMD.io.model, n, None)
            out[n] = v() if callable(v) else v
        return json.dumps(out, default=str)
    return f


def glob(env, call, ctx):
    m = env.models[call['m']]
    r = random.Random(call['s'])
    df = json.loads(json.dumps(m['df'], default=str))
    files = df['model_file']

    def pattern(v, t):
        v = [v] if isinstance(v, str) else v
        names = [os.path.basename(f) for f in v]
        if len(names) == 1:
            return names[0]
        suffix = ''.join(names[0].partition('.')[1:])
        head = f'{t}_' if all(n.startswith(f'{t}_') for n in names) else ''
        if r.random() < 0.3:
            return sorted({f'{head}{n[len(head):][0]}*{suffix}' for n in names})
        return f'{head}*{suffix}'
    df['model_file'] = {t: pattern(v, t) for t, v in files.items()} \
        if isinstance(files, dict) else pattern(files, 'h')
    several = isinstance(df['model_file'], dict) or df['format'] not in ('OTIS', 'TMD3')
    if not several:
        df['model_file'] = os.path.basename(files) if isinstance(files, str) \
            else df['model_file']
    if 'grid_file' in df:
        df['grid_file'] = os.path.basename(df['grid_file'])
    df['directory'] = m['dir']
    df['reference'] = 'https://doi.org/10.1000/\u00e9tude\u2013mar\u00e9es'
    df.pop('constituents', None)
    path = os.path.join(env.root, 'glob.json')
    with open(path, 'w', encoding='utf8') as g:
        json.dump(df, g, ensure_ascii=False)
    t = tm.variables(m['spec'])[0]
    x, y = (np.array(v) for v in zip(*tm.points(r, m['spec'], m['data'], 3)))

    def f():
        mod = pyTMD.io.model().from_file(path)
        out = {k: str(v) for k, v in vars(mod).items() if not k.startswith('_')}
        got = mod.extract_constants(x, y, type=t, crop=False, method='nearest')
        return out, got, list(mod._constituents.fields) \
            if getattr(mod, '_constituents', None) is not None else None
    return f


DATES = ('date_created', 'date_modified')


def scan(path):
    """what a file says, without its creation date"""
    if path.endswith('.nc'):
        def group(g):
            att = [(k, str(g.getncattr(k))) for k in g.ncattrs() if k not in DATES]
            return att, [(n, [(k, str(v.getncattr(k))) for k in v.ncattrs()],
                          np.ma.getdata(v[:]), v.dimensions)
                         for n, v in g.variables.items()], \
                [(n, group(h)) for n, h in g.groups.items()]
        with netCDF4.Dataset(path) as nc:
            nc.set_auto_mask(False)
            return group(nc)
    if path.endswith('.h5'):
        import h5py

        def walk(g):
            att = sorted((k, str(v)) for k, v in g.attrs.items() if k not in DATES)
            if isinstance(g, h5py.Dataset):
                return att, g[()]
            return att, [(k, walk(g[k])) for k in sorted(g)]
        with h5py.File(path, 'r') as h:
            return walk(h)
    if path.endswith('.parquet'):
        import pyarrow.parquet as pq
        t = pq.read_table(path)
        meta = {}
        for k, v in (t.schema.metadata or {}).items():
            try:
                v = json.loads(v)
                if isinstance(v, dict):
                    v = {a: b for a, b in v.items() if a not in DATES}
            except ValueError:
                v = v.decode('latin1')
            meta[k.decode()] = v
        return json.dumps(meta, sort_keys=True), \
            [(n, np.array(t[n].to_pylist())) for n in t.column_names]
    with open(path, 'rb') as f:
        b = f.read()
    if path.endswith('.txt'):
        b = b'\n'.join(s for s in b.split(b'\n')
                       if not any(d.encode() in s for d in DATES))
    return b


def write(env, call, ctx):
    op, spec = call['op'], call['spec']
    suffix = dict(netCDF4='.nc', HDF5='.h5', ascii='.txt', parquet='.parquet').get(
        op['fmt'], '.tif')
    path = os.path.join(env.root, 'out' + suffix)

    def f():
        if os.path.exists(path):
            os.unlink(path)
        p12.write(spec, op, path, 1, None)
        return scan(path), p12.read(spec, op, path)
    return f


def model_write(env, call, ctx):
    op, spec = call['op'], call['spec']
    d = models.arrays(spec)
    suffix = '.nc' if op['kind'].split('-')[0] in ('atlas', 'got', 'fes') else ''
    path = os.path.join(env.root, 'made' + suffix)

    def f():
        if os.path.exists(path):
            os.unlink(path)
        p13.write(op, d, p13.inputs(op, d), path)
        return scan(path)
    return f


def dates(env, call, ctx):
    r = random.Random(call['s'])
    t = r.choice([0, 951827696, 1583020800, 1604203200, 1616893200, 1457852400,
                  1289120400, r.randrange(2 * 10**9)])
    g = time.gmtime(t)
    fmts = ['%Y-%m-%d %H:%M:%S', '%Y%m%d%H%M%S', '%Y-%m-%d', '%d-%b-%Y %H:%M',
            '%Y-%m-%dT%H:%M:%SZ', '%a, %d %b %Y %H:%M:%S +0200', '%d %B %Y',
            '%Y', '%Y-%m', '%H:%M:%S', '%Y-%m-%dT%H:%M:%S%z']
    s = [time.strftime(f.replace('%z', '+0530'), g) for f in fmts]
    pairs = [(r.choice(s), r.choice(fmts)) for _ in range(4)] + \
        [(a, f) for a, f in zip(s, fmts) if r.random() < 0.4]

    def f():
        out = []
        for a, fm in pairs:
            out.append((a, fm, U.get_unix_time(a, fm), U.get_unix_time(a),
                        U.isoformat(a)))
        return out
    return f


def remote(env, call, ctx):
    op = call['op']
    world = World(ctx, (), 0, 'length')
    kind, ent = op['kind'], op['entries']
    page = dict(iers=lambda: p04.iers_page(ent), uhslc=lambda: p04.uhslc_page(ent)).get(
        kind, lambda: p04.apache_page([(n + ('/' if d else ''), m) for n, m, d in ent],
                                      op['parent']))
    world.pages['/pub/dir'] = page
    for nm, m, isdir in ent:
        if not isdir:
            world.put(f'pub/dir/{nm}', b'x' * 10, m or 1.5e9)
    local = os.path.join(env.root, 'home', 'copy')
    kw = dict(timeout=20)
    if kind not in ('iers',):
        kw.update(sort=op['sort'], pattern=op['pattern'] or '')

    def f():
        with world.net:
            world.net.begin(0)
            if kind in ('ftp', 'cddis'):
                out = [U.ftp_list([FTP_HOST, 'pub', 'dir'], **kw)]
                files = sorted(world.files)
                if files:
                    U.from_ftp([FTP_HOST] + files[0].split('/'), timeout=20, local=local)
                    out.append(os.stat(local).st_mtime)
            else:
                fn = dict(iers=U.iers_list, uhslc=U.uhslc_list).get(kind, U.http_list)
                out = [fn([f'http://{HTTP_HOST}', 'pub', 'dir'], **kw)]
            return out
    return f


def text(env, call, ctx):
    """text files of other programs, with characters beyond ASCII in their headers"""
    r = random.Random(call['s'])
    g = np.random.RandomState(call['s'] % 2**32)
    n = r.choice([1, 3])
    a = g.randn(n, 4)
    path = os.path.join(env.root, 'in.txt')
    yaml = r.random() < 0.5
    rows = ['# header', '# mar\u00e9e \u2013 h\u00f6he'] if not yaml else [
        'header:', '  global_attributes:', '    title: mar\u00e9e \u2013 h\u00f6he',
        '  dimensions:', f'    time: {n}', '', '# End of YAML header']
    with open(path, 'w', encoding='utf8') as h:
        h.write('\n'.join(rows + [','.join(f'{v:.6f}' for v in row) for row in a]) + '\n')

    def f():
        return pyTMD.spatial.from_ascii(path, columns=['time', 'y', 'x', 'data'],
                                        header='YAML' if yaml else 2)
    return f


BUILD = {'listings': listings, 'glob': glob, 'write': write, 'model write': model_write,
         'dates': dates, 'remote': remote, 'text': text}


def prepare(env, call, ctx):
    """(name, function, positional, keyword) of an operation"""
    if call['k'] in BUILD:
        return BUILD[call['k']](env, call, ctx), [], {}
    return calls.build(env, call)


class Quiet:
    """a context for the simulated network that keeps nothing"""
    sim_time = 0.0

    def log(self, *a):
        pass
    fault = probe = state = step = log

    def advance(self, dt):
        pass


def serve(question):
    """an operation in an interpreter with another hash seed"""
    quiet()
    root, specs, call, state = question
    order = Sorted(root)
    env = calls.Env(root, specs)
    with order:
        around = Around(root, order, first=False)
        around.all(dict(NORMAL))
        around.all(state)
        f, a, kw = prepare(env, call, Quiet())
        return calls.result(calls.run(f, a, kw))


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    hashed.start('props.p21')
    env = calls.Env(ctx.root, sc['specs'])
    with Sorted(ctx.root) as order:
        around = Around(ctx.root, order)
        around.all(dict(NORMAL))

        def reference(call):
            f, a, kw = prepare(env, call, Quiet())
            return calls.result(calls.run(f, a, kw))
        fresh = Fresh(reference)
        for op in sc['ops']:
            one(op, sc, ctx, env, around, fresh)
        fresh.close()
        around.all(dict(NORMAL))
    clock.set_clock(None)


def one(op, sc, ctx, env, around, fresh):
    call = op['call']
    want = fresh.ask(call)
    mine = [f for f in sc['faults'] if f['op'] == op['id']]
    for f in mine:
        if 'at' not in f:
            around.set(f['kind'], f['value'])
            ctx.fault(f['kind'])
    ctx.advance(3600)
    inside = During(around, [f for f in mine if 'at' in f])
    if op.get('hs'):
        got = hashed.ask(op['hs'], (ctx.root, sc['specs'], call, dict(around.now)))
        ctx.fault('hash_seed')
    else:
        f, a, kw = prepare(env, call, Quiet())
        if inside.todo:
            sys.settrace(inside)
        try:
            out = calls.run(f, a, kw)
        finally:
            sys.settrace(None)
        got = calls.result(out)
        for k in inside.done:
            ctx.fault(k + '_inside')
        for f in inside.todo:
            around.set(f['kind'], f['value'])
    k = call['k']
    ctx.log(op['id'], k, calls.describe({k: v for k, v in call.items()
                                         if k not in ('spec', 'op')}), want[0], op.get('hs'),
            around.changed(), inside.done)
    ctx.state(k, around.changed(), bool(op.get('hs')), sorted(set(inside.done)))
    ctx.probe('failed' if want[0] == 'error' else 'ok')
    d = deep.diff(want, got)
    if d:
        raise Violation('ambient', f'{k} ({calls.describe(call)}) gives {p18.short(got)} '
                        f'instead of {p18.short(want)} with '
                        f'{ {n: around.now[n] for n in around.changed()} }'
                        f'{" hash seed " + str(op["hs"]) if op.get("hs") else ""}'
                        f'{" changed inside: " + str(inside.done) if inside.done else ""}'
                        f': {d}')
    if around.changed() or op.get('hs'):
        ctx.nontrivial = True
