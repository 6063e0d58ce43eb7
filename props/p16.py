"""P16: model definitions load the same whatever came before or after."""
import builtins
import fnmatch
import io
import json
import os
import pathlib
import random

from pyTMD.io import model as Model
from pyTMD.io.model import load_database

from sim.core import Violation
from sim.deep import diff, snap
from sim.disk import Disk, put
from props.p15 import CATALOG, constituent, extra_db, leaves

ID = 'P16'
RUNS = dict(quick=2500, thorough=120000)
RULE = ('a run loads definitions from files, streams, the catalogue and added databases in '
        'a seeded order and directory listing order, with callers changing the objects they '
        'got, directories changing and damaged or unreadable sources between; non-trivial: '
        'a source was loaded again after something else happened, or under another listing '
        'order; distinct by event-trace hash')
STATE_MEASURE = '(format, type, way of naming files, form of source, object reused, order)'
COMPONENTS = dict(real=['pyTMD.io.model', 'json', 'pathlib globbing', 'kernel file system'],
                  simulated=['order of directory listings', 'read errors and damage of '
                             'definition files', 'callers changing what they were given'])
ASSUMPTIONS = ['glob strings of one definition do not overlap',
               'an open file is rewound by its owner before it is loaded again']
CPU_LIMIT = 60
FES_NAMES = ['{}.nc', '{}_fes2022.nc', '{}_FES2012_SLEV.nc', '{}.hamtide11a.nc',
             '{}_ocean_eot20.nc']
OTHER = ['h_{}_tpxo9.nc', '{}.d', 'tide{}']
CONS = ['2n2', 'eps2', 'j1', 'k1', 'k2', 'l2', 'lambda2', 'm2', 'm3', 'm4', 'm6', 'm8',
        'mf', 'mks2', 'mm', 'mn4', 'ms4', 'msf', 'msqm', 'mtm', 'mu2', 'n2', 'n4', 'nu2',
        'o1', 'p1', 'q1', 'r2', 's1', 's2', 's4', 'sa', 'ssa', 't2']
# short names of formats
ALIAS = [('ATLAS', 'ATLAS-compact'), ('netcdf', 'ATLAS-netcdf'), ('FES', 'FES-netcdf'),
         ('GOT', 'GOT-ascii')]
SAVED = ('name', 'format', 'type', 'grid_file', 'model_file', 'projection', 'variable',
         'scale', 'constituents', 'version', 'reference', 'compressed', 'minor', 'flexure')


def definition(rng, i):
    fmt = rng.choice(['OTIS', 'OTIS', 'TMD3', 'ATLAS-compact', 'ATLAS-netcdf', 'GOT-ascii',
                      'GOT-netcdf', 'FES-ascii', 'FES-netcdf', 'FES-netcdf'])
    proj = fmt in ('OTIS', 'TMD3', 'ATLAS-compact')
    uv = rng.random() < 0.4 and not fmt.startswith('GOT')
    cons = rng.sample(CONS, rng.randint(1, 9))
    name = rng.choice(FES_NAMES if fmt.startswith('FES') else OTHER)
    mode = rng.choice(['list', 'glob', 'globs'] + (['single'] * 2 if proj else ['one']))
    comp = rng.random() < 0.3 and not proj
    files = {t: [f'd{i}/{t}/' + name.format(c) + ('.gz' if comp else '') for c in cons]
             for t in ('uv' if uv else 'z')}
    if mode in ('single', 'one'):
        files = {t: v[:1] for t, v in files.items()}
        cons = cons[:1]
    if uv and proj:
        files.pop('v')
    d = dict(name=f'model {i}', format=fmt, type=['u', 'v'] if uv else 'z')
    if proj or fmt.startswith('ATLAS'):
        d['grid_file'] = f'd{i}/grid'
    if proj:
        d['projection'] = rng.choice(['4326', 'PSNorth', dict(proj='stere', lat_0=-90)])
    else:
        d['scale'] = rng.choice([0.01, 1.0])
    if fmt.startswith('FES'):
        d['version'] = 'FES2014'
        if rng.random() < 0.35:
            d['constituents'] = [constituent(f) for f in
                                 next(iter(files.values()))]
            if mode in ('glob', 'globs'):
                rng.shuffle(d['constituents'])
    if rng.random() < 0.4:
        d['minor'] = rng.sample(['2q1', 'sigma1', 'rho1'], 2)
    if not uv:
        d['variable'] = 'tide_ocean'
    if comp:
        d['compressed'] = True
    if rng.random() < 0.2:
        d['flexure'] = True
    if rng.random() < 0.3:
        d['reference'] = 'https://sim.org/é'
    alias = dict((b, a) for a, b in ALIAS).get(fmt) if rng.random() < 0.3 else None
    return dict(d=d, mode=mode, files=files, i=i, alias=alias,
                template=name + ('.gz' if comp else ''))


def finish(df, directory):
    """the JSON document of a definition"""
    d, mode = dict(df['d']), df['mode']

    def one(t, fs):
        if mode == 'list' or (mode in ('glob', 'globs') and not directory):
            return list(fs)
        if mode in ('single', 'one'):
            return fs[0]
        if mode == 'glob':
            return f"d{df['i']}/{t}/*[a-z0-9]"
        return [f"d{df['i']}/{t}/[!m2s]*", f"d{df['i']}/{t}/m*", f"d{df['i']}/{t}/[2s]*"]
    mf = {t: one(t, fs) for t, fs in df['files'].items()}
    d['model_file'] = mf if isinstance(d['type'], list) else mf['z']
    if 'constituents' in d and mode in ('glob', 'globs') and not directory:
        d['constituents'] = [constituent(f) for f in next(iter(df['files'].values()))]
    return d


def generate(rng, idx, tier):
    defs = [definition(rng, i) for i in range(rng.randint(1, 3))]
    ops, faults = [], []
    cat = [(k, m) for k in CATALOG for m in CATALOG[k]]
    cat = rng.sample(cat, 3)
    for i in range(rng.randint(4, 14)):
        w = rng.choice(['load', 'load', 'load', 'load', 'again', 'mutate', 'save', 'files',
                        'bad', 'catalog', 'lists'])
        op = dict(id=i, op=w, d=rng.randrange(len(defs)), order=rng.randrange(1000),
                  obj=rng.choice([None, None, 0, 1]),
                  form=rng.choice(['path', 'str', 'home', 'stringio', 'bytesio', 'text',
                                   'binary', 'pos']),
                  dir=rng.choice([False, True, True]))
        if w == 'files':
            op.update(how=rng.choice(['add', 'remove', 'touch', 'noise']),
                      c=rng.choice(CONS), n=rng.randrange(20))
        elif w == 'bad':
            op.update(how=rng.choice(['cut', 'cut', 'garbage', 'utf8', 'key', 'nondict',
                                      'empty', 'eio', 'none', 'ascii', 'format']),
                      frac=rng.random(), key=rng.choice(['name', 'format', 'type',
                                                         'model_file', 'grid_file',
                                                         'projection', 'scale', 'version']))
            if op['how'] == 'eio':
                op['form'] = 'path'
                faults.append(dict(op=i, dev='disk', kind='read_eio', at=rng.randrange(2)))
        elif w == 'catalog':
            k, m = rng.choice(cat)
            op.update(kind=k, model=m, dbs=rng.choice([[], [], [0], [1], [0, 1], [1, 0]]))
        elif w == 'mutate':
            op.update(n=rng.randrange(100))
        ops.append(op)
    return dict(defs=defs, dbs=[extra_db(rng, 2), extra_db(rng, 2)], ops=ops, faults=faults)


def valid(sc):
    return len(sc['ops']) > 0 and len(sc['defs']) > 0


class Order:
    """directory listings come in a seeded order"""

    def __init__(self, root):
        self.root, self.seed = root, 0

    def mix(self, names, path):
        r = random.Random(f'{self.seed}/{os.path.basename(str(path))}')
        names = sorted(names, key=lambda e: getattr(e, 'name', e))
        r.shuffle(names)
        return names

    def __enter__(self):
        self.scandir, self.listdir = os.scandir, os.listdir
        order = self

        class Scan:
            def __init__(s, path):
                with order.scandir(path) as it:
                    s.it = iter(order.mix(list(it), path))

            def __enter__(s):
                return s

            def __exit__(s, *e):
                pass

            def __iter__(s):
                return s.it

            def __next__(s):
                return next(s.it)

            def close(s):
                pass
        os.scandir = lambda path='.': Scan(path)
        os.listdir = lambda path='.': self.mix(self.listdir(path), path)
        return self

    def __exit__(self, *exc):
        os.scandir, os.listdir = self.scandir, self.listdir


def describe(obj, root):
    out = {}
    for k, v in vars(obj).items():
        if k in ('directory', 'verify') or k.startswith('_'):
            continue
        out[k] = v
    return norm(out, root)


def norm(v, root):
    if isinstance(v, (list, tuple)):
        return [norm(x, root) for x in v]
    if isinstance(v, dict):
        return {k: norm(x, root) for k, x in v.items()}
    if isinstance(v, pathlib.PurePath):
        return ['path', str(v).replace(root, '$ROOT')]
    return v


def expand(pattern, names):
    """names of files matching a glob string, written without the library"""
    if isinstance(pattern, list):
        return [n for p in pattern for n in expand(p, names)]
    return [n for n in names if fnmatch.fnmatchcase(n, pattern)
            and n.count('/') == pattern.count('/')]


def execute(sc, ctx):
    home = os.path.join(ctx.root, 'home')
    os.makedirs(home)
    os.environ['HOME'] = home
    disk = Disk(ctx, sc['faults'])
    with disk, Order(ctx.root) as order:
        Run(sc, ctx, disk, order, home).run()


class Run:
    def __init__(self, sc, ctx, disk, order, home):
        self.sc, self.ctx, self.disk, self.order, self.home = sc, ctx, disk, order, home
        self.objects, self.first, self.streams = {}, {}, {}
        self.last = None          # (model object, directory flag) of the last good load
        self.version = 0          # of the directory content
        self.catalog = {}
        self.lists = None
        self.happened = set()
        self.dbs = []
        for i, db in enumerate(sc['dbs']):
            p = os.path.join(home, f'db{i}.json')
            put(p, json.dumps(db).encode())
            self.dbs.append(p)
        for df in sc['defs']:
            for fs in df['files'].values():
                for f in fs:
                    put(os.path.join(home, f), b'x')
            if 'grid_file' in df['d']:
                put(os.path.join(home, df['d']['grid_file']), b'x')

    def run(self):
        for op in self.sc['ops']:
            self.disk.begin(op['id'])
            self.order.seed = op['order']
            try:
                getattr(self, 'do_' + op['op'])(op)
            finally:
                self.disk.end()
            self.happened.add(op['op'])

    def bad_violation(self, cls, op, msg):
        raise Violation(cls, f'{op}: {msg}')

    # ------------------------------------------------------------ sources
    def source(self, op, text, key):
        """the definition in the form the caller has it; None to close"""
        form = op['form']
        path = os.path.join(self.home, f'{key}.json')
        if form in ('path', 'str', 'home', 'text', 'binary'):
            put(path, text if isinstance(text, bytes) else text.encode('utf8'))
        if form == 'path':
            return pathlib.Path(path)
        if form == 'str':
            return path
        if form == 'home':
            return f'~/{key}.json'
        if form == 'text':
            return builtins.open(path, encoding='utf8')
        if form == 'binary':
            return builtins.open(path, 'rb')
        # a stream that stays with the caller and is used again and again
        skey = (key, form, text if isinstance(text, bytes) else text.encode())
        if skey not in self.streams:
            b = text if isinstance(text, bytes) else text.encode('utf8')
            if form == 'bytesio':
                f = io.BytesIO(b)
            elif form == 'stringio':
                f = io.StringIO(b.decode('utf8', 'replace'))
            else:
                f = io.StringIO('# header\n' + b.decode('utf8', 'replace'))
                f.readline()
            self.streams[skey] = f
        return self.streams[skey]

    def target(self, op, directory):
        m = Model(self.home if directory else None)
        if op['obj'] is None:
            return m, False
        if op['obj'] in self.objects:
            o = self.objects[op['obj']]
            # what a caller sets on the object for the next load
            o.directory, o.compressed, o.verify = m.directory, False, True
            return o, True
        self.objects[op['obj']] = m
        return m, False

    def load(self, op, text, key, directory):
        m, reused = self.target(op, directory)
        src = self.source(op, text, key)
        stream = isinstance(src, io.IOBase)
        pos = src.tell() if stream else None
        try:
            got = m.from_file(src)
        except Exception as e:
            got, err = None, e
        else:
            err = None
        if stream:
            if src.closed:
                self.bad_violation('stream-closed', op, 'the stream of the caller was closed')
            if op['form'] in ('text', 'binary'):
                src.close()
            elif src.tell() != pos:
                self.bad_violation('stream-moved', op, 'the stream was left at '
                                   f'{src.tell()}, not {pos}')
        if err is None and got is not m:
            self.bad_violation('wrong-object', op, 'another object was returned')
        return got, err, reused

    # --------------------------------------------------------------- loads
    def do_load(self, op):
        df = self.sc['defs'][op['d'] % len(self.sc['defs'])]
        directory = op['dir'] if df['mode'] in ('glob', 'globs') else \
            op['dir'] and df['mode'] == 'single'
        d = finish(df, directory)
        named = dict(d, format=df.get('alias') or d['format'])
        got, err, reused = self.load(op, json.dumps(named), f"def{df['i']}", directory)
        self.ctx.log('load', df['i'], op['form'], directory, type(err).__name__)
        files = self.expected(df, d, directory)
        clash = None
        if directory and isinstance(files, dict) and 'v' in files:
            clash = sorted(map(os.path.basename, files['u'])) != \
                sorted(map(os.path.basename, files['v']))
        if err is not None:
            if clash and df['d']['format'].startswith('FES'):
                return
            self.bad_violation('load-failed', op, f'{type(err).__name__}: {err} for {d}')
        self.ctx.probe('loaded')
        self.ctx.state(d['format'], str(d['type']), df['mode'], op['form'], reused,
                       op['order'] % 4)
        self.check(op, df, d, directory, files, got)
        key = (df['i'], directory, self.version if directory else 0)
        now = describe(got, self.ctx.root)
        if key in self.first:
            self.ctx.nontrivial = True
            diff_ = diff(self.first[key][0], snap(now))
            if diff_:
                self.bad_violation('depends-on-history', op, f'{diff_} compared with the '
                                   f'load {self.first[key][1]}')
        else:
            self.first[key] = (snap(now), op)
        self.last = (got, directory, df)

    do_again = do_load

    def expected(self, df, d, directory):
        mf = d['model_file']
        names = []
        if directory:
            for t in ('u', 'v', 'z'):
                sub = os.path.join(self.home, f"d{df['i']}", t)
                if os.path.isdir(sub):
                    names += [f"d{df['i']}/{t}/{n}" for n in sorted(self.order.listdir(sub))]
        f = (lambda p: expand(p, names)) if directory else \
            (lambda p: p if isinstance(p, list) else [p])
        return {t: f(p) for t, p in mf.items()} if isinstance(mf, dict) else f(mf)

    def check(self, op, df, d, directory, files, got):
        for k, v in d.items():
            if k in ('model_file', 'grid_file', 'constituents'):
                continue
            if norm(getattr(got, k), '') != v:
                self.bad_violation('wrong-attribute', op, f'{k} is {getattr(got, k)!r}')
        for k, v in (('flexure', False), ('compressed', False), ('minor', None),
                     ('projection', None), ('scale', None), ('reference', None),
                     ('version', None), ('grid_file', None), ('variable', None)):
            if k not in d and getattr(got, k) != v:
                self.bad_violation('left-over', op, f'{k} is {getattr(got, k)!r} but the '
                                   'definition has none')
        base = self.home if directory else ''
        if 'grid_file' in d and os.path.realpath(got.grid_file) != \
                os.path.realpath(os.path.join(base, d['grid_file'])):
            self.bad_violation('wrong-grid', op, f'{got.grid_file}')
        kinds = files if isinstance(files, dict) else {None: files}
        for t, want in kinds.items():
            have = got.model_file[t] if t else got.model_file
            one = not isinstance(have, list)
            if one and len(want) != 1:
                self.bad_violation('wrong-files', op, f'{have} instead of {want}')
            have = [have] if one else have
            if not all(isinstance(f, pathlib.Path) for f in have):
                self.bad_violation('wrong-files', op, f'{have} are no paths')
            rel = [os.path.relpath(f, self.home) if directory else str(f) for f in have]
            same = rel == want if not directory else sorted(rel) == sorted(want)
            if not same:
                self.bad_violation('wrong-files', op, f'{rel} instead of {want}')
            if not one and d['format'] in ('OTIS', 'ATLAS-compact', 'TMD3') \
                    and len(have) == 1:
                self.bad_violation('one-constituent', op, 'a file with several constituents '
                                   f'was loaded as a list {have}: only one would be read')
            if d['format'].startswith('FES'):
                c = [constituent(f) for f in rel]
                if got.constituents != c:
                    self.bad_violation('mispaired', op, f'{t}: files {rel} with '
                                       f'constituents {got.constituents}')

    # -------------------------------------------------- saving and loading
    def do_save(self, op):
        if self.last is None:
            return
        m, directory, df = self.last
        if not leaves(m.model_file):
            return
        before = snap(vars(m))
        d = m.to_dict(serialize=True)
        d2 = m.to_dict(serialize=True)
        if snap(d) != snap(d2) or snap(vars(m)) != before:
            self.bad_violation('saving-changes', op, 'saving changed the model')
        text = json.dumps(d)
        got, err, _ = self.load(op, text, 'saved', False)
        self.ctx.log('save', type(err).__name__)
        if err is not None:
            self.bad_violation('saved-not-loaded', op, f'{type(err).__name__}: {err}: '
                               f'{text[:300]}')
        self.ctx.probe('saved')
        a, b = (norm({k: getattr(o, k) for k in SAVED}, self.ctx.root) for o in (m, got))
        x = diff(snap(a), snap(b))
        if x and m is not got:
            self.bad_violation('saved-differs', op, f'{x} of {m.format} {m.type}')

    # ------------------------------------------------- things that happen
    def do_mutate(self, op):
        """a caller changes an object it was given; it is then theirs"""
        if self.last is None:
            return
        m = self.last[0]
        n = op['n']
        self.ctx.log('mutate', n)
        mf = m.model_file
        for v in (mf.values() if isinstance(mf, dict) else [mf]):
            if isinstance(v, list):
                v.reverse()
                if n % 3 == 0:
                    v.append(pathlib.Path('mine'))
        if isinstance(mf, dict) and n % 2:
            mf['w'] = []
        if isinstance(m.projection, dict):
            m.projection['proj'] = 'mine'
        if isinstance(m.constituents, list):
            m.constituents.append('mine')
        if isinstance(m.minor, list):
            m.minor.append('mine')
        m.flexure = True
        m.extra = 'mine'
        self.last = None

    def do_files(self, op):
        df = self.sc['defs'][op['d'] % len(self.sc['defs'])]
        how = op['how']
        self.ctx.log('files', df['i'], how)
        for t, fs in df['files'].items():
            sub = os.path.join(self.home, f"d{df['i']}", t)
            if how == 'noise':
                if df['mode'] == 'globs':
                    continue
                put(os.path.join(sub, 'README'), b'x')
                put(os.path.join(sub, 'OLD', os.path.basename(fs[0])), b'x')
                continue
            names = sorted(self.order.listdir(sub))
            if how == 'add' and df['mode'] in ('glob', 'globs'):
                put(os.path.join(sub, df['template'].format(op['c'])), b'x')
            elif how == 'remove' and len(names) > 2 and df['mode'] in ('glob', 'globs'):
                p = os.path.join(sub, names[op['n'] % len(names)])
                if os.path.isfile(p):
                    os.unlink(p)
            elif how == 'touch':
                p = os.path.join(sub, names[op['n'] % len(names)])
                if os.path.isfile(p):
                    os.unlink(p)
                    put(p, b'x')
        self.version += 1

    # ------------------------------------------------------------- damage
    def do_bad(self, op):
        df = self.sc['defs'][op['d'] % len(self.sc['defs'])]
        d = finish(df, op['dir'] and df['mode'] != 'one')
        directory = op['dir'] and df['mode'] in ('glob', 'globs', 'single')
        d = finish(df, directory)
        text, how = json.dumps(d), op['how']
        if how == 'cut':
            text = text[:int(op['frac'] * len(text))]
        elif how == 'garbage':
            i = int(op['frac'] * len(text))
            text = text[:i] + '\x00\x07' + text[i + 2:]
        elif how == 'utf8':
            text = text.encode().replace(b'model', b'mod\xff\xfe', 1)
            if op['form'] in ('stringio', 'pos'):
                op = dict(op, form='path')
        elif how == 'key':
            if op['key'] not in d:
                return
            d.pop(op['key'])
            text = json.dumps(d)
        elif how == 'format':
            text = json.dumps(dict(d, format='OTIS2'))
        elif how == 'nondict':
            text = ['[]', 'null', '3', '"x"', '[1]'][int(op['frac'] * 5)]
        elif how == 'empty':
            text = ''
        n = len(self.disk.active)
        if how in ('none', 'ascii'):
            m, _ = self.target(op, directory)
            try:
                if how == 'none':
                    m.from_file(os.path.join(self.home, 'absent.json'))
                else:
                    m.from_file(self.source(dict(op, form='path'), text, 'asc'),
                                format='ascii')
                err = None
            except Exception as e:
                err = e
        else:
            _, err, _ = self.load(op, text, 'bad', directory)
        fired = any(f['fired'] for f in self.disk.active)
        self.ctx.log('bad', how, type(err).__name__)
        self.ctx.probe('bad-' + how)
        if how != 'eio':
            self.ctx.fault('definition-' + how)
        if err is None and (how != 'eio' or fired):
            self.bad_violation('damage-accepted', op, f'{how} {text[:200]!r} was loaded')
        self.last = None

    # ------------------------------------------------------------ catalogue
    def do_catalog(self, op):
        kind, name = op['kind'], op['model']
        dbs = [self.dbs[i] for i in op['dbs']]
        mine = [self.sc['dbs'][i] for i in op['dbs']]
        want = CATALOG[kind][name]
        names = set(CATALOG[kind])
        for db in mine:
            want = db.get(kind, {}).get(name, want)
            names |= set(db.get(kind, {}))
        given = list(dbs)
        base = load_database(extra_databases=dbs) if op['order'] % 2 else None
        if base is not None and set(base[kind]) != names:
            self.bad_violation('wrong-database', op, f'{sorted(names ^ set(base[kind]))}')
        if base is not None and op['order'] % 3 == 0:
            base[kind].clear()           # it is the caller's copy
        for own in sorted(names - set(CATALOG[kind]))[:1]:
            try:
                getattr(Model(self.home, verify=False), kind)(own, extra_databases=dbs)
            except Exception as e:
                self.bad_violation('added-not-found', op, f'{own}: {e}')
            try:
                getattr(Model(self.home, verify=False), kind)(own)
            except ValueError:
                pass
            else:
                self.bad_violation('database-kept', op, f'{own} is known without its '
                                   'database')
        m, reused = Model(self.home, verify=False), False
        if op['obj'] in self.objects:
            m = self.objects[op['obj']]
            m.directory, m.compressed, m.verify = pathlib.Path(self.home), False, False
            reused = True
        got = getattr(m, kind)(name, extra_databases=dbs) if dbs else getattr(m, kind)(name)
        if dbs != given:
            self.bad_violation('argument-changed', op, 'list of databases')
        self.ctx.log('catalog', kind, name, op['dbs'])
        for k, v in want.items():
            if k not in ('model_file', 'grid_file') and getattr(got, k) != v:
                self.bad_violation('wrong-attribute', op, f'{k}: {getattr(got, k)!r}')
        now = snap(describe(got, self.ctx.root))
        key = (kind, name, json.dumps(want, sort_keys=True))
        if key in self.catalog:
            self.ctx.nontrivial = True
            x = diff(self.catalog[key], now)
            if x:
                self.bad_violation('depends-on-history', op, x)
        self.catalog[key] = now
        self.last = (got, True, None)

    def do_lists(self, op):
        now = {f: getattr(Model, f)() for f in
               ('formats', 'ocean_elevation', 'load_elevation', 'ocean_current', 'OTIS',
                'ATLAS_compact', 'TMD3', 'ATLAS', 'GOT', 'FES')}
        el = CATALOG['elevation']
        want = dict(
            ocean_current=sorted(CATALOG['current']),
            ocean_elevation=sorted(k for k, v in el.items() if v['variable'] in
                                   ('tide_ocean', 'tide_lpe')),
            load_elevation=sorted(k for k, v in el.items() if v['variable'] == 'tide_load'),
            OTIS=sorted(k for k, v in el.items() if v['format'] == 'OTIS'),
            ATLAS=sorted(k for k, v in el.items() if v['format'] == 'ATLAS-netcdf'),
            TMD3=sorted(k for k, v in el.items() if v['format'] == 'TMD3'),
            GOT=sorted(k for k, v in el.items() if v['format'].startswith('GOT')),
            FES=sorted(k for k, v in el.items() if v['format'].startswith('FES')))
        self.ctx.log('lists')
        for k, v in want.items():
            if now[k] != v:
                self.bad_violation('wrong-list', op, f'{k}: {set(v) ^ set(now[k])}')
        for v in now.values():
            v.append('mine')
