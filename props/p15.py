"""P15: a model is offered only if all of its files are really there."""
import errno
import json
import os
import pathlib
import re

from pyTMD.io import model as Model

from sim.core import REPO, SimCrash, Violation
from sim.deep import diff, snap

ID = 'P15'
RUNS = dict(quick=3000, thorough=150000)
RULE = ('a run is a history of files appearing, vanishing, being compressed or replaced '
        'by folders and dangling links, interleaved with look-ups of catalogued and '
        'added models; non-trivial: the answer for one model changed during the run, or '
        'a file changed while a look-up was under way; distinct by event-trace hash')
STATE_MEASURE = '(format, kind, compressed, verify, missing count class, directory form)'
COMPONENTS = dict(real=['pyTMD.io.model', 'pathlib', 'kernel file system'],
                  simulated=['programs creating and removing files between the checks of '
                             'one look-up', 'errors of the stat system call'])
ASSUMPTIONS = ['a look-up is not atomic: a file changing during it may be seen either way',
               'a folder or a dangling link under the name of a file is not that file']
CPU_LIMIT = 60
DB = os.path.join(REPO, 'pyTMD', 'data', 'database.json')
with open(DB, encoding='utf8') as _f:
    CATALOG = json.load(_f)
REMAP = {'2n': '2n2', 'la2': 'lambda2', 'lm2': 'lambda2', 'e2': 'eps2', 'ep2': 'eps2',
         'msqm': 'msqm', 'mtm': 'mtm', 'mt': 'mtm'}
NAMES = {'sa', 'ssa', 'mm', 'msf', 'mtm', 'mf', '2q1', 'q1', 'rho1', 'o1', 'm1', 'p1',
         's1', 'k1', 'j1', 'oo1', '2n2', 'mu2', 'n2', 'nu2', 'm2', 'l2', 't2', 's2', 'r2',
         'k2', 'eta2', '2sm2', 'm3', 'mn4', 'm4', 'ms4', 'n4', 's4', 'm6', 'm8', 'mks2',
         'msqm', 'eps2', 'lambda2', 'sigma1', 's3', 'mk3', 'mns2', 'mk4'}


def constituent(name):
    """the constituent a published file name stands for"""
    for tok in re.split(r'[._]', os.path.basename(name).lower()):
        tok = REMAP.get(tok, tok)
        if tok in NAMES:
            return tok
    return None


def extra_db(rng, n):
    """the catalogue of another institute"""
    out = dict(elevation={}, current={})
    for i in range(n):
        cons = rng.sample(['m2', 's2', 'k1', 'o1', 'n2'], rng.randint(1, 4))
        fmt = rng.choice(['OTIS', 'ATLAS-netcdf', 'GOT-netcdf', 'FES-netcdf'])
        name = f'own{i}' if rng.random() < 0.8 else 'GOT4.7'
        d = dict(format=fmt, name=name, type='z', variable='tide_ocean')
        if fmt in ('OTIS', 'ATLAS-netcdf'):
            d['grid_file'] = f'own{i}/grid'
        if fmt == 'OTIS':
            d.update(model_file=f'own{i}/h', projection='4326')
        else:
            d.update(model_file=[f'own{i}/{c}_h.nc' for c in cons], scale=0.01,
                     version='v1')
        out['elevation'][name] = d
        if rng.random() < 0.4:
            e = dict(d, type=['u', 'v'])
            e.pop('variable')
            e['model_file'] = {'u': f'own{i}/uv'} if fmt == 'OTIS' else \
                {t: [f'own{i}/{c}_{t}.nc' for c in cons] for t in 'uv'}
            out['current'][name] = e
    return {k: v for k, v in out.items() if v or rng.random() < 0.5}


def generate(rng, idx, tier):
    extra = extra_db(rng, rng.randint(1, 3))
    pool = []
    for kind in ('elevation', 'current'):
        pool += [(kind, m) for m in CATALOG[kind]]
    mine = [(k, m) for k in extra for m in extra[k]]
    models = [list(rng.choice(pool)) for _ in range(rng.randint(1, 3))]
    # neighbours share files: same name as current, or plain and netCDF releases
    for k, m in list(models):
        other = 'current' if k == 'elevation' else 'elevation'
        if m in CATALOG[other] and rng.random() < 0.6:
            models.append([other, m])
        for alt in (m + '-nc', m.replace('-nc', ''), m + '_load', m + '_extrapolated'):
            if alt != m and alt in CATALOG[k] and rng.random() < 0.5:
                models.append([k, alt])
    if mine and rng.random() < 0.5:
        models += [list(v) for v in rng.sample(mine, min(2, len(mine)))]
    ops, faults = [], []
    main = rng.random() < 0.3          # this run is mostly about compressed files

    def comp():
        return main if rng.random() < 0.85 else not main
    script = []
    for _ in range(rng.randint(1, 3)):
        m = rng.choice(models)
        script += [(w, m) for w in rng.choice([
            ['install', 'look', 'hurt', 'look', 'mend', 'look'],
            ['install', 'hurt', 'look', 'look', 'install', 'look'],
            ['install', 'look', 'look'], ['look', 'install', 'look', 'gz', 'look'],
            ['install', 'bad', 'look', 'hurt', 'look']])]
    if rng.random() < 0.3:
        rng.shuffle(script)
    last = 0
    for i, (w, (kind, m)) in enumerate(script):
        op = dict(id=i, op=w, kind=kind, model=m)
        if w == 'install':
            op.update(comp=comp(), grid=rng.random() < 0.95,
                      skip=rng.choice([[], [], [], [rng.randrange(40)]]))
        elif w == 'hurt':
            last = rng.randrange(40)
            op.update(n=last, comp=comp(),
                      how=rng.choice(['gone', 'gone', 'dir', 'link', 'compress', 'case']))
        elif w in ('mend', 'gz'):
            op.update(n=last if w == 'mend' else rng.randrange(40), comp=comp())
        elif w == 'bad':
            op.update(what=rng.choice(['name', 'db-missing', 'db-cut', 'other-kind']),
                      verify=rng.random() < 0.5)
        else:
            op.update(comp=comp(), verify=rng.random() < 0.8,
                      dirform=rng.choice(['path', 'str', 'rel', 'none', 'home', 'dots']),
                      extra=rng.choice([None, None, 'e', 'list']),
                      obj=rng.choice([None, None, 0, 1]))
            if rng.random() < 0.3:
                faults.append(dict(op=i, dev='sched',
                                   at=rng.choice([0, 1, rng.randrange(20)]),
                                   kind=rng.choice(['remove', 'create', 'EIO', 'EACCES']),
                                   n=rng.randrange(40)))
        ops.append(op)
    return dict(extra=extra, ops=ops, faults=faults)


def valid(sc):
    return len(sc['ops']) > 0


def flat(d):
    """every file a catalogue entry needs, grid first"""
    out = [d['grid_file']] if d.get('grid_file') else []
    mf = d['model_file']
    for v in (mf.values() if isinstance(mf, dict) else [mf]):
        out += v if isinstance(v, list) else [v]
    return list(dict.fromkeys(out))


class Sim:
    def __init__(self, sc, ctx):
        self.ctx, self.sc = ctx, sc
        self.dir = os.path.join(ctx.root, 'home', 'models')
        os.makedirs(self.dir)
        self.extra = os.path.join(ctx.root, 'extra.json')
        with open(self.extra, 'w') as f:
            json.dump(sc['extra'], f)
        self.n = 0
        self.plan = {}
        self.changed = {}
        self.hit = None
        self.seam = False

    def p(self, name):
        return os.path.join(self.dir, name)

    def entry(self, op):
        for src in (self.sc['extra'], CATALOG):
            d = src.get(op['kind'], {}).get(op['model'])
            if d is not None and (src is CATALOG or op.get('extra') or
                                  op['model'] not in CATALOG[op['kind']]):
                return d, src is not CATALOG
        return None, False

    def make(self, path):
        if os.path.islink(path):
            os.unlink(path)
        if os.path.isdir(path):
            os.rmdir(path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(b'x' * 10)

    def drop(self, path):
        if os.path.islink(path) or os.path.isfile(path):
            os.unlink(path)
        elif os.path.isdir(path):
            os.rmdir(path)

    def is_there(self, path):
        return os.path.isfile(path)

    # ------------------------------------------------- the stat seam
    def __enter__(self):
        self.real = os.stat

        def stat(path, *a, **kw):
            if self.seam:
                self.seam = False
                try:
                    self.at_stat(path)
                finally:
                    self.seam = True
            return self.real(path, *a, **kw)
        os.stat = stat
        return self

    def __exit__(self, *exc):
        os.stat = self.real

    def at_stat(self, path):
        try:
            s = os.path.abspath(os.fspath(path))
        except TypeError:
            return
        if not s.startswith(self.dir):
            return
        self.ctx.step()
        f = self.plan.get(self.n)
        self.n += 1
        if f is None:
            return
        if f['kind'] in ('EIO', 'EACCES'):
            self.hit = f['kind']
            self.ctx.fault('stat-' + f['kind'], os.path.basename(s))
            no = getattr(errno, f['kind'])
            raise OSError(no, os.strerror(no), s)
        target = self.needed[f['n'] % len(self.needed)]
        self.ctx.fault('concurrent-' + f['kind'], os.path.basename(target))
        self.ctx.nontrivial = True
        self.changed.setdefault(target, set()).add(self.is_there(target))
        (self.drop if f['kind'] == 'remove' else self.make)(target)
        self.changed[target].add(self.is_there(target))


def tree(root):
    out = {}
    for d, subs, files in os.walk(root):
        for n in subs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            out[p] = (st.st_mode, st.st_size, st.st_mtime_ns)
    return out


def execute(sc, ctx):
    os.environ['HOME'] = os.path.join(ctx.root, 'home')
    s = Sim(sc, ctx)
    objects, answers = {}, {}
    with s:
        for op in sc['ops']:
            d, mine = s.entry(op)
            if d is None:
                continue
            files = flat(d)
            w = op['op']
            if w == 'install':
                for i, f in enumerate(files):
                    if i in op['skip'] or (not op['grid'] and f == d.get('grid_file')):
                        continue
                    s.make(s.p(f + ('.gz' if op['comp'] else '')))
                ctx.log('install', op['model'], op['kind'], op['comp'])
            elif w in ('hurt', 'mend', 'gz'):
                f = s.p(files[op['n'] % len(files)])
                g = f + ('.gz' if op['comp'] else '')
                how = op.get('how', w)
                if how in ('mend', 'gz'):
                    s.make(f + '.gz' if how == 'gz' else g)
                elif how == 'compress':
                    if s.is_there(f):
                        s.drop(f)
                        s.make(f + '.gz')
                else:
                    s.drop(g)
                    os.makedirs(os.path.dirname(g), exist_ok=True)
                    if how == 'dir':
                        os.mkdir(g)
                    elif how == 'link':
                        os.symlink(os.path.join(ctx.root, 'nowhere'), g)
                    elif how == 'case':
                        s.make(os.path.join(os.path.dirname(g),
                                            os.path.basename(g).swapcase()))
                ctx.log(how, os.path.relpath(f, s.dir))
            elif w == 'bad':
                bad(op, s, ctx)
            else:
                look(op, d, mine, files, s, sc, ctx, objects, answers)


def call(s, op, obj, extra):
    f = getattr(obj, op['kind'])
    s.seam = True
    try:
        return (f(op['model'], extra_databases=extra) if extra is not None
                else f(op['model'])), None
    except Exception as e:
        return None, e
    finally:
        s.seam = False


def bad(op, s, ctx):
    m = Model(s.dir, verify=op['verify'])
    extra = None
    name = op['model']
    if op['what'] == 'name':
        name = op['model'] + ' '
    elif op['what'] == 'db-missing':
        extra = [os.path.join(ctx.root, 'none.json')]
    elif op['what'] == 'db-cut':
        p = os.path.join(ctx.root, 'cut.json')
        with open(s.extra) as f, open(p, 'w') as g:
            g.write(f.read()[:-1])
        extra = [p]
    else:
        other = 'current' if op['kind'] == 'elevation' else 'elevation'
        if op['model'] in CATALOG[other]:
            return
        op = dict(op, kind=other)
    before = tree(s.dir)
    got, e = call(s, dict(op, model=name), m, extra)
    ctx.log('bad', op['what'], type(e).__name__)
    ctx.probe('bad-' + op['what'])
    if e is None:
        raise Violation('offered-unknown', f'{op}: a look-up of {name!r} ({op["what"]}) '
                        'did not fail')
    if tree(s.dir) != before:
        raise Violation('directory-changed', f'{op}')


def look(op, d, mine, files, s, sc, ctx, objects, answers):
    gz = '.gz' if op['comp'] else ''
    s.needed = [s.p(f + gz) for f in files]
    s.plan = {f['at']: f for f in sc['faults'] if f['op'] == op['id']}
    s.n, s.changed, s.hit = 0, {}, None
    here = {p: s.is_there(p) for p in s.needed}
    form = op['dirform']
    base = s.dir
    os.chdir(ctx.root)
    if form == 'path':
        arg = pathlib.Path(s.dir)
    elif form == 'str':
        arg = s.dir
    elif form == 'rel':
        arg = base = os.path.join('home', 'models')
    elif form == 'none':
        os.chdir(s.dir)
        arg = None
    elif form == 'home':
        arg = '~/models'
    else:
        arg = base = os.path.join(s.dir, '..', 'models')
    fresh = Model(arg, compressed=op['comp'], verify=op['verify'])
    default = dict(vars(fresh))
    obj = fresh
    if op['obj'] is not None:
        obj = objects.setdefault(op['obj'], fresh)
        if obj is not fresh:
            obj.directory, obj.compressed, obj.verify = \
                fresh.directory, op['comp'], op['verify']
    extra = None
    if op['extra'] or mine:
        extra = [s.extra]
    elif op['extra'] == 'list':
        extra = []
    before = tree(s.dir)
    given = snap(extra)
    got, e = call(s, op, obj, extra)
    if snap(extra) != given:
        raise Violation('argument-changed', f'{op}: the list of databases was changed')
    missing = [p for p, ok in here.items() if not ok]
    ctx.log('look', op['model'], op['kind'], op['comp'], op['verify'], form,
            type(e).__name__ if e else 'ok', len(missing))
    ctx.state(d['format'], op['kind'], op['comp'], op['verify'],
              min(len(missing), 2) if len(missing) < len(files) else 'all', form)
    key = (op['model'], op['kind'], op['comp'])
    if op['verify'] and not s.changed and not s.hit:
        if answers.setdefault(key, e is None) != (e is None):
            ctx.nontrivial = True
        answers[key] = e is None
    if not s.changed and tree(s.dir) != before:
        raise Violation('directory-changed', f'{op}: the model directory was changed')
    # -------- was the answer right
    if e is not None:
        ctx.probe('refused')
        if not op['verify']:
            raise Violation('refused-unverified', f'{op}: {type(e).__name__}: {e}')
        if s.hit:
            return
        maybe = [p for p in s.needed if not here[p] or False in s.changed.get(p, ())]
        if not maybe:
            raise Violation('refused-complete', f'{op}: every file exists, but '
                            f'{type(e).__name__}: {e}')
        if not isinstance(e, OSError):
            raise Violation('wrong-error', f'{op}: {type(e).__name__}: {e}')
        if not any(os.path.basename(p) in str(e) for p in maybe):
            raise Violation('error-names-no-problem', f'{op}: {e} but missing are '
                            f'{maybe[:3]}')
        return
    ctx.probe('offered')
    if op['verify']:
        if s.hit:
            raise Violation('offered-unchecked', f'{op}: {s.hit} while checking a file, '
                            'but the model was offered')
        never = [p for p in s.needed if not here[p] and True not in s.changed.get(p, ())]
        if never:
            raise Violation('offered-incomplete', f'{op}: offered without {never[:3]}')
    if got is not obj:
        raise Violation('wrong-object', f'{op}')
    # -------- does the description match the catalogue
    want = dict(default)
    full = (lambda f: [full(v) for v in f] if isinstance(f, list) else
            {k: full(v) for k, v in f.items()} if isinstance(f, dict) else
            os.path.abspath(os.path.join(base, f + gz)))
    want.update(d)
    for k in ('model_file', 'grid_file'):
        if want.get(k):
            want[k] = full(want[k])
    if d['format'].startswith('FES'):
        mf = d['model_file']
        want['constituents'] = [constituent(f) for f in
                                (mf['u'] if isinstance(mf, dict) else mf)]
    norm = (lambda v: [norm(x) for x in v] if isinstance(v, (list, tuple)) else
            {k: norm(x) for k, x in v.items()} if isinstance(v, dict) else
            os.path.abspath(v) if isinstance(v, pathlib.PurePath) else v)
    for k, v in want.items():
        if k in ('directory', 'compressed', 'verify') or k.startswith('_'):
            continue
        if not hasattr(obj, k) or norm(getattr(obj, k)) != norm(v):
            raise Violation('wrong-description', f'{op}: {k} is '
                            f'{str(getattr(obj, k, "missing"))[:300]}, not {str(v)[:300]}')
    for k in ('model_file', 'grid_file'):
        for v in leaves(getattr(obj, k)):
            if not isinstance(v, pathlib.Path):
                raise Violation('wrong-description', f'{op}: {k} holds {v!r}')


def leaves(v):
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, list):
        return [y for x in v for y in leaves(x)]
    return [] if v is None else [v]
