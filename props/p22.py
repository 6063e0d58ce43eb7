"""P22: names of reduced files under concurrent requests and disk errors."""
import builtins
import errno
import importlib.util
import io
import os
import pathlib

from props.p13 import quiet
from sim import sched
from sim.core import REPO, SimCrash, Violation

ID = 'P22'
RUNS = dict(quick=3000, thorough=200000)
RULE = ('a run is 1-4 rounds of 1-4 programs that ask for an output name at the same '
        'time, as threads with a copy of the program each, preempted at seeded '
        'bytecodes, in a directory with seeded content; programs crash before or after '
        'an operation on a file, operations fail once or for ever, files are removed '
        'between rounds; non-trivial: two requests overlapped or a fault was hit; '
        'distinct by hash of the event trace')
STATE_MEASURE = '(number of programs, names taken, faults, real condition, outcomes)'
COMPONENTS = dict(real=['scripts/reduce_OTIS_files.py create_unique_filename',
                        'kernel file system (exclusive creation, removed or unusable '
                        'directories, names too long)'],
                  simulated=['schedule of the programs', 'disk errors', 'crashes'])
ASSUMPTIONS = ['programs share nothing but the file system',
               'a request that meets a passing error may fail or return the lowest '
               'free name', 'no file is removed while requests are running']
CPU_LIMIT = 60
NAMES = ['h_tpxo9.out', 'hf.CATS2008.out', 'grid_CATS2008', 'uv.v1', 'h0.oce', 'a b.nc',
         'model.tar.gz', 'h_tpxo9', 'h_tpxo9.oce', 'grid.out.out']
ERRORS = ['ENOSPC', 'EACCES', 'EIO', 'EROFS', 'EMFILE', 'EDQUOT', 'EPERM']


def load(k):
    """a copy of the program for every process"""
    path = os.path.join(REPO, 'scripts', 'reduce_OTIS_files.py')
    spec = importlib.util.spec_from_file_location(f'reduce_{k}', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def prefix(name):
    for s in ('.out', '.oce'):
        if name.endswith(s) and len(name) > len(s):
            name = name[:-len(s)]
            break
    return name + '.reduced'


def candidate(name, k):
    return prefix(name) + (f'_{k}' if k else '')


def generate(rng, idx, tier):
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    if rng.random() < 0.3:
        names = rng.sample(['h_tpxo9.out', 'h_tpxo9', 'h_tpxo9.oce'], 2)
    before = []
    for n in names:
        for k in range(rng.choice([0, 0, 1, 3, 6, 12])):
            if rng.random() < 0.85:
                before.append([n, k, rng.choice(['file', 'file', 'empty', 'dir', 'link',
                                                 'dangling'])])
    ops, faults = [], []
    i = 0
    rounds = rng.randint(1, 4)
    for r in range(rounds):
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            ops.append(dict(id=i, round=r, name=rng.choice(names),
                            form=rng.choice(['path', 'str'])))
            if rng.random() < 0.3:
                f = dict(op=i, at=rng.choice([0, 0, 1, 2, 5]))
                f['kind'] = rng.choice(['once', 'always', 'always', 'crash_before',
                                        'crash_after'])
                f['errno'] = rng.choice(ERRORS)
                faults.append(f)
            i += 1
    cond = [rng.choice([None] * 8 + ['no_dir', 'not_dir', 'long']) for _ in range(rounds)]
    opcodes = rng.random() < 0.6
    top = 600 if opcodes else 60
    switches = [[rng.randrange(4), rng.randint(1, top), rng.randrange(4), r]
                for r in range(rounds)
                for _ in range(rng.choice([0, 3, 8, 20]))]
    return dict(names=names, before=before, ops=ops, faults=faults, cond=cond,
                removed=[[rng.randrange(rounds), rng.choice(names), rng.randrange(6)]
                         for _ in range(rng.choice([0, 0, 1, 3]))],
                switches=switches, opcodes=opcodes)


SHRINK_LISTS = ('before', 'switches', 'removed')


def valid(sc):
    return bool(sc['ops'])


class Hang(BaseException):
    pass


class Seam:
    """operations on files made by the programs: the n-th of a program fails"""

    def __init__(self, root, ctx, faults, limit):
        self.root, self.ctx, self.faults, self.limit = root, ctx, faults, limit
        self.n, self.dead, self.fired, self.opened = {}, set(), {}, {}
        self.last = {}

    def __enter__(self):
        self.old = (builtins.open, io.open, os.open, os.link, os.rename, os.replace)
        o = self.old

        def wrap(fn, which=0):
            def call(*a, **kw):
                target = a[which] if len(a) > which else None
                return self.through(fn, target, a, kw)
            return call
        builtins.open = io.open = wrap(o[1])
        os.open = wrap(o[2])
        os.link, os.rename, os.replace = wrap(o[3], 1), wrap(o[4], 1), wrap(o[5], 1)
        return self

    def __exit__(self, *e):
        builtins.open, io.open, os.open, os.link, os.rename, os.replace = self.old

    def through(self, fn, path, a, kw):
        i = getattr(sched.current, 'op', None)
        if i is None or not isinstance(path, (str, os.PathLike)) or \
                not os.fspath(path).startswith(self.root):
            return fn(*a, **kw)
        if i in self.dead:
            raise SimCrash()
        n = self.n[i] = self.n.get(i, -1) + 1
        if n > self.limit:
            raise Hang()
        self.last[i] = os.fspath(path)
        for f in self.faults:
            if f['op'] != i:
                continue
            if f['kind'] == 'crash_before' and n == f['at']:
                self.hit(i, f)
                self.dead.add(i)
                raise SimCrash()
            if (f['kind'] == 'once' and n == f['at']) or \
                    (f['kind'] == 'always' and n >= f['at']):
                self.hit(i, f)
                e = getattr(errno, f['errno'])
                raise OSError(e, os.strerror(e), os.fspath(path))
        out = fn(*a, **kw)
        self.opened.setdefault(i, []).append(os.fspath(path))
        for f in self.faults:
            if f['op'] == i and f['kind'] == 'crash_after' and n >= f['at']:
                self.hit(i, f)
                self.dead.add(i)
                raise SimCrash()
        return out

    def hit(self, i, f):
        if i not in self.fired:
            self.fired[i] = f['kind']
            self.ctx.fault(f['kind'], f['errno'])


def content(path):
    if os.path.islink(path):
        return 'link', os.readlink(path)
    if os.path.isdir(path):
        return 'dir', ''
    with open(path, 'rb') as f:
        return 'file', f.read().decode()


def listing(d):
    return {n: content(os.path.join(d, n)) for n in sorted(os.listdir(d))}


def execute(sc, ctx):
    quiet()
    d = os.path.join(ctx.root, 'dir.out', 'models')
    os.makedirs(d)
    other = os.path.join(ctx.root, 'other')
    with open(other, 'w') as f:
        f.write('somebody else')
    for n in sc['names']:
        with open(os.path.join(d, n), 'w') as f:
            f.write('model ' + n)
    for n, k, kind in sc['before']:
        p = os.path.join(d, candidate(n, k))
        if os.path.lexists(p):
            continue
        if kind == 'dir':
            os.mkdir(p)
        elif kind == 'link':
            os.symlink(other, p)
        elif kind == 'dangling':
            os.symlink(os.path.join(ctx.root, 'nowhere'), p)
        else:
            with open(p, 'w') as f:
                f.write('' if kind == 'empty' else f'earlier output {k}')
    for r, cond in enumerate(sc['cond']):
        ops = [o for o in sc['ops'] if o['round'] == r]
        for rr, n, k in sc['removed']:
            p = os.path.join(d, candidate(n, k))
            if rr == r and os.path.isfile(p) and not os.path.islink(p):
                os.unlink(p)
                ctx.log('removed', candidate(n, k))
        if ops:
            one_round(sc, ctx, r, cond, ops, d)
    if content(other) != ('file', 'somebody else') or \
            os.path.lexists(os.path.join(ctx.root, 'nowhere')):
        raise Violation('overwritten', 'a file beyond a link was written')


def one_round(sc, ctx, r, cond, ops, d):
    ctx.advance(60)
    before = listing(d)
    where = d
    if cond == 'no_dir':
        where = os.path.join(d, 'gone')
    elif cond == 'not_dir':
        where = os.path.join(d, sc['names'][0])
    results = [None] * len(ops)
    progs = [load(k) for k in range(len(ops))]
    order = []

    def job(k):
        op = ops[k]
        name = ('x' * 250 if cond == 'long' else '') + op['name']
        path = os.path.join(where, name)
        path = pathlib.Path(path) if op['form'] == 'path' else path

        def run():
            sched.current.op = op['id']
            order.append(k)
            try:
                got = progs[k].create_unique_filename(path)
                sched.current.op = None
                results[k] = ('ok', got, listing(d))
            except SimCrash:
                results[k] = ('crash', None, None)
            except Hang:
                results[k] = ('hang', None, None)
            except OSError as e:
                results[k] = ('error', e, None)
            finally:
                sched.current.op = None
        return run
    # names that may have to be tried, and some more
    with Seam(ctx.root, ctx, sc['faults'], len(before) + 8 * len(ops) + 40) as seam:
        s = sched.Sched([job(k) for k in range(len(ops))],
                        [{p: t for i, p, t, rr in sc['switches']
                          if i % len(ops) == k and rr == r} for k in range(len(ops))],
                        opcodes=sc['opcodes'], limit=60,
                        on_switch=lambda *a: ctx.log('switch', a[0], a[1]))
        out = s.run()
    for e in out:
        if isinstance(e, BaseException):
            raise Violation('failed', f'a request ended with {type(e).__name__}: {e}')
    after = listing(d)
    ctx.interleavings += s.made > 0
    kinds = [x[0] for x in results]
    ctx.log('round', r, kinds, [os.path.basename(x[1]) if x[0] == 'ok' else '' for x in
                                results])
    ctx.state(len(ops), min(len(before), 12), sorted(seam.fired.values()), cond,
              sorted(kinds))
    if (len(ops) > 1 and s.made) or seam.fired or cond:
        ctx.nontrivial = True
    if 'hang' in kinds:
        k = kinds.index('hang')
        raise Violation('hang', f'the request for {ops[k]["name"]} goes on for ever '
                        f'({cond or seam.fired.get(ops[k]["id"])}): '
                        f'{os.path.basename(seam.last[ops[k]["id"]])[-40:]} was tried')
    for n in before:
        if after.get(n) != before[n]:
            raise Violation('overwritten', f'{n}: {before[n]} became {after.get(n)}')
    given = []
    for op, (kind, got, then) in zip(ops, results):
        fault = seam.fired.get(op['id'])
        if kind == 'error':
            if not fault and not cond:
                raise Violation('spurious-error', f'the request for {op["name"]} failed: '
                                f'{type(got).__name__}: {got}')
            continue
        if kind == 'crash':
            continue
        if cond or fault == 'always':
            raise Violation('error-hidden', f'the request for {op["name"]} gives {got} '
                            f'although the directory cannot be written '
                            f'({cond or fault})')
        if not isinstance(got, (str, os.PathLike)):
            raise Violation('wrong-name', f'the request for {op["name"]} gives {got!r}')
        got = os.fspath(got)
        base = os.path.basename(got)
        names = [candidate(op['name'], k) for k in range(len(then) + 2)]
        if os.path.dirname(got) != d or base not in names:
            raise Violation('wrong-name', f'{got} for {op["name"]}')
        if base in before:
            raise Violation('overwritten', f'{base} exists already ({before[base]}) and is '
                            'given out')
        if base in given:
            raise Violation('shared', f'{base} is given to two programs')
        given.append(base)
        if then.get(base) != ('file', ''):
            raise Violation('wrong-name', f'{base} is {then.get(base)} when it is given out')
        low = [n for n in names[:names.index(base)] if n not in then]
        if low:
            raise Violation('not-lowest', f'{base} is given although {low[0]} is free')
        ctx.probe('given')
    made = [n for n in after if n not in before]
    # names of programs that died or failed after they created the file may stay
    lost = [n for n in made if n not in given]
    if len(lost) > sum(k in ('crash', 'error') for k in kinds):
        raise Violation('left-over', f'{lost} were created for nobody')
    if any(seam.fired.get(o['id']) == 'once' for o in ops):
        ctx.probe('passing_error')
