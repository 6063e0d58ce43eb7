"""P10: copying or moving a file never loses the data."""
import os
import pathlib
import stat

import pyTMD.utilities as U

from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.world import content
from props import dl

ID = 'P10'
AMBIENT = True
RUNS = dict(quick=4000, thorough=100000)
RULE = ('a run is a history of 1-6 copies and moves among up to 5 paths on up '
        'to 3 simulated file systems (fresh, existing, identical, hard-linked, '
        'symbolically linked, directory and missing destinations) with 0-2 disk '
        'faults or crashes each; non-trivial: a fault fired or the destination '
        'was not an ordinary fresh path; distinct by hash of the event trace')
STATE_MEASURE = '(operation, destination kind, size class, faults fired, outcome)'
COMPONENTS = dict(real=['pyTMD.utilities.copy', 'shutil', 'pathlib',
                        'file system below the seam (tmpfs)'],
                  simulated=['disk faults, process crash, device boundaries'])
ASSUMPTIONS = ['process-crash model (no power loss)',
               'nobody else changes source or destination meanwhile']
PLACES = ['a.nc', 'mnt0/b.nc', 'mnt0/sub/c.txt', 'mnt1/d e.h5', 'ü.dat']
SIZES = [0, 1, 500, 8192, 65536, 70000, 300000]


def generate(rng, idx, tier):
    ops, faults = [], []
    files = [[p, rng.choice(SIZES), rng.choice([0o644, 0o600, 0o755, 0o444, 0o664]),
              rng.randint(-10**9, 10**6) + round(rng.random(), 4)]
             for p in PLACES if rng.random() < 0.6]
    if not files:
        files = [[PLACES[0], 100, 0o644, 0]]
    links = []
    for i in range(rng.choice([0, 0, 1, 2])):
        links.append([f'link{i}', rng.choice(PLACES), rng.choice(['sym', 'hard'])])
    ends = PLACES + [l[0] for l in links] + ['mnt0', 'mnt0/gone/x.nc', 'new.nc']
    for i in range(rng.randint(1, 6)):
        op = dict(id=i, do='copy', move=rng.random() < 0.5,
                  src=rng.choice(PLACES + [l[0] for l in links])
                  if rng.random() < 0.5 else rng.choice(files)[0],
                  dst=rng.choice(ends), form=rng.choice(['str', 'path', 'home', 'rel']),
                  kw=rng.random() < 0.2)
        ops.append(op)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            f = dl.gen_disk_fault(rng, op)
            if f['kind'] == 'full':
                f['bytes'] = rng.choice([0, 1, 100, 8192, 60000, 65536, 200000])
            if rng.random() < 0.25:
                f.update(kind=rng.choice(['crash', 'eio', 'eacces']),
                         on=rng.choice(['unlink', 'utime', 'chmod', 'close', 'write',
                                        'replace']),
                         at=0, frac=0.5)
            elif rng.random() < 0.15:
                f = dict(op=i, dev='disk', kind='read_eio', at=rng.randint(0, 8))
            else:
                f.setdefault('on', None)
                if not f['on']:
                    f.pop('on')
                    f['at'] = rng.randint(0, 8)
            faults.append(f)
    return dict(files=files, links=links, ops=ops, faults=faults)


SHRINK_LISTS = ('files', 'links')


def form(root, p, how):
    full = os.path.join(root, p)
    return dict(str=full, path=pathlib.Path(full), home='~/' + p, rel=p)[how]


def meta(p):
    st = os.stat(p)
    return (st.st_mode & 0o777, st.st_mtime_ns)


def execute(sc, ctx):
    root = ctx.root
    os.environ['HOME'] = root
    for d in ('mnt0/sub', 'mnt1'):
        os.makedirs(os.path.join(root, d))
    for p, size, mode, dt in sc['files']:
        put(os.path.join(root, p), content('p10/' + p, size), BASE_TIME + dt, mode)
        # times that no float holds
        ns = int((BASE_TIME + dt) * 1000) * 10**6 + 123457
        os.utime(os.path.join(root, p), ns=(ns, ns))
    for name, target, kind in sc['links']:
        t = os.path.join(root, target)
        if kind == 'sym':
            os.symlink(t, os.path.join(root, name))
        elif os.path.exists(t):
            os.link(t, os.path.join(root, name))
    with Disk(ctx, sc['faults']) as disk:
        disk.xdev = True
        for op in sc['ops']:
            ctx.advance(10)
            if one(op, disk, ctx) in ('error', 'crash'):
                # the fault has gone: the same request again
                one(dict(op, id=f"{op['id']}r"), disk, ctx)


def one(op, disk, ctx):
    root = ctx.root
    src, dst = os.path.join(root, op['src']), os.path.join(root, op['dst'])
    have = peek(src)
    ms = meta(src) if have is not None else None
    old_dst = peek(dst)
    same = os.path.exists(src) and os.path.exists(dst) and os.path.samefile(src, dst)
    dkind = ('same' if same else 'dir' if os.path.isdir(dst) else
             'noparent' if not os.path.isdir(os.path.dirname(dst)) else
             'link' if os.path.islink(dst) else
             'exists' if old_dst is not None else 'fresh')
    others = {p: peek(p) for p in everything(root) if p not in (src, dst)
              and not os.path.islink(p)
              and not (os.path.exists(dst) and os.path.samefile(p, dst))}

    def observe(kind, path):
        if have is not None and peek(src) != have and peek(dst) != have:
            raise Violation('data-lost', f"after {kind} neither {op['src']} nor "
                            f"{op['dst']} holds the {len(have)} original bytes")
    disk.begin(op['id'])
    disk.observer = observe
    outcome, exc = 'ok', None
    try:
        kw = {'move': op['move']} if op['move'] or op['kw'] else {}
        U.copy(form(root, op['src'], op['form']), form(root, op['dst'], op['form']), **kw)
    except SimCrash:
        outcome = 'crash'
    except Violation:
        raise
    except Exception as e:
        outcome, exc = 'error', e
    finally:
        disk.observer = None
    fired = disk.end()
    now_src, now_dst = peek(src), peek(dst)
    kinds = sorted(f['kind'] for f in fired)
    ctx.log('op', op['id'], 'move' if op['move'] else 'copy', dkind, outcome,
            type(exc).__name__, None if now_src is None else len(now_src),
            None if now_dst is None else len(now_dst))
    ctx.state(op['move'], dkind, have is None, kinds, outcome,
              len(have or b'') > 65536)
    if fired or dkind != 'fresh':
        ctx.nontrivial = True
    ctx.probe(('move_' if op['move'] else 'copy_') + outcome)
    if have is not None and now_src != have and now_dst != have:
        raise Violation('data-lost', f'{outcome}: the content of {op["src"]} is gone')
    for p, b in others.items():
        if peek(p) != b:
            raise Violation('other-file', f'{os.path.relpath(p, root)} was changed')
    if outcome == 'ok':
        if have is None:
            raise Violation('false-success', 'a missing source was copied')
        if same:
            raise Violation('false-success', 'a file was copied onto itself')
        if now_dst != have:
            raise Violation('incomplete', f'destination holds '
                            f'{None if now_dst is None else len(now_dst)} of '
                            f'{len(have)} bytes')
        md = meta(dst)
        if md != ms:
            raise Violation('wrong-meta', f'mode/time {md} instead of {ms}')
        if op['move'] and os.path.lexists(src):
            raise Violation('source-kept', 'source still exists after a move')
        if not op['move'] and (now_src != have or meta(src) != ms):
            raise Violation('source-changed', 'copy changed its source')
    elif outcome == 'error':
        if have is not None and (now_src != have or meta(src) != ms):
            raise Violation('source-changed', f'failed copy changed its source: {exc!r}')
        hard = [f for f in fired if f['kind'] != 'short']
        if not hard and have is not None and dkind not in ('same', 'dir', 'noparent') \
                and not os.path.islink(dst):
            raise Violation('spurious-error', f'{dkind}: {exc!r}')
    return outcome


def everything(root):
    for d, s, f in os.walk(root):
        for n in f:
            yield os.path.join(d, n)
