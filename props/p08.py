"""P08: the ephemeris kernel is fetched once, whole, before it is used."""
import os
import pathlib

import numpy as np
import pyTMD.astro as astro
import pyTMD.utilities as U
import pyTMD.compute as compute

from sim import spk, warm
from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.world import World
from props import dl

ID = 'P08'
AMBIENT = True
RUNS = dict(quick=700, thorough=30000)
RULE = ('a run is a history of 1-5 high-precision Sun, Moon or solid-Earth-tide '
        'requests against 1-2 synthetic kernels, with network and disk faults in '
        'the fetch, local deletions in between, then undisturbed repeats; '
        'non-trivial: a fault fired; distinct by hash of the full event trace')
STATE_MEASURE = '(request, kernel present before, faults fired, outcome)'
COMPONENTS = dict(real=['pyTMD.astro', 'pyTMD.compute.SET_displacements',
                        'pyTMD.utilities.from_jpl_ssd/from_http', 'jplephem',
                        'urllib'],
                  simulated=['sockets, TLS', 'JPL server and its kernels '
                             '(small type-2 SPK files)', 'disk faults, crash'])
ASSUMPTIONS = ['process-crash model (no power loss)',
               'the request has no time limit: a server that stalls for ever '
               'is not injected']
KERNELS = ['de440s.bsp', 'de421.bsp', 'DE430t_Sim.bsp']
# fetch: the kernel is downloaded ahead of its first use
DO = ['solar', 'lunar', 'solar_ecef', 'lunar_ecef', 'set', 'fetch']
MJD0, MJD1 = 58000, 58200


def generate(rng, idx, tier):
    ops, faults = [], []
    k = 0
    names = rng.sample(KERNELS, rng.choice([1, 1, 2]))
    for _ in range(rng.randint(1, 5)):
        if ops and rng.random() < 0.2:
            ops.append(dict(id=k, do='delete', kernel=rng.choice(names)))
            k += 1
        do = rng.choice(DO)
        op = dict(id=k, do=do, kernel=rng.choice(names),
                  path=rng.choice(['str', 'path', 'rel', 'home', 'default']),
                  mjd=[round(rng.uniform(MJD0 + 1, MJD1 - 1), rng.choice([0, 3]))
                       for _ in range(rng.randint(1, 4))],
                  proto='https', timeout=None)
        if do == 'set':
            op['path'] = 'default'
        ops.append(op)
        k += 1
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < 0.5:
                f = dl.gen_disk_fault(rng, op)
                f['at'] = rng.randint(0, 9) if 'on' not in f else rng.randint(0, 3)
                if f['kind'] == 'full':
                    f['bytes'] = rng.choice([0, 1, 1024, 3000, 3072, 5000, 8192, 11000])
            else:
                f = dl.gen_net_fault(rng, op)
                if 'stall' in f['kind']:
                    f['kind'] = 'reset_before'
            faults.append(f)
        # the file on disk cannot be read at the moment
        if rng.random() < 0.2:
            faults.append(dict(op=op['id'], dev='disk', at=rng.choice([0, 0, 1, 1, 2, 3]),
                               **(dict(kind='no_open', errno=rng.choice(['EMFILE', 'EACCES', 'EIO']))
                                  if rng.random() < 0.6 else dict(kind='read_eio'))))
    return dict(names=names, pad=rng.choice([0, 0, 300, 5000]),
                days=rng.choice([8, 16, 32]), seg=rng.choice([0, 100, 1460]),
                framing=rng.choice(['length', 'chunked']),
                missing=rng.random() < 0.08, warm=rng.random() < 0.3,
                subdir=rng.choice(['', 'data/', 'a/b/']), ops=ops, faults=faults)


def home(path):
    return os.path.join('~', os.path.relpath(path, os.environ['HOME']))


def request(op, path):
    mjd = np.array(op['mjd'], dtype=float)
    kw = {}
    if op['do'] == 'fetch':
        saved = U.get_data_path
        U.get_data_path = lambda rel: pathlib.Path(path).parent / \
            (rel if isinstance(rel, str) else rel[-1])
        try:
            U.from_jpl_ssd(**(dict(kernel=op['kernel']) if op['path'] == 'default'
                              else dict(kernel=None, local=path)
                              if op['path'] == 'str' else
                              dict(kernel=None, local=home(path))
                              if op['path'] == 'home' else
                              dict(kernel=op['kernel'], local=None, chunk=1024)))
        finally:
            U.get_data_path = saved
        return ()
    if op['path'] == 'default':
        astro._default_kernel = pathlib.Path(path)
    else:
        kw['kernel'] = dict(str=str(path), path=pathlib.Path(path),
                            rel=os.path.relpath(path),
                            home=home(path))[op['path']]
    if op['do'] == 'set':
        lon = np.linspace(-60, 60, len(mjd))
        return (np.ma.getdata(compute.SET_displacements(
            lon, lon / 2, (mjd - 51544.0) * 86400.0, EPSG=4326,
            EPOCH=(2000, 1, 1, 0, 0, 0), TYPE='drift', TIME='UTC',
            EPHEMERIDES='JPL')),)
    if op['do'] == 'solar':
        return astro.solar_ephemerides(mjd, **kw)
    if op['do'] == 'lunar':
        return astro.lunar_ephemerides(mjd, **kw)
    if op['do'] == 'solar_ecef':
        return astro.solar_ecef(mjd, ephemerides='JPL', **kw)
    return astro.lunar_ecef(mjd, ephemerides='JPL', **kw)


def execute(sc, ctx):
    world = World(ctx, sc['faults'], sc['seg'], sc['framing'])
    data, ref = {}, {}
    for n in sc['names']:
        data[n] = spk.kernel(n, MJD0, MJD1, days=sc['days'], pad=sc['pad'])
        world.put('/ftp/eph/planets/bsp/' + n, data[n], BASE_TIME)
        put(os.path.join(ctx.root, 'ref', n), data[n])
    if sc['missing']:
        world.files.clear()
    os.environ['HOME'] = os.path.join(ctx.root, 'loc')
    base = os.path.join(ctx.root, 'loc', sc['subdir'])
    os.makedirs(os.path.join(ctx.root, 'loc'))
    if sc['warm']:
        put(os.path.join(base, sc['names'][0]), data[sc['names'][0]])
    want = {}
    for op in sc['ops']:
        if op['do'] != 'delete':
            want[op['id']] = () if op['do'] == 'fetch' else request(op, os.path.join(ctx.root, 'ref', op['kernel']))
    final = {}
    with world.net, Disk(ctx, sc['faults']) as disk:
        for op in sc['ops']:
            p = os.path.join(base, op['kernel'])
            if op['do'] == 'delete':
                if os.path.exists(p):
                    os.unlink(p)
                continue
            one(sc, op, p, data[op['kernel']], want[op['id']], world, disk, ctx)
            final[op['kernel']] = op
        for op in final.values():
            for sfx in 'rs':
                p = os.path.join(base, op['kernel'])
                new = dict(op, id=f"{op['id']}{sfx}")
                one(sc, new, p, data[op['kernel']], want[op['id']], world, disk, ctx)


def one(sc, op, path, data, want, world, disk, ctx):
    net = world.net
    pre = peek(path)

    def observe(kind, where):
        now = peek(path)
        if now not in (pre, data):
            raise Violation('torn-kernel', f'after {kind} the kernel path holds '
                            f'{None if now is None else len(now)} of {len(data)} bytes')
    disk.begin(op['id'])
    net.begin(op['id'])
    n_req = len(net.requests)
    disk.observer = observe
    res, exc, outcome = None, None, 'ok'
    try:
        res = request(op, path)
    except SimCrash:
        outcome = 'crash'
    except Violation:
        raise
    except Exception as e:
        outcome, exc = 'error', e
    finally:
        disk.observer = None
    if net.hung:
        raise Violation('hang', 'request blocks for ever')
    fired = disk.end() + net.end()
    sent = net.requests[n_req:]
    post = peek(path)
    ctx.log('op', op['id'], op['do'], outcome, type(exc).__name__, len(sent),
            post == data)
    kinds = sorted(f['kind'] for f in fired)
    ctx.state(op['do'], pre is None, kinds, outcome)
    if fired:
        ctx.nontrivial = True
    if post not in (pre, data):
        raise Violation('torn-kernel', f'{outcome} left '
                        f'{None if post is None else len(post)} of {len(data)} bytes')
    if pre is not None and sent and op['do'] != 'fetch':
        raise Violation('needless-fetch', f'{len(sent)} requests although the '
                        'kernel was on disk')
    if outcome == 'ok' and op['do'] == 'fetch' and not sent:
        raise Violation('not-fetched', 'no request was sent')
    if len(sent) > 1:
        raise Violation('fetched-twice', f"{op['do']} sent {len(sent)} requests")
    if outcome == 'ok':
        if post != data:
            raise Violation('no-kernel', 'positions returned without the kernel')
        for a, b in zip(res, want):
            if a.shape != b.shape or not np.array_equal(a, b):
                raise Violation('wrong-position', f"{op['do']}: {a} instead of {b}")
        ctx.probe('fetched' if pre is None else 'local')
        return
    if outcome == 'error':
        ctx.probe('failed')
        hard = [f for f in fired if f['kind'] not in ('delay', 'short')]
        if not hard and not (sc['missing'] and (pre is None or op['do'] == 'fetch')):
            raise Violation('spurious-error', f"{op['do']}: {exc!r}")
