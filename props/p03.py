"""P03: checksum-gated refresh keeps current copies, replaces stale ones."""
import hashlib
import io
import os
import pathlib

from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.world import World, content, md5
from props import dl

import pyTMD.utilities as U

ID = 'P03'
AMBIENT = True
RUNS = dict(quick=3500, thorough=70000)
RULE = ('a run is a history of 3-10 steps: gated downloads, remote updates, '
        'local edits/deletions, ungated downloads, digests, with network and '
        'disk faults; non-trivial: at least one gated download met an existing'
        ' local copy; distinct by hash of the full event trace')
STATE_MEASURE = '(protocol, local relative to remote, gate, faults, outcome)'
COMPONENTS = dict(real=['pyTMD.utilities', 'urllib', 'http.client', 'ftplib'],
                  simulated=['sockets, TLS, name service',
                             'http/ftp/login servers',
                             'disk faults, process crash'])
ASSUMPTIONS = ['the caller passes the checksum of the local copy at the time '
               'of the call, as documented']
HASHES = ['md5', 'sha1', 'sha256', 'sha512', 'blake2b']


def generate(rng, idx, tier):
    names = ['leap.list', 'finals.all'][:rng.randint(1, 2)]
    ops, faults = [], []
    for i in range(rng.randint(3, 10)):
        r = rng.random()
        n = rng.choice(names)
        if r < 0.16:
            ops.append(dict(id=i, do='update', name=n, size=dl.gen_size(rng),
                            dt=rng.randint(1, 10**6)))
        elif r < 0.26:
            ops.append(dict(id=i, do='edit', name=n,
                            how=rng.choice(['append', 'delete', 'flip', 'empty',
                                            'older', 'same'])))
        elif r < 0.42:
            ops.append(dict(id=i, do='hash', name=n,
                            alg=rng.choice(HASHES + ['nonsense']),
                            how=rng.choice(['path', 'str', 'buffer', 'remote',
                                            'missing', 'home']),
                            pos=rng.randint(0, 50)))
            if rng.random() < 0.3:
                faults.append(dict(op=i, dev='disk', kind='read_eio', at=0))
        else:
            op = dl.gen_download(rng, i, names, local=1.0)
            op['name'] = n
            op['local'] = 'x/' + n
            op['gate'] = rng.choice(['file', 'file', 'file', 'last', 'none'])
            ops.append(op)
            if rng.random() < 0.25:
                faults.append(dl.gen_disk_fault(rng, op))
            if rng.random() < 0.2:
                faults.append(dl.gen_net_fault(rng, op))
    return dict(names=names, sizes={n: dl.gen_size(rng) for n in names},
                seg=rng.choice([0, 100, 1460]),
                framing=rng.choice(['length', 'chunked']),
                ops=ops, faults=faults)


def execute(sc, ctx):
    world = World(ctx, sc['faults'], sc['seg'], sc['framing'])
    for n in sc['names']:
        world.put('/pub/' + n, content(n + '/0', sc['sizes'][n]), BASE_TIME - 86400)
    version = {n: 0 for n in sc['names']}
    history = {n: [world.files['/pub/' + n]['data']] for n in sc['names']}
    last_md5 = {}
    with world.net, Disk(ctx, sc['faults']) as disk:
        for op in sc['ops']:
            n = op['name']
            local = os.path.join(ctx.root, 'loc', 'x', n)
            ctx.advance(10)
            if op['do'] == 'update':
                version[n] += 1
                world.put('/pub/' + n, content(f'{n}/{version[n]}', op['size']),
                          world.files['/pub/' + n]['mtime'] + op['dt'])
                history[n].append(world.files['/pub/' + n]['data'])
            elif op['do'] == 'edit':
                b = peek(local)
                if op['how'] == 'delete':
                    if b is not None:
                        os.unlink(local)
                elif op['how'] == 'append':
                    put(local, (b or b'') + b'x')
                elif op['how'] == 'empty':
                    put(local, b'')
                elif op['how'] == 'flip' and b:
                    put(local, bytes([b[0] ^ 1]) + b[1:])
                elif op['how'] == 'older':
                    put(local, history[n][0])
                elif op['how'] == 'same':
                    put(local, world.files['/pub/' + n]['data'], BASE_TIME - 5)
            elif op['do'] == 'hash':
                digest(op, world, disk, ctx, local)
            else:
                gated(op, world, disk, ctx, local, last_md5)


def digest(op, world, disk, ctx, local):
    data = peek(local)
    arg = local
    want = data
    if op['how'] == 'path':
        arg = pathlib.Path(local)
    elif op['how'] == 'missing':
        arg, want = local + '.none', None
    elif op['how'] in ('buffer', 'remote'):
        want = world.files['/pub/' + op['name']]['data']
        arg = io.BytesIO(want)
        if op['how'] == 'buffer':
            arg.seek(op['pos'])
    elif op['how'] == 'home':
        os.environ['HOME'] = os.path.dirname(local)
        arg = '~/' + os.path.basename(local)
    disk.begin(op['id'])
    got, exc = None, None
    try:
        got = U.get_hash(arg, op['alg'])
    except Exception as e:
        exc = e
    fired = disk.end()
    if disk.history:
        raise Violation('hash-writes', 'computing a checksum modified the disk')
    ctx.log('hash', op['alg'], op['how'], got, type(exc).__name__)
    ctx.state('hash', op['alg'] == 'nonsense', op['how'], bool(fired), exc is None)
    known = op['alg'] in HASHES
    if want is None:
        # documented: the checksum of a missing file is empty
        if exc is not None or got != '':
            raise Violation('hash-missing', f'{got!r} {exc!r} for a missing file')
        return
    if not known:
        if exc is None:
            raise Violation('hash-algorithm', f'unknown algorithm gave {got!r}')
        return
    if exc is not None:
        if not fired:
            raise Violation('hash-error', f'checksum failed: {exc!r}')
        return
    ref = hashlib.new(op['alg'], want).hexdigest()
    if got != ref:
        raise Violation('wrong-hash', f"{op['alg']} of {op['how']} with "
                        f'{len(want)} bytes: {got} instead of {ref}; '
                        f"faults {[f['kind'] for f in fired]}")
    ctx.probe('digest')


def gated(op, world, disk, ctx, local, last_md5):
    remote = world.files['/pub/' + op['name']]
    want = remote['data']
    pre = peek(local)
    if op['gate'] == 'none':
        gate = ''
    else:
        # the checksum as the library itself reports it
        gate = U.get_hash(local)
        if gate != ('' if pre is None else md5(pre)):
            raise Violation('wrong-hash', f'{gate!r} for the local file')
    current = gate == md5(want)
    st = os.stat(local) if pre is not None else None
    disk.begin(op['id'])
    world.net.begin(op['id'])
    outcome, exc, buf = 'ok', None, None
    try:
        buf = dl.call_download(world, ctx.root, op, hash=gate)
    except SimCrash:
        outcome = 'crash'
    except Exception as e:
        outcome, exc = 'error', e
    if world.net.hung:
        raise Violation('hang', 'download blocks for ever')
    touched = [h for h in disk.history if h[0] != 'mkdir']
    fired = disk.end() + world.net.end()
    post = peek(local)
    ctx.log('get', op['id'], op['proto'], current, outcome, type(exc).__name__)
    ctx.state(op['proto'], 'absent' if pre is None else
              'current' if pre == want else 'stale', bool(gate),
              sorted(f['kind'] for f in fired), outcome)
    if gate:
        ctx.nontrivial = True
    if current:
        ctx.probe('current')
        if touched or post != pre:
            raise Violation('rewritten', f"{op['proto']}: a current local copy "
                            f'was written: {[(k, disk.rel(p)) for k, p in touched][:5]}')
        st2 = os.stat(local)
        if (st2.st_mtime_ns, st2.st_mode) != (st.st_mtime_ns, st.st_mode):
            raise Violation('restamped', 'a current local copy was re-stamped')
    if post not in (pre, want):
        raise Violation('torn-file', f"{op['proto']}: neither the old nor the "
                        'remote content')
    if outcome == 'ok':
        if post != want:
            raise Violation('stale', f"{op['proto']}: download returned but the"
                            f' local copy is {"missing" if post is None else "stale"}')
        if not buf or buf.read() != want:
            raise Violation('wrong-buffer', 'returned buffer differs')
        if gate and not current:
            ctx.probe('refreshed')
    elif outcome == 'error' and not dl.effective(fired, op):
        raise Violation('spurious-error', f"{op['proto']}: {exc!r}")
