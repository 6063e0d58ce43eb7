"""P01: a downloaded file is on disk completely or not at all."""
import os

from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.world import World, content, md5
from props import dl

ID = 'P01'
AMBIENT = True
RUNS = dict(quick=4000, thorough=80000)
RULE = ('a run is a history of 1-4 downloads (http, https, authenticated https,'
        ' ftp) of 1-3 remote files with 0-3 network and disk faults each; '
        'non-trivial: a fault fired inside a download that was storing a file;'
        ' distinct by hash of the full event trace')
STATE_MEASURE = ('(protocol, fault kinds fired, outcome, local state before,'
                 ' local state after) of a download')
COMPONENTS = dict(real=['pyTMD.utilities', 'urllib', 'http.client', 'ftplib',
                        'file system below the seam (tmpfs)'],
                  simulated=['sockets, TLS, name service', 'http/ftp/login '
                             'servers', 'disk faults, process crash'])
ASSUMPTIONS = ['process-crash model: what reached the file system before the '
               'crash survives (no power loss, the library never fsyncs)',
               'os.replace/rename within a directory is atomic',
               'a transfer cut short by a server that announces no length '
               'cannot be detected by any client and is not injected']
SHRINK_LISTS = ('names',)


def generate(rng, idx, tier):
    names = list(dict.fromkeys(dl.gen_name(rng) for _ in range(rng.randint(1, 3))))
    names = [n.replace(' ', '_') for n in names]
    ops = []
    faults = []
    sizes = {}
    for n in names:
        sizes[n] = dl.gen_size(rng)
    for i in range(rng.randint(1, 4)):
        if i and rng.random() < 0.3:
            ops.append(dict(id=i, do='update', name=rng.choice(names),
                            size=dl.gen_size(rng), dt=rng.randint(1, 10**6)))
            continue
        op = dl.gen_download(rng, i, names, local=1.0)
        # refresh gated by the checksum of the local copy
        op['gated'] = rng.random() < 0.3
        ops.append(op)
        r = rng.random()
        if r < 0.5:
            faults.append(dl.gen_disk_fault(rng, op))
        elif r < 0.8:
            faults.append(dl.gen_net_fault(rng, op))
        elif r < 0.92:
            faults.append(dl.gen_disk_fault(rng, op))
            faults.append(dl.gen_net_fault(rng, op))
    return dict(names=names, sizes=sizes, seg=rng.choice([0, 1, 100, 1460, 9000]),
                framing=rng.choice(['length', 'length', 'chunked']),
                existing=[[n, dl.gen_size(rng)] for n in names
                          if rng.random() < 0.6],
                link=rng.random() < 0.1,
                ops=ops, faults=faults)


def execute(sc, ctx):
    world = World(ctx, sc['faults'], sc['seg'], sc['framing'])
    root = ctx.root
    version = {}
    for n in sc['names']:
        world.put('/pub/' + n, content(n + '/0', sc['sizes'].get(n, 10)),
                  BASE_TIME - 86400 * 30)
        version[n] = 0
    by = os.path.join(root, 'loc', 'bystander.txt')
    put(by, b'do not touch')
    old = dict(map(tuple, sc['existing']))
    seen = set()
    disk = Disk(ctx, sc['faults'])
    with world.net, disk:
        last = {}
        for op in sc['ops']:
            if op['do'] == 'update':
                if op['name'] in version:
                    n = op['name']
                    version[n] += 1
                    world.put('/pub/' + n, content(f'{n}/{version[n]}', op['size']),
                              world.files['/pub/' + n]['mtime'] + op['dt'])
                continue
            if op['name'] not in version:
                continue
            local = os.path.join(root, 'loc', op['local'])
            if op['local'] not in seen and op['name'] in old:
                data = content('old/' + op['name'], old[op['name']])
                if sc['link']:
                    put(os.path.join(root, 'real', op['local']), data)
                    os.makedirs(os.path.dirname(local), exist_ok=True)
                    os.symlink(os.path.join(root, 'real', op['local']), local)
                else:
                    put(local, data)
            seen.add(op['local'])
            last[op['local']] = op
            one(op, world, disk, ctx, local)
        # faults have stopped: the same downloads are repeated
        for op in last.values():
            op = dict(op, id=f"{op['id']}r")
            one(op, world, disk, ctx, os.path.join(root, 'loc', op['local']))
    if peek(by) != b'do not touch':
        raise Violation('other-file-damaged', 'a file beside the local path'
                        ' was changed by a download')


def one(op, world, disk, ctx, local):
    remote = world.files['/pub/' + op['name']]
    pre = peek(local)
    want = remote['data']
    # a gated download of a current copy stores nothing
    hash = md5(pre) if op.get('gated') and pre is not None else ''
    current = bool(hash) and pre == want
    ok = (pre, want)

    def observe(kind, path):
        now = peek(local)
        if now not in ok:
            raise Violation('torn-file', f'{op["proto"]}: after {kind} the '
                            f'local path holds {len(now) if now is not None else None}'
                            f' bytes: neither the previous content nor the '
                            f'complete remote content ({len(want)} bytes)')
    disk.begin(op['id'])
    world.net.begin(op['id'])
    disk.observer = observe
    outcome, exc = 'ok', None
    try:
        buf = dl.call_download(world, ctx.root, op, hash)
    except SimCrash:
        outcome = 'crash'
    except Violation:
        raise
    except Exception as e:
        outcome, exc = 'error', e
    finally:
        disk.observer = None
    if world.net.hung:
        raise Violation('hang', f"{op['proto']} download blocks forever")
    fired = disk.end() + world.net.end()
    post = peek(local)
    ctx.log('op', op['id'], op['proto'], outcome, type(exc).__name__,
            None if post is None else md5(post))
    kinds = sorted(f['kind'] for f in fired)
    ctx.state(op['proto'], kinds, outcome, pre is None, post == pre, post == want)
    if fired:
        ctx.nontrivial = True
    if outcome == 'crash':
        # the process is restarted: module state is gone
        ctx.probe('crashed')
    if post not in ok:
        raise Violation('torn-file', f"{op['proto']}: {outcome} left "
                        f"{len(post) if post is not None else None} bytes at the local path")
    if outcome == 'ok':
        if post != want:
            raise Violation('not-stored', f"{op['proto']}: download returned "
                            'normally but the local path does not hold the '
                            'remote content')
        st = os.stat(local)
        if not current and st.st_mode & 0o777 != op['mode']:
            raise Violation('wrong-mode', f"{op['proto']}: mode "
                            f"{st.st_mode & 0o777:o}, requested {op['mode']:o}")
        if not current and op['proto'] == 'ftp' and \
                int(st.st_mtime) != remote['mtime']:
            raise Violation('wrong-mtime', f'mtime {st.st_mtime} instead of '
                            f"{remote['mtime']}")
        if buf.read() != want:
            raise Violation('wrong-buffer', 'returned buffer differs')
        ctx.probe('stored_' + op['proto'])
    elif outcome == 'error':
        if not dl.effective(fired, op):
            raise Violation('spurious-error', f"{op['proto']} download without"
                            f' any effective fault failed: {exc!r}')
        ctx.probe('failed_' + op['proto'])
        if post == want and pre != want:
            ctx.probe('error_after_store')
