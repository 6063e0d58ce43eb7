"""P02: a successful download delivered exactly the remote bytes."""
import os

from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.world import World, content, md5
from props import dl

import pyTMD.utilities as U

ID = 'P02'
RUNS = dict(quick=4000, thorough=80000)
RULE = ('a run is a history of 1-5 downloads (http, https, authenticated https,'
        ' ftp; with and without local path; seeded packet sizes, framing, '
        'redirects and chunk sizes) with 0-2 network faults each; non-trivial:'
        ' a network fault fired; distinct by hash of the full event trace')
STATE_MEASURE = '(protocol, framing, fault kinds fired, outcome, size class)'
COMPONENTS = dict(real=['pyTMD.utilities', 'urllib', 'http.client', 'ftplib'],
                  simulated=['sockets, TLS, name service',
                             'http/ftp/login servers'])
ASSUMPTIONS = ['a transfer cut short by a server that announces no length '
               'cannot be detected by any client and is not injected',
               'a timeout of None lets a silent server block for ever, as '
               'documented for sockets; silence is injected only with timeouts']


def generate(rng, idx, tier):
    names = list(dict.fromkeys(dl.gen_name(rng).replace(' ', '_')
                               for _ in range(rng.randint(1, 3))))
    ops, faults = [], []
    for i in range(rng.randint(1, 5)):
        op = dl.gen_download(rng, i, names, local=0.4)
        if rng.random() < 0.06:
            op['missing'] = True
        ops.append(op)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            faults.append(dl.gen_net_fault(rng, op))
    sizes = {n: dl.gen_size(rng) for n in names}
    return dict(names=names, sizes=sizes, seg=rng.choice([0, 1, 7, 100, 1460, 9000]),
                framing=rng.choice(['length', 'length', 'chunked', 'close']),
                redirect=rng.random() < 0.25,
                login=rng.random() < 0.2, ops=ops, faults=faults)


def execute(sc, ctx):
    world = World(ctx, sc['faults'], sc['seg'], sc['framing'],
                  redirect=sc['redirect'])
    for n in sc['names']:
        world.put('/pub/' + n, content(n, sc['sizes'][n]), BASE_TIME - 86400)
    with world.net, Disk(ctx) as disk:
        for op in sc['ops']:
            if op['name'] not in sc['names']:
                continue
            one(op, world, disk, ctx, sc)


def one(op, world, disk, ctx, sc):
    remote = world.files['/pub/' + op['name']]
    want = remote['data']
    if op.get('missing'):
        op = dict(op, name=op['name'] + '.gone')
    net = world.net
    net.begin(op['id'])
    disk.begin(op['id'])
    res, exc = None, None
    t0 = ctx.sim_time
    try:
        res = dl.call_download(world, ctx.root, op)
    except Exception as e:
        exc = e
    if net.hung:
        raise Violation('hang', f"{op['proto']} download blocks for ever "
                        'although a timeout was given')
    fired = net.end()
    disk.end()
    kinds = sorted(f['kind'] for f in fired)
    outcome = 'error' if exc else 'ok'
    ctx.log('op', op['id'], op['proto'], outcome, type(exc).__name__)
    ctx.state(op['proto'], sc['framing'], kinds, outcome, len(want) > op['chunk'])
    if fired:
        ctx.nontrivial = True
    if exc is None:
        if op.get('missing'):
            raise Violation('missing-accepted', f"{op['proto']}: a file that "
                            'does not exist on the server was downloaded')
        if not hasattr(res, 'read'):
            raise Violation('wrong-result', f'returned {type(res).__name__}')
        pos = res.tell()
        got = res.read()
        if pos != 0:
            raise Violation('not-rewound', f"{op['proto']}: buffer at {pos}")
        if got != want:
            raise Violation('wrong-bytes', f"{op['proto']} ({sc['framing']}): "
                            f'{len(got)} bytes returned, the server holds '
                            f'{len(want)}; faults {kinds}')
        if getattr(res, 'filename', None) != op['name']:
            raise Violation('wrong-name', f"{getattr(res, 'filename', None)!r}"
                            f" instead of {op['name']!r}")
        if op.get('local'):
            disk_now = peek(os.path.join(ctx.root, 'loc', op['local']))
            if disk_now != want:
                raise Violation('wrong-stored', f"{op['proto']}: local file differs")
        ctx.probe('exact_' + op['proto'])
        if any(f['kind'] in ('delay', 'data_delay') for f in fired):
            ctx.probe('exact_after_delay')
    else:
        if not dl.effective(fired, op) and not op.get('missing'):
            raise Violation('spurious-error', f"{op['proto']} download without"
                            f' any effective fault failed: {exc!r}')
        ctx.probe('error_' + op['proto'])
