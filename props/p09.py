"""P09: verification of downloaded model files never passes a damaged file."""
import calendar
import hashlib
import json
import os
import pathlib
import time

import pyTMD.io

from sim import scripts
from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.net import HTTPServer, Response
from sim.world import World, content
from props import dl

box = scripts.load('verify_box_tpxo')

ID = 'P09'
AMBIENT = True
RUNS = dict(quick=2500, thorough=60000)
RULE = ('a run verifies a TPXO model directory 1-4 times against a simulated '
        'box folder, with local files damaged (cut, altered, swapped, missing) '
        'or repaired and remote files updated in between, and 0-2 network and '
        'disk faults per verification; non-trivial: a damaged file was selected '
        'or a fault fired; distinct by hash of the full event trace')
STATE_MEASURE = '(model, currents, kinds of damage present, faults fired, outcome)'
COMPONENTS = dict(real=['scripts/verify_box_tpxo.py', 'pyTMD.io.model',
                        'pyTMD.utilities.get_hash/get_unix_time', 'urllib', 'json'],
                  simulated=['sockets, TLS', 'box service', 'disk faults, crash'])
ASSUMPTIONS = ['the folder fits one page of the box listing (100 entries)',
               'the service reports the sha1 of the whole remote file',
               'no time limit is used: a server that stalls for ever is not '
               'injected']
MODELS = ['TPXO9-atlas-v5', 'TPXO9-atlas-v5-nc', 'TPXO9-atlas', 'TPXO10-atlas-v2']
EXTRA = ['readme.txt', 'DATA', 'xh_m2', 'license_h', 'Atlas_h.txt']
ZONES = [0, -8, 5.5, 14]
DAMAGE = ['cut', 'grow', 'flip', 'swap', 'missing', 'empty']


def names_of(model):
    m = pyTMD.io.model('/nowhere', verify=False).elevation(model)
    files = [m.grid_file.name] + [f.name for f in m.model_file]
    c = pyTMD.io.model('/nowhere', verify=False).current(model)
    return files, sorted({f.name for f in c.model_file['u']}), \
        m.model_file[0].parent.name


TABLE = {m: names_of(m) for m in MODELS}


def generate(rng, idx, tier):
    model = rng.choice(MODELS)
    ops, faults = [], []
    k = 0
    n_files = len(TABLE[model][0])
    for i in range(rng.randint(1, 4)):
        for _ in range(rng.choice([0, 0, 1, 1, 2]) if i == 0 else rng.choice([0, 0, 1])):
            ops.append(dict(id=k, do='damage', kind=rng.choice(DAMAGE),
                            where=rng.choice(['z', 'z', 'u']),
                            which=rng.randint(0, 30), pos=round(rng.random(), 3)))
            k += 1
        if i and rng.random() < 0.5:
            ops.append(dict(id=k, do='repair', which=rng.choice([None, rng.randint(0, 30)])))
            k += 1
        if rng.random() < 0.2:
            ops.append(dict(id=k, do='remote', which=rng.randint(0, 30),
                            near=rng.choice([0, 0, 1, 8, 20, 39])))
            k += 1
        op = dict(id=k, do='verify', currents=rng.random() < 0.5,
                  mode=rng.choice([0o775, 0o644, 0o600, 0o755]), proto='https',
                  main=rng.random() < 0.3, timeout=None)
        ops.append(op)
        k += 1
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if rng.random() < 0.4:
                f = dict(op=op['id'], dev='disk',
                         kind=rng.choice(['crash', 'eio', 'eacces', 'read_eio']))
                if f['kind'] == 'read_eio':
                    f['at'] = rng.randint(0, 20)
                else:
                    f['at'] = rng.randint(0, 15)
                    if rng.random() < 0.6:
                        f['on'] = rng.choice(['utime', 'chmod'])
                        f['at'] = rng.randint(0, 6)
                    if f['kind'] == 'crash':
                        f['frac'] = 0.5
                faults.append(f)
            else:
                f = dl.gen_net_fault(rng, op)
                f['conn'] = rng.choice([0, 0, 1, 2, 3, 5, 10, 20])
                if 'stall' in f['kind']:
                    f['kind'] = 'reset_before'
                if rng.random() < 0.15:
                    f['kind'] = 'corrupt'
                    f['frac'] = rng.random()
                faults.append(f)
    return dict(model=model, zone=rng.choice(ZONES), seg=rng.choice([0, 100]),
                size=rng.choice([1, 50, 5000, 70000]), extra=rng.sample(EXTRA, 2),
                order=rng.randint(0, 10**6), framing=rng.choice(['length', 'chunked']),
                drop=[rng.randint(0, 30)] if rng.random() < 0.15 else [],
                ops=ops, faults=faults)


def fmt_time(t, zone):
    s = time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(t + zone * 3600))
    sign = '-' if zone < 0 else '+'
    z = abs(zone)
    return f'{s}{sign}{int(z):02d}:{int(z % 1 * 60):02d}'


class Box:
    def __init__(self, sc, world):
        self.sc = sc
        self.world = world
        self.files = {}          # name -> [data, mtime, id]
        self.near = {}           # name -> checksum of a remote version that
        # nobody downloads, similar to the one of the local file
        elev, cur, _ = TABLE[sc['model']]
        names = elev + cur + sc['extra']
        import random
        random.Random(sc['order']).shuffle(names)
        for i, n in enumerate(names):
            self.files[n] = [content('box/' + n, sc['size'] + i), BASE_TIME - 10**6 * (i + 1),
                             f'{1000 + i}']

    def handler(self, req):
        if req['headers'].get('authorization') != 'Bearer tok':
            return Response(401, b'{"code":"unauthorized"}')
        js = [('Content-Type', 'application/json')]
        p = req['path'].strip('/').split('/')
        if p[:2] == ['2.0', 'folders'] and p[2:] == ['77', 'items']:
            ent = [dict(type='file', id=v[2], name=n, etag='0',
                        sha1=self.near.get(n) or hashlib.sha1(v[0]).hexdigest())
                   for n, v in self.files.items()]
            ent.insert(1, dict(type='folder', id='5', name='h_folder'))
            return Response(200, json.dumps(dict(
                total_count=len(ent), offset=0, limit=100, entries=ent)).encode(),
                js, self.sc['framing'])
        if p[:2] == ['2.0', 'files']:
            for n, v in self.files.items():
                if p[2:] == [v[2]]:
                    return Response(200, json.dumps(dict(
                        type='file', id=v[2], name=n, size=len(v[0]),
                        modified_at=fmt_time(v[1], self.sc['zone']))).encode(),
                        js, self.sc['framing'])
        return Response(404, b'{"code":"not_found"}')


def execute(sc, ctx):
    world = World(ctx, sc['faults'], sc['seg'])
    remote = Box(sc, world)
    world.net.add('api.box.com', 443, HTTPServer(remote.handler))
    world.net.add('app.box.com', 443, HTTPServer(lambda r: Response(200, b'<html/>')))
    elev, cur, sub = TABLE[sc['model']]
    drop = {(elev + cur)[i % len(elev + cur)] for i in sc['drop']}
    for n in drop:
        remote.files.pop(n, None)
    top = os.path.join(ctx.root, 'models')
    base = os.path.join(top, sub)
    names = elev + cur
    good = {n: content('box/' + n, 0) for n in names}
    for n in names:
        good[n] = remote.files[n][0] if n in remote.files else b'local only'
        put(os.path.join(base, n), good[n])
    with world.net, Disk(ctx, sc['faults']) as disk:
        for op in sc['ops']:
            ctx.advance(1000)
            if op['do'] == 'damage':
                pool = elev if op['where'] == 'z' else cur
                n = pool[op['which'] % len(pool)]
                damage(os.path.join(base, n), op, names, base)
            elif op['do'] == 'repair':
                for i, n in enumerate(names):
                    if op['which'] is None or i == op['which'] % len(names):
                        if n in remote.files:
                            remote.near.pop(n, None)
                            put(os.path.join(base, n), remote.files[n][0])
            elif op['do'] == 'remote':
                n = names[op['which'] % len(names)]
                if n in remote.files:
                    v = remote.files[n]
                    v[0] = content(f"box/{n}/{op['id']}", len(v[0]))
                    v[1] += 1000
                    data = peek(os.path.join(base, n))
                    remote.near.pop(n, None)
                    if op.get('near') and data is not None:
                        a = hashlib.sha1(data).hexdigest()
                        b = hashlib.sha1(v[0]).hexdigest()
                        # the same first (or last) digits
                        i, j = op['near'], 39 - op['near']
                        other = lambda c: format(int(c, 16) ^ 5, 'x')
                        remote.near[n] = (a[:i] + other(a[i]) + b[i + 1:]
                                          if op['id'] % 2 else
                                          b[:j] + other(a[j]) + a[j + 1:])
            else:
                verify(sc, op, remote, world, disk, ctx, top, base, elev, cur)
        # an undisturbed verification of intact files
        remote.near.clear()
        for n in names:
            put(os.path.join(base, n), remote.files[n][0] if n in remote.files else good[n])
        op = dict(id='final', do='verify', currents=True, mode=0o644, main=False)
        if verify(sc, op, remote, world, disk, ctx, top, base, elev, cur) != 'ok':
            raise Violation('spurious-error', 'intact files failed verification')


def damage(path, op, names, base):
    data = peek(path)
    if data is None:
        return
    pos = min(int(op['pos'] * len(data)), len(data) - 1) if data else 0
    k = op['kind']
    if k == 'missing':
        os.unlink(path)
        return
    if k == 'cut':
        data = data[:pos]
    elif k == 'grow':
        data = data + b'\0'
    elif k == 'empty':
        data = b''
    elif k == 'flip' and data:
        data = data[:pos] + bytes([data[pos] ^ 1]) + data[pos + 1:]
    elif k == 'swap':
        other = peek(os.path.join(base, names[0]))
        data = other if other is not None and other != data else data[::-1] + b'x'
    st = os.stat(path)
    with open(path, 'wb') as f:
        f.write(data)
    os.utime(path, (st.st_atime, st.st_mtime))


def verify(sc, op, remote, world, disk, ctx, top, base, elev, cur):
    net = world.net
    sel = [n for n in remote.files if n.startswith(('grid', 'h_'))
           or (op['currents'] and n.startswith('u'))]
    local = {n: peek(os.path.join(base, n)) for n in elev + cur}
    bad = [n for n in sel if local[n] != remote.files[n][0] or n in remote.near]
    gone = [n for n in elev if local[n] is None]
    before = {n: meta(os.path.join(base, n)) for n in elev + cur}
    disk.begin(op['id'])
    net.begin(op['id'])
    outcome, exc = 'ok', None
    try:
        if op['main']:
            import sys
            argv = sys.argv
            sys.argv = ['x', '--directory', top, '--token', 'tok', '--folder', '77',
                        '--tide', sc['model'], '--mode', f"{op['mode']:o}"] + \
                (['--currents'] if op['currents'] else [])
            try:
                box.main()
            finally:
                sys.argv = argv
        else:
            box.build_opener('tok')
            box.verify_box_tpxo(pathlib.Path(top), '77', TIDE_MODEL=sc['model'],
                                CURRENTS=op['currents'], MODE=op['mode'])
    except SimCrash:
        outcome = 'crash'
    except Violation:
        raise
    except Exception as e:
        outcome, exc = 'error', e
    fired = disk.end() + net.end()
    kinds = sorted(f['kind'] for f in fired)
    ctx.log('verify', op['id'], outcome, type(exc).__name__, len(bad), len(gone))
    ctx.state(sc['model'], op['currents'], len(bad), len(gone), kinds, outcome)
    if fired or bad or gone:
        ctx.nontrivial = True
    for n in elev + cur:
        if peek(os.path.join(base, n)) != local[n]:
            raise Violation('file-changed', f'{n} was changed by the verification')
    if outcome == 'ok':
        if bad or gone:
            raise Violation('damaged-accepted', f'verification passed although '
                            f'{(bad + gone)[:3]} differ from the remote files')
        for n in sel:
            st = os.stat(os.path.join(base, n))
            if int(st.st_mtime) != remote.files[n][1]:
                raise Violation('wrong-mtime', f'{n}: {st.st_mtime} instead of '
                                f'{remote.files[n][1]}')
            if st.st_mode & 0o777 != op['mode']:
                raise Violation('wrong-mode', f'{n}: {st.st_mode & 0o777:o}')
        ctx.probe('verified')
    for n in elev + cur:
        if n in bad or n not in sel:
            if meta(os.path.join(base, n)) != before[n]:
                raise Violation('stamped', f'{n} was stamped although it '
                                + ('failed' if n in bad else 'was not verified'))
    if outcome == 'error':
        ctx.probe('rejected')
        hard = [f for f in fired if f['kind'] not in ('delay', 'short')]
        if not bad and not gone and not hard and not any(
                f['kind'] == 'delay' and op['main'] for f in fired):
            raise Violation('spurious-error', f'{exc!r}')
    return outcome


def meta(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    return (st.st_mtime, st.st_mode)
