"""P04: remote listings are complete, correctly paired, filtered, ordered."""
import html
import os
import re
import time

from sim.core import Violation
from sim.disk import Disk, put, BASE_TIME
from sim.world import (World, apache_page, USER, PASSWORD, CDDIS, HTTP_HOST,
                       FTP_HOST)
from props import dl

import pyTMD.utilities as U

ID = 'P04'
AMBIENT = True
RUNS = dict(quick=3500, thorough=70000)
RULE = ('a run is 1-4 listings (ftp, Apache http/https, CDDIS with login, IERS,'
        ' sea level center) of 0-60 seeded entries in seeded server order with '
        '0-2 network faults each; non-trivial: two or more entries listed or a '
        'fault fired; distinct by hash of the full event trace')
STATE_MEASURE = '(kind, pattern, sort, entries class, faults, outcome)'
COMPONENTS = dict(real=['pyTMD.utilities', 'urllib', 'http.client', 'ftplib',
                        'lxml'],
                  simulated=['sockets, TLS, name service',
                             'http/ftp/login servers and their pages'])
ASSUMPTIONS = ['server pages follow the layouts the library documents',
               'a page cut short by a server that announces no length cannot '
               'be detected by any client and is not injected']
KINDS = ['ftp', 'http', 'https', 'cddis', 'iers', 'uhslc']
PATTERNS = [None, None, r'\.nc$', r'^bulletin', r'tpxo|got', r'\d{4}', 'zzz',
            r'^[a-m]', r'(?i)README']
STEMS = ['bulletina-', 'tpxo9_', 'got4.', 'h_m2_', 'README', 'finals', 'data',
         'Zeta', 'alpha', 'A_', 'm2.']
_gmtime, _strftime = time.gmtime, time.strftime


def generate(rng, idx, tier):
    ops, faults = [], []
    for i in range(rng.randint(1, 4)):
        kind = rng.choice(KINDS)
        n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
        ent, names = [], set()
        while len(ent) < n:
            nm = rng.choice(STEMS) + str(rng.randint(0, 9999)) + rng.choice(
                ['', '.nc', '.txt', '.nc.gz', '.dat'])
            if nm in names:
                continue
            names.add(nm)
            isdir = rng.random() < 0.15
            mt = 946684800 + 60 * rng.randint(0, 10**7)
            ent.append([nm, None if (rng.random() < 0.08) else mt, isdir])
        op = dict(id=i, do='list', kind=kind, entries=ent,
                  pattern=rng.choice(PATTERNS), sort=rng.random() < 0.5,
                  basename=rng.random() < 0.5,
                  timeout=rng.choice([None, 5, 30]),
                  host=rng.choice(['list', 'str']),
                  proto='ftp' if kind == 'ftp' else
                  'cddis' if kind == 'cddis' else 'http',
                  build=rng.random() < 0.7, netrc=rng.random() < 0.3,
                  parent=rng.random() < 0.7, missing=rng.random() < 0.05)
        ops.append(op)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            f = dl.gen_net_fault(rng, op)
            if kind == 'ftp' and rng.random() < 0.3:
                f = dict(op=i, dev='net', kind='ctrl_status', conn=0,
                         cmd='MDTM', status=450)
            if f['kind'].startswith('ctrl_') and rng.random() < 0.5:
                f['cmd'] = rng.choice(['NLST', 'MDTM', 'MDTM'])
                f['nth'] = rng.randint(0, max(0, n - 1)) if f['cmd'] == 'MDTM' else 0
                if f['kind'] == 'ctrl_status':
                    f['status'] = rng.choice([421, 450, 450, 550, 550])
            faults.append(f)
    return dict(seg=rng.choice([0, 1, 50, 1460]),
                framing=rng.choice(['length', 'length', 'chunked', 'close']),
                ops=ops, faults=faults)


def iers_page(entries):
    rows = []
    for nm, mt, isdir in entries:
        d = _strftime('%Y-%m-%d', _gmtime(mt)) if mt else '&nbsp;'
        rows.append(f'<tr><td class="$tdclass">Bulletin A</td>'
                    f'<td class="$tdclass"><span>{d}</span></td>'
                    f'<td class="$tdclass">vol</td>'
                    f'<td class="$tdclass"><a href="{nm}">version</a></td></tr>')
    return ('<html><body><table>' + ''.join(rows) + '</table></body></html>').encode()


def cddis_page(entries):
    rows = []
    for nm, mt, isdir in entries:
        if isdir:
            rows.append(f'<div class="archiveDir"><div class="archiveDirText">'
                        f'<a class="archiveDirText" href="{nm}">{nm}</a></div></div>')
        else:
            d = _strftime('%Y:%m:%d %H:%M:%S', _gmtime(mt)) + ' 1234' if mt else 'unknown'
            rows.append(f'<div class="archiveItem"><div class="archiveItemText">'
                        f'<a class="archiveItemText" href="{nm}">{nm}</a>'
                        f'<span class="fileInfo">{d}</span></div></div>')
    return ('<html><body>' + ''.join(rows) + '</body></html>').encode()


def uhslc_page(entries):
    return ('<html><body>' + ''.join(
        f'<a href="/x/{nm}">{nm}</a><br>' for nm, _, _ in entries)
        + '</body></html>').encode()


def expected(op, fired):
    kind, ent = op['kind'], op['entries']
    if kind == 'ftp':
        names = [f'pub/dir/{nm}' for nm, _, _ in ent]
        mt = [None if isdir else m for _, m, isdir in ent]
        for f in fired:
            if f['kind'] == 'ctrl_status' and f.get('cmd') == 'MDTM' and \
                    f['status'] == 550 and f.get('nth', 0) < len(mt):
                mt[f.get('nth', 0)] = None
        if op['basename']:
            names = [nm for nm, _, _ in ent]
    elif kind in ('http', 'https'):
        names = [nm + ('/' if isdir else '') for nm, _, isdir in ent]
        mt = [m for _, m, _ in ent]
        if op['parent']:
            names = ['/parent/'] + names
            mt = [None] + mt
    elif kind == 'cddis':
        d = [(nm, None) for nm, _, isdir in ent if isdir]
        f = [(nm, m) for nm, m, isdir in ent if not isdir]
        names = [n for n, _ in d + f]
        mt = [m for _, m in d + f]
    elif kind == 'iers':
        names = [nm for nm, _, _ in ent][::-1]
        mt = [m and m - m % 86400 for _, m, _ in ent][::-1]
    else:
        names = [nm for nm, _, _ in ent]
        mt = [None] * len(names)
    pairs = list(zip(names, mt))
    if kind != 'iers':
        if op['pattern']:
            pairs = [p for p in pairs if re.search(op['pattern'], p[0])]
        if op['sort']:
            pairs.sort(key=lambda p: p[0])
    return pairs


def execute(sc, ctx):
    home = os.path.join(ctx.root, 'home')
    os.makedirs(home)
    os.environ['HOME'] = home
    put(os.path.join(home, '.netrc'), (
        f'machine urs.earthdata.nasa.gov login {USER} password {PASSWORD}\n'
    ).encode(), mode=0o600)
    world = World(ctx, sc['faults'], sc['seg'], sc['framing'])
    with world.net, Disk(ctx) as disk:
        for op in sc['ops']:
            one(op, world, ctx)


def one(op, world, ctx):
    kind = op['kind']
    ent = op['entries']
    world.pages.clear()
    world.files.clear()
    world.pages['/archive/list/'] = lambda: cddis_page(ent)
    world.pages['/archive/list'] = world.pages['/archive/list/']
    world.pages['/pub/dir'] = dict(
        http=lambda: apache_page([(n + ('/' if d else ''), m) for n, m, d in ent],
                                 op['parent']),
        iers=lambda: iers_page(ent), uhslc=lambda: uhslc_page(ent)).get(
            kind, lambda: apache_page([(n + ('/' if d else ''), m)
                                       for n, m, d in ent], op['parent']))
    if kind == 'ftp':
        world.put('pub/dir2/other', b'x', BASE_TIME)
        for nm, m, isdir in ent:
            world.put(f'pub/dir/{nm}' + ('/inner' if isdir else ''), b'x',
                      m or BASE_TIME)
        nodate = {f'pub/dir/{nm}' for nm, m, d in ent if m is None}
        world.ftp.nodate = nodate
    leaf = 'dir-missing' if op['missing'] else 'dir'
    net = world.net
    net.begin(op['id'])
    res, exc = None, None
    kw = dict(timeout=op['timeout'])
    if kind != 'iers':
        if op['pattern']:
            kw['pattern'] = op['pattern']
        kw['sort'] = op['sort']
    try:
        if kind == 'ftp':
            host = [FTP_HOST, 'pub', leaf]
            if op['host'] == 'str':
                host = '/'.join(host)
            res = U.ftp_list(host, basename=op['basename'], **kw)
        elif kind == 'cddis':
            host = [f'https://{CDDIS}', 'archive', 'list' + leaf[3:]]
            if op['host'] == 'str':
                host = '/'.join(host)
            if op['build'] and op['netrc']:
                res = U.cddis_list(host, build=True, **kw)
            else:
                res = U.cddis_list(host, username=USER, password=PASSWORD,
                                   build=op['build'], **kw)
        else:
            scheme = 'https' if kind != 'http' else 'http'
            host = [f'{scheme}://{HTTP_HOST}', 'pub', leaf]
            if op['host'] == 'str':
                host = '/'.join(host)
            fn = dict(iers=U.iers_list, uhslc=U.uhslc_list).get(kind, U.http_list)
            res = fn(host, **kw)
            if kind == 'uhslc':
                res = (res, [None] * len(res))
    except Exception as e:
        exc = e
    if net.hung:
        raise Violation('hang', f'{kind} listing blocks for ever')
    fired = net.end()
    kinds = sorted(f['kind'] for f in fired)
    ctx.log('list', kind, type(exc).__name__, res)
    ctx.state(kind, bool(op['pattern']), op['sort'], min(len(ent), 3), kinds,
              exc is None)
    if fired or len(ent) > 1:
        ctx.nontrivial = True
    if exc is None:
        if op['missing']:
            raise Violation('missing-listed', f'{kind}: a directory that does '
                            f'not exist was listed as {res}')
        if not (isinstance(res, tuple) and len(res) == 2):
            raise Violation('wrong-result', f'{res!r}')
        got = [(str(a), None if b is None else int(b)) for a, b in zip(*res)]
        if len(res[0]) != len(res[1]):
            raise Violation('unpaired', f'{kind}: {len(res[0])} names and '
                            f'{len(res[1])} times')
        want = expected(op, fired)
        if got != want:
            raise Violation('wrong-listing', f'{kind}: got {got[:6]}... ({len(got)})'
                            f', server lists {want[:6]}... ({len(want)}); '
                            f'faults {kinds}')
        ctx.probe('listed_' + kind)
    else:
        benign = dl.effective(fired, op)
        if not benign and not op['missing']:
            # an empty ftp directory may be reported as an error
            if kind == 'ftp' and not ent:
                return
            raise Violation('spurious-error', f'{kind}: {exc!r}')
        ctx.probe('error_' + kind)
