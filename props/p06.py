"""P06: token and JSON service calls report what the server really did."""
import builtins
import getpass
import json
import os

from sim.core import Violation
from sim.disk import BASE_TIME
from sim.world import (World, content, md5, USER, PASSWORD, URS, HTTP_HOST,
                       FTP_HOST, CDDIS)

import pyTMD.utilities as U

ID = 'P06'
RUNS = dict(quick=4000, thorough=80000)
RULE = ('a run is a history of 2-8 service calls (create, list, revoke token; '
        'JSON document; http, ftp and login checks) against one server with '
        '0-2 network faults each; non-trivial: a fault fired or the server '
        'refused; distinct by hash of the full event trace')
STATE_MEASURE = '(call, tokens held, faults fired, server effect, outcome)'
COMPONENTS = dict(real=['pyTMD.utilities', 'urllib', 'http.client', 'ftplib',
                        'json'],
                  simulated=['sockets, TLS', 'token service, JSON service, '
                             'login service, ftp server', 'keyboard'])
ASSUMPTIONS = ['token calls set no timeout, so a server that stays silent for '
               'ever is not injected there']
HARD = ['dns', 'refused', 'ctimeout', 'unreachable', 'reset_before',
        'close_before', 'status', 'garbage', 'send_reset', 'tls', 'lost_request']
BODY = ['reset', 'truncate', 'corrupt', 'delay']


def generate(rng, idx, tier):
    ops, faults = [], []
    for i in range(rng.randint(2, 8)):
        do = rng.choice(['create', 'create', 'list', 'list', 'revoke', 'revoke',
                         'json', 'check', 'ftpcheck', 'credcheck'])
        op = dict(id=i, do=do, build=rng.random() < 0.4,
                  which=rng.choice(['first', 'last', 'first', 'last', 'bogus', 'old']),
                  creds=rng.choice(['good', 'good', 'good', 'bad']),
                  scheme=rng.choice(['http', 'https']),
                  doc=rng.choice(['doc.json', 'list.json', 'missing.json',
                                  'html', 'big.json']),
                  host=rng.choice(['str', 'list']),
                  timeout=rng.choice([None, 10]))
        ops.append(op)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.choice(HARD + BODY)
            f = dict(op=i, dev='net', kind=k, conn=0)
            if op['build'] and do in ('create', 'list', 'revoke'):
                f['conn'] = rng.choice([0, 1, 1, 1, 2])
            if k == 'status':
                f['status'] = rng.choice([400, 403, 404, 429, 500, 503])
            if k in BODY:
                f['frac'] = rng.choice([0.0, 0.5, rng.random(), 0.99])
                f['dt'] = rng.choice([1.0, 15.0, 60.0])
            if do == 'ftpcheck':
                k = f['kind'] = rng.choice(['dns', 'refused', 'ctimeout',
                                            'ctrl_close', 'ctrl_reset',
                                            'ctrl_status', 'ctrl_status'])
                f['cmd'] = rng.choice(['*greeting', 'USER', 'PASS', 'NOOP'])
                if k == 'ctrl_status':
                    f['cmd'] = rng.choice(['USER', 'PASS', 'NOOP'])
                    f['status'] = rng.choice([421, 530, 500])
            faults.append(f)
    return dict(seg=rng.choice([0, 1, 100]),
                framing=rng.choice(['length', 'chunked']), ops=ops, faults=faults)


def execute(sc, ctx):
    os.environ['HOME'] = ctx.root
    world = World(ctx, sc['faults'], sc['seg'], sc['framing'],
                  ftp_login=(USER, PASSWORD))
    docs = {'doc.json': dict(a=[1, 2.5, None], b='tide ☾'),
            'list.json': [dict(id=i) for i in range(30)],
            'big.json': dict(x=list(range(4000)))}
    for k, v in docs.items():
        world.put('/pub/' + k, json.dumps(v, indent=1 if k != 'doc.json'
                                            else None).encode(), BASE_TIME)
    world.put('/pub/html', b'<html>not json</html>', BASE_TIME)
    world.put('/archive', b'ok', BASE_TIME)
    old = []
    saved = builtins.input, getpass.getpass
    builtins.input = lambda prompt='': (ctx.step(2000), USER)[1]
    getpass.getpass = lambda prompt='', stream=None: (ctx.step(2000), PASSWORD)[1]
    try:
        with world.net:
            for op in sc['ops']:
                one(op, world, ctx, docs, old)
    finally:
        builtins.input, getpass.getpass = saved


def one(op, world, ctx, docs, old):
    net = world.net
    do = op['do']
    if do in ('create', 'list', 'revoke') and not op['build']:
        # an earlier login is required: prepare the opener without faults
        net.begin('prep')
        U.build_opener(USER, PASSWORD if op['creds'] == 'good' else 'nope',
                       password_manager=False, get_ca_certs=False,
                       redirect=False, authorization_header=True, urs=URS)
        net.end()
    tokens = [dict(t) for t in world.tokens]
    n_log = len(world.token_log)
    n_req = len(net.requests)
    pw = PASSWORD if op['creds'] == 'good' else 'nope'
    kw = dict(build=op['build'])
    if op['build'] and do in ('create', 'list', 'revoke'):
        kw.update(username=USER, password=pw)
    ids = [t['access_token'] for t in tokens]
    target = {'first': ids[0] if ids else 'none', 'last': ids[-1] if ids else 'none',
              'bogus': 'tok-9999.x', 'old': old[-1] if old else 'gone'}[op['which']]
    net.begin(op['id'])
    res, exc = None, None
    try:
        if do == 'create':
            res = U.get_token(**kw)
        elif do == 'list':
            res = U.list_tokens(**kw)
        elif do == 'revoke':
            res = U.revoke_token(target, **kw)
        elif do == 'json':
            host = [f"{op['scheme']}://{HTTP_HOST}", 'pub', op['doc']]
            if op['host'] == 'str':
                host = '/'.join(host)
            res = U.from_json(host, timeout=op['timeout'])
        elif do == 'check':
            res = U.check_connection(
                f"{op['scheme']}://{HTTP_HOST}/pub/{op['doc']}")
        elif do == 'ftpcheck':
            res = U.check_ftp_connection(FTP_HOST, USER, pw)
        elif do == 'credcheck':
            U.build_opener(USER, pw, urs='https://' + URS)
            res = U.check_credentials()
    except Exception as e:
        exc = e
    if net.hung:
        raise Violation('hang', f'{do} blocks for ever')
    fired = net.end()
    if op['build'] and do in ('create', 'list', 'revoke'):
        # prompted retries use the good credentials
        pw = PASSWORD
    kinds = sorted(f['kind'] for f in fired)
    effect = world.token_log[n_log:]
    ctx.log(do, type(exc).__name__, effect, json.dumps(res, sort_keys=True,
                                                       default=str)[:200])
    ctx.state(do, len(tokens), kinds, len(effect), exc is None, op['creds'])
    if fired or exc:
        ctx.nontrivial = True
    if len(effect) > 1:
        raise Violation('repeated-effect', f'{do} changed the server '
                        f'{len(effect)} times: {effect}; faults {kinds}')
    if do in ('json', 'check', 'list', 'ftpcheck', 'credcheck') and effect:
        raise Violation('wrong-effect', f'{do} changed the server: {effect}')
    good = pw == PASSWORD
    sent = [r for r in net.requests[n_req:] if r['path'].startswith('/api/users/')]
    if do in ('create', 'list', 'revoke') and len(sent) > 1:
        raise Violation('repeated-request', f'{do} sent {len(sent)} requests')
    # faults that leave the answer intact
    limit = 20 if do in ('check', 'credcheck') else op['timeout'] if do == 'json' else None
    hard = [f for f in fired if not (f['kind'] == 'delay' and
                                     (limit is None or f['dt'] <= limit))]
    if do in ('check', 'credcheck'):
        # the answer arrived when its status line arrived
        hard = [f for f in hard if f['kind'] not in ('reset', 'truncate', 'corrupt',
                                                     'delay')]
    if do == 'revoke':
        hard = [f for f in hard if f['kind'] not in ('reset', 'truncate', 'corrupt',
                                                     'delay')]
    login_faults = op['build'] and do in ('create', 'list', 'revoke')
    ok = exc is None
    if do == 'create':
        can = good and len(tokens) < 2
        if ok:
            if not effect or effect[0][0] != 'create':
                raise Violation('no-effect', f'token reported but none created')
            if res != world.tokens[-1]:
                raise Violation('wrong-answer', f'{res} instead of {world.tokens[-1]}')
        elif can and not hard:
            raise Violation('spurious-error', f'create: {exc!r}')
    elif do == 'list':
        want = [dict(access_token=t['access_token'],
                     expiration_date=t['expiration_date']) for t in tokens]
        if ok:
            if res != want:
                raise Violation('wrong-answer', f'listed {res}, server has {want}')
            if not good:
                raise Violation('false-success', 'listing without a login')
        elif good and not hard:
            raise Violation('spurious-error', f'list: {exc!r}')
    elif do == 'revoke':
        if ok:
            if effect != [('revoke', target)]:
                raise Violation('no-effect', f'revoke({target}) returned, server '
                                f'did {effect}; faults {kinds}')
            old.append(target)
        elif good and target in ids and not hard:
            raise Violation('spurious-error', f'revoke: {exc!r}')
        if effect and effect != [('revoke', target)]:
            raise Violation('wrong-effect', f'revoked {effect}, asked {target}')
        gone = [t for t in tokens if t not in world.tokens]
        if len(gone) > 1:
            raise Violation('wrong-effect', f'{len(gone)} tokens vanished')
    elif do == 'json':
        if ok:
            if op['doc'] not in docs or res != docs[op['doc']]:
                raise Violation('wrong-answer', f"{op['doc']}: {str(res)[:100]}; "
                                f'faults {kinds}')
        elif op['doc'] in docs and not hard:
            raise Violation('spurious-error', f'json: {exc!r}')
    elif do == 'check':
        reach = op['doc'] != 'missing.json' and not hard
        if ok and (res is not True or not reach):
            raise Violation('false-success', f'check_connection gave {res!r}; '
                            f"doc {op['doc']}, faults {kinds}")
        if not ok and reach and not any(f['kind'] == 'delay' for f in fired):
            raise Violation('spurious-error', f'check: {exc!r}')
    elif do == 'ftpcheck':
        if ok and (res is not True or not good or hard):
            raise Violation('false-success', f'check_ftp_connection gave {res!r};'
                            f' faults {kinds} good={good}')
        if not ok and good and not hard:
            raise Violation('spurious-error', f'ftp check: {exc!r}')
    elif do == 'credcheck':
        if ok and (res is not True or not good or hard):
            raise Violation('false-success', f'check_credentials gave {res!r}; '
                            f'faults {kinds} good={good}')
        if not ok and good and not hard and not any(
                f['kind'] == 'delay' for f in fired):
            raise Violation('spurious-error', f'credentials check: {exc!r}')
    ctx.probe(do + ('_ok' if ok else '_error'))
