"""P05: login attempts are bounded, use the right credentials and end well."""
import builtins
import getpass
import os
import stat
import urllib.request

from sim.core import Violation, StepLimit
from sim.disk import Disk, put, peek, BASE_TIME
from sim.world import World, content, md5, USER, PASSWORD, URS, CDDIS

import pyTMD.utilities as U

ID = 'P05'
RUNS = dict(quick=4000, thorough=80000)
RULE = ('a run is 1-3 logins: seeded credentials file (absent, other host, '
        'malformed, good, bad), environment, arguments, prompt answers, retry '
        'limit and opener options, with 0-4 network faults placed in chosen '
        'attempts; non-trivial: a rejected attempt or a fault; distinct by '
        'hash of the full event trace')
STATE_MEASURE = '(source of credentials, attempts, faults per attempt, outcome)'
COMPONENTS = dict(real=['pyTMD.utilities.attempt_login/build_opener/'
                        'check_credentials', 'urllib', 'netrc', 'cookies'],
                  simulated=['sockets, TLS', 'login service and archive',
                             'keyboard', 'disk faults on the credentials file'])
ASSUMPTIONS = ['the login service behaves like Earthdata: redirect to the '
               'login host, basic authentication there, session cookie back']
FAULTS = ['dns', 'refused', 'ctimeout', 'unreachable', 'reset_before',
          'close_before', 'status', 'garbage', 'stall_before', 'send_reset',
          'tls', 'delay']


def generate(rng, idx, tier):
    ops, faults = [], []
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        good = [USER, PASSWORD]
        bad = lambda: [rng.choice([USER, 'guest', 'nobody']),
                       rng.choice(['wrong', '', 'x y', 'päss']) or 'w']
        cred = lambda p: good if rng.random() < p else bad()
        retries = rng.choice([0, 1, 2, 3, 5, 5, 7, 9, None])
        op = dict(id=i, do='login',
                  netrc=rng.choice(['absent', 'other', 'malformed', 'cred',
                                    'cred', 'default']),
                  netrc_cred=cred(0.5), netrc_mode=rng.choice(
                      [0o600, 0o644, 0o666, 0o400, 0o640]),
                  env=cred(0.4) if rng.random() < 0.3 else None,
                  env_user_only=rng.random() < 0.2,
                  given=cred(0.4) if rng.random() < 0.5 else None,
                  given_user_only=rng.random() < 0.3,
                  prompts=[cred(0.4) for _ in range(12)],
                  # credentials file at another place
                  rc_given=rng.random() < 0.2,
                  retries=retries,
                  token_style=rng.random() < 0.3)
        for k in range(rng.choice([0, 0, 1, 1, 2, 4])):
            kind = rng.choice(FAULTS)
            f = dict(op=f'{i}/{rng.choice([0, 0, 1, 1, 2, 3, 4, 6])}', dev='net', kind=kind,
                     conn=rng.choice([0, 0, 1, 2, 3, 4]))
            if kind == 'status':
                f['status'] = rng.choice([403, 404, 429, 500, 503])
            if kind == 'delay':
                f['dt'] = rng.choice([0.5, 10.0, 60.0])
                f['frac'] = 0.3
            faults.append(f)
        if rng.random() < 0.15:
            faults.append(dict(op=i, dev='disk', kind=rng.choice(
                ['eacces', 'eio', 'read_eio']), at=0))
        ops.append(op)
    # fault scope uses attempt ids, so keep them out of op-id filtering
    for f in faults:
        f['attempt'] = f.pop('op')
    return dict(seg=rng.choice([0, 100]), ops=ops, faults=faults)


def execute(sc, ctx):
    faults = [dict(f, op=f['attempt']) for f in sc['faults']]
    world = World(ctx, faults, sc['seg'])
    world.put('/archive/x.dat', content('x', 500), BASE_TIME)
    for op in sc['ops']:
        with world.net, Disk(ctx, faults) as disk:
            one(op, world, disk, ctx)


def one(op, world, disk, ctx):
    net = world.net
    home = os.path.join(ctx.root, f"home{op['id']}")
    rc = os.path.join(home, 'login.txt' if op.get('rc_given') else '.netrc')
    os.makedirs(home, exist_ok=True)
    os.environ['HOME'] = home
    u, p = op['netrc_cred']
    quoted = f'"{p}"'
    text = dict(absent=None, other=f'machine example.org login {u} password {quoted}\n',
                malformed=f'machine {URS} login\nfoo bar\n',
                cred=f'machine other login a password b\nmachine {URS} login {u} password {quoted}\n',
                default=f'default login {u} password {quoted}\n')[op['netrc']]
    if text is not None:
        put(rc, text.encode(), mode=op['netrc_mode'])
    for k in ('EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD'):
        os.environ.pop(k, None)
    if op['env']:
        os.environ['EARTHDATA_USERNAME'] = op['env'][0]
        if not op['env_user_only']:
            os.environ['EARTHDATA_PASSWORD'] = op['env'][1]
    kw = {}
    if op['given']:
        kw['username'] = op['given'][0]
        if not op['given_user_only']:
            kw['password'] = op['given'][1]
    if op['retries'] is not None:
        kw['retries'] = op['retries']
    if op.get('rc_given'):
        kw['netrc'] = rc
        put(os.path.join(home, '.netrc'), f'default login {USER}x password'
            ' "y"\n'.encode(), mode=0o600)
    limit = 5 if op['retries'] is None else op['retries']
    if op['token_style']:
        kw.update(password_manager=False, get_ca_certs=False, redirect=False,
                  authorization_header=True)
    # simulated keyboard and attempt boundaries
    attempts = []          # (credentials presented, faults fired)
    state = dict(k=0, prompt=0, log=len(world.login_log), user=None)

    def close_attempt():
        if net.n_conn == 0:
            return
        fired = net.end()
        attempts.append((world.login_log[state['log']:], fired))
        state['log'] = len(world.login_log)
        state['k'] += 1
        net.begin(f"{op['id']}/{state['k']}")

    asked = []

    def fake_input(prompt=''):
        close_attempt()
        ctx.step(50)
        k = state['prompt']
        state['user'] = op['prompts'][k % len(op['prompts'])]
        state['prompt'] += 1
        asked.append('user')
        return state['user'][0]

    def fake_getpass(prompt='', stream=None):
        ctx.step(50)
        asked.append('password')
        if state['user'] is None:
            # only the password is missing
            return op['prompts'][0][1]
        return state['user'][1]

    saved = builtins.input, getpass.getpass
    builtins.input, getpass.getpass = fake_input, fake_getpass
    disk.begin(op['id'])
    net.begin(f"{op['id']}/0")
    res, exc = None, None
    try:
        res = U.attempt_login(URS, **kw)
    except Exception as e:
        exc = e
    finally:
        builtins.input, getpass.getpass = saved
    if net.hung:
        raise Violation('hang', 'login blocks for ever')
    close_attempt()
    net.end()
    dfired = disk.end()
    # --- which credentials should have been used, in order
    first = None
    rc_ok = text is not None and not any(
        f['kind'] in ('read_eio', 'eio', 'eacces') for f in dfired)
    if rc_ok and op['netrc'] in ('cred', 'default'):
        first = list(op['netrc_cred'])
    else:
        first = [None, None]
        if op['env']:
            first = [op['env'][0], None if op['env_user_only'] else op['env'][1]]
        if op['given']:
            # arguments take precedence over the environment
            first[0] = op['given'][0]
            if not op['given_user_only']:
                first[1] = op['given'][1]
    seq = []
    k = 0
    if first[0] is None:
        first[0] = op['prompts'][0][0]
        if first[1] is None:
            first[1] = op['prompts'][0][1]
        k = 1
    elif first[1] is None:
        first[1] = op['prompts'][0][1]
    seq.append(tuple(first))
    while len(seq) < limit + 1:
        seq.append(tuple(op['prompts'][k % len(op['prompts'])]))
        k += 1
    n = len(attempts)
    accepted = []
    for i, (creds, fired) in enumerate(attempts):
        bad = [f for f in fired if not (f['kind'] == 'delay' and f['dt'] <= 20)]
        used = {tuple(c) for c in creds}
        accepted.append(not bad and any(world.accounts.get(a) == b
                                        for a, b in used))
        if i < limit and used - {seq[i]}:
            raise Violation('wrong-credentials', f'attempt {i} used '
                            f'{sorted(used)} instead of {seq[i]}')
        if i < limit and not bad and not used:
            raise Violation('no-credentials', f'attempt {i} sent none')
    ctx.log('login', op['netrc'], n, accepted, type(exc).__name__, asked)
    ctx.state(op['netrc'], bool(op['given']), bool(op['env']), n, limit,
              [sorted(f['kind'] for f in a[1]) for a in attempts], exc is None)
    if n > 1 or any(a[1] for a in attempts) or not all(accepted):
        ctx.nontrivial = True
    if n > limit:
        raise Violation('too-many-attempts', f'{n} attempts, {limit} allowed')
    if exc is None:
        if not accepted or not accepted[-1]:
            raise Violation('false-success', f'login returned although no '
                            f'attempt was accepted ({n} attempts)')
        if any(accepted[:-1]):
            raise Violation('late-return', f'attempt {accepted.index(True)} was'
                            f' accepted but {n} were made')
        ctx.probe(f'accepted_at_{min(n, 5)}')
        # requests made afterwards carry the accepted credentials
        net.begin(f"{op['id']}/after")
        mark = len(world.login_log)
        try:
            how = res.open if op['id'] % 2 else urllib.request.urlopen
            body = how(f'https://{CDDIS}/archive/x.dat').read()
        except Exception as e:
            raise Violation('not-logged-in', f'request after login: {e!r}')
        net.end()
        if body != content('x', 500):
            raise Violation('not-logged-in', 'request after login got other data')
        later = {tuple(c) for c in world.login_log[mark:]}
        if later - {seq[n - 1]}:
            raise Violation('wrong-credentials', f'later request used {later}')
    else:
        if not isinstance(exc, Exception):
            raise exc
        if any(accepted):
            raise Violation('false-failure', f'attempt {accepted.index(True)} '
                            f'of {n} was accepted but login failed: {exc!r}')
        if n != limit:
            raise Violation('wrong-attempts', f'gave up after {n} of {limit} '
                            f'attempts: {exc!r}')
        ctx.probe('exhausted')
    if text is not None:
        if peek(rc) != text.encode():
            raise Violation('netrc-modified', 'credentials file was modified')
        m = stat.S_IMODE(os.stat(rc).st_mode)
        if m & 0o077 & ~op['netrc_mode'] or (m & 0o111 & ~op['netrc_mode']):
            raise Violation('netrc-exposed', f'mode {m:o}, was {op["netrc_mode"]:o}')
        # nobody else can read it any more (unless that was made impossible)
        if m & 0o077 and not dfired:
            raise Violation('netrc-exposed', f'mode {m:o} after a login')
