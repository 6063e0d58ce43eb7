"""Simulation core: scenarios, seeded runs, isolation, minimisation, evidence.

One scenario (a JSON document) is one exactly repeatable execution.  Every run
is executed in a process forked from a warmed parent.
"""
import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(REPO, 'pyTMD')
CPU_LIMIT = 120          # seconds of CPU time for one run
WALL_LIMIT = 400         # seconds of wall time for one run (harness error)


class Violation(Exception):
    """The code under test broke the property."""
    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = str(msg)


class HarnessError(Exception):
    """The simulator itself is at fault."""


class SimCrash(BaseException):
    """The simulated process died."""


class StepLimit(BaseException):
    """The code under test made no progress within the step budget."""


class CpuLimit(BaseException):
    """The code under test used more CPU time than any correct run."""


def seed_of(seed, prop, idx, salt=''):
    h = hashlib.sha256(f'{seed}/{prop}/{idx}/{salt}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Ctx:
    """What one run records: trace, faults, probes, simulated time."""

    def __init__(self, root, max_steps=200000):
        self.root = str(root)
        self._hash = hashlib.sha256()
        self.tail = []
        self.n_events = 0
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.nontrivial = False
        self.states = set()
        self.interleavings = 0
        self.notes = {}

    def log(self, *args):
        line = ' '.join(str(a) for a in args).replace(self.root, '$ROOT')
        self._hash.update(line.encode('utf8', 'replace') + b'\n')
        self.n_events += 1
        self.tail.append(line[:400])
        if len(self.tail) > 400:
            del self.tail[:200]

    def fault(self, kind, *args):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('FAULT', kind, *args)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *args):
        """note an abstract state (for the distinct-state measure)"""
        self.states.add(hashlib.sha256(repr(args).encode()).hexdigest()[:12])

    def step(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise StepLimit(f'more than {self.max_steps} simulated steps')

    def advance(self, dt):
        self.sim_time += dt

    def digest(self):
        return self._hash.hexdigest()[:24]


def in_lib(tb):
    """innermost frame of the traceback that lies in the library"""
    hit = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(LIB) or fn.startswith(os.path.join(REPO, 'scripts')):
            hit = (os.path.relpath(fn, REPO), tb.tb_lineno,
                   tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return hit


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def ambient(seed, prop, idx):
    """time zone and file creation mask of the process of a run"""
    r = random.Random(f'{seed}-{prop}-{idx}-ambient')
    return dict(tz=r.choice(['UTC', 'UTC', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30',
                             '<+13>-13', 'CET-1CEST,M3.5.0,M10.5.0/3']),
                umask=r.choice([0o022, 0o022, 0o002, 0o077]))


def execute_once(mod, sc, keep_log=False):
    """execute a scenario in *this* process; returns a result dictionary"""
    root = os.path.join(scratch_base(), f'vps{os.getpid():09d}')
    if os.path.exists(root):
        shutil.rmtree(root)
    os.makedirs(root)
    ctx = Ctx(root, max_steps=getattr(mod, 'MAX_STEPS', 200000))
    res = dict(verdict='ok', cls=None, msg=None)

    def on_cpu(signum, frame):
        raise CpuLimit(f'more than {CPU_LIMIT} s of CPU time')
    old = signal.signal(signal.SIGPROF, on_cpu)
    signal.setitimer(signal.ITIMER_PROF,
                     getattr(mod, 'CPU_LIMIT', CPU_LIMIT))
    cwd = os.getcwd()
    around = sc.get('ambient')
    if around:
        os.environ['TZ'] = around['tz']
        time.tzset()
        umask = os.umask(around['umask'])
    try:
        os.chdir(root)
        mod.execute(sc, ctx)
    except Violation as e:
        res.update(verdict='violation', cls=e.cls, msg=e.msg)
    except HarnessError as e:
        res.update(verdict='harness', cls='harness', msg=traceback.format_exc())
    except (StepLimit, CpuLimit) as e:
        hit = in_lib(e.__traceback__)
        res.update(verdict='violation' if hit else 'harness',
                   cls='no-progress', msg=f'{e} (in {hit})')
    except SimCrash as e:
        res.update(verdict='harness', cls='harness',
                   msg='SimCrash escaped: ' + traceback.format_exc())
    except BaseException as e:
        hit = in_lib(e.__traceback__)
        tb = traceback.format_exc()
        if hit:
            res.update(verdict='violation',
                       cls=f'unexpected-{type(e).__name__}',
                       msg=f'{type(e).__name__}: {e} at {hit}\n{tb[-1500:]}')
        else:
            res.update(verdict='harness', cls='harness', msg=tb[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        try:
            os.chdir(cwd)
        except OSError:
            os.chdir('/')
        if around:
            os.umask(umask)
            os.environ['TZ'] = 'UTC'
            time.tzset()
    if res['msg']:
        res['msg'] = res['msg'].replace(root, '$ROOT')
    res.update(hash=ctx.digest(), events=ctx.n_events, faults=ctx.faults,
               probes=ctx.probes, sim_time=ctx.sim_time, steps=ctx.steps,
               nontrivial=bool(ctx.nontrivial), states=sorted(ctx.states),
               interleavings=ctx.interleavings, notes=ctx.notes)
    if keep_log or res['verdict'] != 'ok':
        res['tail'] = ctx.tail[-120:]
    try:
        real_rmtree(root)
    except OSError:
        pass
    return res


def real_rmtree(path):
    if not os.path.basename(path).startswith('vps'):
        raise HarnessError(f'refusing to remove {path}')
    for d, subs, files in os.walk(path):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(path, ignore_errors=True)


class Child:
    __slots__ = ('pid', 'fd', 'buf', 'key', 'start', 'sc')


def spawn(mod, sc, key):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            # nothing of the code under test may reach our stdout
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(null, 1)
                os.dup2(null, 2)
            res = execute_once(mod, sc)
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 3
            try:
                os.write(w, json.dumps(dict(
                    verdict='harness', cls='harness',
                    msg=traceback.format_exc()[-3000:])).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    c = Child()
    c.pid, c.fd, c.buf, c.key, c.start, c.sc = pid, r, b'', key, time.monotonic(), sc
    return c


def run_many(mod, items, workers, on_result, stop=None):
    """run (key, scenario) pairs in forked children, `workers` at a time"""
    items = iter(items)
    live = {}
    exhausted = False
    while True:
        while not exhausted and len(live) < workers and not (stop and stop()):
            try:
                key, sc = next(items)
            except StopIteration:
                exhausted = True
                break
            c = spawn(mod, sc, key)
            live[c.fd] = c
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            c = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                c.buf += b
                continue
            finish(c, live, on_result)
        now = time.monotonic()
        for fd in list(live):
            c = live[fd]
            if now - c.start > WALL_LIMIT:
                os.kill(c.pid, signal.SIGKILL)
                c.buf = json.dumps(dict(
                    verdict='harness', cls='harness',
                    msg=f'run {c.key} exceeded {WALL_LIMIT} s')).encode()
                finish(c, live, on_result)


def finish(c, live, on_result):
    os.close(c.fd)
    del live[c.fd]
    _, status = os.waitpid(c.pid, 0)
    root = os.path.join(scratch_base(), f'vps{c.pid:09d}')
    if os.path.isdir(root):
        real_rmtree(root)
    try:
        res = json.loads(c.buf.decode())
    except Exception:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        res = dict(verdict='died', cls='process-died',
                   msg=f'run {c.key}: process ended with status {status}'
                       f' (signal {sig})')
    res['wall'] = time.monotonic() - c.start
    on_result(c.key, c.sc, res)


def run_one(mod, sc):
    out = []
    run_many(mod, [(0, sc)], 1, lambda k, s, r: out.append(r))
    r = out[0]
    if r['verdict'] == 'died':
        # a native crash counts only if it repeats
        again = []
        run_many(mod, [(0, sc)], 1, lambda k, s, r: again.append(r))
        if again[0]['verdict'] == 'died' and again[0]['msg'] == r['msg']:
            r['verdict'] = 'violation'
        else:
            r['verdict'] = 'harness'
    return r


def signature(mod, sc, res):
    """identity of a violation, for the known-findings file"""
    f = getattr(mod, 'signature', None)
    if f:
        return f(sc, res)
    return res['cls']


# ---------------------------------------------------------------- minimiser
def ddmin_list(lst, test, budget):
    """remove elements of a list while test(list) stays true"""
    n = 2
    while len(lst) >= 1 and budget[0] > 0:
        chunk = max(1, len(lst) // n)
        reduced = False
        i = 0
        while i < len(lst) and budget[0] > 0:
            cand = lst[:i] + lst[i + chunk:]
            if len(cand) < len(lst) and test(cand):
                lst = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += chunk
        if not reduced:
            if chunk == 1:
                break
            n = min(n * 2, max(len(lst), 2))
    return lst


def minimise(mod, sc, cls, budget_runs=250, wall=90):
    t0 = time.monotonic()
    budget = [budget_runs]
    tried = {}

    def fails(cand):
        key = json.dumps(cand, sort_keys=True)
        if key in tried:
            return tried[key]
        if budget[0] <= 0 or time.monotonic() - t0 > wall:
            budget[0] = 0
            return False
        budget[0] -= 1
        r = run_one(mod, cand)
        ok = r['verdict'] == 'violation' and r['cls'] == cls
        tried[key] = ok
        return ok

    valid = getattr(mod, 'valid', lambda s: True)
    cur = json.loads(json.dumps(sc))
    changed = True
    while changed and budget[0] > 0:
        changed = False
        for field in ('faults', 'ops') + tuple(getattr(mod, 'SHRINK_LISTS', ())):
            lst = cur.get(field)
            if not isinstance(lst, list) or not lst:
                continue

            def test(cand, field=field):
                c = dict(cur)
                c[field] = cand
                if field == 'ops':
                    ids = {o.get('id') for o in cand if isinstance(o, dict)}
                    if 'faults' in c:
                        c['faults'] = [f for f in c['faults']
                                       if f.get('op') is None or f['op'] in ids]
                return valid(c) and fails(c)
            new = ddmin_list(lst, test, budget)
            if len(new) < len(lst):
                c = dict(cur)
                c[field] = new
                if field == 'ops' and 'faults' in c:
                    ids = {o.get('id') for o in new if isinstance(o, dict)}
                    c['faults'] = [f for f in c['faults']
                                   if f.get('op') is None or f['op'] in ids]
                cur = c
                changed = True
        for cand in getattr(mod, 'shrink', lambda s: [])(json.loads(json.dumps(cur))):
            if budget[0] <= 0:
                break
            if valid(cand) and cand != cur and fails(cand):
                cur = json.loads(json.dumps(cand))
                changed = True
                break
    return cur, budget_runs - budget[0]


# ------------------------------------------------------------------- checks
def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return {k['signature']: k for k in d.get('known', [])
            if k['property'] == prop}


def replay_path(prop, name):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{prop}-{name}.json')


def check(mod, prop, tier, seed, runs=None, workers=8, indices=None,
          hashes_to=None):
    t0 = time.monotonic()
    conf = mod.RUNS
    runs = runs or conf[tier]
    known = known_findings(prop)
    results = []
    stopper = dict(stop=False)
    firsts = {}
    agg = dict(faults={}, probes={}, sim_time=0.0, steps=0, events=0,
               interleavings=0)
    hashes = {}
    states = set()
    distinct = set()
    died = []
    harness = []
    counts = dict(ok=0, violation=0, known=0)
    samples = []
    kf_seen = {}

    issued = [0]
    budget = float(os.environ.get('VERIF_WALL', dict(
        quick=420, thorough=6 * 3600)[tier]))

    def gen():
        for idx in (indices if indices is not None else range(runs)):
            if time.monotonic() - t0 > budget:
                print(f'{prop}: stopped after {budget:.0f} s with '
                      f'{issued[0]} of {runs} runs')
                break
            issued[0] += 1
            rng = random.Random(seed_of(seed, prop, idx))
            sc = mod.generate(rng, idx, tier)
            sc['idx'] = idx
            if getattr(mod, 'AMBIENT', False):
                sc['ambient'] = ambient(seed, prop, idx)
            yield idx, json.loads(json.dumps(sc))

    def on_result(idx, sc, res):
        if res['verdict'] == 'died':
            died.append((idx, sc, res))
            return
        if res['verdict'] == 'harness':
            harness.append((idx, sc, res))
            if len(harness) > 3:
                stopper['stop'] = True
            return
        hashes[idx] = res['hash']
        for k in ('faults', 'probes'):
            for n, v in res[k].items():
                agg[k][n] = agg[k].get(n, 0) + v
        for k in ('sim_time', 'steps', 'events', 'interleavings'):
            agg[k] += res[k]
        states.update(res['states'])
        if res['nontrivial']:
            distinct.add(res['hash'])
        if len(samples) < 3 and res['nontrivial']:
            samples.append(sc)
        if res['verdict'] == 'ok':
            counts['ok'] += 1
            return
        sig = signature(mod, sc, res)
        if sig in known:
            counts['known'] += 1
            kf_seen[sig] = kf_seen.get(sig, 0) + 1
            return
        counts['violation'] += 1
        if sig not in firsts or idx < firsts[sig][0]:
            firsts[sig] = (idx, sc, res)
        if counts['violation'] >= 12:
            stopper['stop'] = True

    run_many(mod, gen(), workers, on_result, stop=lambda: stopper['stop'])
    for idx, sc, res in died[:4]:
        r = run_one(mod, sc)
        if r['verdict'] == 'harness':
            harness.append((idx, sc, dict(r, msg=res['msg'] + ' | ' + str(r['msg']))))
        else:
            on_result(idx, sc, r)
    # listed findings are re-verified explicitly from their committed replay
    for sig, k in known.items():
        print(f"KNOWN-FINDING: property={prop} {k['what']}"
              f" (seen {kf_seen.get(sig, 0)} times in this run)")
    code = 0
    reported = 0
    if firsts:
        for sig, (idx, sc, res) in sorted(firsts.items(), key=lambda kv: kv[1][0])[:2]:
            small, used = minimise(mod, sc, res['cls'])
            final = run_one(mod, small)
            if final['verdict'] != 'violation' or final['cls'] != res['cls']:
                small, final = sc, run_one(mod, sc)
            reproduced = (final['verdict'] == 'violation'
                          and final['cls'] == res['cls'])
            name = hashlib.sha256(sig.encode()).hexdigest()[:8]
            path = replay_path(prop, f'seed{seed}-run{idx}-{name}')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, index=idx,
                               violation=dict(cls=res['cls'], signature=sig,
                                              msg=final.get('msg') if reproduced
                                              else res['msg']),
                               scenario=small, trace_hash=final.get('hash'),
                               trace_tail=final.get('tail'),
                               minimiser_runs=used,
                               reproduced=reproduced), f, indent=1)
            print(f"violation class={res['cls']} seed={seed} run={idx} "
                  f"ops={len(small.get('ops', []))} "
                  f"faults={len(small.get('faults', []))} "
                  f"reproduced={reproduced}")
            print('  ' + str((final if reproduced else res)['msg'])[:1500]
                  .replace('\n', '\n  '))
            print(f'VIOLATION property={prop} replay={path}')
            reported += 1
        code = 1
    elif harness:
        for idx, sc, res in harness[:3]:
            print(f'HARNESS-ERROR property={prop} run={idx}: {res["msg"]}')
        code = 2
    wall = time.monotonic() - t0
    n = counts['ok'] + counts['violation'] + counts['known']
    if code == 0 and (n != issued[0] or not n):
        print(f'HARNESS-ERROR property={prop}: {n} of {issued[0]} runs completed')
        code = 2
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=n,
            distinct_nontrivial=len(distinct),
            rule=mod.RULE,
            samples=samples[:3] or [dict(none='no non-trivial run')],
            runs_per_hour=round(n / wall * 3600) if wall else 0,
            seeds=f'sha256({seed}/{prop}/0..{issued[0] - 1})',
            simulated_seconds=round(agg['sim_time'], 3),
            simulated_steps=agg['steps'],
            trace_events=agg['events'],
            faults_injected=dict(sorted(agg['faults'].items())),
            probes=dict(sorted(agg['probes'].items())),
            distinct_states=len(states),
            state_measure=getattr(mod, 'STATE_MEASURE',
                                  'distinct abstract states noted by the run'),
            context_switches=agg['interleavings'],
            distinct_traces=len(set(hashes.values())),
            components=mod.COMPONENTS,
            known_findings_seen=kf_seen,
        ),
        assumptions=list(mod.ASSUMPTIONS),
        wall_s=round(wall, 3),
        violations=counts['violation'])
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f'{prop}.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(EVIDENCE, f'{prop}.json'))
    if hashes_to:
        with open(hashes_to, 'w') as f:
            json.dump({str(k): v for k, v in sorted(hashes.items())}, f)
    print(f'{prop} {tier}: {n} runs, {len(distinct)} distinct non-trivial, '
          f'{sum(agg["faults"].values())} faults, {counts["violation"]} '
          f'violations, {wall:.1f} s -> exit {code}')
    return code


def replay(mod, prop, path):
    with open(path) as f:
        d = json.load(f)
    r = run_one(mod, d['scenario'])
    print(f"replay {path}: {r['verdict']} cls={r['cls']} hash={r.get('hash')} "
          f"(recorded {d.get('trace_hash')})")
    if r.get('tail'):
        print('\n'.join('   ' + t for t in r['tail'][-60:]))
    if r['verdict'] == 'violation':
        print('  ' + str(r['msg'])[:3000])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if r['verdict'] != 'ok':
        print(r['msg'])
        return 2
    return 0
