"""P19: concurrent callers get the same results as if run alone."""

from sim import sched
sched.install()

from props import calls, p18  # noqa: E402
from props.p13 import quiet  # noqa: E402
from sim import deep  # noqa: E402
from sim.core import Violation  # noqa: E402
from sim.fresh import Fresh  # noqa: E402

ID = 'P19'
RUNS = dict(quick=1400, thorough=60000)
RULE = ('a run has 2-4 threads with 1-2 library calls each, on inputs and models of '
        'their own or shared, and switches between them at chosen lines (or bytecodes) '
        'of library code; every call is compared with the same call run alone in a '
        'fresh process; non-trivial: at least one switch happened inside a call; '
        'distinct by hash of the event trace')
STATE_MEASURE = '(kinds of the two calls, function in which one was interrupted)'
COMPONENTS = dict(real=['pyTMD (compute, predict, arguments, astro, interpolate, spatial, '
                        'crs, io, solve) in real threads', 'numpy, scipy, netCDF4, pyproj, '
                        'timescale'],
                  simulated=['thread scheduler (line or bytecode granularity)',
                             'locks of the library', 'model files'])
ASSUMPTIONS = ['threads switch only between lines or bytecodes of pyTMD: other '
               'libraries run without interruption',
               'projection objects are not shared between threads']
CPU_LIMIT = 300


def generate(rng, idx, tier):
    sp = p18.specs(rng)
    kinds = None
    k = rng.random()
    if k < 0.15:
        kinds = rng.choice([['model.interpolate'], ['model.interpolate', 'constituents'],
                            ['model.interpolate', 'model.extract', 'constituents']])
        sp = sp[:1]
    elif k < 0.65:
        kinds = rng.sample(sorted(calls.KINDS), rng.randint(1, 4))
        kinds += ['arguments.arguments'] * all(k in calls.MODELLED for k in kinds)
    nt = rng.choice([2, 2, 2, 3, 4])
    ops, old = [], []
    for t in range(nt):
        for j in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if old and k < 0.25:
                # the same call with inputs of its own
                call = dict(rng.choice(old))
            elif old and k < 0.45:
                call = dict(rng.choice(old), v=rng.randrange(10**6))
            else:
                call = calls.generate(rng, sp, kinds)
            if call.get('form') == 'reused':
                del call['form']
            old.append(call)
            op = dict(id=len(ops), t=t, call=call)
            if len(old) > 1 and rng.random() < 0.15:
                # the same call on the same input objects
                op['same'] = rng.randrange(len(old) - 1)
            ops.append(op)
    switches = []
    for k in range(rng.choice([1, 2, 3, 5, 10, 30, 100])):
        s = dict(op=rng.randrange(len(ops)), to=rng.randrange(nt))
        if rng.random() < 0.5:
            s.update(fn=round(rng.random(), 6), line=round(rng.random(), 6))
        else:
            s.update(at=round(rng.random(), 6))
        switches.append(s)
        if rng.random() < 0.3:
            switches.append(dict(s, plus=rng.randint(1, 6), to=rng.randrange(nt)))
    return dict(specs=sp, ops=ops, switches=switches, opcodes=rng.random() < 0.15)


SHRINK_LISTS = ('ops', 'switches')


def valid(sc):
    return bool(sc['ops'])


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    env = calls.Env(ctx.root, sc['specs'])
    env.one = lambda key, make: make()
    ops = sc['ops']

    def alone(call):
        f, a, kw = calls.build(env, call)
        out, n, first = sched.measure(lambda: calls.run(f, a, kw), sc['opcodes'])
        return calls.result(out), n, first
    fresh = Fresh(alone)
    ref, built = {}, {}
    for op in ops:
        src = [o for o in ops if o['id'] == op.get('same')]
        src = src[0] if src else None
        if src and src['id'] in built:
            op = dict(op, call=src['call'])
            built[op['id']] = built[src['id']]
            ref[op['id']] = ref[src['id']]
        else:
            built[op['id']] = calls.build(env, op['call'])
            ref[op['id']] = fresh.ask(op['call'])
    fresh.close()
    names = sorted({o['t'] for o in ops})
    per = [[o for o in ops if o['t'] == t] for t in names]
    # where the switches fall: counted in steps of the thread
    points = [{} for _ in names]
    for i, mine in enumerate(per):
        base = 0
        for o in mine:
            _, n, first = ref[o['id']]
            for s in sc['switches']:
                if s['op'] != o['id'] or not n:
                    continue
                if 'line' in s:
                    lines = first[int(s['fn'] * len(first))]
                    at = lines[int(s['line'] * len(lines))]
                else:
                    at = 1 + int(s['at'] * n)
                at = min(at + s.get('plus', 0), n)
                points[i].setdefault(base + at, s['to'])
            base += n
    before = {o['id']: p18.seen(*built[o['id']]) for o in ops}
    results = {}
    busy = [None] * len(names)

    def job(i):
        def body():
            for o in per[i]:
                busy[i] = o
                results[o['id']] = calls.run(*built[o['id']])
                busy[i] = None
        return body

    def on_switch(i, j, w):
        ctx.log('switch', i, j, *w)
        a, b = busy[i], busy[j]
        ctx.state(a and a['call']['k'], b and b['call']['k'], w[:2])
        ctx.nontrivial = True
        ctx.interleavings += 1
        if b:
            ctx.probe('both_inside_calls')

    s = sched.Sched([job(i) for i in range(len(names))], points, sc['opcodes'], on_switch)
    out = s.run()
    ctx.steps += sum(s.count)
    if s.made:
        ctx.fault('preemption', s.made)
        ctx.faults['preemption'] += s.made - 1
    ctx.advance(60)
    for e in out:
        if isinstance(e, BaseException):
            raise e
    for o in ops:
        want, got = ref[o['id']][0], calls.result(results[o['id']])
        ctx.log(o['id'], o['call']['k'], got[0])
        d = deep.diff(want, got)
        what = f"{o['call']['k']} ({calls.describe(o['call'])})"
        if d:
            raise Violation('interference', f'{what} gives {p18.short(got)} with other '
                            f'threads, but {p18.short(want)} alone: {d}')
        d = deep.diff(before[o['id']], p18.seen(*built[o['id']]))
        if d:
            raise Violation('inputs-changed', f'{what} changed its inputs: {d}')
