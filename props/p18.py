"""P18: results do not depend on call history and inputs are left unchanged."""
import os
import sys

import numpy as np

from props import calls, tm
from props.p13 import quiet
from sim import deep
from sim.core import Violation
from sim.fresh import Fresh

ID = 'P18'
RUNS = dict(quick=1500, thorough=60000)
RULE = ('a run is a history of 6-14 library calls in one process, some repeated or '
        'nearly repeated, some invalid, some failing because model files are gone or '
        'damaged or because an error strikes at a chosen line, with callers that '
        'overwrite what they were given and model files that are replaced in between; '
        'every other call is compared with what a fresh process gives; non-trivial: '
        'a call was compared after other calls; distinct by hash of the event trace')
STATE_MEASURE = '(kind of call, kind of the call before, fault before, form of inputs)'
COMPONENTS = dict(real=['pyTMD (compute, predict, arguments, astro, interpolate, spatial, '
                        'crs, io, solve)', 'numpy, scipy, netCDF4, pyproj, timescale'],
                  simulated=['model files, ephemerides and pole tide coefficients '
                             '(independent writers)', 'errors at chosen lines',
                             'loss and damage of model files',
                             'callers that overwrite results and reuse buffers'])
ASSUMPTIONS = ['the reference of a call is the same call in a process forked before '
               'the first call of the run',
               'an object that is shared between calls counts as unchanged if its '
               'public attributes are']
CPU_LIMIT = 240


def specs(rng, n=None):
    out = []
    for i in range(n or rng.choice([1, 2])):
        cons = rng.sample(calls.MAJOR, rng.choice([2, 3, 7, 8]))
        out.append(tm.spec(rng, currents=rng.random() < 0.3, cons=cons))
    return out


def generate(rng, idx, tier):
    sp = specs(rng)
    ops = []
    # a history of many kinds of calls, or many calls of a few kinds
    kinds = None
    if rng.random() < 0.5:
        kinds = rng.sample(sorted(calls.KINDS), rng.randint(2, 6))
        kinds += ['arguments.arguments'] * all(k in calls.MODELLED for k in kinds)
    for i in range(rng.randint(6, 14)):
        old = [o['call'] for o in ops if 'call' in o]
        k = rng.random()
        if ops and k < 0.05:
            ops.append(dict(id=i, op='update', m=rng.randrange(len(sp)),
                            seed=rng.randint(1, 10**6)))
            continue
        if old and k < 0.30:
            call = dict(rng.choice(old))
        elif old and k < 0.55:
            call = dict(rng.choice(old), v=rng.randrange(10**6))
        else:
            call = calls.generate(rng, sp, kinds)
        op = dict(id=i, op='call', call=call)
        if rng.random() < 0.35:
            op['scribble'] = rng.choice(['result', 'inputs', 'both'])
        ops.append(op)
    faults = []
    for o in ops:
        if o['op'] != 'call' or rng.random() > 0.18:
            continue
        f = dict(op=o['id'])
        if 'm' in o['call'] and rng.random() < 0.4:
            f.update(kind=rng.choice(['remove', 'empty', 'cut']), which=rng.randrange(100))
        else:
            f.update(kind='error', at=int(10 ** rng.uniform(0, 3.2)),
                     what=rng.choice(['MemoryError', 'KeyboardInterrupt', 'OSError']))
        faults.append(f)
    return dict(specs=sp, ops=ops, faults=faults)


def valid(sc):
    return any(o['op'] == 'call' for o in sc['ops'])


class Strike:
    """an error at the k-th line of library code that is executed"""

    def __init__(self, at, what):
        self.left, self.hit = at, None
        self.what = dict(MemoryError=MemoryError, KeyboardInterrupt=KeyboardInterrupt,
                         OSError=OSError)[what]
        import pyTMD
        self.lib = os.path.dirname(pyTMD.__file__)

    def __call__(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.lib) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.left -= 1
            if self.left <= 0 and self.hit is None:
                self.hit = f'{os.path.basename(frame.f_code.co_filename)}:' \
                           f'{frame.f_code.co_name}'
                raise self.what('injected')
        return self.line


def public(x, depth=0):
    """what a caller can see of an input"""
    if isinstance(x, (list, tuple)):
        return [public(v, depth) for v in x]
    if isinstance(x, dict):
        return {k: public(v, depth) for k, v in x.items()}
    if isinstance(x, np.ndarray) or not hasattr(x, '__dict__') or callable(x):
        return x
    if type(x).__name__ == 'crs':
        return [x.name, str(getattr(x, 'crs', None))]
    if not type(x).__module__.startswith('pyTMD') or depth > 3:
        return type(x).__name__
    return {k: public(v, depth + 1) for k, v in vars(x).items() if not k.startswith('_')}


def seen(f, a, kw):
    own = getattr(f, '__self__', None)
    if type(own).__name__ != 'model':
        own = None
    return deep.snap([public(a), public(kw), public(own)])


def scribble(x, depth=0):
    """a caller overwrites what it was given"""
    if isinstance(x, np.ma.MaskedArray):
        if x.flags.writeable and x.dtype.kind in 'fciu':
            np.ma.getdata(x)[...] = -7
            if x.mask is not np.ma.nomask:
                x.mask = True
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fciu':
            x[...] = -7
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, depth + 1)
        x['scribble'] = -7
    elif isinstance(x, list):
        for v in x:
            scribble(v, depth + 1)
        x.append(-7)
    elif isinstance(x, tuple) and depth < 3:
        for v in x:
            scribble(v, depth + 1)


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    Run(sc, ctx).run()


class Run:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.env = calls.Env(ctx.root, sc['specs'])
        self.fresh = Fresh(self.reference)
        self.before = None

    def reference(self, call):
        f, a, kw = calls.build(self.env, call)
        return calls.result(calls.run(f, a, kw))

    def run(self):
        for op in self.sc['ops']:
            self.ctx.advance(60)
            if op['op'] == 'update':
                self.update(op)
            else:
                self.call(op)
        self.fresh.close()

    def update(self, op):
        """the model files are replaced by others"""
        m = op['m']
        if m >= len(self.env.models):
            return
        rec = self.env.models[m]
        sp = dict(rec['spec'], seed=op['seed'])
        tm.write(sp, rec['dir'], tm.content(sp))
        for k in [k for k in self.env.shared if isinstance(k, tuple) and k[1] == m]:
            del self.env.shared[k]
        self.ctx.log('update', m)
        self.ctx.probe('model_files_replaced')

    def damage(self, fault, m):
        rec = self.env.models[m]
        names = sorted(os.path.join(d, f) for d, _, fs in os.walk(rec['dir']) for f in fs)
        path = names[fault['which'] % len(names)]
        aside = path + '.aside'
        os.rename(path, aside)
        if fault['kind'] == 'empty':
            open(path, 'w').close()
        elif fault['kind'] == 'cut':
            with open(aside, 'rb') as f, open(path, 'wb') as g:
                d = f.read()
                g.write(d[:int(len(d) * 0.6)])

        def restore():
            os.replace(aside, path)
        return restore

    def call(self, op):
        ctx, call = self.ctx, op['call']
        fault = ([f for f in self.sc['faults'] if f['op'] == op['id']] or [None])[0]
        # constants kept by the caller were read before anything fails
        f, a, kw = calls.build(self.env, call)
        before = seen(f, a, kw)
        restore, strike = None, None
        if fault and fault['kind'] == 'error':
            strike = Strike(fault['at'], fault['what'])
        elif fault and 'm' in call:
            restore = self.damage(fault, call['m'])
        try:
            if strike:
                sys.settrace(strike)
            out = calls.run(f, a, kw)
        except (KeyboardInterrupt, MemoryError) as e:
            out = ('error', repr(e))
            del e
        finally:
            sys.settrace(None)
            if restore:
                restore()
        bothered = (strike and strike.hit) or restore
        after = seen(f, a, kw)
        k = call['k']
        what = f'{k} ({calls.describe(call)})'
        if bothered:
            ctx.fault(fault['kind'], k, strike.hit if strike else '')
        ctx.log(op['id'], k, calls.describe(call), out[0])
        d = deep.diff(before, after)
        if d:
            raise Violation('inputs-changed', f'{what} changed its inputs'
                            f'{" when it failed" if out[0] == "error" else ""}: {d}')
        ctx.state(k, self.before, bool(bothered), call.get('form'), call.get('bad'))
        if not bothered:
            want = self.fresh.ask(call)
            got = calls.result(out)
            d = deep.diff(want, got)
            if d:
                raise Violation('history', f'{what} gives {short(got)} after '
                                f'{self.before}, but {short(want)} in a fresh process: {d}')
            if self.before:
                ctx.nontrivial = True
            ctx.probe('compared')
            ctx.probe('invalid' if out[0] == 'error' else 'ok')
        self.before = k
        s = op.get('scribble')
        if s in ('result', 'both') and k not in SHARED and out[0] == 'ok':
            scribble(out[1])
            ctx.probe('result_overwritten')
        if s in ('inputs', 'both') and k not in SHARED:
            for x in list(a) + list(kw.values()):
                if isinstance(x, (np.ndarray, list, dict)):
                    scribble(x)
            ctx.probe('inputs_overwritten')


# these give out parts of objects that belong to the caller
SHARED = ('constituents', 'model.interpolate', 'model.extract')


def short(r):
    return r[0] if r[0] == 'ok' else f'{r[0]} {r[1]}'
