"""P25: a computation that cannot read its data fails and never invents values."""
import os

import pyTMD
import timescale

from props import calls
from props.p13 import quiet
from props.p18 import specs, short
from sim import deep
from sim.core import Violation
from sim.disk import Disk
from sim.fresh import Fresh

ID = 'P25'
RUNS = dict(quick=800, thorough=40000)
RULE = ('a run is 2-6 library calls, each disturbed by a file that is gone or cut short, '
        'cannot be opened, or fails at a chosen read (model files, definitions, '
        'databases, kernels, maps, tables), and then repeated undisturbed; '
        'non-trivial: a fault fired; distinct by hash of the event trace')
STATE_MEASURE = '(kind of call, fault, file it struck, outcome)'
COMPONENTS = dict(real=['pyTMD (compute, predict, arguments, astro, io)',
                        'numpy, scipy, netCDF4, pyproj, jplephem, timescale',
                        'file system below the seam'],
                  simulated=['model files, ephemerides and pole tide coefficients '
                             '(independent writers)', 'failing opens and reads',
                             'lost and cut files'])
ASSUMPTIONS = ['the reference of a call is the same call in a process forked before '
               'the first call of the run',
               'reads inside the netCDF and HDF5 libraries fail as a whole (the file '
               'is gone), see P14 for damage of such files',
               'text files that are not compressed are lost, not cut']
CPU_LIMIT = 240
DATA = [os.path.join(os.path.dirname(m.__file__), 'data') for m in (pyTMD, timescale)]
# calls that may read a file
KINDS = ['tide_elevations', 'tide_currents', 'tide_masks', 'LPET', 'LPT', 'OPT', 'SET',
         'predict.map', 'predict.drift', 'predict.time_series', 'predict.infer_minor',
         'predict.equilibrium_tide', 'predict.load_pole_tide', 'predict.ocean_pole_tide',
         'predict.solid_earth_tide', 'arguments._parameters', 'solve.constants',
         'model.extract', 'model.define', 'constituents', 'arguments.arguments',
         'arguments.minor_arguments', 'arguments.coefficients_table',
         'arguments.doodson_number', 'arguments.frequency', 'arguments.aliasing_period',
         'astro.solar_ecef', 'astro.lunar_ecef', 'astro.gast', 'astro.itrs']
ERRNO = ['ENOENT', 'EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ESTALE']


def generate(rng, idx, tier):
    sp = specs(rng)
    ops, faults = [], []
    for i in range(rng.randint(2, 6)):
        old = [o['call'] for o in ops]
        if old and rng.random() < 0.3:
            call = dict(rng.choice(old))
        else:
            call = calls.generate(rng, sp, KINDS)
            call.pop('bad', None)
        ops.append(dict(id=i, call=call))
        k = rng.random()
        f = dict(op=i, frac=rng.random())
        if k < 0.4:
            f.update(kind='no_open', errno=rng.choice(ERRNO))
        elif k < 0.65:
            f.update(kind='read_eio')
        elif k < 0.75:
            f.update(kind='gone')
        else:
            # anywhere, or only the end of it missing (the transfer stopped late)
            f.update(kind='cut', part=rng.random(),
                     tail=rng.choice([None, rng.randint(1, 12), rng.randint(9, 400)]))
            if rng.random() < 0.25:
                # the compressed map of the ocean pole tide is seldom read otherwise
                ops[-1]['call'] = calls.generate(rng, sp, ['OPT'])
                ops[-1]['call'].pop('bad', None)
                f['last'] = rng.random() < 0.8
        faults.append(f)
    return dict(specs=sp, ops=ops, faults=faults)


def valid(sc):
    return bool(sc['ops'])


def execute(sc, ctx):
    import faulthandler
    faulthandler.disable()
    quiet()
    Run(sc, ctx).run()


def can_cut(path, spec):
    """a part of it is not a valid file"""
    n = os.path.basename(path)
    if n == 'de.bsp' or n.endswith(('.gz', '.json')):
        return True
    return spec['format'].startswith('OTIS') and not n.endswith(('.def', '.txt'))


class Run:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.env = calls.Env(ctx.root, sc['specs'])
        self.fresh = Fresh(self.reference)

    def reference(self, call):
        """what the call gives, how many reads it needs, and the files it opens"""
        f, a, kw = calls.build(self.env, call)
        with Disk(self.ctx, [], DATA) as disk:
            disk.begin('-')
            out = calls.result(calls.run(f, a, kw))
            own = [p for p in disk.opened if p.startswith(disk.root)]
            return out, disk.no, disk.nr, sorted(set(own))

    def run(self):
        for op in self.sc['ops']:
            self.ctx.advance(60)
            self.call(op)
        self.fresh.close()

    def files(self, call, opened):
        """files of this deployment that belong to the call"""
        out = list(opened)
        if 'm' in call:
            rec = self.env.models[call['m']]
            out += [rec['path']] + [os.path.join(d, f) for d, _, fs in
                                    os.walk(rec['dir']) for f in fs]
        return sorted(set(out))

    def damage(self, fault, call, opened):
        names = self.files(call, opened)
        if fault['kind'] == 'cut':
            sp = self.env.models[call.get('m', 0)]['spec']
            names = [n for n in names if can_cut(n, sp)]
        if not names:
            return None, None
        path = names[int(fault['frac'] * len(names))]
        if fault.get('last') and self.env.pole in names:
            path = self.env.pole
        aside = path + '.aside'
        os.rename(path, aside)
        if fault['kind'] == 'cut':
            with open(aside, 'rb') as f, open(path, 'wb') as g:
                d = f.read()
                n = len(d) - fault['tail'] if fault.get('tail') else int(len(d) * fault['part'])
                g.write(d[:max(0, n)])
        self.ctx.fault(fault['kind'], os.path.basename(path))
        return path, lambda: os.replace(aside, path)

    def call(self, op):
        ctx, call = self.ctx, op['call']
        k = call['k']
        want, no, nr, opened = self.fresh.ask(call)
        what = f'{k} ({calls.describe(call)})'
        fault = ([f for f in self.sc['faults'] if f['op'] == op['id']] or [None])[0]
        f, a, kw = calls.build(self.env, call)
        if fault:
            armed, restore, where = [], None, None
            if fault['kind'] in ('gone', 'cut'):
                where, restore = self.damage(fault, call, opened)
            else:
                n = no if fault['kind'] == 'no_open' else nr
                if n:
                    armed = [dict(fault, at=int(fault['frac'] * n))]
            disk = Disk(ctx, armed, DATA)
            try:
                with disk:
                    disk.begin(op['id'])
                    out = calls.run(f, a, kw)
                    fired = disk.end()
            finally:
                if restore:
                    restore()
            struck = bool(fired or restore)
            got = calls.result(out)
            ctx.log(op['id'], k, fault['kind'], struck, out[0])
            if struck:
                ctx.nontrivial = True
                ctx.state(k, fault['kind'], os.path.basename(where or ''), out[0])
                ctx.probe('struck_' + out[0])
            if out[0] == 'ok' or not struck:
                d = deep.diff(want, got)
                if d:
                    raise Violation('invented', f'{what} gives other values '
                                    f'when {text(fault, where)}: {d}')
            f, a, kw = calls.build(self.env, call)
        got = calls.result(calls.run(f, a, kw))
        d = deep.diff(want, got)
        if d:
            raise Violation('not-forgotten', f'{what} gives {short(got)} instead of '
                            f'{short(want)}' + (f', after {text(fault, where)}' if fault
                                                else '') + f': {d}')
        ctx.probe('repeated')


def text(fault, where):
    where = os.path.basename(where or '')
    return dict(gone=f'{where} is gone', cut=f'{where} is cut short',
                no_open=f"a file cannot be opened ({fault.get('errno')})",
                read_eio='a read fails')[fault['kind']]
