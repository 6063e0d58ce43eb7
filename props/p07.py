"""P07: model archive synchronisation converges after any interruption."""
import gzip
import io
import lzma
import os
import pathlib
import tarfile
import zipfile

from sim import scripts
from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.net import HTTPServer, FTPServer
from sim.world import World, content, md5, USER, PASSWORD
from props import dl

aviso = scripts.load('aviso_fes_tides')
got = scripts.load('gsfc_got_tides')
arctic = scripts.load('arcticdata_tides')

ID = 'P07'
AMBIENT = True
RUNS = dict(quick=1600, thorough=40000)
RULE = ('a run is a history of 1-4 synchronisations of one archive (AVISO FES '
        'tar and list layouts, GSFC GOT, Arctic data zip) with remote updates '
        'and local deletions in between, 0-2 network and disk faults per '
        'synchronisation, then two undisturbed synchronisations; non-trivial: '
        'a fault fired; distinct by hash of the full event trace')
STATE_MEASURE = '(archive, options, faults fired, outcome, share of files present)'
COMPONENTS = dict(real=['scripts aviso_fes_tides, gsfc_got_tides, '
                        'arcticdata_tides', 'pyTMD.utilities', 'ftplib',
                        'urllib', 'tarfile', 'zipfile', 'lzma', 'gzip'],
                  simulated=['sockets, TLS', 'ftp and https servers',
                             'disk faults, process crash', 'disk clock'])
ASSUMPTIONS = ['remote times have the 2 s resolution the programs document',
               'the Arctic archive records no times: every run rewrites it, '
               'so only content and mode are checked there',
               'process-crash model (no power loss)']
FES = ['FES1999', 'FES2004', 'FES2012', 'FES2014', 'FES2022']
GOT = {'GOT4.8': ('2022-07/got4.8.tar.gz', 'w:gz'),
       'GOT5.5D': ('2024-07/GOT5.5D.tar 1.gz', 'w:gz'),
       'GOT5.6': ('2024-07/GOT5.6.tar 1.gz', 'w:gz'),
       'GOT4.10': ('2023-12/got4.10c.tar.gz', 'w:gz'),
       'GOT5.5': ('2024-07/GOT5.5.tar 1.gz', 'w:gz'),
       'RE14': ('2022-07/re14_longperiodtides_rel.tar', 'w')}
ARC = {'AODTM-5': ('10.18739/A2901ZG3N', 'aodtm5_tmd'),
       'AOTIM-5': ('10.18739/A2S17SS80', 'aotim5_tmd'),
       'AOTIM-5-2018': ('10.18739/A21R6N14K', 'Arc5km2018'),
       'Arc2kmTM': ('10.18739/A2D21RK6K', 'Arc2kmTM'),
       'Gr1kmTM': ('10.18739/A2B853K18', 'Gr1kmTM')}
NAMES = ['m2', 's2', 'k1', 'o1', 'n2', 'q1', 'mf', 'h_m2', 'u_k1']
SIZES = [0, 1, 100, 5000, 9000, 20000, 40000, 100000]


def generate(rng, idx, tier):
    fam = rng.choice(['fes', 'fes', 'got', 'arctic'])
    model = rng.choice(dict(fes=FES, got=list(GOT), arctic=list(ARC))[fam])
    members = []
    ops, faults = [], []
    n = rng.randint(1, 5)
    dirs = rng.choice(['', 'sub/', 'a/b/'])
    used = set()
    for i in range(n):
        nm = rng.choice(NAMES) + rng.choice(['.nc', '.nc', '.asc', '.d', '.txt'])
        if nm in used:
            continue
        used.add(nm)
        members.append([nm, rng.choice(SIZES), rng.randint(1, 10**7)])
    k = 0
    for i in range(rng.randint(1, 4)):
        if i and rng.random() < 0.5:
            ops.append(dict(id=k, do='update', which=rng.randint(0, 5),
                            size=rng.choice(SIZES),
                            age=rng.choice([2, 3, 10, 10**5, 3 * 10**6])))
            k += 1
        if i and rng.random() < 0.2:
            ops.append(dict(id=k, do='delete', which=rng.randint(0, 5)))
            k += 1
        op = dict(id=k, do='sync', proto='http' if fam != 'fes' else 'ftp',
                  timeout=60)
        ops.append(op)
        k += 1
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            if rng.random() < 0.55:
                f = dl.gen_disk_fault(rng, op)
                if 'on' not in f:
                    f['at'] = rng.randint(0, 40)
                elif f['kind'] != 'crash' or rng.random() < 0.6:
                    f['at'] = rng.randint(0, 8)
                if f['kind'] == 'full':
                    f['bytes'] = rng.choice([0, 50, 3000, 12000, 30000, 60000])
                faults.append(f)
            else:
                f = dl.gen_net_fault(rng, op)
                if f['kind'].startswith('ctrl_'):
                    f['cmd'] = rng.choice(['USER', 'PASS', 'MDTM', 'RETR',
                                           'PASV', 'NLST', 'QUIT', 'TYPE'])
                    f['nth'] = rng.randint(0, 3)
                if f['kind'].startswith('data_'):
                    f['nth'] = rng.randint(0, 4)
                faults.append(f)
    return dict(fam=fam, model=model, members=members, dirs=dirs,
                gzip=rng.random() < 0.4, mode=rng.choice([0o775, 0o644, 0o750]),
                load=rng.random() < 0.5, currents=rng.random() < 0.5,
                extrapolated=rng.random() < 0.3,
                format=rng.choice(['netcdf', 'ascii']),
                seg=rng.choice([0, 1460]), ops=ops, faults=faults)


SHRINK_LISTS = ('members',)


def valid(sc):
    return len(sc['members']) > 0


class Remote:
    """the remote archive and the local files it implies"""

    def __init__(self, sc, ctx):
        self.sc = sc
        self.ctx = ctx
        self.files = {}          # (group, member) -> [data, mtime, version]
        for g in self.groups():
            for nm, size, age in sc['members']:
                self.files[(g, nm)] = [content(f'{g}/{nm}/0', size),
                                       int(BASE_TIME) - 2 * 10**7 + age, 0]

    def groups(self):
        sc = self.sc
        if sc['fam'] != 'fes':
            return ['']
        g = ['elev', 'readme']
        if sc['model'] == 'FES2014':
            if sc['load']:
                g.append('load')
            if sc['currents']:
                g += ['readme_cur', 'east', 'north']
        elif sc['model'] == 'FES2012' and sc['currents']:
            g += ['readme_cur', 'block1', 'block2', 'block3', 'block4']
        elif sc['model'] == 'FES2022':
            g = ['ocean_tide_20241025']
            if sc['load']:
                g.append('load_tide')
            if sc['extrapolated']:
                g.append('ocean_tide_extrapolated')
        return g

    def readme(self, g):
        return g.startswith('readme')

    def update(self, which, size, age):
        keys = sorted(self.files)
        if not keys:
            return
        k = keys[which % len(keys)]
        e = self.files[k]
        e[2] += 1
        e[0] = content(f'{k[0]}/{k[1]}/{e[2]}', size)
        now = BASE_TIME + self.ctx.sim_time
        # times are compared with a granularity of two seconds
        e[1] = e[1] + age if age < 10 else max(int(now - age), e[1] + 2)

    def tar(self, group, mode):
        buf = io.BytesIO()
        kw = {}
        fobj = buf
        base = mode
        if mode == 'w:gz':
            fobj = gzip.GzipFile(fileobj=buf, mode='wb', mtime=0, filename='')
            base = 'w'
        elif mode == 'w:lzma':
            fobj = lzma.LZMAFile(buf, 'w', format=lzma.FORMAT_ALONE)
            base = 'w'
        t = tarfile.open(fileobj=fobj, mode=base if base == 'w' else mode)
        d = self.sc['dirs']
        if d:
            ti = tarfile.TarInfo(d.rstrip('/'))
            ti.type = tarfile.DIRTYPE
            ti.mode = 0o755
            t.addfile(ti)
        extra = [('.DS_Store', b'x'), ('._m2.nc', b'y')] \
            if self.sc['fam'] == 'got' else []
        for nm, data in extra:
            ti = tarfile.TarInfo(d + nm)
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
        for (g, nm), (data, mt, _) in sorted(self.files.items()):
            if g != group:
                continue
            ti = tarfile.TarInfo(self.member(g, nm))
            ti.size = len(data)
            ti.mtime = mt
            t.addfile(ti, io.BytesIO(data))
        t.close()
        if fobj is not buf:
            fobj.close()
        return buf.getvalue()

    def member(self, g, nm):
        if self.sc['fam'] == 'fes' and self.sc['model'] == 'FES2014':
            return f"{g}/{self.sc['dirs']}{nm}"
        if g.startswith('block'):
            return f"cur/{self.sc['dirs']}{nm}"
        return self.sc['dirs'] + nm

    def publish(self, world):
        """(re)build what the servers hold"""
        sc = self.sc
        world.files.clear()
        if sc['fam'] == 'got':
            path, mode = GOT[sc['model']]
            world.put('/sites/default/files/' + path, self.tar('', mode), BASE_TIME)
            return
        if sc['fam'] == 'arctic':
            buf = io.BytesIO()
            z = zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED)
            z.writestr(zipfile.ZipInfo('data/readme.txt'), b'not a model file')
            for (g, nm), (data, mt, _) in sorted(self.files.items()):
                z.writestr(zipfile.ZipInfo('data/' + self.arc_name(nm)), data)
            z.close()
            doi = ARC[sc['model']][0]
            world.put('/metacat/d1/mn/v2/packages/application/bagit-097/'
                      f'resource_map_doi:{doi}', buf.getvalue(), BASE_TIME)
            return
        pre = 'auxiliary/tide_model/'
        m = sc['model']
        table = dict(
            FES1999=dict(elev=('fes1999_fes2004/fes1999.tar.gz', 'w:gz'),
                         readme='fes1999_fes2004/readme_fes1999.html'),
            FES2004=dict(elev=('fes1999_fes2004/fes2004.tar.gz', 'w:gz'),
                         readme='fes1999_fes2004/readme_fes2004.html'),
            FES2012=dict(elev=('fes2012_heights/fes2012_heights_v1.1.tar.lzma', 'w:lzma'),
                         readme='fes2012_heights/readme_fes2012_heights_v1.1',
                         readme_cur='fes2012_currents/readme_fes2012_currents_v1.1',
                         **{f'block{i}': (f'fes2012_currents/fes2012_currents_v1.1'
                                          f'_block{i}.tar.lzma', 'w:lzma')
                            for i in (1, 2, 3, 4)}),
            FES2014=dict(elev=('fes2014_elevations_and_load/fes2014b_elevations/ocean_tide.tar.xz', 'w:xz'),
                         load=('fes2014_elevations_and_load/fes2014a_loadtide/load_tide.tar.xz', 'w:xz'),
                         readme='fes2014_elevations_and_load/readme_fes2014_elevation_and_load_v1.2.txt',
                         readme_cur='fes2014a_currents/readme_fes2014_currents_v1.2.txt',
                         east=('fes2014a_currents/eastward_velocity.tar.xz', 'w:xz'),
                         north=('fes2014a_currents/northward_velocity.tar.xz', 'w:xz')))
        for g in self.groups():
            if m == 'FES2022':
                for (gg, nm), (data, mt, _) in sorted(self.files.items()):
                    if gg == g:
                        x = nm.endswith(('.nc', '.asc'))
                        world.put(f'{pre}fes2022b/{g}/{nm}' + ('.xz' if x else ''),
                                  lzma.compress(data) if x else data, mt)
                continue
            where = table[m][g]
            if isinstance(where, str):
                e = self.first(g)
                if e:
                    world.put(pre + where, e[0], e[1])
            else:
                world.put(pre + where[0], self.tar(g, where[1]), BASE_TIME)
        self.table = table.get(m)

    def arc_name(self, nm):
        return dict(m='h_', s='h0_', k='UV_', o='UV0_', n='Model_', q='xy_').get(
            nm[0], 'grid_') + nm

    def first(self, g):
        k = sorted(k for k in self.files if k[0] == g)
        return self.files[k[0]] if k else None

    def local(self):
        """relative local path -> (key, data, mtime or None, compressed)"""
        sc = self.sc
        out = {}
        if sc['fam'] == 'arctic':
            for k, e in self.files.items():
                out[f"{ARC[sc['model']][1]}/{self.arc_name(k[1])}"] = (k, e[0], None, False)
            return out
        for k, e in sorted(self.files.items()):
            g, nm = k
            sfx = os.path.splitext(nm)[1]
            if sc['fam'] == 'got':
                if (sfx == '.nc' and sc['format'] == 'ascii') or \
                        (sfx == '.d' and sc['format'] == 'netcdf'):
                    continue
                z = sc['gzip'] and sfx in ('.d', '.nc')
                out[sc['dirs'] + nm + ('.gz' if z else '')] = (k, e[0], e[1], z)
                continue
            m = sc['model']
            z = sc['gzip'] and sfx in ('.asc', '.nc')
            if m == 'FES2022':
                out[f'fes2022b/{g}/{nm}' + ('.gz' if z else '')] = (k, e[0], e[1], z)
            elif self.readme(g):
                if nm == min(n for gg, n in self.files if gg == g):
                    name = os.path.basename(self.table[g])
                    out[f'{m.lower()}/{name}'] = (k, e[0], e[1], False)
            else:
                name = self.member(g, nm)
                flat = m in ('FES1999', 'FES2004') or (m == 'FES2012' and g == 'elev')
                if flat:
                    name = nm
                out[f'{m.lower()}/{name}' + ('.gz' if z else '')] = (k, e[0], e[1], z)
        return out


def execute(sc, ctx):
    world = World(ctx, sc['faults'], sc['seg'], ftp_login=(USER, PASSWORD))
    for h in ('earth.gsfc.nasa.gov', 'arcticdata.io'):
        world.net.add(h, 443, HTTPServer(world.web))
    world.net.add('ftp-access.aviso.altimetry.fr', 21, world.ftp)
    remote = Remote(sc, ctx)
    if sc['model'] == 'FES2012' and sc['fam'] == 'fes':
        # the currents of all blocks extract below one tree: keep names apart
        for k in list(remote.files):
            if k[0].startswith('block') and k[0] != 'block1':
                e = remote.files.pop(k)
                remote.files[(k[0], k[0] + '_' + k[1])] = e
    out = os.path.join(ctx.root, 'models')
    os.makedirs(out)
    with world.net, Disk(ctx, sc['faults']) as disk:
        for op in sc['ops']:
            ctx.advance(86400)
            if op['do'] == 'update':
                remote.update(op['which'], op['size'], op['age'])
            elif op['do'] == 'delete':
                names = sorted(remote.local())
                if names:
                    p = os.path.join(out, names[op['which'] % len(names)])
                    if os.path.exists(p):
                        os.unlink(p)
            else:
                sync(sc, op, remote, world, disk, ctx, out)
        # faults have stopped
        op = dict(id='final', do='sync')
        ctx.advance(86400)
        r = sync(sc, op, remote, world, disk, ctx, out)
        if r != 'ok':
            raise Violation('not-converging', 'undisturbed synchronisation failed')
        before = stats(remote, out)
        ctx.advance(86400)
        world.net.requests.clear()
        op = dict(id='again', do='sync')
        retr = []
        world.ftp.on_retr = retr.append
        r = sync(sc, op, remote, world, disk, ctx, out)
        world.ftp.on_retr = None
        if r != 'ok':
            raise Violation('not-converging', 'second undisturbed run failed')
        if sc['fam'] != 'arctic':
            after = stats(remote, out)
            if after != before:
                diff = [k for k in after if after[k] != before.get(k)]
                raise Violation('rewritten', f'current files were rewritten: {diff}')
            if sc['fam'] == 'fes':
                plain = [p for p in retr if '.tar' not in p]
                if plain:
                    raise Violation('downloaded-again', f'current files were '
                                    f'downloaded again: {plain}')


def stats(remote, out):
    d = {}
    for rel in remote.local():
        p = os.path.join(out, rel)
        if os.path.exists(p):
            st = os.stat(p)
            d[rel] = (st.st_ino, st.st_mtime_ns, st.st_size, st.st_mode)
    return d


def sync(sc, op, remote, world, disk, ctx, out):
    remote.publish(world)
    D = pathlib.Path(out)
    disk.begin(op['id'])
    world.net.begin(op['id'])
    outcome, exc = 'ok', None
    try:
        if sc['fam'] == 'fes':
            aviso.aviso_fes_tides(sc['model'], DIRECTORY=D, USER=USER,
                                  PASSWORD=PASSWORD, LOAD=sc['load'],
                                  CURRENTS=sc['currents'],
                                  EXTRAPOLATED=sc['extrapolated'],
                                  GZIP=sc['gzip'], TIMEOUT=60, MODE=sc['mode'])
        elif sc['fam'] == 'got':
            got.gsfc_got_tides(sc['model'], DIRECTORY=D, FORMAT=sc['format'],
                               GZIP=sc['gzip'], TIMEOUT=60, MODE=sc['mode'])
        else:
            arctic.arcticdata_tides(sc['model'], DIRECTORY=D, TIMEOUT=60,
                                    MODE=sc['mode'])
    except SimCrash:
        outcome = 'crash'
    except Exception as e:
        outcome, exc = 'error', e
    if world.net.hung:
        raise Violation('hang', 'synchronisation blocks for ever')
    fired = disk.end() + world.net.end()
    want = remote.local()
    present = 0
    for rel, (key, data, mtime, z) in sorted(want.items()):
        p = os.path.join(out, rel)
        b = peek(p)
        if b is not None:
            present += 1
        if outcome != 'ok':
            continue
        if b is None:
            raise Violation('missing-file', f"{sc['model']}: {rel} is missing "
                            'after a completed synchronisation')
        try:
            plain = gzip.decompress(b) if z else b
        except Exception as e:
            raise Violation('damaged-file', f"{sc['model']}: {rel}: {e!r}")
        if plain != data:
            raise Violation('wrong-content', f"{sc['model']}: {rel} holds "
                            f'{len(plain)} bytes that are not the remote '
                            f'content ({len(data)} bytes) after a completed '
                            'synchronisation')
        st = os.stat(p)
        if mtime is not None and int(st.st_mtime) != mtime:
            raise Violation('wrong-mtime', f"{sc['model']}: {rel} has time "
                            f'{int(st.st_mtime)}, remote {mtime}')
        if st.st_mode & 0o777 != sc['mode']:
            raise Violation('wrong-mode', f"{sc['model']}: {rel} has mode "
                            f"{st.st_mode & 0o777:o} instead of {sc['mode']:o}")
    ctx.log('sync', op['id'], outcome, type(exc).__name__, present, len(want))
    kinds = sorted(f['kind'] for f in fired)
    ctx.state(sc['model'], sc['gzip'], kinds, outcome, present == len(want))
    if fired:
        ctx.nontrivial = True
        if 0 < present < len(want):
            ctx.probe('partial_archive')
    ctx.probe('sync_' + outcome)
    hard = dl.effective(fired, dict(proto='ftp', timeout=60))
    if outcome == 'error' and not hard:
        raise Violation('spurious-error', f"{sc['model']}: undisturbed "
                        f'synchronisation failed: {exc!r}')
    return outcome
