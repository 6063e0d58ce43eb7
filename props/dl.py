"""Downloads: operations shared by P01, P02 and P03."""
import os
import pathlib

from sim.core import Violation, SimCrash
from sim.disk import Disk, put, peek, BASE_TIME
from sim.world import (World, content, md5, USER, PASSWORD, CDDIS, HTTP_HOST,
                       FTP_HOST)

import pyTMD.utilities as U

SIZES = [0, 1, 2, 100, 1000, 4096, 8191, 8192, 8193, 16384, 20000, 40000, 70000]
BIG = [65537, 262145, 1048577, 1500000, 2200000]
MODES = [0o775, 0o644, 0o600, 0o640, 0o755]
CHUNKS = [1024, 4096, 8192, 16384, 65536]
PROTOS = ['http', 'https', 'cddis', 'ftp']
NET_HTTP = ['dns', 'refused', 'ctimeout', 'unreachable', 'reset_before',
            'close_before', 'status', 'garbage', 'reset', 'truncate', 'stall',
            'stall_before', 'delay', 'send_reset', 'lost_request']
NET_FTP = ['dns', 'refused', 'ctimeout', 'ctrl_close', 'ctrl_reset',
           'ctrl_stall', 'ctrl_status', 'data_reset', 'data_abort',
           'data_stall', 'data_delay']
BENIGN = {'delay', 'data_delay', 'short'}


def gen_size(rng, big=0.02):
    return rng.choice(BIG if rng.random() < big else SIZES)


def gen_name(rng):
    return rng.choice(['finals.data', 'leap-seconds.list', 'de440s.bsp',
                       'tide model.nc', 'h_m2.nc.gz', 'a', 'README.1st'])


def gen_download(rng, i, names, local=0.85):
    name = rng.choice(names)
    op = dict(id=i, do='get', proto=rng.choice(PROTOS), name=name,
              chunk=rng.choice(CHUNKS), mode=rng.choice(MODES),
              timeout=rng.choice([None, 5, 20, 60]),
              host=rng.choice(['list', 'str', 'tuple']))
    if rng.random() < local:
        op['local'] = rng.choice(['', 'sub/', 'a/b/']) + 'local_' + str(
            names.index(name))
        op['ltype'] = rng.choice(['str', 'path'])
    if op['proto'] == 'cddis':
        op['build'] = rng.random() < 0.6
    return op


def gen_net_fault(rng, op):
    kinds = NET_FTP if op['proto'] == 'ftp' else NET_HTTP
    k = rng.choice(kinds)
    f = dict(op=op['id'], dev='net', kind=k, conn=0)
    if k in ('stall', 'stall_before', 'ctrl_stall', 'data_stall') and \
            op['timeout'] is None:
        k = f['kind'] = {'stall': 'reset', 'stall_before': 'reset_before',
                         'ctrl_stall': 'ctrl_close',
                         'data_stall': 'data_reset'}[k]
    if op['proto'] == 'cddis' and op.get('build'):
        f['conn'] = rng.choice([0, 1, 2, 3, 4, 5])
    elif op['proto'] == 'ftp' and k in ('refused', 'ctimeout'):
        f['conn'] = rng.choice([0, 1])
    if k == 'status':
        f['status'] = rng.choice([400, 403, 404, 429, 500, 502, 503])
    if k in ('reset', 'truncate', 'stall', 'delay', 'data_reset', 'data_abort',
             'data_stall', 'data_delay'):
        f['frac'] = rng.choice([0.0, rng.random(), 0.999])
        if k in ('reset', 'truncate') and rng.random() < 0.2:
            f['hdr'] = True
    if k in ('delay', 'data_delay'):
        f['dt'] = rng.choice([0.1, 3.0, 30.0, 90.0])
    if k.startswith('ctrl_'):
        f['cmd'] = rng.choice(['*greeting', 'USER', 'PASS', 'TYPE', 'PASV',
                               'RETR', 'MDTM'])
        if k == 'ctrl_status':
            if f['cmd'] == '*greeting':
                f['cmd'] = 'USER'
            f['status'] = dict(PASS=530, RETR=550).get(
                f['cmd'], 421) if rng.random() < 0.7 else 421
    return f


def gen_disk_fault(rng, op):
    k = rng.choice(['crash', 'crash', 'crash', 'eio', 'eacces', 'enospc',
                    'full', 'full', 'short'])
    f = dict(op=op['id'], dev='disk', kind=k, at=rng.randint(0, 9))
    if k == 'crash':
        f['frac'] = round(rng.random(), 3)
        on = rng.choice([None, None, 'write', 'close', 'replace', 'chmod',
                         'utime', 'open'])
        if on:
            f['on'] = on
            f['at'] = rng.randint(0, 3)
    elif k in ('eio', 'eacces', 'enospc'):
        on = rng.choice([None, 'write', 'replace', 'open', 'chmod', 'mkdir',
                         'utime'])
        if on:
            f['on'] = on
            f['at'] = rng.randint(0, 2)
    elif k == 'full':
        f['bytes'] = rng.choice([0, 1, 100, 1000, 8192, 9000, 16000, 30000])
    elif k == 'short':
        f['frac'] = round(rng.random(), 3)
    return f


def call_download(world, root, op, hash=''):
    """perform one download through the public interface"""
    path = '/pub/' + op['name']
    parts = ['pub', op['name']]
    kw = dict(timeout=op['timeout'], chunk=op['chunk'], mode=op['mode'],
              hash=hash)
    if op.get('local'):
        p = os.path.join(root, 'loc', op['local'])
        kw['local'] = pathlib.Path(p) if op.get('ltype') == 'path' else p
    if op['proto'] == 'ftp':
        host = [FTP_HOST] + parts
        if op['host'] == 'str':
            host = '/'.join(host)
        return U.from_ftp(host, **kw)
    if op['proto'] == 'cddis':
        host = [f'https://{CDDIS}'] + parts
        if op['host'] == 'str':
            host = '/'.join(host)
        return U.from_cddis(host, username=USER, password=PASSWORD,
                            build=op.get('build', True), **kw)
    host = [f"{op['proto']}://{HTTP_HOST}"] + parts
    if op['host'] == 'str':
        host = '/'.join(host)
    elif op['host'] == 'tuple':
        host = tuple(host)
    return U.from_http(host, **kw)


def effective(fired, op):
    """faults that may legitimately make this operation fail"""
    out = []
    for f in fired:
        if f['kind'] in ('delay', 'data_delay') and not (
                op.get('timeout') is not None and f['dt'] > op['timeout']):
            continue
        if f['kind'] == 'short':
            continue
        # the login check has its own time limit of 20 s
        out.append(f)
    # delays during the login check run against its own time limit
    if op.get('proto') == 'cddis':
        out += [f for f in fired if f['kind'] == 'delay' and f['dt'] > 20
                and f not in out]
    return out


def url_name(name):
    return name
