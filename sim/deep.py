"""Deep copies and exact comparison of the objects callers pass around."""
import copy
import datetime
import pathlib

import numpy as np


def snap(x):
    """an independent description of x that later changes cannot reach"""
    if isinstance(x, np.ma.MaskedArray):
        return ('ma', x.dtype.str, x.shape, x.data.tobytes() if x.dtype != object
                else repr(x.data), np.ma.getmaskarray(x).tobytes())
    if isinstance(x, np.ndarray):
        return ('nd', x.dtype.str, x.shape,
                x.tobytes() if x.dtype != object else repr(x))
    if isinstance(x, np.generic):
        return ('ng', x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ('d', type(x).__name__, tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, (str, bytes, int, float, bool, type(None), complex)):
        return repr(x)
    if isinstance(x, (pathlib.PurePath, datetime.date, datetime.timedelta)):
        return repr(x)
    if hasattr(x, '__dict__'):
        return ('o', type(x).__name__, snap({k: v for k, v in vars(x).items()}))
    return repr(x)


def diff(a, b, where=''):
    """first place at which two snapshots differ, or None"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) \
            and a[:1] == b[:1]:
        if a[0] == 'd':
            ka, kb = dict(a[2]), dict(b[2])
            gone, new = set(ka) - set(kb), set(kb) - set(ka)
            if gone or new:
                return f'{where}: keys removed {sorted(map(str, gone))}, ' \
                       f'added {sorted(map(str, new))}'
            for k in ka:
                d = diff(ka[k], kb[k], f'{where}.{k}')
                if d:
                    return d
            return f'{where}: order of keys'
        if a[0] in ('list', 'tuple'):
            for i, (p, q) in enumerate(zip(a[1], b[1])):
                d = diff(p, q, f'{where}[{i}]')
                if d:
                    return d
        if a[0] == 'o':
            return diff(a[2], b[2], where)
        if a[0] in ('ma', 'nd'):
            part = [n for n, p, q in zip(('kind', 'dtype', 'shape', 'values', 'mask'),
                                         a, b) if p != q]
            return f'{where}: {", ".join(part)} changed'
    return f'{where}: {str(a)[:80]} became {str(b)[:80]}'


def clone(x):
    return copy.deepcopy(x)
