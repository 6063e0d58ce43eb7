"""Read the data tables of the third-party timescale package once.

timescale re-reads its Earth-orientation and delta-time tables on every call,
which dominates the cost of a simulated run.  The tables are constant package
data, so the parent of all runs reads them once and hands out copies.
"""
import os

import numpy as np
import timescale.eop
import timescale.time

_pkg = os.path.dirname(timescale.time.__file__)
_cache = {}
_loadtxt = np.loadtxt
_eop = timescale.eop.iers_daily_EOP


def loadtxt(fname, *args, **kwargs):
    path = os.fspath(fname) if isinstance(fname, (str, os.PathLike)) else ''
    if not path.startswith(_pkg):
        return _loadtxt(fname, *args, **kwargs)
    key = (path, repr(args), repr(kwargs))
    if key not in _cache:
        _cache[key] = _loadtxt(fname, *args, **kwargs)
    return _cache[key].copy()


def daily_eop(input_file=timescale.eop._finals_file, include_predictions=False):
    key = ('eop', str(input_file), include_predictions)
    if key not in _cache:
        _cache[key] = _eop(input_file, include_predictions)
    return {k: v.copy() for k, v in _cache[key].items()}


np.loadtxt = loadtxt
timescale.eop.iers_daily_EOP = daily_eop


def warm():
    """fill the caches before the first fork"""
    t = timescale.time.Timescale(MJD=np.array([58000.0]))
    t.tt, t.ut1
    timescale.eop.iers_polar_motion(np.array([58000.0]))
    try:
        timescale.eop.iers_mean_pole
    except AttributeError:
        pass


warm()
