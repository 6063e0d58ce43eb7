"""The wall clock of a run. A preloaded library answers every look at the time of
day (Python, numpy and the C libraries) once a simulated clock is set."""
import ctypes
import hashlib
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))


def library():
    """path of the library, built when there is none for this source"""
    src = os.path.join(HERE, 'clock.c')
    with open(src, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:12]
    d = os.path.join(os.path.dirname(HERE), 'build')
    path = os.path.join(d, f'clock-{tag}.so')
    if not os.path.exists(path):
        os.makedirs(d, exist_ok=True)
        tmp = f'{path}.{os.getpid()}'
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', tmp, src], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.replace(tmp, path)
    return path


def preload(env):
    try:
        env['LD_PRELOAD'] = library()
    except (OSError, subprocess.SubprocessError):
        # no compiler: the clock is the real one
        env.pop('LD_PRELOAD', None)


try:
    _set = ctypes.CDLL(None).vps_clock
    _set.argtypes = [ctypes.c_int, ctypes.c_double]
    _set.restype = None
except AttributeError:
    _set = None


def set_clock(t):
    """the time of day is t (seconds since 1970); returns whether it is simulated"""
    if _set is None:
        return False
    _set(t is not None, 0.0 if t is None else float(t))
    return True
