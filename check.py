#!/opt/venv/bin/python
"""Entry point of every check: check.py --property P01 --tier quick"""
import os
import sys

ENV = dict(PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8', LANG='C.UTF-8',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           NUMEXPR_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
           MPLBACKEND='Agg', GDAL_NUM_THREADS='1', GDAL_PAM_ENABLED='NO',
           NETRC='/nonexistent', VERIF_ENV='1')


def main():
    if os.environ.get('VERIF_ENV') != '1':
        env = {k: v for k, v in os.environ.items()
               if not k.lower().endswith('_proxy')
               and k not in ('EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD',
                             'PYTHONPATH', 'PYTHONSTARTUP')}
        hs = env.get('VERIF_HASHSEED')
        env.update(ENV)
        if hs:
            env['PYTHONHASHSEED'] = hs
        if any('P21' in a for a in sys.argv):
            sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
            from sim import clock
            clock.preload(env)
        py = '/opt/venv/bin/python'
        if not os.path.exists(py):
            py = sys.executable
        os.execve(py, [py, '-W', 'ignore', '-s', os.path.abspath(__file__)]
                  + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    import argparse
    import importlib
    import time
    time.tzset()
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int)
    ap.add_argument('--hashes')
    a = ap.parse_args()
    from sim import core
    mod = importlib.import_module('props.' + a.property.lower())
    if a.replay:
        return core.replay(mod, a.property, a.replay)
    return core.check(mod, a.property, a.tier, a.seed, a.runs, a.workers,
                      indices=None if a.index is None else [a.index],
                      hashes_to=a.hashes)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
