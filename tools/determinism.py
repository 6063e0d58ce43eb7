#!/usr/bin/env python3
"""One seed is one exactly repeatable execution: determinism.py [RUNS] [PXX...]

Every property is run twice on the same seed, with different numbers of
workers and different hash seeds of the simulating process, and the hashes of
all event traces are compared.
"""
import json
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = int(sys.argv[1]) if len(sys.argv) > 1 else 60
props = sys.argv[2:] or [f[:-3].upper() for f in sorted(os.listdir(f'{here}/props'))
                         if f[0] == 'p' and f[1:3].isdigit()]
bad = 0
with tempfile.TemporaryDirectory() as tmp:
    for p in props:
        got = []
        for k, (workers, hs) in enumerate([(8, '0'), (3, '4242')]):
            out = f'{tmp}/{p}{k}.json'
            env = dict(os.environ, VERIF_HASHSEED=hs, VERIF_EVIDENCE=tmp)
            subprocess.run([f'{here}/check.py', '--property', p, '--seed', '5',
                            '--runs', str(runs), '--workers', str(workers),
                            '--hashes', out], env=env, check=True,
                           stdout=subprocess.DEVNULL)
            got.append(json.load(open(out)))
        keys = sorted(set(got[0]) & set(got[1]), key=int)
        diff = [i for i in keys if got[0][i] != got[1][i]]
        bad += bool(diff)
        print(p, len(keys), 'runs,', len(diff), 'differ', diff[:8], flush=True)
sys.exit(1 if bad else 0)
