#!/usr/bin/env python3
"""Confirm a planted bug: plant.py ID [--notests] [--nocheck]

/verif/seeded/ID holds demo.sh and meta.json; the change itself is the working
tree of /tmp/plant (a copy of /repo), or patch.diff when /tmp/plant is clean.
"""
import json
import os
import subprocess
import sys
import tempfile

ID = sys.argv[1]
D = f'/verif/seeded/{ID}'
W = '/tmp/plant'


def sh(cmd, cwd=None, env=None, timeout=1800):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True, timeout=timeout,
                          env=dict(os.environ, **(env or {})),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


if not os.path.isdir(W):
    sh(f'cp -a /repo {W}')
head = sh('git rev-parse HEAD', '/repo').stdout
if sh('git rev-parse HEAD', W).stdout != head:
    d = sh('git diff', W).stdout
    sh('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD', W)
    assert sh('git rev-parse HEAD', W).stdout == head
    if d:
        open('/tmp/plant.diff', 'w').write(d)
        print(sh('git apply /tmp/plant.diff', W).stdout)
diff = sh('git diff', W).stdout
if diff:
    open(f'{D}/patch.diff', 'w').write(diff)
else:
    r = sh(f'git apply {D}/patch.diff', W)
    assert r.returncode == 0, r.stdout
meta = json.load(open(f'{D}/meta.json'))
tmp = tempfile.mkdtemp()
sh(f'cp {D}/* {tmp}; rm -f {tmp}/*.diff {tmp}/meta.json')
ok = True
r = sh(f'bash {tmp}/demo.sh', '/repo', timeout=300)
print('demo on clean:', r.returncode)
if r.returncode != 0:
    print(r.stdout[-3000:])
    ok = False
r = sh(f'bash {tmp}/demo.sh', W, timeout=300)
print('demo on patched:', r.returncode, r.stdout[-300:].strip())
ok &= r.returncode != 0
sh(f'rm -rf {tmp}')
if '--notests' not in sys.argv:
    s = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {W}')
    open('/tmp/plant_test.sh', 'w').write(s)
    r = sh('bash /tmp/plant_test.sh /tmp/plant_out.json', W)
    o = json.load(open('/tmp/plant_out.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    lost = set(b['stable']) - set(o['passed'])
    print('stable tests lost:', lost)
    ok &= not lost
if '--nocheck' not in sys.argv:
    r = sh(f"./check.py --property {meta['property']} --tier quick", '/verif',
           env=dict(VERIF_REPO=W))
    print('check exit', r.returncode)
    print(r.stdout[-1500:])
sh('git checkout -q -- .', W)
print('CONFIRMED' if ok else 'NOT CONFIRMED')
