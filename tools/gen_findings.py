"""known_findings.json from the fix commits in /repo (nothing is suppressed)."""
import json
import os
import subprocess

BASE = '302dda9'
MAP = {
 'P01': 'ba93d0d', 'P02': 'a27e88c', 'P05': '48c3546',
 'P07': '2422fee 6fd7ddf dea07f6 06a8760', 'P09': '3d674f7',
 'P11': '7dc1cce 08565d6 f52e750 95a09df c18b28c 7106f8b a2d1d24 9866c85 926a435 1796c3e '
        '4d085bc 531a005 76b96a5 1399705',
 'P12': 'c2865b5 f9c6b41',
 'P13': '0bb6eb3 a84c9ce 1625a23 14fa884 b22eb56 5975b34 4eab569',
 'P14': '23c9012 053ed83 7ea36b8 2cb626b ca9767b',
 'P15': '53e5ae3 b67f898 9ae0ea1', 
 'P16': '608fd3b 5e13f14 f4ff0a9 bff3c06 c41366d f7b494f 944a2e7',
 'P17': 'b0d6686 5b4b577 2b5ef44 11db226 6bd29ec 9b19f41 6ff2d18 9f1d35e',
 'P18': 'c231dc7',
 'P19': 'e3a7976',
 'P20': 'd22b631 5050009 7dfc4f8 eb9a586 592db63 5150785 2c29298 a33da9d e6f133f b572970 '
        '0c3d1fe 3fe15ae 39adf92 3ba2fca 7cf5a19 d0f32c0 36da500 ae387eb 0bd7dd3 814f619 '
        '0d9eea8 0439ca9 e4e6352 4108d2e a13c271 e2d9837 fb37ab5',
 'P21': '0ccee31 e866980', 'P22': '9e180b0', 'P23': 'f612219 651abfb',
 'P08': '8f7f641', 'P24': '60f4f3f feb4d12 3164af4 0017c5e c9543b7 11d11d1',
}


def log():
    out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x01%s%x01%b%x02',
                          BASE + '..HEAD'], capture_output=True, text=True, check=True).stdout
    for rec in out.split('\x02'):
        if rec.strip():
            yield [v.strip() for v in rec.split('\x01')]


def failed(subject):
    for a, b in (('do not ', 'did '), ('never leave ', 'left '), ('always ', 'did not always '),
                 ('dates without a time zone are', 'dates without a time zone were not')):
        if subject.startswith(a):
            return b + subject[len(a):]
    return 'did not ' + subject


def main():
    where = {h: p for p, v in MAP.items() for h in v.split()}
    fixed = []
    for h, s, b in log():
        if not s.startswith('fix:'):
            continue
        what = failed(s[5:])
        fixed.append(f'fixed: property={where.pop(h)} {h} {what}')
    assert not where, where
    path = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
    with open(path, 'w') as f:
        json.dump(dict(known=[], fixed=fixed), f, indent=1)
        f.write('\n')
    print(len(fixed), 'fixed')


main()
