#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'N01': 'the prediction sum is a pure function of constants and times: no schedule, clock, I/O or fault in it to simulate',
    'N02': 'nodal corrections and arguments are pure functions of the date: nothing a simulator could schedule or fail',
    'N03': 'ephemeris formulas are pure functions of the date; the fetch of the kernel, which is I/O, is P08',
    'N04': 'IERS displacement formulas are pure functions of place and time: no schedule or fault can influence them',
    'N05': 'coordinate conversions are pure functions of their input: nothing to schedule or fail',
    'N06': 'interpolation is a pure function of grid and points; its caching and history are covered by P17 and P18',
    'N07': 'the harmonic solver is a pure function of the series: nothing to schedule or fail',
    'N08': 'ellipse conversion is a pure function of the components: nothing to schedule or fail',
}
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
        checks.append(dict(
            property=pid,
            quick_cmd=f'./check.py --property {pid} --tier quick',
            thorough_cmd=f'./check.py --property {pid} --tier thorough',
            evidence_file=f'evidence/{pid}.json',
            technique='deterministic simulation with fault injection: seeded '
                      'search over schedules, faults and histories',
            level='exploration',
            level_note='real library code runs inside the simulator; sampled, '
                       'not exhaustive: what the seeds explored held (see '
                       'assumptions and coverage in the evidence file)'))
    else:
        na.append(dict(property=pid, reason=NA.get(
            pid, 'decidable by simulation; its check is not finished yet')))
doc = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
