#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='deterministic simulation with fault injection: ' + CLAIMS[i][0],
                           level='exploration', level_note=CLAIMS[i][1]))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='python3 tools/setup_check.py',
         hooks=dict(guard='none', enable='no hooks are compiled into /repo: the loader dst/load.py substitutes the seams (threading, time, subprocess, asyncua, '
                                        'open/os, casadi solvers) when it imports the package from /repo', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='check.py runs with /opt/venv/bin/python; the package is imported from /repo/do_mpc (its current working tree) on every run; replay: check.py <ID> --replay FILE')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
