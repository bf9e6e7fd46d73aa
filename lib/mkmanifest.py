#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd='python3 run.py check %s --tier quick' % i, thorough_cmd='python3 run.py check %s --tier thorough' % i,
            technique=CHECKS[i].get('technique', 'TLA+ specification model-checked with TLC; recorded histories of the real application validated against it by TLC'),
            level='model_checking', level_note=CHECKS[i]['note'], evidence_file='evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='bash lib/setup.sh', hooks=dict(guard='testing (build tag the repository itself uses for its test helpers); the harness is laid over package app with go test -overlay', enable='lib/build.sh: go test -c -overlay ... -tags testing ./app', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
