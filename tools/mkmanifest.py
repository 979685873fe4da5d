#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOTES, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
na = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           technique='deterministic simulation with fault injection: ' + NOTES[i][0], level='exploration', level_note=NOTES[i][1],
                           evidence_file='evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every seam is put in at link time (objcopy --redefine-sym) or by the compiler instrumentation of a build in /verif/build. '
               'Known findings and repaired defects: known-findings.txt. python3 check.py replay FILE replays a replay file.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
