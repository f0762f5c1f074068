#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[],
         notes='Every check is run.py with the property id: it compiles the library sources the harness needs and the harness from /repo under a sanitizer, runs the scenarios listed in checks.py under the monitors, and writes evidence/<id>.json. No hooks in /repo are needed: the scheduler and fault injection work at the link level (--wrap).')
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 run.py %s quick' % p, thorough_cmd='python3 run.py %s thorough' % p,
                                evidence_file='evidence/%s.json' % p, technique=c['technique'], level='exploration', level_note=c['level_note']))
    else:
        m['not_applicable'].append(dict(property=p, reason=checks.NOT_APPLICABLE.get(p, 'The technique applies, but no check has been built for it yet.')))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
