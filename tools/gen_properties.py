#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below (kept as code so that ids, anchors and text stay in step).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=False):
    if len(title) > 80: print('TOO LONG', id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['stingraykit/' + f for f in files], state=state,
            mechanism=[dict(name=n, where='stingraykit/' + w) for n, w in mech],
            observe_at=observe, hook_needed=hook or None)))

exec(open(os.path.join(os.path.dirname(__file__), 'properties_table.py')).read())
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
