cd /repo; for f in $(python3 - <<'E'
import json
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for f in d['anchors']['files']: print(f)
    for m in d['anchors']['mechanism']: print(m['where'])
    for m in d['anchors'].get('state',[]): print(m['where'])
E
); do [ -e $f ] || echo MISSING $f; done | sort -u; python3-vt - <<'E'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
E
