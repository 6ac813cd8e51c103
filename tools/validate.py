#!/usr/bin/env python3-vt
import json,glob,jsonschema
ev=json.load(open('/root/.vp/EVIDENCE.schema.json'))
need={"model_checking":["states","transitions","traces_validated_against_impl","samples"],"fault_enumeration":["evaluations","distinct_nontrivial","rule","samples"],"exploration":["evaluations","distinct_nontrivial","rule","samples"]}
for f in sorted(glob.glob('/verif/evidence/*.json')):
    d=json.load(open(f)); jsonschema.validate(d,ev)
    miss=[k for k in need[d['level']] if not d['coverage'].get(k)]
    print(f.split('/')[-1],d['level'],d['tier'],'%.0fs'%d['wall_s'],'MISSING '+str(miss) if miss else 'ok', 'exh' if d['coverage'].get('exhaustive') else 'NOT EXHAUSTIVE', d['coverage'].get('notes',''))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),ps)
