#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties (tools/claims.json)."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claims=json.load(open('/verif/tools/claims.json'))
checks=[];na=[]
for p in props:
    c=claims.get(p['id'])
    if c and c.get('claimed'):
        checks.append(dict(property=p['id'],quick_cmd=f"python3 check.py {p['id']}",thorough_cmd=f"python3 check.py {p['id']} thorough",
          technique=c['technique'],level=c['level'],level_note=c['note']))
    else:
        na.append(dict(property=p['id'],reason=(c or {}).get('reason','check not built yet')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
 notes='No hooks are compiled into /repo: the verified text is extracted mechanically from /repo on every run (see DESIGN.md).')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
