#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the goals table and properties.jsonl."""
import json,os,sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,ROOT+'/tools')
from goals import GOALS,NA,NOTE
props=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
checks=[]
for p in props:
    i=p['id']
    if i in GOALS:
        checks.append(dict(property=i,quick_cmd=f'python3 check.py {i}',thorough_cmd=f'python3 check.py {i} --thorough',
          technique='contract-based deductive verification (Verus) of functions extracted from /repo on every run; bounded exact-arithmetic oracle on the real crate for what stays outside',
          level='proof',level_note=NOTE[i]))
na=[dict(property=p['id'],reason=NA[p['id']]) for p in props if p['id'] not in GOALS]
json.dump(dict(version=1,setup_cmd='sh setup.sh',checks=checks,not_applicable=na,notes='See DESIGN.md.'),open(ROOT+'/MANIFEST.json','w'),indent=1)
