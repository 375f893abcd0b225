#!/usr/bin/env python3-vt
# Source of MANIFEST.json (run: python3-vt tools/gen_manifest.py)
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
T={}
exec(open(here+'/tools/claims.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T:
        tech,level,note=T[i]
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i} --quick',thorough_cmd=f'./check.sh {i} --thorough',technique=tech,level=level,level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,'check under construction')))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
 notes='No hooks in /repo are needed: the harness interposes libc entry points and uses only the public API and existing cargo features (whitebox_testing, flush_aggregation). Fixes of genuine defects are listed in known_findings.txt.')
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
