#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py."""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(H,'tools'))
import plan
NA=getattr(plan,'NOT_APPLICABLE',{})
props=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in plan.PLAN:
        b='; '.join(sorted({r.bounds for r in plan.PLAN[i] if not r.thorough_only}))
        checks.append(dict(property=i,quick_cmd='python3 tools/check.py '+i,thorough_cmd='VERIF_TIER=thorough python3 tools/check.py '+i,technique='symbolic execution of the LLVM IR of the real code with SAT/SMT (bounded), counterexamples replayed natively',level='model_checking',
          level_note=('Every execution within the bounds is decided by the solver (a run that does not finish says so in the evidence). Bounds: '+b)[:1500]+'. Trusts engine/irsym, clang -O2 and the solvers; nothing is claimed outside the bounds.'))
    else: na.append(dict(property=i,reason=NA.get(i,'no check built')))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na),open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks; not applicable:',[x['property'] for x in na])
