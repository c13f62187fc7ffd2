#!/usr/bin/env python3
"""merge_evidence.py OUT PART...: one evidence file from the parts of a check"""
import json,sys,os
out=None
for f in sys.argv[2:]:
    d=json.load(open(f)); n=os.path.basename(f)[:-5]
    for l in d['coverage']['laws']: l['program']=n
    d['coverage']['samples']=[n+': '+s for s in d['coverage']['samples']]
    d['coverage']['rule']='['+n+'] '+d['coverage']['rule']
    if out is None: out=d; continue
    a,b=out['coverage'],d['coverage']
    for k in ('evaluations','distinct_nontrivial','discarded'): a[k]+=b[k]
    a['laws']+=b['laws']; a['samples']+=b['samples']; a['rule']+=' '+b['rule']
    for k in ('known_findings','unreproducible','violations','wall_s'): out[k]+=d[k]
    out['violation_list']+=d['violation_list']
json.dump(out,open(sys.argv[1],'w'),indent=1)
