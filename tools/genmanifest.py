#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the checks the checker implements."""
import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=set(subprocess.run(['/verif/bin/valuecheck','-list'],stdout=subprocess.PIPE,text=True).stdout.split())
AI='abstract interpretation of the SSA form (trace partitioning, linear-arithmetic and array-segmentation domains, inductive loop summaries)'
BASE='Holds for all inputs, in the abstraction: every path of the analysed methods is followed with symbolic inputs and decided from linear and congruence facts; assumes go/types and x/tools/go/ssa, the transfer functions and the library contracts listed in the evidence.'
TECH={}
NOTE={}
NA={
 'N02':'is a property of math/big and shopspring/decimal, which this repository only calls; a static argument about their multi-word arithmetic is out of reach here',
 'N03':'is a cryptographic assumption about NaCl box, not a property of program text',
 'N04':'quantifies over input the documentation excludes (callers vouching for unsorted input, foreign implementations of the interfaces); nothing in this code could establish it',
}
exec(open('/verif/tools/notes.py').read())
m={'version':1,'setup_cmd':'bash setup.sh','checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in have:
        m['checks'].append({'property':i,'quick_cmd':'./check.sh '+i,'technique':TECH.get(i,AI),'level':'other','level_note':NOTE.get(i,BASE)})
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'no check is claimed yet: the rules for it are not built')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(m['checks']),'claimed',len(m['not_applicable']),'not')
