#!/usr/bin/env python3
"""DESIGN.md = design_head.md + tables of the planted bugs and refactorings."""
import json,glob,re
o=open('/verif/tools/design_head.md').read()
o+="\n## Planted bugs\n\nEach is caught by the check of the property it was written for (`tools/seeds.py` verifies patch, build, stable tests, demo and catch).\n\n| seed | caught by | needs | breaks |\n|---|---|---|---|\n"
c=lambda s:s.replace('|','/').replace('\n',' ')
n=0
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); n+=1
    o+=f"| {f.split('/')[-2]} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |\n"
s=open('/verif/tools/refactorlist.py').read()
names=re.findall(r"^refactor\('([^']+)'",s,re.M)
o+=f"\n{n} in all.\n\n## Refactorings\n\n{len(names)} behaviour-preserving edits on which all checks are quiet: "+", ".join(names)+".\n"
open('/verif/DESIGN.md','w').write(o)
