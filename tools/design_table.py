import json,glob,os
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['property']}; needs {m['needs']} |")
s=open('/verif/DESIGN.md').read()
import re
if '@@TABLE@@' in s: s=s.replace('@@TABLE@@','<!-- planted -->\n'+'\n'.join(rows)+'\n<!-- end -->')
else: s=re.sub(r'<!-- planted -->.*<!-- end -->',lambda _:'<!-- planted -->\n'+'\n'.join(rows)+'\n<!-- end -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
