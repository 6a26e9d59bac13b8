"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json (run after tools/mkseed.py)."""
import json, glob, os, re
rows=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append(f"| `{os.path.basename(os.path.dirname(m))}`: {d['what_it_breaks']} | {d.get('caught_by', d['property'])} |")
p='/verif/DESIGN.md'; s=open(p).read()
t='| bug | caught by |\n|---|---|\n'
i=s.index(t)+len(t); j=s.index('\n\n',i)
open(p,'w').write(s[:i]+'\n'.join(rows)+s[j:])
