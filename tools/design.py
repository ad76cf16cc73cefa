# assembles DESIGN.md's seed table from seeded/*/meta.json and /tmp/catch table if present
import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append((m['property'],os.path.basename(os.path.dirname(d)),m['needs']))
rows.sort()
t="| property = check which catches it | planted change | needs |\n|---|---|---|\n"+"".join(f"| {p} | {i} | {n} |\n" for p,i,n in rows)
s=open('/verif/tools/DESIGN.in.md').read()
open('/verif/DESIGN.md','w').write(s.replace('@SEEDS@',t.rstrip()).replace('@NSEEDS@',str(len(rows))))
