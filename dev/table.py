"""Regenerates the table of planted bugs in DESIGN.md, keeping the bracketed remarks."""
import json,os,re
p='/verif/DESIGN.md';L=open(p).read().split('\n')
a=next(i for i,l in enumerate(L) if l.startswith('## Planted bugs'))
rows=[i for i,l in enumerate(L) if i>a and re.match(r'\| C\d\d \|',l)]
rem={}
for i in rows:
    for m in re.finditer(r'([a-z0-9-]+)( \([^)]*\))',L[i].split('|')[2]): rem[m[1]]=m[2]
by={}
for d in sorted(os.listdir('/verif/seeded')):
    by.setdefault(json.load(open(f'/verif/seeded/{d}/meta.json'))['property'],[]).append(d)
new=['| %s | %s |'%(c,', '.join(d+rem.get(d,'') for d in by[c])) for c in sorted(by)]
assert rows==list(range(rows[0],rows[0]+len(rows)))
L[rows[0]:rows[0]+len(rows)]=new
open(p,'w').write('\n'.join(L))
print(sum(map(len,by.values())),'plants')
