import sys; sys.path.insert(0,'/verif')
import json,re,time,os
from mcv import check
P,rx,what=sys.argv[1:4]
obs=[o for o in check.load(P,'thorough') if re.search(rx,o.name)]
cl={}
for seed in (1,2,3,4):
    for r in check.run_pool(obs,'quick',seed,time.time()+600):
        f=r.get('failure')
        if f: cl.setdefault(r['name'],set()).add(f['clause'])
p='/verif/known_findings.json'
d=json.load(open(p)) if os.path.exists(p) else {'findings':[]}
for n,c in sorted(cl.items()):
    d['findings']=[k for k in d['findings'] if k.get('obligation')!=n]
    d['findings'].append(dict(property=P,obligation=n,clauses=sorted(c),what=what))
    print(n,sorted(c))
json.dump(d,open(p,'w'),indent=1)
