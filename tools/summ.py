import sys; sys.path.insert(0,'/verif')
import time,collections,re
from mcv import check
P=sys.argv[1]
obs=check.load(P,'quick')
if len(sys.argv)>2: obs=[o for o in obs if re.search(sys.argv[2],o.name)]
t0=time.time()
res=check.run_pool(obs,'quick',1,time.time()+600)
c=collections.Counter(); ex={}
for r in res:
    f=r.get('failure')
    if f: k=('FAIL',f['clause'],re.sub(r'[-\d.e]+','#',f['detail'][:60].replace('\n',' ')))
    elif r.get('noinput'): k=('NOINPUT',r['clause'],'')
    elif r['status'] not in('proved','concrete-only'): k=(r['status'],r.get('clause'),re.sub(r'[-\d.e]+','#',str(r.get('reason'))[:110]))
    else: continue
    c[k]+=1; ex.setdefault(k,[]).append(r['name'])
print(P,len(obs),'obligations',round(time.time()-t0,1),'s; proved',sum(r['status']=='proved' for r in res))
for k,n in c.most_common(int(sys.argv[3]) if len(sys.argv)>3 else 40):
    print(n,*k,'e.g.',', '.join(ex[k][:3]))
