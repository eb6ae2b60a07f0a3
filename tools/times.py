import sys; sys.path.insert(0,'/verif')
import time,collections
from mcv import check
import mcv.run
obs=check.load(sys.argv[1],'quick')
res=check.run_pool(obs,'quick',1,time.time()+600)
res.sort(key=lambda r:-(r.get('wall') or 0))
print('wall total',sum(r.get('wall') or 0 for r in res),'sym',sum(r.get('t') or 0 for r in res), len(res))
for r in res[:int(sys.argv[2])]: print(round(r.get('wall') or 0,2),round(r.get('t') or 0,2),r.get('paths'),r['name'],r['status'])
