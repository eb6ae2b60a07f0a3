import sys; sys.path.insert(0,'/verif')
from mcv import check
for o in check.load(sys.argv[1],'thorough'):
    if o.name==sys.argv[2] or (len(sys.argv)>3 and sys.argv[2] in o.name):
        r=check.process(o,'quick',1)
        print(o.name)
        for k in ('status','clause','reason','path','path_dims','failure','noinput','paths','t','wall'): print('  ',k,str(r.get(k))[:3000])
        if len(sys.argv)<=3: break
