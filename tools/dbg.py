import sys; sys.path.insert(0,'/verif')
import mcv.check
from mcv import run as R, linalg as L, nf as N, ctx as C
from mcv.symt import SYMBOLIC
from mcv.hooks import B,npx
from mcv import den as D
w=R.World('sym') if hasattr(R,'World') else None
from mcv.world import World
w=World('sym'); L.reset(); N.set_base(C.Ctx()); SYMBOLIC[0]=True
n=w.dim('n')
b=w.dim('b'); a=w.T('a',(b,n,n),'psd')
import matrix
r=B.pd_inv(matrix.Dense(a))
x=npx.matmul(a,D.den(r))
vs,idx=L.generic(x)
nf=x.at(idx)
print(nf)
print({k:(m.nf,m.vars,m.plain) for k,m in L.RULES['inv'].items()})
t=nf.terms[0]
for v in t.bv:
    fs,cs=L._uses(t,v); print(v,fs,cs)
    if len(fs)==2: print(L._contract(t.fac[fs[0]][0],t.fac[fs[1]][0],v,cs,N.BASE))
print(L.rewrite(nf,N.BASE))
