import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev'); sys.setrecursionlimit(10000)
import refactor as R
from sa.project import Project
from sa.base import Check
from sa import conform as C
from sa.terms import *
q, tr = sys.argv[1], sys.argv[2]
p=Project(); R.spec_library(p)
f=p.functions[q]
new=R.rewrite(p,f,[t for t in R.TRANSFORMS if t.__name__==tr][0])
if '-s' in sys.argv: print(new[-1500:])
p=Project(overrides={f.module.rel:new})
chk=Check('X',p)
lib=C.spec_library(p)
o=C.Opts()
_,s1=C._run(chk,lib[q],lib[q],(),None); _,s2=C._run(chk,p.functions[q],lib[q],(),None,lib[q].params)
a,_=C.items_of(s1,o); b,_=C.items_of(s2,o)
def diffterm(x,y,path=''):
    if x is y: return
    if isinstance(x,Term) and isinstance(y,Term) and x.op==y.op and len(x.args)==len(y.args):
        n=0
        for i,(u,v) in enumerate(zip(x.args,y.args)):
            if u is not v and not (u==v): diffterm(u,v,path+'/%s.%d'%(x.op,i)); n+=1
        return
    if isinstance(x,tuple) and isinstance(y,tuple) and len(x)==len(y):
        for i,(u,v) in enumerate(zip(x,y)):
            if u is not v: diffterm(u,v,path+'[%d]'%i)
        return
    if isinstance(x,Node) and isinstance(y,Node):
        sx,sy=set(support(x)),set(support(y))
        print(path,'GUARD'); 
        for t in sx-sy: print('   only1', pretty(t)[:600])
        for t in sy-sx: print('   only2', pretty(t)[:600])
        if sx==sy: print('   same support; d1',pretty_guard(And(x,Not(y)))[:500],'| d2',pretty_guard(And(y,Not(x)))[:500])
        if len(sx-sy)==1 and len(sy-sx)==1: diffterm(list(sx-sy)[0],list(sy-sx)[0],path+'/g')
        return
    print(path, '\n   1:',pretty(x)[:600],'\n   2:',pretty(y)[:600])
ka=[k for k in a if k not in b]; kb=[k for k in b if k not in a]
print(len(a),len(b),'only1',len(ka),'only2',len(kb))
for k in a:
    if k in b and a[k].cond is not b[k].cond:
        print('COND', a[k].show()[:200]); diffterm(a[k].cond,b[k].cond)
for x in ka:
    print('ITEM',a[x].show()[:150])
    c=[y for y in kb if y[0]==x[0]]
    if c: diffterm(x[1:],c[0][1:])
if '-i' in sys.argv:
    for x,y in zip(ka,kb):
        for nm,z in (('1',x),('2',y)):
            t=z[1]
            if t.op=='cnew':
                for it in t.args[1]: print(nm, 'ITEM', it.id, pretty(it.args[0])[:200], '||', pretty_guard(it.args[1].args[0])[:700])
if '-j' in sys.argv:
    for x,y in zip(ka,kb):
        t,u=x[1],y[1]
        if t.op=='cnew':
            A=[i for i in t.args[1] if i not in u.args[1]]; B=[i for i in u.args[1] if i not in t.args[1]]
            for i,j in zip(A,B): diffterm(i,j,'ITEMDIFF')
