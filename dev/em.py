import sys; sys.path.insert(0,'/verif/sa'); sys.path.insert(0,'/tmp')
import core,canon
from terms import *
cx=core.Ctx(); canon.PROG=cx.p
u=cx.method("Expression","eval_mut")
outs=cx.E.analyse(u)
print(len(outs),cx.E.steps)
def evs(L,ind,c):
    for e in L:
        if e.kind=='oblig' and e.x['status']=='ok': continue
        if e.kind=='loop':
            print(ind,"LOOP",e.name.split('::')[-1])
            for it in e.x['iters']:
                print(ind,"  iter"); evs(it[0],ind+"     ",c)
        else: print(ind,e.kind,e.name,[c(a)[:160] for a in e.args or ()])
for o in outs:
    c=canon.Canon()
    sv=None
    print("==",o.kind,c(o.ret)[:200] if o.ret is not None else None)
    evs(o.st.events(),"     ",c)
    print("   if", [ (c(t)[:80],(sorted(v) if isinstance(v,frozenset) else v)) for t,v in o.st.conds()])
