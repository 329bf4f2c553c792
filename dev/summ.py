import sys; sys.path.insert(0,'/verif/sa')
import core,canon
from terms import *
cx=core.Ctx(); canon.PROG=cx.p
def summ(uid,full=False):
    outs=cx.builtin(uid)
    if outs is None: print("   BUDGET"); return
    seen={}
    for o in outs:
        if o.kind!='ret': print("   DIV"); continue
        C=canon.Canon(o.st.events())
        s,op=C(o.ret),C.opaque
        if not full and (s.startswith("Err(CustomError") or s.startswith("Err(err")): 
            continue
        cs=[]
        for t,v in o.st.conds():
            c=canon.Canon(o.st.events()); 
            if isinstance(v,frozenset):
                ty=canon.tyname(t)
                if t.op=='call' and canon.is_eval(t): continue
                vs=[canon.vname(ty,x) if ty else str(x) for x in sorted(v)]
                if len(vs)>9: vs=['~%d'%(len(vs))]
                cs.append(c(t)+"∈"+"|".join(vs))
            else: cs.append(("" if v else "!")+c(t))
        print("   ",s[:400],"OPAQUE" if op else "", " IF ", "; ".join(cs)[:500])
if __name__=='__main__':
    full='-f' in sys.argv
    for k,e in sorted(cx.reg.entries.items()):
        if k.startswith("std@") or e.uid is None: continue
        if any(k.startswith(a) for a in sys.argv[1:] if a!='-f'):
            print(k,e.uid); summ(e.uid,full)
