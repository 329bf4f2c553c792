"""Development aid: why does the model comparison of builtin PATH say what it says?  usage: sumdbg.py PATH [substring of result]"""
import sys; sys.path.insert(0,'/verif/sa')
import core,canon,contract,model,specs
from terms import *
cx=core.Ctx(); canon.PROG=cx.p
path=sys.argv[1]
sp=[s for n in ('LIST','HOF','DICT','STRING','MATH','CONV') for s in getattr(specs,n) if s.path==path][0]
outs=cx.builtin(cx.reg.uid(path))
ck=contract.Checker(cx,None,[sp])
for o in outs:
    if o.kind!='ret': continue
    O=contract.Out(cx.E,o)
    if len(sys.argv)>2 and sys.argv[2] not in O.s: continue
    if O.s.startswith('Err(err'): continue
    print(O.s[:200]); print("   IF",[("" if v is True else "!" if v is False else str(sorted(v)) )+q[:90] for q,v,_ in O.extra()], "ends",len(o.st.ends))
    if O.is_ok() or not O.s.startswith("Err"):
        comp=list(ck.compatible(sp,O))
        if comp:
            v=ck.models(sp,O,comp,{},{})
            print("   early",ck.early(O),"verdict",v[0],model.LAST[0], model.show_model(v[1])+" gives %r"%(v[2],) if v[0]=='differs' else '')
