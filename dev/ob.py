import sys,time,collections; sys.path.insert(0,'/verif/sa')
import mir, engine
from terms import *
p=mir.load("/verif/build/mir")
prims={u for u,b in p.bodies.items() if b.get("m") in ("eval","eval_mut") and "Expression" in p.tystr(b.get("im",-1))}
E=engine.Engine(p,prims)
E.MAXSTEPS=20000
seen={}
for u in list(p.bodies):
    try: outs=E.analyse(u)
    except engine.Budget: continue
    for o in outs:
        for e in o.st.events():
            if e.kind=='oblig' and e.x['status']!='ok':
                k=(e.name,str(e.site[:2]))
                v=seen.setdefault(k,[collections.Counter(),set(),None])
                v[0][e.x['status']]+=1; v[1].add(u); v[2]=show(e.x['cond'],4)
for (n,s),v in sorted(seen.items(),key=lambda x:x[0][1]):
    print(dict(v[0]),n,s,len(v[1]),v[2][:150])
