"""Shared helpers of the rules."""
import re
import canon, core, engine
from terms import *
from canon import Canon


def walk(evs):
    """every event, including those inside loop iterations and alternative paths"""
    for e in evs:
        yield e
        x = e.x or {}
        for it in x.get("iters", ()):
            for y in walk(it[0]):
                yield y
        for p in x.get("paths", ()):
            for y in walk(p[0]):
                yield y


def short(u):
    return re.sub(r"^(dunesh|dune)::(binary::init::)?", "", u)


def builtins(cx):
    """uid -> one registered path"""
    out = {}
    for k, e in sorted(cx.reg.entries.items(), key=lambda q: (q[0].startswith("std@"), q[0])):
        if e.uid and e.uid in cx.p.bodies and e.uid not in out:
            out[e.uid] = k
    # functions a builtin turns into a builtin of its own when it runs
    if not hasattr(cx, "nested_builtins"):
        cx.nested_builtins = {}
        for u, k in list(out.items()):
            b = cx.p.bodies[u]
            if not any(isinstance(c, str) and c.endswith("::builtin") for c in callees(cx, u)):
                continue
            for o in cx.builtin(u) or ():
                for e in o.st.events():
                    for a in e.args or ():
                        for x in subterms(a) if isinstance(a, T) else ():
                            f = None
                            if x.op == "closure":
                                f = x.a[0]
                            elif x.op == "fn" and getattr(x.a[0], "c", None):
                                f = x.a[0].c.get("ru") or x.a[0].c["u"]
                            if f in cx.p.bodies and f not in out and cx.p.bodies[f]["argc"] >= 2 and \
                                    "Environment" in cx.p.tystr(cx.p.bodies[f]["locals"][cx.p.bodies[f]["argc"]][0]):
                                cx.nested_builtins[f] = k + "/" + short(f).split("::")[-1]
    out.update({u: k for u, k in cx.nested_builtins.items() if u not in out})
    return out


def callees(cx, u):
    out = set()
    for bb in cx.p.bodies[u]["bb"]:
        t = bb["t"] if isinstance(bb, dict) else bb[-1]
        s = str(t)
        for m in re.findall(r"'(?:ru|u|p)': '([^']+)'", s):
            out.add(m)
    return out


def cstr(t, evs=()):
    return Canon(evs)(t)


def kname(ty, vs):
    return "|".join(sorted(canon.vname(ty, x) for x in vs))


def conds_str(o, n=400):
    cs = []
    C = Canon(o.st.events())
    for t, v in o.st.conds():
        if isinstance(v, frozenset):
            ty = canon.tyname(t)
            vs = [canon.vname(ty, x) if ty else str(x) for x in sorted(v)]
            if len(vs) > 9:
                continue
            cs.append(C(t) + " is " + "|".join(vs))
        else:
            cs.append(("" if v else "not ") + C(t))
    return "; ".join(cs)[:n]
