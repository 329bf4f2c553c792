"""P01, P02: nothing panics."""
import re
import core, canon, engine
from terms import *
from util import *
from rules import rule
from report import Guard


class Obligations(object):
    def __init__(self, cx, rep):
        self.cx, self.rep = cx, rep
        self.seen = {}

    def add(self, entry, outs):
        for o in outs or ():
            for e in walk(o.st.events()):
                if e.kind == "oblig":
                    self.one(entry, o, e)

    def one(self, entry, o, e):
        st = e.x["status"]
        if e.name == "repeat_capacity" and st == "free":
            st = "fail" if self.negative(o, e) else "memory"
        k = (e.name, e.site[0], tuple(e.site[1]) if isinstance(e.site[1], list) else e.site[1])
        r = self.seen.setdefault(k, {})
        if st not in r:
            r[st] = (entry, o, e)

    def negative(self, o, e):
        """can the repeat count come from a negative integer?"""
        for x in subterms(e.args[1]):
            if x.op == "cast" and isinstance(x.a[1], T):
                lo, hi = self.cx.E.bounds(o.st, x.a[1])
                if lo < 0:
                    return True
        return False

    def report(self):
        rep = self.rep
        rep.count("panic_sites", len(self.seen))
        for (name, fn, loc), r in sorted(self.seen.items(), key=lambda q: str(q[0])):
            if "fail" in r or "free" in r:
                entry, o, e = r.get("fail") or r["free"]
                c = e.x.get("cond")
                rep.violation("%s:%s" % (name, short(fn)), "%s can panic (%s at %s:%s), reached from %s" % (
                    short(fn), name, loc[0] if isinstance(loc, tuple) else loc, loc[1] if isinstance(loc, tuple) else "", entry),
                    {"required": cstr(c) if isinstance(c, T) else str(c), "path": conds_str(o)})
            elif "open" in r:
                entry, o, e = r["open"]
                c = e.x.get("cond")
                rep.undecided("%s:%s:%s" % (name, short(fn), loc[1] if isinstance(loc, tuple) else ""), cstr(c)[:200] if isinstance(c, T) else "")
                rep.count("sites_open")
            elif "memory" in r:
                rep.count("sites_memory_only")
            else:
                rep.count("sites_discharged")


@rule("P01", "Abstract interpretation (intervals, linear inequalities, variant sets) of every path of every registered builtin, of the evaluator and of the "
      "operators: each potential panic (unwrap, expect, index, slice, split, insert, remove, checked arithmetic, division, shift, explicit panic, capacity) "
      "is an obligation that must hold on every path that reaches it. Obligations over unconstrained user input that do not hold are violations.")
def p01(cx, rep, tier):
    rep.rule("every panic site reachable from a builtin, an operator or the evaluator is unreachable or guarded on every path")
    ob = Obligations(cx, rep)
    ents = builtins(cx)
    for u, k in ents.items():
        with Guard(rep, k):
            outs = cx.builtin(u)
            rep.unit(u)
            rep.count("builtins")
            if outs is None:
                rep.undecided(k, "analysis budget exceeded")
            ob.add(k, outs)
    extra = sorted(cx.evals)
    for ty, m, tr in (("Expression", "fmt", "Display"), ("Expression", "fmt", "Debug")):
        with Guard(rep, m + tr):
            extra.append(cx.method(ty, m, tr))
    for pat in (r"operator_module::pipe_builtin$",):
        c = [u for u in cx.p.bodies if re.search(pat, u)]
        extra += c
    for u in extra:
        with Guard(rep, u):
            rep.unit(u)
            ob.add(short(u), cx.outs(u))
    ob.report()
