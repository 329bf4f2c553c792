"""Builtins that evaluate: their summaries interpreted with reference evaluation (m_call), and the constant scripts and numbers of the library."""
import struct
import canon, model, m_call, r_err
from m_call import *
from util import conds_str
from report import Guard
from rules import rule
from terms import subterms


def judged(cx, rep, n, refs, models, probe=(), text="does not do what it is documented to do", seen=None):
    """-> were all models judged, and does some model take every path?"""
    with Guard(rep, n):
        u = cx.reg.uid(n)
        rep.unit(u)
        outs = cx.builtin(u)
        if outs is None:
            rep.undecided(n + ":calls", "budget")
            return False, False
        key = (u, n)
        c = cx.__dict__.setdefault("_calls", {})
        if key not in c:
            c[key] = judge_builtin(cx, outs, refs, models, probe, seen=seen)
        f, cnt, why, full = c[key]
        for k, v in cnt.items():
            rep.count(k, v)
        rep.count("obligations", cnt["calls_judged"])
        if f is not None:
            (k, msg), det, o = f
            rep.violation("%s:%s" % (n, k), "%s %s" % (n, msg if k != "result" or "applied to" in msg else text + ": it " + msg), dict(det, function=u, path=conds_str(o)))
        elif cnt["calls_unknown"] > cnt["calls"] // 20:
            rep.undecided(n + ":calls", "%d of %d calls: %s" % (cnt["calls_unknown"], cnt["calls"], why))
        return cnt["calls_unknown"] == 0, full
    return False, False


def script(cx, rep, n, ref, probes, e0):
    """a function the library defines by a script, compared with the documented one by what they return"""
    with Guard(rep, n):
        e = cx.reg.find(n)
        if e.kind != "script":
            rep.undecided(n, "not a script")
            return
        where = [x for x in subterms(e.term) if x.op == "call" and x.a[0].startswith("Environment") and x.a[0].endswith(("::default", "::new"))]
        base = env({}) if where else e0
        try:
            x = parsed(e.name)
            r, _ = CallLang([]).run(x, base)
        except Unk as w:
            rep.undecided(n, "script: %s" % w)
            return
        w, _ = CallLang([]).run(ref, base)
        for xs in probes:
            a, b = [], []
            try:
                g, ge = CallLang(a).run(APP(r[2], *xs), e0)
                q, qe = CallLang(b).run(APP(w[2], *xs), e0)
                ok = m_eval.same(g, q, e0) and len(a) == len(b) and m_eval.same(ge, qe, e0)
            except Unk as u:
                rep.count("applications_unknown")
                continue
            rep.count("obligations")
            rep.count("script_applications")
            if not ok:
                rep.violation("script:" + n, "%s does not return what it is documented to return" % n, {"script": e.name, "arguments": repr(xs)[:200], "returns": repr(g)[:200], "expected": repr(q)[:200]})
                return


NUMS = [INT(i) for i in (0, 1, 2, -1, -5, (1 << 63) - 1, -(1 << 63))] + [EX("Float", x) for x in (0.5, -1.5, 2.0, 1e300, -0.25)]
PAIRS = [V([a, b]) for a in NUMS for b in NUMS if a[1] == b[1]]
ANYS = [INT(1), STR("s"), LIST(INT(1)), SYM("v"), NONEX, QUOTE(SYM("v")), N(INT(4)), FAIL]
X, Y, F, G = SYM("x"), SYM("y"), SYM("f"), SYM("g")
SCRIPTS = {
    "P22": [("math@max", LAM("x", LAM("y", IF(APP(SYM(">"), X, Y), X, Y))), PAIRS), ("math@min", LAM("x", LAM("y", IF(APP(SYM("<"), X, Y), X, Y))), PAIRS)],
    "P34": [("fn@id", LAM("x", X), [V([a]) for a in ANYS]), ("fn@const", LAM("x", LAM("y", X)), [V([a, b]) for a in ANYS for b in ANYS]),
            ("fn@flip", LAM("f", LAM("x", LAM("y", APP(F, Y, X)))), [V([f, a, b]) for f in (SYM("pair"), SYM("-"), SYM("add"), SYM("n"), SYM("bad"), INT(3)) for a in ANYS[:1] + ANYS[1:3] for b in (INT(7), STR("b"))]),
            ("fn@compose", LAM("f", LAM("g", LAM("x", APP(F, APP(G, X))))), [V([f, g, a]) for f in (SYM("pair"), SYM("n"), SYM("big"), SYM("id")) for g in (SYM("pair"), SYM("n"), SYM("id"), SYM("tick")) for a in ANYS[:4]])],
}
CONSTS = {"math@E": 2.718281828459045, "math@PI": 3.141592653589793, "math@TAU": 6.283185307179586}


def extra(cx, rep, pid):
    """further obligations of a property decided by contracts"""
    for n, ref, probes in SCRIPTS.get(pid, ()):
        script(cx, rep, n, ref, probes, E1)
    if pid == "P22":
        for n, v in CONSTS.items():
            with Guard(rep, n):
                t = cx.reg.find(n).term
                t = t.a[2] if t.op == "adt" and len(t.a) == 3 else t
                if t.op != "float":
                    rep.undecided(n, str(t)[:100])
                    continue
                rep.count("obligations")
                got = struct.unpack("<d", struct.pack("<Q", t.a[0] & (1 << 64) - 1))[0]
                if got != v:
                    rep.violation("const:" + n, "%s is %r and not %r" % (n, got, v), {"registered": str(t)})
    if pid == "P34":
        for n, (refs, k) in HOF.items():
            judged(cx, rep, n, refs, hofmodels(k), PROBES)
    import m_pure
    for n, q in sorted(m_pure.PURE.get(pid, {}).items()):
        if q is not None and n in cx.reg.entries:
            judged(cx, rep, n, q[0], [(x, E1) for x in q[1]], text="does not return what it is documented to return")
    if pid == "P27":
        for n, (refs, k) in FOLDS.items():
            judged(cx, rep, n, refs, hofmodels(k), PROBES)


def tries(cx, rep, pub):
    """-> is err@try decided?"""
    m_call.CODES = {n: pub.get(r_err.kebab(n)) for n in m_eval.ERRORS}
    if any(not isinstance(v, int) for v in m_call.CODES.values()):
        return False
    return judged(cx, rep, "err@try", TRY["err@try"], trymodels())[0]


def logs(cx, rep, code):
    """-> the log functions the models decide on every path"""
    r = set()
    for n in sorted(LOG):
        f = n.split("@")[-1]
        if f in m_call.LEVELS:
            if not isinstance(code.get(f), int):
                continue
            m_call.LEVELS[f] = code[f]
        if n in cx.reg.entries and judged(cx, rep, n, LOG[n], logmodels(n))[1]:
            r.add(n)
    return r


@rule("P31", "The path-sensitive summary of every builtin that works on the environment is interpreted on argument expressions and environments (evaluation by the language's reference "
             "rules, a small set of source files); its result, the environment afterwards and every call made are compared with the documented ones.")
def p31(cx, rep, tier):
    rep.rule("result, final environment and calls of the builtin == those of its reference, for every model")
    for n in sorted(ENVB):
        rep.count("builtins")
        judged(cx, rep, n, ENVB[n], envmodels(n))
