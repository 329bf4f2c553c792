"""P20: log levels."""
import re
import core, canon
from terms import *
from util import *
from canon import Canon
from rules import rule
from report import Guard

LEVELS = ["none", "error", "warn", "info", "debug", "trace"]
FUNCS = ["error", "warn", "info", "debug", "trace"]
RW = re.compile(r"RwLock::(read|write)|Mutex::lock|::load")


def const(e):
    t = e.term
    if t.op == "adt" and t.a[0] == EXPR and VARNAME(EXPR, t.a[1]) in ("Integer", "Float") and t.a[2].op in ("int", "float", "const"):
        return t.a[2].a[0]
    return None


def islevel(t):
    return t.op == "field" and t.a[0].op == "call" and bool(RW.search(t.a[0].a[0])) or t.op == "call" and t.a[0].endswith("::load")


def value(t, env, d=0):
    """evaluate a boolean/integer term in which only the terms of env are free; None: something else occurs"""
    if t in env:
        return env[t]
    if d > 30:
        return None
    if t.op == "int":
        return t.a[0]
    if t.op == "bool":
        return bool(t.a[0])
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t.op == "not":
        v = value(t.a[0], env, d + 1)
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [value(x, env, d + 1) for x in t.a]
        stop = t.op == "or"
        if any(v is not None and bool(v) == stop for v in vs):
            return stop
        return None if None in vs else not stop
    if t.op == "ite":
        c = value(t.a[0], env, d + 1)
        return None if c is None else value(t.a[1] if c else t.a[2], env, d + 1)
    if t.op == "cast":
        return value(t.a[1], env, d + 1)
    if t.op in ("bin", "cmp"):
        a, b = value(t.a[-2], env, d + 1), value(t.a[-1], env, d + 1)
        if a is None or b is None:
            return None
        f = {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}
        if t.a[0] in f:
            return f[t.a[0]]
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b}
        return f[t.a[0]]() if t.a[0] in f else None
    return None


def levels_of(o):
    s = set()
    for t, v in o.st.conds():
        s |= {x for x in subterms(t) if islevel(x)}
    return s


def feasible(o, lv, extra=None):
    """can this path be taken when the level is lv?"""
    env = {x: lv for x in levels_of(o)}
    if extra:
        env.update(extra)
    for t, v in o.st.conds():
        if isinstance(v, bool):
            r = value(t, env)
            if r is not None and bool(r) != v:
                return False
    return True


def prints(evs):
    return [e for e in walk(evs) if e.kind == "print"]


@rule("P20", "The log builtins' MIR is summarised path by path; the tests on the level are decided for every level 0..5, and the prints of one arbitrary turn of the "
      "argument loop and of the line loop are compared with what must be printed.")
def p20(cx, rep, tier):
    rep.rule("log@X prints iff the current level is at least log@level@X; every line of every argument is printed after the [X] prefix; set-level/get-level/disable/enabled? write and "
             "read that level; echo always prints every argument in order")
    code = {}
    for l in LEVELS:
        e = cx.reg.entries.get("log@level@" + l)
        if e is None:
            rep.missing("log@level@" + l)
            continue
        code[l] = const(e)
        if code[l] is None:
            rep.undecided("level:" + l, cstr(e.term)[:80])
        rep.count("constants")
    if all(code.get(l) is not None for l in LEVELS):
        if code["none"] != 0 or [code[l] for l in LEVELS] != sorted(set(code.values())):
            rep.violation("levels", "the log levels are not none=0 < error < warn < info < debug < trace", {"levels": code})
    import r_call
    done = r_call.logs(cx, rep, code)
    for f in FUNCS:
        if code.get(f) is None or "log@" + f in done:
            continue
        with Guard(rep, "log@" + f):
            gate(cx, rep, f, code[f], code)
    if "log@echo" not in done:
        with Guard(rep, "log@echo"):
            echo(cx, rep)
    for n, f in (("set-level", setter), ("get-level", getter), ("disable", disable), ("enabled?", enabled)):
        if "log@" + n in done:
            continue
        with Guard(rep, "log@" + f.__name__):
            f(cx, rep, code)


def outs(cx, rep, k):
    u = cx.reg.uid(k)
    rep.unit(u)
    r = cx.builtin(u)
    if r is None:
        rep.undecided(k, "budget")
    return u, r or []


def gate(cx, rep, f, want, code):
    k = "log@" + f
    u, os = outs(cx, rep, k)
    rep.count("log_functions")
    for o in os:
        if o.kind != "ret":
            continue
        C = Canon(o.st.events())
        pr = prints(o.st.events())
        lv = [e for e in walk(o.st.events()) if e.kind == "next"]
        ok = o.ret.op == "adt" and o.ret.a[0] == RESULT and o.ret.a[1] == 0
        # a path on which the lock itself is unusable says nothing about levels
        for L in sorted(set(code.values())):
            if not isinstance(L, int) or not feasible(o, L):
                continue
            rep.count("obligations")
            if L < want and pr:
                rep.violation(k + ":prints", "log@%s prints at log level %s" % (f, L), {"function": u, "path": conds_str(o)})
            if L >= want and ok and not pr and not lv:
                rep.violation(k + ":silent", "log@%s prints nothing at log level %s" % (f, L), {"function": u, "path": conds_str(o)})
        for e in pr:
            s = text(e)
            for m in re.findall(r"\[([A-Z]+)\]", s):
                if m.lower() in FUNCS and m.lower() != f:
                    rep.violation(k + ":prefix", "log@%s prints the prefix [%s]" % (f, m), {"function": u})
    body(cx, rep, k, u, os, f)


def text(e):
    return "".join(x.a[0] for x in subterms(e.args[0]) if x.op == "str")


def body(cx, rep, k, u, os, prefix):
    """what one turn of the argument loop prints"""
    seen = set()
    for o in os:
        C = Canon(o.st.events())
        for lp in o.st.events():
            if lp.kind != "loop" or id(lp) in seen:
                continue
            seen.add(id(lp))
            for evs, conds, st in (i[:3] for i in lp.x["iters"]):
                rep.count("loop_paths")
                turn(cx, rep, k, u, C, evs, conds, prefix, st)


def turn(cx, rep, k, u, C, evs, conds, prefix, st):
    nx = [C(e.args[0]) for e in evs if e.kind == "next"][:1]
    det = {"function": u, "path": "; ".join("%s is %s" % (C(c)[:80], v if isinstance(v, bool) else sorted(v)) for c, v in conds)[:500]}
    if nx and re.match(r"^(slice|rev|skip|take)\(", nx[0]):
        rep.violation(k + ":args", "only some of the arguments are printed (%s), or not in order" % nx[0], det)
        return
    ev = [e for e in evs if e.kind == "prim" and e.name.startswith("Expression::eval")]
    vals = {C(e.args[0]) for e in ev}
    if not vals:
        rep.undecided(k + ":turn", "no argument evaluated")
        return
    if len(vals) != 1 or not re.match(r"^args\[k\d+(~\w+)?\]$", list(vals)[0]):
        rep.undecided(k + ":turn", str(vals)[:120])
        return
    a = list(vals)[0]
    if "~" in a:
        rep.violation(k + ":args", "only some of the arguments are printed, or not in order (%s)" % a, det)
        return
    full = "disp(val(%s))" % a
    direct = [C(e.args[0]) for e in evs if e.kind == "print"]
    inner = [e for e in evs if e.kind == "loop"]
    if not inner:
        if not any(full in s for s in direct):
            if direct and any("(" in s for s in direct):
                rep.undecided(k + ":text", str(direct)[:200])
            else:
                rep.violation(k + ":lost", "%s evaluates an argument but does not print it" % k, det)
        return
    if any(full in s and "split" not in s and "lines" not in s for s in direct):
        return
    for lp in inner:
        for evs2, conds2, st2 in (i[:3] for i in lp.x["iters"]):
            rep.count("loop_paths")
            nx = [e for e in evs2 if e.kind == "next"]
            if not nx:
                continue
            src = C(nx[0].args[0])
            if not re.match(r"^(split|lines)\(%s(, 10)?\)$" % re.escape(full), src):
                if src.startswith(("slice(", "rev(")):
                    rep.violation(k + ":lines", "%s prints only some of the lines of its argument (%s)" % (k, src[:80]), det)
                else:
                    rep.undecided(k + ":lines", src[:150])
                continue
            line = C(nx[0].res) if isinstance(nx[0].res, T) else None
            pr = [C(e.args[0]) for e in evs2 if e.kind == "print"]
            d2 = dict(det, line="; ".join("%s is %s" % (C(c)[:80], v if isinstance(v, bool) else sorted(v)) for c, v in conds2)[:300])
            if any("~" in s for s in pr):
                rep.violation(k + ":lines", "%s prints only some of the lines of its argument, or not in order" % k, d2)
            empty = any(re.match(r"^Eq\(0, len\(", C(c)) and v is True or re.match(r"^(eq|strpred).*''", C(c)) and v is True for c, v in conds2)
            if not any(re.search(r"(split|lines)\(", s) for s in pr):
                if not pr and not empty:
                    rep.violation(k + ":line-lost", "%s does not print a line of its argument that is not empty" % k, d2)
                elif pr:
                    rep.undecided(k + ":line", str(pr)[:200])
            elif prefix and not any(re.search(r"\[%s\]" % prefix.upper(), text(e)) for e in evs2 if e.kind == "print"):
                rep.violation(k + ":no-prefix", "%s prints a line without its prefix" % k, d2)


def echo(cx, rep):
    u, os = outs(cx, rep, "log@echo")
    for o in os:
        C = Canon(o.st.events())
        if levels_of(o):
            rep.violation("echo:gated", "log@echo depends on the log level", {"function": u, "path": conds_str(o)})
        if o.kind == "ret" and o.ret.op == "adt" and o.ret.a[1] == 0 and not any(e.kind in ("loop", "next") for e in o.st.events()):
            rep.violation("echo:silent", "log@echo returns without printing its arguments", {"function": u, "path": conds_str(o)})
    body(cx, rep, "log@echo", u, os, None)


def stored(o):
    r = []
    for kk, v in o.st.mem.items():
        if kk[0] == "D" and v is not kk[1]:
            x = kk[1]
            if any(y.op == "call" and RW.search(y.a[0]) for y in subterms(x)):
                r.append((x, v))
    return r


def setter(cx, rep, code):
    u, os = outs(cx, rep, "log@set-level")
    for o in os:
        if not (o.kind == "ret" and o.ret.op == "adt" and o.ret.a[1] == 0):
            continue
        C = Canon(o.st.events())
        w = [C(v) for x, v in stored(o)]
        rep.count("obligations")
        if not w:
            if any(e.kind in ("ext", "prim") and e.name not in ("Expression::eval", "Expression::eval_mut", "RwLock::read") and not e.name.startswith("Rwlock") for e in walk(o.st.events())):
                if not any(e.name.endswith("RwLock::write") for e in walk(o.st.events())):
                    rep.undecided("set-level", "no recognised store")
                    continue
            rep.violation("set-level:none", "log@set-level succeeds without setting the level", {"function": u, "path": conds_str(o)})
        elif any(s != "val0.Integer" for s in w):
            rep.violation("set-level:value", "log@set-level sets the level to %s" % w[0][:100], {"function": u, "path": conds_str(o)})


def getter(cx, rep, code):
    u, os = outs(cx, rep, "log@get-level")
    for o in os:
        if not (o.kind == "ret" and o.ret.op == "adt" and o.ret.a[1] == 0):
            continue
        rep.count("obligations")
        v = o.ret.a[2]
        if not (v.op == "adt" and v.a[0] == EXPR and VARNAME(EXPR, v.a[1]) == "Integer"):
            rep.violation("get-level:kind", "log@get-level returns %s" % cstr(v)[:100], {"function": u})
        elif not islevel(v.a[2]):
            if v.a[2].op in ("int", "bin"):
                rep.violation("get-level:value", "log@get-level returns %s instead of the level" % cstr(v)[:100], {"function": u})
            else:
                rep.undecided("get-level", cstr(v)[:100])


def disable(cx, rep, code):
    u, os = outs(cx, rep, "log@disable")
    for o in os:
        if not (o.kind == "ret" and o.ret.op == "adt" and o.ret.a[1] == 0):
            continue
        rep.count("obligations")
        w = [v for x, v in stored(o)]
        for v in w:
            if v.op == "int":
                if v.a[0] != code.get("none", 0):
                    rep.violation("disable:value", "log@disable sets the level to %s" % v.a[0], {"function": u})
            else:
                rep.undecided("disable", cstr(v)[:100])
        if not w:
            if any(e.name == "RwLock::write" for e in walk(o.st.events())) or not [e for e in walk(o.st.events()) if e.kind in ("ext", "prim")]:
                rep.violation("disable:none", "log@disable succeeds without changing the level", {"function": u})
            else:
                rep.undecided("disable", "no recognised store")


def enabled(cx, rep, code):
    u, os = outs(cx, rep, "log@enabled?")
    for o in os:
        if not (o.kind == "ret" and o.ret.op == "adt" and o.ret.a[1] == 0):
            continue
        v = o.ret.a[2]
        if not (v.op == "adt" and v.a[0] == EXPR and VARNAME(EXPR, v.a[1]) == "Boolean"):
            rep.violation("enabled:kind", "log@enabled? returns %s" % cstr(v)[:100], {"function": u})
            continue
        lv = levels_of(o) | {x for x in subterms(v) if islevel(x)}
        C = Canon(o.st.events())
        arg = {x for t in [v] + [c for c, _ in o.st.conds()] for x in subterms(t) if C(x) == "val0.Integer"}
        for L in range(0, 6):
            for n in range(-1, 7):
                env = {x: L for x in lv}
                env.update({x: n for x in arg})
                if not all(value(t, env) in (None, w) for t, w in o.st.conds() if isinstance(w, bool)):
                    continue
                r = value(v.a[2], env)
                rep.count("obligations")
                if r is None:
                    rep.undecided("enabled?", cstr(v)[:120])
                elif bool(r) != (n <= 0 or L >= n):
                    rep.violation("enabled:value", "log@enabled? says %s for level %s when the log level is %s" % (r, n, L), {"function": u, "path": conds_str(o)})
