"""P11, P13..P16: the evaluator, decided on the outcomes of one turn of `eval_mut`."""
import re
import core, canon, engine, model
from terms import *
from util import *
from canon import Canon, pushed
from contract import KINDS, digest
from rules import rule
from report import Guard

MAXDEPTH = 1000


def evaluator(cx):
    c = [u for u in cx.evals if cx.p.bodies[u]["m"] == "eval_mut"]
    if len(c) != 1:
        raise core.Anchor("eval_mut")
    return c[0]


def exprfn(cx, m):
    c = [u for u, b in cx.p.bodies.items() if b.get("m") == m and b.get("im") is not None and "tr" not in b and cx.p.tystr(b["im"]).split("::")[-1] == "Expression"]
    if len(c) != 1:
        raise core.Anchor("Expression::" + m)
    return c[0]


def turn(cx):
    """outcomes of one turn of the evaluator; helpers with their own contracts stay calls"""
    u = evaluator(cx)
    helpers = set()
    for m in ("get_used_symbols", "flatten"):
        try:
            helpers.add(exprfn(cx, m))
        except core.Anchor:
            pass
    old, cut = cx.E.prims, cx.E.cut
    cx.E.prims = set(old) | helpers
    cx.E.cut = {u}
    try:
        return u, cx.outs(u, None, "turn")
    finally:
        cx.E.prims, cx.E.cut = old, cut


class Tr(object):
    """one outcome, rendered"""

    def __init__(self, cx, o):
        self.cx, self.o = cx, o
        evs = o.st.events()
        self.C = C = Canon(evs)
        self.kind = None
        self.head = None
        self.unclear = False
        self.conds = []
        for t, v in o.st.conds():
            q = C(t)
            if isinstance(v, frozenset):
                ty = canon.tyname(t)
                vs = [canon.vname(ty, x) if ty else str(x) for x in v]
                if q == "self":
                    self.kind = set(vs)
                elif q == "val(self.Apply)":
                    self.head = set(vs)
                self.conds.append((q, frozenset(vs)))
            else:
                self.conds.append((q, v))
        self.acts = self.flat(evs)
        self.ret = C(o.ret) if o.kind == "ret" else "diverges"
        if C.opaque or "phi" in self.ret or "havoc" in self.ret:
            self.unclear = True
        m = re.match(r"^continue\(\(self, (.*)\), \(env, env\), \(depth, (.*)\)\)$", self.ret)
        if m:
            self.tail, self.rest = m.group(1), None
        elif self.ret.startswith("eval("):
            x = self.o.ret
            self.tail = C(x.a[1])
            e = C(x.a[2])
            self.rest = None if e == "env" else e
            if self.acts and self.acts[-1][0] == "eval":
                self.acts = self.acts[:-1]
        else:
            self.tail, self.rest = None, None

    def flat(self, evs, d=0):
        """the observable actions in order, loop bodies in place (one alternative per loop, otherwise a nested list)"""
        out = []
        for e in evs:
            s = self.C
            if e.kind == "prim" and e.name in ("Expression::eval_mut", "Expression::eval"):
                out.append(("eval", s(e.args[0]), s(e.args[1])))
            elif e.kind == "prim" and e.name == "Environment::define":
                out.append(("define", s(e.args[0]), s(e.args[1]), s(e.args[2])))
            elif e.kind == "prim" and re.match(r"Environment::(set_cwd|undefine|set_parent|define_builtin|define_module)$", e.name):
                out.append((e.name.split("::")[1],) + tuple(s(x) for x in e.args))
            elif e.kind == "callback" or (e.kind == "prim" and "callback" in e.name):
                out.append(("call",) + tuple(s(x) for x in e.args))
            elif e.kind == "loop" and d < 4:
                alts = []
                for it in e.x.get("iters", ()):
                    a = self.flat(it[0], d + 1)
                    if a and a not in alts:
                        alts.append(a)
                if len(alts) == 1:
                    out += alts[0]
                elif alts:
                    out.append(("alts", tuple(tuple(a) for a in alts)))
        return out

    def where(self):
        return conds_str(self.o)

    def cond(self, q):
        for c, v in self.conds:
            if c == q:
                return v
        return None


MODELLED = {}


def modelled(cx, rep, ts, wanted):
    """the turn in models: findings of the kinds wanted are reported -> the paths they decide"""
    import m_eval
    if "eval" not in MODELLED:
        MODELLED["eval"] = m_eval.judge(cx, [t.o for t in ts if t.o.kind == "ret"])
    found, cnt, why, covered = MODELLED["eval"]
    rep.count("obligations", cnt["programs_judged"])
    for k in ("programs", "programs_judged"):
        rep.count(k, cnt[k])
    if cnt["programs_unknown"]:
        rep.undecided("models", "%d of %d programs: %s" % (cnt["programs_unknown"], cnt["programs"], why[:300]))
    for (k, h, d), (msg, det, o) in sorted(found.items()):
        if wanted(k, h, d):
            rep.violation("eval:%s:%s:%s" % (k, h, d), "evaluating %s %s" % (k if not h else "an application of a " + h, msg), dict(det, path=conds_str(o)[:600]))
    return covered


def strip_depth(s):
    return s


SELFK = lambda k: "self." + k

TRUTH = {  # condition on the payload -> truthy when the condition has this value
    "Eq(0, %s.Integer)": ("Integer", False), "fcmp(Eq, f64, %s.Float, 0.0)": ("Float", False), "fcmp(Ne, f64, %s.Float, 0.0)": ("Float", True),
    "Eq(0, len(%s.Bytes))": ("Bytes", False), "Eq(0, len(%s.String))": ("String", False), "%s.Boolean": ("Boolean", True),
    "Eq(0, len(%s.List))": ("List", False), "Eq(0, len(%s.Map))": ("Map", False)}
ALWAYS = {"Lambda", "Macro", "Builtin"}


def traces(cx, rep):
    u, outs = turn(cx)
    rep.unit(u)
    if outs is None:
        raise core.Anchor("the evaluator exceeds the analysis budget")
    return u, [Tr(cx, o) for o in outs]


LITERAL = {"Integer", "Float", "Bytes", "String", "Boolean", "None", "Macro", "Builtin"}
EXPLAIN = ("One turn of the evaluator's loop (`eval_mut`) is analysed over all kinds of expression: every path yields the ordered list of what it "
           "evaluates, in which environment, what it defines, and what it returns; the rule compares this with the language's evaluation rules.")


@rule("P16", EXPLAIN)
def p16(cx, rep, tier):
    rep.rule("for every kind of expression: sub-expressions evaluated, order, environment, definitions and result are those of the language")
    u, ts = traces(cx, rep)
    decided = modelled(cx, rep, ts, lambda k, h, d: not d.startswith("run:") and k != "Lambda")
    covered = {}
    for t in ts:
        if t.kind is None:
            if not t.ret.startswith("Err(RecursionDepth"):
                rep.undecided("kind?", t.where())
            continue
        rep.count("evaluator_paths")
        for k in t.kind:
            covered.setdefault(k, []).append(t)
            if id(t.o) in decided:
                continue
            with Guard(rep, "eval:" + k):
                judge(rep, k, t)
    for k in KINDS:
        if k not in covered:
            rep.undecided("no path for " + k)
    need = {"If": ("self.If.1", "self.If.2")}
    for k, forms in need.items():
        got = {t.tail for t in covered.get(k, ())}
        for f in forms:
            if got and f not in got and not any(t.unclear or id(t.o) in decided for t in covered[k]):
                rep.violation("never:%s:%s" % (k, f), "evaluating %s never evaluates its %s" % (k, f))
    # truthiness decides the branch in a helper; the helper's own table is part of the rule
    rep.sample({"kinds covered": sorted(covered)})


def say(rep, k, t, key, msg):
    if t.unclear:
        rep.undecided("%s:%s" % (k, key), t.where())
        return
    rep.violation("eval:%s:%s" % (k, key), "eval_mut, %s: %s" % (k, msg), {"path": t.where(), "does": [str(a)[:200] for a in t.acts][:12], "returns": t.ret[:300]})


def acts_of(t, *names):
    return [a for a in t.acts if a[0] in names]


def judge(rep, k, t):
    rep.count("obligations")
    E = acts_of(t, "eval", "define", "alts")
    S = SELFK(k)
    if t.ret.startswith("Err(err("):
        # propagated: judged by what has been evaluated last
        x = t.ret[8:-2].split(", Environment<Clone>")[0]
        last = [a for a in t.acts if a[0] == "eval"]
        if not last:
            say(rep, k, t, "error", "returns an error nothing produced: " + t.ret)
        return
    if k in LITERAL:
        if t.ret != "Ok(self)" or E:
            say(rep, k, t, "literal", "a literal must evaluate to itself, gives " + t.ret[:120])
        return
    if k == "Quote":
        if t.ret != "Ok(self.Quote)" or E:
            say(rep, k, t, "quote", "a quoted expression must come back unevaluated, gives " + t.ret[:120])
        return
    if k == "Group":
        if not (t.tail == "self.Group" and t.rest is None and not E):
            say(rep, k, t, "group", "a group must evaluate its content, does %s -> %s" % (E[:3], t.ret[:120]))
        return
    if k == "Symbol":
        ok = {"Ok(Environment::get(env, self.Symbol).Some)": "Some", "Ok(Symbol(self.Symbol))": "None", "Ok(self)": "None"}
        q = t.cond("Environment::get(env, self.Symbol)")
        if t.ret in ok and q is not None and not E:
            if ok[t.ret] not in {"None?": "None"}.get(list(q)[0], list(q)[0]):
                say(rep, k, t, "symbol", "returns %s when the lookup gives %s" % (t.ret, sorted(q)))
            return
        if E or re.match(r"^(Ok\((Symbol|String|None|Environment::get)|Err\()", t.ret):
            say(rep, k, t, "symbol", "a symbol must give its binding or itself, gives " + t.ret[:120])
        else:
            rep.undecided("Symbol", t.ret[:200])
        return
    if k == "Assign":
        if E != [("eval", "self.Assign.1", "env"), ("define", "env", "self.Assign", "val(self.Assign.1)")] or t.ret != "Ok(None)":
            say(rep, k, t, "assign", "must evaluate the right-hand side once and bind it in the current environment, does %s -> %s" % (E[:4], t.ret[:80]))
        return
    if k == "For":
        body = [("eval", "self.For.1", "env"), ("define", "env", "self.For", "val(self.For.1).List[k0]"), ("eval", "self.For.2", "env")]
        E2 = [tuple(re.sub(r"\[k\d+\]", "[k0]", x) for x in a) if a[0] != "alts" else a for a in E]
        if t.ret == "Err(ForNonList(self.For.1))":
            if E2 != body[:1]:
                say(rep, k, t, "for-err", "ForNonList after %s" % E[:4])
            return
        if re.match(r"^Ok\(List\(each\??\(vec\(\); val\(self\.For\.2\)\)\)\)$", t.ret):
            if E2 != body:
                say(rep, k, t, "for", "must bind each item and then evaluate the body, does %s" % E[:5])
            return
        if t.ret == "Ok(List(vec()))" and E2 in (body[:1], body):
            return
        say(rep, k, t, "for", "must return the body's value for every item, does %s -> %s" % (E[:5], t.ret[:120]))
        return
    if k == "If":
        if not E or E[0] != ("eval", "self.If", "env") or E.count(E[0]) != 1 or len(E) != 1 or t.tail not in ("self.If.1", "self.If.2") or t.rest:
            say(rep, k, t, "if", "must evaluate the condition once and then exactly one branch, does %s -> %s" % (E[:4], t.ret[:120]))
            return
        v = t.cond("val(self.If)")
        truth = None
        for q, (kk, val) in TRUTH.items():
            c = t.cond(q % "val(self.If)")
            if isinstance(c, bool):
                truth = (c == val)
        if truth is None and v is not None:
            if v <= ALWAYS:
                truth = True
            elif not (v & (ALWAYS | {x[0] for x in TRUTH.values()})):
                truth = False
        if truth is None:
            h = [(c, x) for c, x in t.conds if "is_truthy(val(self.If))" in c]
            if h and isinstance(h[0][1], bool):
                truth = h[0][1] ^ h[0][0].startswith("not(")
        if truth is None:
            rep.undecided("If:truth", t.where())
        elif truth != (t.tail == "self.If.1"):
            say(rep, k, t, "branch", "takes the %s branch when the condition is %s" % ("then" if t.tail == "self.If.1" else "else", "truthy" if truth else "falsy"))
        return
    if k == "List":
        if E == [("eval", "self.List[k0]", "env")] and re.match(r"^Ok\(List\(each\??\(vec\(\); val\(self\.List\[k0\]\)\)\)\)$", t.ret):
            return
        if t.ret == "Ok(List(vec()))" and not E:
            return
        say(rep, k, t, "list", "must evaluate every element once, in order, does %s -> %s" % (E[:4], t.ret[:120]))
        return
    if k == "Map":
        if E == [("eval", "mval(self.Map, k0)", "env")] and re.match(r"^Ok\(Map\(each\??\(map\(\(\)\); \(mkey\(self\.Map, k0\), val\(mval\(self\.Map, k0\)\)\)\)\)\)$", t.ret):
            return
        if t.ret == "Ok(Map(map(())))" and not E:
            return
        say(rep, k, t, "map", "must evaluate every value under its own key, does %s -> %s" % (E[:4], t.ret[:120]))
        return
    if k == "Do":
        if t.ret == "Ok(None)" and not E and t.cond("Eq(0, len(self.Do))") is True:
            return
        if t.tail == "self.Do[Sub(len(self.Do), 1)]" and t.rest is None:
            if E == [("eval", "self.Do[k0]", "env")]:
                srcs = [t.C(e.args[0]) for e in walk(t.o.st.events()) if e.kind == "next"]
                if srcs and not all(re.match(r"^slice\(self\.Do, 0, Sub\(len\(self\.Do\), 1\)\)$", s) for s in srcs):
                    if all(s.startswith("slice(self.Do") or s == "self.Do" for s in srcs):
                        say(rep, k, t, "do-range", "evaluates %s before the last statement" % srcs[:2])
                    else:
                        rep.undecided("Do:range", str(srcs)[:200])
                for e in t.o.st.events():
                    for it in (e.x or {}).get("iters", ()) if not srcs else ():
                        for c, v in it[1]:
                            m = re.match(r"^Lt\((k\d+|rk\(.*\)), (.*)\)$", t.C(c))
                            if m and v is True and m.group(2) != "Sub(len(self.Do), 1)" and m.group(2).startswith(("len(self.Do", "Sub(len(self.Do")):
                                say(rep, k, t, "do-range", "evaluates statements up to %s before the last" % m.group(2))
                return
            if not E and any(c[0] == "Eq(1, len(self.Do))" and c[1] is True or c[0] == "Lt(1, len(self.Do))" and c[1] is False for c in t.conds):
                return
        if re.match(r"^Ok\((fold|val\(self\.Do\[)", t.ret) and E == [("eval", "self.Do[k0]", "env")]:
            rep.undecided("Do:form", t.ret[:200])
            return
        say(rep, k, t, "do", "must evaluate every statement once, in order, and return the last one's value, does %s -> %s" % (E[:4], t.ret[:160]))
        return
    if k == "Apply":
        return judge_apply(rep, t, E)
    if k == "Lambda":
        m = re.match(r"^Ok\(Lambda\(self\.Lambda, self\.Lambda\.1, (.*)\)\)$", t.ret)
        if not m or any(a[0] in ("eval", "alts") for a in E) and not all(a[0] in ("define", "alts") for a in E):
            say(rep, k, t, "lambda", "a lambda must evaluate to itself with a captured environment, does %s -> %s" % (E[:4], t.ret[:160]))
        return


ARG0 = "self.Apply.1[0]"


def judge_apply(rep, t, E):
    k = "Apply"
    f = ("eval", "self.Apply", "env")
    if not E or E[0] != f or E.count(f) != 1:
        say(rep, k, t, "head", "the applied expression must be evaluated exactly once, first; does %s -> %s" % (E[:4], t.ret[:120]))
        return
    E = E[1:]
    h = t.head
    if h is None:
        if t.ret.startswith("Err(CannotApply(self.Apply, self.Apply.1))"):
            return
        rep.undecided("Apply:head", t.where())
        return
    one = None
    for q, v in t.conds:
        if q == "Eq(1, len(self.Apply.1))":
            one = v if one is None or v else one
        if q == "Lt(1, len(self.Apply.1))" and v is True:
            one = False
    if h == {"Builtin"}:
        if t.ret != "callback(val(self.Apply).Builtin.1, self.Apply.1, env)" or E:
            say(rep, k, t, "builtin", "a builtin must get the arguments as written and the caller's environment; does %s -> %s" % (E[:4], t.ret[:160]))
        return
    if h == {"Lambda"} or h == {"Macro"}:
        L = "val(self.Apply).%s" % list(h)[0]
        if t.ret.startswith("Err(CannotApply(self.Apply, self.Apply.1))"):
            if E or one is True:
                say(rep, k, t, "cannot", "refuses to apply a function to its argument")
            return
        lam = h == {"Lambda"}
        defs = [a for a in E if a[0] == "define"]
        evs = [a for a in E if a[0] == "eval"]
        env2 = None
        if lam:
            ok = len(defs) == 1 and own(defs[0][1], L) and defs[0][2:] == (L, "val(%s)" % ARG0)
            env2 = defs[0][1] if defs else None
        else:
            ok = defs == [("define", "env", L, "val(%s)" % ARG0)]
            env2 = "env"
        if not ok:
            say(rep, k, t, "bind", "applying a %s must bind its parameter to the first argument%s; does %s" % (list(h)[0], " in its own environment" if lam else "", defs[:3]))
            return
        if one is True:
            if [a for a in evs] != [("eval", ARG0, "env")] or t.tail != L + ".1" or not sameenv(t.rest, env2):
                say(rep, k, t, "call", "must evaluate the argument once in the caller's environment and then the body; does %s -> %s" % (evs[:4], t.ret[:200]))
        else:
            if len(evs) == 2 and evs[0] == ("eval", ARG0, "env") and evs[1][1] == L + ".1" and sameenv(evs[1][2], env2) and t.rest is None and \
                    t.tail and re.match(r"^Apply\(val\(%s\.1(, .*)?\), (slice\(self\.Apply\.1, 1, len\(self\.Apply\.1\)\)|skip\(self\.Apply\.1, 1\)|vdel\(self\.Apply\.1, 0\))\)$" % re.escape(L), t.tail):
                return
            say(rep, k, t, "curry", "extra arguments must be applied, in order, to the function's result; does %s -> %s" % (evs[:4], t.ret[:260]))
        return
    if h <= {"Symbol", "String"}:
        bad = [a for a in E if a[0] == "define"]
        if bad:
            say(rep, k, t, "program", "running a program changes the environment: %s" % bad[:2])
        return
    if t.ret.startswith("Err(CannotApply(self.Apply, self.Apply.1))") and not E:
        return
    say(rep, k, t, "other", "applying a %s must be refused; does %s -> %s" % ("|".join(sorted(h))[:60], E[:3], t.ret[:160]))


def own(env, L):
    return env == L + ".2" or env == "Environment<Clone>::clone(%s.2)" % L


def sameenv(rest, env2):
    a = "env" if rest is None else rest
    return a == env2


# ------------------------------------------------------------------ P13
@rule("P13", EXPLAIN)
def p13(cx, rep, tier):
    rep.rule("calling a lambda: every definition goes to the lambda's own copy of its captured environment; the body runs there, arguments run in the caller's")
    rep.rule("Environment::define/undefine/set_parent change exactly the named binding of the receiver; get and is_defined look in the receiver first, then in its parent")
    u, ts = traces(cx, rep)
    n = 0
    decided = modelled(cx, rep, ts, lambda k, h, d: h == "Lambda" or k == "Lambda" and d == "env")
    for t in ts:
        lam = t.kind == {"Apply"} and t.head == {"Lambda"}
        lit = t.kind == {"Lambda"}
        if not (lam or lit):
            continue
        n += 1
        rep.count("obligations")
        if id(t.o) in decided:
            continue
        L = "val(self.Apply).Lambda"
        acts = list(t.acts)
        for a in list(acts):
            if a[0] == "alts":
                for x in a[1]:
                    acts += list(x)
        for a in acts:
            if a[0] in ("define", "undefine", "set_cwd", "set_parent", "define_builtin", "define_module"):
                if a[1] == "env":
                    say(rep, "Lambda" if lit else "call", t, "leak:" + a[0], "a lambda %s changes the caller's environment: %s" % ("literal" if lit else "call", str(a)[:160]))
                elif lam and not own(a[1], L):
                    rep.undecided("call:env", str(a)[:200])
            if a[0] == "eval" and lam:
                if a[1].startswith("self.Apply") and a[2] != "env":
                    say(rep, "call", t, "arg-env", "an argument is evaluated in %s instead of the caller's environment" % a[2][:80])
                if a[1] == L + ".1" and a[2] == "env":
                    say(rep, "call", t, "body-env", "the body is evaluated in the caller's environment")
        if lam and t.tail == L + ".1" and t.rest is None:
            say(rep, "call", t, "body-env", "the body is evaluated in the caller's environment")
        if lam and (t.tail == L + ".1" or t.ret.startswith("continue(")):
            cw = [a for a in acts if a[0] == "set_cwd"]
            if not any(a[2] == "Environment::get_cwd(env)" and own(a[1], L) for a in cw):
                say(rep, "call", t, "cwd", "the body does not run in the caller's working directory")
        if lit:
            # the captured environment must be a new one that starts from the captured bindings
            m = re.match(r"^Ok\(Lambda\(self\.Lambda, self\.Lambda\.1, (.*)\)\)$", t.ret)
            if m and m.group(1) == "env":
                say(rep, "Lambda", t, "shares", "the lambda captures the caller's environment itself")
    rep.count("lambda_paths", n)
    if not n and not decided:
        rep.undecided("no path applies a lambda")
    environment(cx, rep)


def envfn(cx, m):
    c = [u for u, b in cx.p.bodies.items() if b.get("m") == m and b.get("im") is not None and "tr" not in b and cx.p.tystr(b["im"]).split("::")[-1] == "Environment"]
    if len(c) != 1:
        raise core.Anchor("Environment::" + m)
    return c[0]


class EnvSummary(model.Summary):
    """one path of an Environment method in a model: an environment is (bindings, parent)"""

    def call(self, n, xs):
        m = n.split("::")[-1]
        if n.split("::")[-2:-1] == ["Environment"] and m in ("get", "is_defined") and len(xs) == 2:
            r = envget(xs[0], xs[1])
            return r if m == "get" else bool(r[1])
        raise model.Unk(n)


def envget(e, name):
    if isinstance(e, model.U) or not isinstance(e, tuple) or len(e) != 2 or not isinstance(e[0], model.Mp) or not isinstance(name, str):
        raise model.Unk("environment")
    while True:
        if name in e[0].d:
            return model.A(("Option", 1, e[0].d[name]))
        if e[1][1] == 0:
            return e[1]
        e = e[1][2]


def envmodels(consts):
    I, S = lambda n: model.EX("Integer", n), lambda s: model.EX("String", s)
    none = model.A(("Option", 0))
    some = lambda e: model.A(("Option", 1, e))
    names = ["a", "b", "CWD", ""] + [c for c in consts if isinstance(c, str) and c not in ("a", "b", "CWD", "")][:6]
    binds = [{}, {"a": I(1)}, {"a": model.NONEX, "b": S("q")}, {"CWD": S("/d"), "a": I(2)}, {"CWD": I(3)}, {"": I(9), "b": I(0)}]
    binds += [{n: I(100 + i)} for i, n in enumerate(names[4:])]
    es = [(model.Mp(b), none) for b in binds]
    es += [(model.Mp(b), some(p)) for b in binds for p in es[:6]] + [(model.Mp(binds[0]), some((model.Mp(binds[0]), some(es[1])))), (model.Mp(binds[0]), some((model.Mp(binds[2]), some(es[1]))))]
    for e in es:
        for n in names:
            yield {"self": e, "name": n, "expr": I(77), "parent": es[2], "cwd": "/x/y"}


def environment(cx, rep):
    E = cx.E
    fields = None
    none = model.A(("Option", 0))

    def run(m, ms, oracle, what):
        """oracle(model, result, final receiver) -> True | False | None"""
        with Guard(rep, "Environment::" + m):
            u = envfn(cx, m)
            rep.unit(u)
            b = cx.p.bodies[u]
            pars = [(x[1] if len(x) > 1 else "arg%d" % i, x[0]) for i, x in enumerate(b["locals"][1:1 + b["argc"]])]
            roles = ["self"] + {"get": ["name"], "is_defined": ["name"], "undefine": ["name"], "define": ["name", "expr"], "set_parent": ["parent"], "get_cwd": [], "set_cwd": ["cwd"]}[m]
            if len(pars) != len(roles):
                raise core.Anchor("parameters of Environment::" + m)
            me = mkt(pars[0][1], "sym", pars[0][0], pars[0][1])
            for o in cx.outs(u):
                if o.kind != "ret":
                    continue
                rep.count("obligations")
                fin = E.snap(o.st, me)
                bad = unk = None
                for x in ms(model.constants(E, o.st, fin)):
                    S = EnvSummary(E, {}, 0, syms={p[0]: x[r] for p, r in zip(pars, roles)})
                    try:
                        r = S.run(o.st, o.ret)
                        if r is None:
                            continue
                        ev = lambda t: S.ev(t, {})
                        v = oracle(x, r[0], ev(fin), [(e.name.split("::")[-1], [ev(y) for y in e.args[1:]]) for e in o.st.events() if e.kind == "prim" and e.name.startswith("Environment::")
                                                       and e.name.split("::")[-1] not in ("get", "is_defined", "get_cwd")])
                    except (model.Unk, RecursionError) as w:
                        unk = str(w)
                        continue
                    except model.Undef:
                        continue
                    if v is None:
                        unk = "comparison"
                    elif not v:
                        bad = x, r[0]
                        break
                if bad:
                    rep.violation("env:" + m, "Environment::%s %s" % (m, what), {"model": repr({k: bad[0][k] for k in roles})[:400], "returns": repr(bad[1])[:200], "path": conds_str(o)})
                elif unk:
                    rep.undecided("Environment::" + m, unk)
    eq = model.eq3
    tup = lambda e, f, c: (f, c)

    def both(*xs):
        return False if False in xs else None if None in xs else True
    same = lambda x, f: eq(x["self"], f)

    def bound(x, f, d):
        return both(eq(f[0], model.Mp(d)), eq(f[1], x["self"][1]))
    ms = envmodels
    run("get", ms, lambda x, r, f, e: both(eq(r, envget(x["self"], x["name"])), same(x, f), not e), "must give the receiver's binding, else its parent's")
    run("is_defined", ms, lambda x, r, f, e: both(eq(r, bool(envget(x["self"], x["name"])[1])), same(x, f), not e), "must be true exactly for names get finds")
    run("define", ms, lambda x, r, f, e: both(bound(x, f, dict(x["self"][0].d, **{x["name"]: x["expr"]})), not e), "must bind exactly the given name to the given value")
    run("undefine", ms, lambda x, r, f, e: both(bound(x, f, {k: v for k, v in x["self"][0].d.items() if k != x["name"]}), not e), "must remove exactly the given binding")
    run("set_parent", ms, lambda x, r, f, e: both(eq(f[0], x["self"][0]), eq(f[1], model.A(("Option", 1, x["parent"]))), not e), "must set the parent")
    # the working directory: one name, written and read
    names = set()

    def setcwd(x, r, f, e):
        if len(e) == 1 and e[0][0] == "define" and len(e[0][1]) >= 2 and isinstance(e[0][1][0], str):
            names.add(e[0][1][0])
            return both(eq(e[0][1][1], model.EX("String", x["cwd"])), same(x, f))
        return False if len(e) != 1 else None
    run("set_cwd", ms, setcwd, "must bind the working directory to exactly the given path")

    def getcwd(x, r, f, e):
        if len(names) != 1:
            return None
        g = envget(x["self"], list(names)[0])
        w = g[2][2] if g[1] and g[2][1] == model.KI["String"] else "/"
        return both(eq(r, w), same(x, f), not e)
    run("get_cwd", lambda cs: ms(list(cs) + sorted(names)), getcwd, "must give the directory set_cwd stored, and / when there is none")


# ------------------------------------------------------------------ P14
@rule("P14", EXPLAIN)
def p14(cx, rep, tier):
    rep.rule("a lambda literal binds, in its captured environment, every symbol used in its body that the current environment defines (its parameter and names "
             "already captured excepted); the symbols used by an expression include those used by each of its sub-expressions")
    u, ts = traces(cx, rep)
    g = None
    with Guard(rep, "get_used_symbols"):
        g = exprfn(cx, "get_used_symbols")
    n = 0
    decided = modelled(cx, rep, ts, lambda k, h, d: k == "Lambda")
    for t in ts:
        if t.kind != {"Lambda"} or not t.ret.startswith("Ok(Lambda("):
            continue
        n += 1
        rep.count("obligations")
        if id(t.o) not in decided:
            captured(cx, rep, t)
    if not n and not decided:
        rep.undecided("no path evaluates a lambda literal")
    if g:
        used(cx, rep, g)


def captured(cx, rep, t):
    C = t.C
    found = False
    new = None
    m = re.match(r"^Ok\(Lambda\(self\.Lambda, self\.Lambda\.1, (.*)\)\)$", t.ret)
    if m:
        new = m.group(1)
        if not new.startswith("Environment<Clone>::clone(self.Lambda.2)") and new != "self.Lambda.2":
            (rep.undecided if new.startswith("upd") else (lambda a, b: say(rep, "Lambda", t, "base", "the captured environment must start from the lambda's own: " + b[:100])))("captured", new)
    for e in t.o.st.events():
        if e.kind != "loop":
            continue
        for it in e.x.get("iters", ()):
            nx = [x for x in it[0] if x.kind == "next" and "Expression::get_used_symbols(self.Lambda.1)" in C(x.args[0])]
            if not nx:
                continue
            src = C(nx[0].args[0])
            if src != "Expression::get_used_symbols(self.Lambda.1)":
                rep.undecided("captured:source", src[:200])
                continue
            found = True
            sym = None
            for x in it[0]:
                if x.kind == "prim" and x.name in ("Environment::get", "Environment::is_defined", "Environment::define"):
                    for y in x.args:
                        if C(y).startswith(src + "["):
                            sym = C(y)
            d = [x for x in it[0] if x.kind == "prim" and x.name == "Environment::define"]
            if d:
                a = [C(x) for x in d[0].args]
                s = a[1]
                if not s.startswith(src + "[") or a[2] != "Environment::get(env, %s).Some" % s or a[0] == "env":
                    say(rep, "Lambda", t, "captured-value", "binds %s to %s in %s" % (a[1][:80], a[2][:120], a[0][:60]))
                continue
            # not captured on this path: needs a reason
            ok = unclear = False
            why = []
            for c, v in it[1]:
                q = C(c)
                why.append("%s is %s" % (q[:90], v if not isinstance(v, frozenset) else sorted(v)))
                if v is True and q.startswith("eq(") and "self.Lambda" in q and src + "[" in q and q.count("self.Lambda") >= 2:
                    ok = True
                elif v is True and re.match(r"Environment::is_defined\((self\.Lambda\.2|Environment<Clone>::clone\(self\.Lambda\.2\)), ", q):
                    ok = True
                elif isinstance(v, frozenset) and q.startswith("Environment::get(env, ") and v == {0}:
                    ok = True
                elif q.startswith("not(eq(") and v is False:
                    ok = True
                elif not re.match(r"^(eq\(|Environment::|not\(eq)", q):
                    unclear = True
            if not ok:
                say(rep, "Lambda", t, "skipped", "a symbol used in the body is not captured although it may be defined (%s)" % "; ".join(why)[:260])
    if not found:
        if not any("Expression::get_used_symbols(self.Lambda.1)" in C(a) for e in walk(t.o.st.events()) for a in (e.args or ()) if isinstance(a, T)):
            say(rep, "Lambda", t, "no-capture", "the symbols used in the lambda's body are never looked at")
        else:
            rep.undecided("captured:loop", t.where())


def used(cx, rep, g):
    old = cx.E.prims
    cx.E.prims = set(old) | {g}
    try:
        outs = cx.outs(g, None, "rec")
    finally:
        cx.E.prims = old
    rep.unit(g)
    import m_eval
    outs = [o for o in outs if o.kind == "ret"]
    f, cnt, why = m_eval.uses(cx, g, outs)
    rep.count("expressions", cnt["expressions"])
    rep.count("expressions_judged", cnt["expressions_judged"])
    if f:
        rep.violation(f[0], f[1], dict(f[2], path=conds_str(f[3])))
        return
    decided = m_eval.covered(outs)
    if cnt["expressions_unknown"]:
        rep.undecided("used:models", "%d of %d: %s" % (cnt["expressions_unknown"], cnt["expressions"], why[:200]))
        return
    comps = components(cx)
    seen = set()
    for o in outs:
        if id(o) in decided:
            rep.count("obligations")
            for t, v in o.st.conds():
                if isinstance(v, frozenset) and t.op == "sym":
                    seen |= {canon.vname(EXPR, x) for x in v}
            continue
        C = Canon(o.st.events())
        r = C(o.ret)
        ks = None
        for t, v in o.st.conds():
            if C(t) == "self" and isinstance(v, frozenset):
                ks = [canon.vname(EXPR, x) for x in v]
        if ks is None:
            ks = KINDS
        for k in ks:
            seen.add(k)
            rep.count("obligations")
            if k == "Symbol":
                if "self.Symbol" not in r:
                    rep.violation("used:Symbol", "get_used_symbols of a symbol does not report it", {"returns": r[:200]})
                continue
            for path, how in comps.get(k, ()):
                if k == "Apply" and False:
                    continue
                want = {"box": ["Expression::get_used_symbols(%s)" % path],
                        "vec": ["Expression::get_used_symbols(%s[k" % path],
                        "map": ["Expression::get_used_symbols(mval(%s, k" % path]}[how]
                if any(w in r for w in want):
                    # every element, not only some of them
                    if how != "box":
                        srcs = [C(e.args[0]) for e in walk(o.st.events()) if e.kind == "next"]
                        part = [s for s in srcs if s.startswith("slice(" + path)]
                        if part:
                            rep.violation("used:%s:part" % k, "get_used_symbols looks at only part of %s" % path, {"iterates": part[:2]})
                        elif "some(" in r:
                            rep.undecided("used:" + k, r[:200])
                    continue
                if how != "box" and r == "vec()" and (("Eq(0, len(%s))" % path) in conds_str(o) or any(C(e.args[0]).startswith(path) for e in walk(o.st.events()) if e.kind == "next")):
                    continue
                if C.opaque or "closure" in r or "each?" in r or "call" in r:
                    rep.undecided("used:" + k, r[:200])
                    continue
                if how != "box" and not any(e.kind in ("next", "loop") for e in walk(o.st.events())) and "get_used_symbols" not in r and any(e.kind == "acc" for e in walk(o.st.events())):
                    continue
                if how != "box" and r == "vec()" and any(o2 is not o and path in Canon(o2.st.events())(o2.ret) for o2 in outs):
                    continue
                rep.violation("used:%s:%s" % (k, path), "get_used_symbols of %s does not include the symbols of %s" % (k, path), {"returns": r[:300], "path": conds_str(o)})
    rep.count("expression_kinds", len(seen))


def components(cx):
    """the sub-expressions of each variant, from the type"""
    out = {}
    d = ADTS[EXPR]
    P = cx.p
    for v in d["v"]:
        l = []
        fs = v.get("f") or v.get("fields") or []
        for i, f in enumerate(fs):
            ty = f[1] if isinstance(f, (list, tuple)) else f.get("t") if isinstance(f, dict) else f
            s = P.tystr(ty)
            p = "self.%s%s" % (v["n"], "" if i == 0 else ".%d" % i)
            if "Environment" in s or v["n"] == "Builtin":
                continue
            if re.match(r"^(alloc::boxed::)?Box<[\w:]*Expression", s):
                l.append((p, "box"))
            elif "Vec<" in s and "Expression" in s:
                l.append((p, "vec"))
            elif "BTreeMap" in s:
                l.append((p, "map"))
        out[v["n"]] = l
    return out


# ------------------------------------------------------------------ P15
@rule("P15", EXPLAIN)
def p15(cx, rep, tier):
    rep.rule("every turn of eval_mut is guarded by a constant bound on depth; every nested evaluation and every further turn passes a larger depth; nothing a builtin can "
             "reach re-enters the evaluator with a depth that does not grow")
    u, ts = traces(cx, rep)
    dep = None
    for i in range(cx.p.bodies[u]["argc"]):
        l = cx.p.bodies[u]["locals"][i + 1]
        if cx.p.tystr(l[0]) == "usize":
            dep = mkt(l[0], "sym", l[1], l[0])
    if dep is None:
        raise core.Anchor("depth parameter of eval_mut")
    for t in ts:
        rep.count("obligations")
        evs = [e for e in walk(t.o.st.events()) if e.kind == "prim" and e.name.startswith("Expression::eval")]
        if t.ret.startswith("Err(RecursionDepth("):
            lo, hi = cx.E.bounds(t.o.st, dep)
            if lo <= 0 and not t.unclear:
                say(rep, "depth", t, "always", "fails with RecursionDepth at any depth")
            continue
        if not evs and "continue(" not in t.ret:
            continue
        lo, hi = cx.E.bounds(t.o.st, dep)
        if hi > MAXDEPTH:
            say(rep, "depth", t, "unbounded", "a path evaluates further without a bound on the depth (%s)" % t.ret[:80])
        for e in evs:
            rep.count("nested_evaluations")
            if e.name == "Expression::eval" or len(e.args) < 3:
                rep.violation("restart:eval_mut", "eval_mut evaluates a sub-expression with the depth restarted", {"what": cstr(e.args[0])[:120]})
                continue
            q = t.C(e.args[2])
            if not re.match(r"^Add\([1-9]\d*, depth\)$", q.replace(dep.a[0], "depth")):
                say(rep, "depth", t, "nested", "a nested evaluation gets depth %s" % q[:60])
        m = re.match(r"^continue\(.*\(%s, (.*)\)\)$" % dep.a[0], t.ret)
        if m and not re.match(r"^Add\([1-9]\d*, %s\)$" % dep.a[0], m.group(1)):
            say(rep, "depth", t, "turn", "a further turn gets depth %s" % m.group(1)[:60])
    # who enters the evaluator from outside: the parts of eval_mut split off as functions have been followed as part of it
    users = {}
    for v, b in cx.p.bodies.items():
        for c in calls(b):
            for r in {c.get("ru"), c.get("u")} - {None}:
                users.setdefault(owner(r), set()).add(owner(v))
    for o in sorted(users.get(u, ())):
        rep.count("entries")
        if o == u or within(o, u, users):
            continue
        while len(users.get(o, set()) - {o}) == 1 and not pretty(cx, o).startswith("Expression::eval"):
            o, = users[o] - {o}
        nm = pretty(cx, o)
        rep.violation("restart:" + nm, "%s enters eval_mut with a fresh depth; builtins reach it, so recursion through a builtin is not bounded" % nm)
    rep.count("paths", len(ts))


def within(o, u, users, seen=()):
    """is the function used by eval_mut alone?"""
    return o == u or o in seen or bool(users.get(o)) and all(within(q, u, users, seen + (o,)) for q in users[o])


def pretty(cx, u):
    b = cx.p.bodies.get(u, {})
    if b.get("im") is not None and b.get("m"):
        return cx.p.tystr(b["im"]).split("::")[-1] + "::" + b["m"]
    return short(u)


def owner(u):
    return re.sub(r"(::\{closure#\d+\})+$", "", u)


def calls(b):
    """every callee constant mentioned in a body"""
    st = [b.get("bb")]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "u" in x and "p" in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, (list, tuple)):
            st.extend(x)


# ------------------------------------------------------------------ P11
IOK = {0: "NotFound", 1: "PermissionDenied"}


@rule("P11", EXPLAIN)
def p11(cx, rep, tier):
    rep.rule("applying an unbound symbol or a string runs exactly the program of that name, with each argument's value flattened and passed in order, in the shell's "
             "working directory, with the shell's bindings as environment; start failures are reported by kind")
    u, ts = traces(cx, rep)
    n = 0
    decided = modelled(cx, rep, ts, lambda k, h, d: d.startswith("run") or h in ("Symbol", "String") and k == "Apply")
    for t in ts:
        if t.kind != {"Apply"} or not t.head or not t.head <= {"Symbol", "String"}:
            continue
        if t.ret.startswith("Err(err("):
            continue
        n += 1
        rep.count("obligations")
        if id(t.o) in decided:
            continue
        ext = [e for e in t.o.st.events() if e.kind == "ext" and re.match(r"Command::(status|output|spawn)$", e.name)]
        if not ext:
            say(rep, "program", t, "not-run", "a program is not run: " + t.ret[:100])
            continue
        if len(ext) > 1:
            say(rep, "program", t, "twice", "the program is started %d times" % len(ext))
        cmd = ext[0].args[0]
        command(cx, rep, t, cmd)
        status(rep, t, ext[0])
    rep.count("program_paths", n)
    if not n and not decided:
        rep.undecided("no path runs a program")
    flatten(cx, rep)


def mods_of(C, cmd):
    """setting -> list of values, in order"""
    mods = {}
    for m in cmd.a[1:]:
        ms = m if isinstance(m, tuple) else m.a
        for x in ms:
            x = x.a if isinstance(x, T) else x
            mods.setdefault(x[0] if isinstance(x[0], str) else C(x[0]), []).append(x[1] if len(x) > 1 else None)
    return mods


def command(cx, rep, t, cmd):
    C = t.C
    if cmd.op != "cmd":
        rep.undecided("program:cmd", C(cmd)[:200])
        return
    name = C(cmd.a[0])
    if not re.match(r"^val\(self\.Apply\)\.(Symbol|String)$", name):
        say(rep, "program", t, "name", "runs %s instead of the applied name" % name[:80])
    mods = mods_of(C, cmd)
    for k in mods:
        if k not in ("current_dir", "args", "arg", "envs", "env"):
            say(rep, "program", t, "setting:" + k, "the program is started with %s" % k)
    cd = [C(x) for x in mods.get("current_dir", [])]
    if cd != ["Environment::get_cwd(env)"] and "Environment::get_cwd(env)" not in cd[-1:]:
        say(rep, "program", t, "cwd", "the program must run in the shell's working directory, runs in %s" % (cd[:1] or "the process's"))
    ev = mods.get("envs", []) + mods.get("env", [])
    if not ev:
        say(rep, "program", t, "env", "the program does not get the shell's bindings")
    else:
        q = C(ev[-1])
        if "mkey(env.0, k" not in q or "disp(mval(env.0, k" not in q:
            rep.undecided("program:env", q[:200])
        for c, v in t.o.st.conds():
            s = C(c)
            m = re.match(r"^Lt\((\d+), len\(disp\(mval\(env\.0, k\d+\)\)\)\)$", s)
            if m and v is False and int(m.group(1)) < 256:
                say(rep, "program", t, "env-filter", "bindings longer than %s bytes are withheld from programs" % m.group(1))
            m = re.match(r"^Lt\(len\(disp\(mval\(env\.0, k\d+\)\)\), (\d+)\)$", s)
            if m and v is False:
                say(rep, "program", t, "env-filter", "only bindings longer than %s bytes are passed to programs" % m.group(1))
    if not mods.get("args") and not mods.get("arg"):
        say(rep, "program", t, "args", "the program gets no arguments")
    # the loop over the arguments
    found = False
    for e in t.o.st.events():
        if e.kind != "loop":
            continue
        for it in e.x.get("iters", ()):
            for x in it[0]:
                if x.kind == "prim" and x.name in ("Expression::eval_mut", "Expression::eval") and re.match(r"^self\.Apply\.1\[k\d+\]$", C(x.args[0])):
                    found = True
                    nx = [C(y.args[0]) for y in it[0] if y.kind == "next"]
                    if any(q.startswith("slice(self.Apply.1") for q in nx):
                        say(rep, "program", t, "arg-range", "only some of the arguments are passed: %s" % nx[0])
                if x.kind == "loop":
                    arg_loop(rep, t, x)
    if not found:
        rep.undecided("program:args", t.where())


def arg_loop(rep, t, lp):
    """items the inner loop (over the flattened value) adds, by kind"""
    C = t.C
    SRC = re.compile(r"^Expression::flatten\(vec\(val\(self\.Apply\.1\[k\d+\]\)\)\)\[k\d+\]$")
    vars_ = [(None, q[0], list(q[1])) for q in lp.x.get("phis", {}).values()]
    for g, q in lp.x.get("gvecs", {}).items():
        vars_.append((g, q[0], list(zip(q[1], q[2]))))
    seqs = 0
    src = None
    for g, entry, nexts in vars_:
        for nx, cs in nexts:
            for q in [nx] + [c for c, v in cs]:
                for x in subterms(q):
                    if x.op == "elem" and SRC.match(C(x)):
                        src = x
    for g, entry, nexts in vars_:
        adds = []
        for nx, cs in nexts:
            base = nx
            items = []
            n = 0
            while base.op == "push" and n < 9:
                items.append(base.a[1])
                base = base.a[0]
                n += 1
            adds.append((items[::-1], cs))
        if not any(i for i, _ in adds):
            continue
        seqs += 1
        by_value = set()
        if src is not None:
            by_value = arg_values(rep, t, src, adds)
        for j, (items, cs) in enumerate(adds):
            if j in by_value:
                rep.count("argument_cases")
                continue
            ks = None
            extra = False
            for c, v in cs:
                if isinstance(v, frozenset) and SRC.match(C(c)):
                    ks = {canon.vname(EXPR, x) for x in v}
                else:
                    extra = True
            rep.count("argument_cases")
            if ks is None:
                ks = set(KINDS)
            its = [C(x) for x in items]
            if not its:
                if not ks <= {"None"}:
                    if extra and "None" in ks:
                        rep.undecided("program:skip", str(ks))
                    else:
                        say(rep, "program", t, "arg-dropped", "an argument of kind %s is not passed" % "|".join(sorted(ks))[:80])
                continue
            if len(its) > 1:
                say(rep, "program", t, "arg-twice", "an argument is passed %d times" % len(its))
                continue
            x = its[0]
            if ks == {"String"}:
                ok = x.endswith(".String") and SRC.match(x[:-7]) or x.startswith("disp(")
            elif ks == {"Bytes"}:
                ok = x.startswith("lossy(") and x.endswith(".Bytes)")
            else:
                ok = x.startswith("disp(")
            if ok is None or (not ok and not re.match(r"^(disp|lossy|Expression::flatten)", x)):
                rep.undecided("program:arg", "%s -> %s" % (sorted(ks)[:3], x[:120]))
            elif not ok:
                say(rep, "program", t, "arg-form", "an argument of kind %s is passed as %s" % ("|".join(sorted(ks))[:60], x[:120]))
    if not seqs:
        rep.undecided("program:push")


def arg_values(rep, t, src, adds):
    """what one flattened value adds to the arguments, for values of every kind; -> paths decided this way"""
    unknown = set()
    vals = [x for k in KINDS for x in model.pool(k) if not (k in ("List", "Map") and len(x[2].d if k == "Map" else x[2]))]
    vals += [model.EX("String", x) for x in ("~", "~/x", "-n", "a b", "a=b", "*", "\0", "$HOME", "x;y", "None", "\\n")] + [model.EX("Bytes", model.V(x)) for x in ((65, 10), (195, 169), (255, 65), (0,))]
    # long strings and characters the path conditions mention
    cs0 = set()
    for items, cs in adds:
        for q in list(items) + [c for c, v in cs]:
            for x in subterms(q):
                if x.op == "str":
                    cs0.add(x.a[0])
                elif x.op == "int" and x.a[1] == "char":
                    cs0.add(chr(x.a[0]))
                elif x.op == "int" and x.a[1] not in ("bool", "char") and 0 <= x.a[0] <= 5000:
                    cs0.update(["a" * x.a[0], "b" * (x.a[0] + 1)])
    vals += [model.EX("String", p + c + q) for c in sorted(cs0) for p in ("", "x") for q in ("", "y")]
    for val in vals:
        k = model.KINDS[val[1]]
        S = model.Summary(t.o.E if hasattr(t.o, "E") else None, {}, 0)
        S.bind = {src.id: val}
        try:
            want = [] if k == "None" else [val[2]] if k == "String" else [model.lossy(val[2])] if k == "Bytes" else [model.disp(val)]
        except model.Unk:
            want = None
        for j, (items, cs) in enumerate(adds):
            try:
                if not S.holds([], cs, None, {}):
                    continue
                got = [S.ev(x, {}) for x in items]
                if want is None:
                    raise model.Unk("display")
                e = model.eq3(model.V(got), model.V(want))
                if e is None:
                    raise model.Unk("comparison")
                if not e:
                    say(rep, "program", t, "arg-dropped" if not got and want else "arg-form" if len(got) == 1 and want else "arg-count",
                        "an argument of kind %s, %s, is passed as %s" % (k, model.show_model({0: val})[10:90], [x for x in got][:3]))
                    break
            except model.Undef:
                continue
            except (model.Unk, RecursionError):
                unknown.add(j)
    return set(range(len(adds))) - unknown


def status(rep, t, e):
    C = t.C
    st = kind = None
    for c, v in t.o.st.conds():
        if c is e.res or c.op == "call" and c.a[0] == e.name:
            if isinstance(v, frozenset):
                st = set(v)
        if c.op == "call" and c.a[0] == "Error::kind" and isinstance(v, frozenset):
            kind = set(v)
        if c.op == "field" and c.a[0].op == "call" and c.a[0].a[0].startswith("Command::") and isinstance(v, frozenset) and st is None:
            pass
    if st == {0}:
        if t.ret != "Ok(None)":
            say(rep, "program", t, "result", "after the program ran the result must be None, is " + t.ret[:100])
        return
    if st != {1}:
        rep.undecided("program:status", t.where())
        return
    if t.ret.startswith("Ok("):
        say(rep, "program", t, "failure-ok", "a program that could not be started is reported as success")
        return
    m = re.match(r"^Err\((\w+)\(", t.ret)
    got = m.group(1) if m else t.ret[:40]
    if kind is None:
        rep.undecided("program:kind", t.ret[:100])
        return
    want = "ProgramNotFound" if kind == {0} else "PermissionDenied" if kind == {1} else "CommandFailed"
    if kind & {0, 1} and len(kind) > 1:
        rep.violation("program:mixed:" + got, "a program that is not found and other failures are reported alike as " + got, {"path": t.where()})
    elif got != want:
        say(rep, "program", t, "kind:" + want, "start failure of kind %s is reported as %s" % (IOK.get(min(kind), "other"), got))


def flatten(cx, rep):
    with Guard(rep, "flatten"):
        g = exprfn(cx, "flatten")
        old = cx.E.prims
        cx.E.prims = set(old) | {g}
        try:
            outs = cx.outs(g, None, "rec")
        finally:
            cx.E.prims = old
        rep.unit(g)
        import m_eval
        outs = [o for o in outs if o.kind == "ret"]
        f, cnt, why = m_eval.flat(cx, g, outs)
        rep.count("argument_lists", cnt["argument_lists"])
        rep.count("argument_lists_judged", cnt["argument_lists_judged"])
        if f:
            rep.violation(f[0], f[1], dict(f[2], path=conds_str(f[3])))
            return
        if cnt["argument_lists_unknown"]:
            rep.undecided("flatten:models", "%d of %d: %s" % (cnt["argument_lists_unknown"], cnt["argument_lists"], why[:200]))
            return
        decided = m_eval.covered(outs)
        for o in outs:
            if id(o) in decided:
                rep.count("obligations")
                continue
            r = cstr(o.ret, o.st.events())
            rep.count("obligations")
            m = re.match(r"^fold\(vec\(\); (.*)\)$", r)
            if not m:
                if r != "vec()":
                    rep.undecided("flatten", r[:200])
                continue
            srcs = [cstr(e.args[0]) for e in walk(o.st.events()) if e.kind == "next"]
            if any(s.startswith("slice(") for s in srcs):
                rep.violation("flatten:part", "flatten looks at only part of the arguments", {"iterates": srcs[:2]})
            for lp in o.st.events():
                if lp.kind != "loop":
                    continue
                C = Canon(o.st.events())
                for entry, nexts in list(lp.x.get("phis", {}).values()):
                    if entry is None or entry.op not in ("vec",):
                        continue
                    for nx, cs in nexts:
                        ks = None
                        for c, v in cs:
                            if isinstance(v, frozenset) and re.match(r"^args\[k\d+\]$", C(c)):
                                ks = {canon.vname(EXPR, x) for x in v}
                        if nx.op == "phi":
                            rep.violation("flatten:drop:" + "|".join(sorted(ks or ["any"]))[:40], "flatten drops elements of kind %s" % "|".join(sorted(ks or ["any"]))[:80])
                        elif ks and nx.op == "push" and ks & {"List"}:
                            rep.violation("flatten:list", "flatten does not flatten lists")
                        rep.count("argument_cases")
