"""JSON and TOML: the summary of a parsing builtin is run on every shape of a parsed document, the recursive conversion by its own summary."""
import re
import model, r_fs
from model import Unk, Undef, U, A, V, Mp
from m_eval import *
from m_call import CallSummary, CallLang, FAILED

J = {n: i for i, n in enumerate(("Null", "Short", "String", "Number", "Boolean", "Object", "Array"))}
T = {n: i for i, n in enumerate(("String", "Integer", "Float", "Boolean", "Datetime", "Array", "Table"))}


def js(k, *x):
    return A(("JsonValue", J[k]) + x)


def tm(k, *x):
    return A(("toml::Value", T[k]) + x)


def FL(x):
    return EX("Float", x)


# (document, the value it stands for)
def leaves(fmt):
    if fmt == "json":
        yield js("Null"), NONEX
        for b in (True, False):
            yield js("Boolean", b), BOOL(b)
        for s in ("", "a", "true", "1", "long text\nof two lines"):
            yield js("Short", s), STR(s)
            yield js("String", s), STR(s)
        for f in (0.0, 1.0, -1.5, 1e300, 3.25, 0.1, 9007199254740993.0):
            yield js("Number", U(("number", f))), FL(f)
        yield js("Array", V(())), LIST()
        yield js("Object", U(("object",))), EX("Map", Mp({}))
    else:
        for b in (True, False):
            yield tm("Boolean", b), BOOL(b)
        for s in ("", "a", "true", "1", "long text\nof two lines"):
            yield tm("String", s), STR(s)
        yield tm("Datetime", "1979-05-27T07:32:00Z"), STR("1979-05-27T07:32:00Z")
        for f in (0.0, 1.0, -1.5, 1e300, 3.25):
            yield tm("Float", f), FL(f)
        for i in (0, 1, -1, 1979, (1 << 63) - 1, -(1 << 63)):
            yield tm("Integer", i), INT(i)
        yield tm("Array", V(())), LIST()
        yield tm("Table", Mp({})), EX("Map", Mp({}))


def arr(fmt, xs):
    return (js if fmt == "json" else tm)("Array", V([x for x, _ in xs])), LIST(*[v for _, v in xs])


def obj(fmt, kv):
    return (js("Object", U(("object",) + tuple((k, x) for k, (x, _) in kv))) if fmt == "json" else tm("Table", Mp({k: x for k, (x, _) in kv}))), EX("Map", Mp({k: v for k, (_, v) in kv}))


def documents(fmt):
    L = list(leaves(fmt))
    for x in L:
        yield x
        yield arr(fmt, [x])
        yield obj(fmt, [("k", x)])
        yield arr(fmt, [x, arr(fmt, [x])])
        yield obj(fmt, [("z", L[0]), ("a", x), ("A", L[1]), ("z a", arr(fmt, [x, L[1]]))])
        yield arr(fmt, [obj(fmt, [("k", x), ("", L[1])]), L[0], x])
        yield obj(fmt, [("o", obj(fmt, [("o", obj(fmt, [("x", x)]))]))])
    yield arr(fmt, L)
    yield arr(fmt, [L[i % 3] for i in range(9)])
    yield arr(fmt, [L[1], L[1]])
    yield obj(fmt, [("%s%d" % (c, i), x) for c in "ba" for i, x in enumerate(L)])


class DataSummary(CallSummary):
    def __init__(self, cx, args, e, fmt, docs, depth=0):
        CallSummary.__init__(self, cx, args, e)
        self.fmt, self.docs, self.depth = fmt, docs, depth

    def apply(self, e, env):
        n, p = e.name, e.x.get("path") or ""
        if self.fmt == "json" and n.endswith("::parse") and p.startswith("json::") or self.fmt == "toml" and (n == "str::parse" or p.startswith("toml::") and n.endswith("from_str")):
            x = self.ev(e.args[0], env)
            if isinstance(x, str):
                return Ok(self.docs[x]) if x in self.docs else ERR(U(("parse error",)))
            raise Unk("parse")
        if n in ("Object::iter", "Map::iter", "Map<IntoIterator>::into_iter", "Map::into_iter", "IntoIterator::into_iter"):
            x = self.ev(e.args[0], env)
            if isinstance(x, U) and x[0] == "object":
                return V(x[1:])
            if isinstance(x, Mp):
                return V(x.key())
        if n in ("Object::len", "Map::len", "Object::is_empty", "Map::is_empty"):
            x = self.ev(e.args[0], env)
            if isinstance(x, U) and x[0] == "object":
                return len(x) == 1 if n.endswith("empty") else len(x) - 1
        if n == "Short::as_str":
            return model.need(self.ev(e.args[0], env), str)
        m = re.match("(?:JsonValue|Value)::is_(\\w+)$", n)
        if m:
            x = self.ev(e.args[0], env)
            if isinstance(x, A) and x[0] in ("JsonValue", "toml::Value"):
                k = [a for a, i in (J if x[0] == "JsonValue" else T).items() if i == x[1]][0].lower()
                k = {"short": "string"}.get(k, k)
                f = {"str": "string", "bool": "boolean"}.get(m.group(1), m.group(1))
                if f in ("null", "string", "number", "boolean", "object", "array", "table", "integer", "float", "datetime"):
                    return k == f
        if e.kind == "prim" and e.x.get("uid") in self.cx.p.bodies and not canon_eval(e) and not n.startswith("Environment"):
            return self.rec(e.x["uid"], [self.ev(a, env) for a in e.args])
        return CallSummary.apply(self, e, env)

    def matters(self, e):
        return CallSummary.matters(self, e) or e.kind == "prim" and e.x.get("uid") in self.cx.p.bodies

    def rec(self, u, xs):
        cx = self.cx
        if self.depth > 8:
            raise Unk("recursion")
        old = cx.E.prims
        cx.E.prims = set(old) | {u}
        try:
            outs = cx.outs(u, None, "rec:" + u)
        finally:
            cx.E.prims = old
        b = cx.p.bodies[u]
        ls = b["locals"][1:1 + b["argc"]]
        unk = "no path taken"
        for o in outs:
            if o.kind != "ret":
                continue
            S = DataSummary(cx, (), env({}), self.fmt, self.docs, self.depth + 1)
            S.syms = {l[1]: x for l, x in zip(ls, xs)}
            try:
                r = S.run(o.st, cx.E.snap(o.st, o.ret))
            except (Unk, RecursionError) as w:
                unk = str(w)
                continue
            except Undef:
                continue
            if r is None:
                continue
            if S.soft is not None:
                unk = str(S.soft)
                continue
            return r[0]
        raise Unk(unk)

    def ev0(self, t, env):
        if t.op == "call" and t.id not in self.bind and len(t.a) >= 2 and t.a[0] in ("From::from:f64", "Into::into:f64", "Number<Into>::into", "f64<From>::from"):
            x = self.ev(t.a[1], env)
            if isinstance(x, U) and x[0] == "number":
                return x[1]
        return CallSummary.ev0(self, t, env)


def canon_eval(e):
    import canon
    return e.res is not None and canon.is_eval(e.res)


def judge(cx, outs, fmt):
    """-> (finding or None, counters, why)"""
    cnt = {"documents": 0, "documents_judged": 0, "documents_unknown": 0}
    rets = [(o, cx.E.snap(o.st, o.ret)) for o in outs if o.kind == "ret"]
    found, why = None, ""
    D = list(documents(fmt))
    docs = {"doc%d" % i: d[0] for i, d in enumerate(D)}
    want = {"doc%d" % i: Ok(d[1]) for i, d in enumerate(D)}
    want["broken"] = FAILED
    if fmt == "json":
        want[""] = Ok(NONEX)
    for s, w in want.items():
        for arg, w2 in ((SYM(s), w) if False else (STR(s), w),):
            cnt["documents"] += 1
            unk, hit = "no path taken", None
            for o, ret in rets:
                S = DataSummary(cx, V([arg]), E0, fmt, docs)
                try:
                    r = S.run(o.st, ret)
                except (Unk, RecursionError) as x:
                    unk = str(x)
                    continue
                except Undef:
                    continue
                if r is None:
                    continue
                if S.soft is not None:
                    unk = str(S.soft)
                    continue
                hit = r[0]
                break
            try:
                if hit is None or not (isinstance(hit, A) and hit[0] == "Result"):
                    raise Unk(unk)
                if w2 == FAILED or hit[1]:
                    bad = hit[1] != w2[1]
                else:
                    bad = not same(hit, w2, E0)
            except Unk as x:
                cnt["documents_unknown"] += 1
                why = why or "%s for %r" % (x, docs.get(s, s))
                continue
            cnt["documents_judged"] += 1
            if bad and found is None:
                found = ({"document": repr(docs.get(s, s))[:300], "returns": repr(hit)[:300], "expected": "an error" if w2 == FAILED else repr(w2)[:300]}, o)
    return found, cnt, why


# ---------------------------------------------------------------- random draws
class RandSummary(CallSummary):
    """a draw's outcome is a parameter of the model"""
    seed = 0

    def apply(self, e, env):
        n = e.name
        if n.endswith(("thread_rng", "from_entropy")):
            return U(("rng",))
        if n in ("Uniform::new", "Uniform::new_inclusive"):
            a, b = [self.ev(x, env) for x in e.args]
            b += n.endswith("inclusive")
            if not (isinstance(a, int) and isinstance(b, int) and a < b):
                raise Unk("empty range")
            return U(("uniform", a, b))
        if n in ("Rng.sample", "Distribution.sample"):
            u = [x for x in (self.ev(a, env) for a in e.args) if isinstance(x, U) and x[0] == "uniform"]
            if len(u) != 1:
                raise Unk("distribution")
            return u[0][1] + self.seed % (u[0][2] - u[0][1])
        if n == "Rng.gen_range":
            r = self.ev(e.args[1], env)
            if not (isinstance(r, A) and len(r) == 4 and r[0] in ("Range", "RangeInclusive") and all(isinstance(x, int) for x in r[2:])):
                raise Unk("range")
            a, b = r[2], r[3] + (r[0] != "Range")
            if a >= b:
                raise Unk("empty range")
            return a + self.seed % (b - a)
        if n in ("SliceRandom.choose", "IteratorRandom.choose"):
            l = model.need(self.ev(e.args[0], env), V)
            return Some(l[self.seed % len(l)]) if l else NO
        if n == "SliceRandom.shuffle":
            return UNIT
        return CallSummary.apply(self, e, env)

    def ev0(self, t, env):
        if t.op == "mut" and t.a[0] == "SliceRandom.shuffle":
            l = model.need(self.ev(t.a[1], env), V)
            return V([tuple(reversed(l)), l[1:] + l[:1], l, l[::2] + l[1::2]][self.seed % 4])
        return CallSummary.ev0(self, t, env)


def draws(n):
    X = [INT(1), STR("s"), NONEX, LIST(), BOOL(True)]
    if n == "rand@int":
        for l, h in ((0, 1), (0, 3), (-2, 2), (5, 9), (-7, -5), (3, 3), (4, 2), (0, 0), ((1 << 63) - 3, (1 << 63) - 1), (-(1 << 63), -(1 << 63) + 2)):
            yield V([INT(l), INT(h)]), set(range(l, h)) if l < h else None
            yield V([N(INT(l)), N(INT(h))]), set(range(l, h)) if l < h else None
        for x in X:
            for y in X:
                if x != X[0] or y != X[0]:
                    yield V([x, y]), None
        yield V([FAIL, INT(2)]), None
        yield V([INT(2), FAIL]), None
    else:
        for l in ([], [INT(1)], [INT(3), STR("b")], [INT(1), INT(2), INT(3), INT(4)], [NONEX, LIST(INT(1))], [INT(1), INT(1), INT(2)], [INT(i) for i in range(7)], [STR("")] * 2):
            for x in (LIST(*l), N(LIST(*l))):
                yield V([x]), l if l or n == "rand@shuffle" else None
        for x in X:
            if x != LIST():
                yield V([x]), None
        yield V([FAIL]), None
        yield V([MAP(a=INT(1))]), None


def judge_draws(cx, outs, n):
    """-> (finding or None, counters, why)"""
    cnt = {"draws": 0, "draws_judged": 0, "draws_unknown": 0}
    rets = [(o, cx.E.snap(o.st, o.ret)) for o in outs if o.kind == "ret"]
    found, why = None, ""
    for args, want in draws(n):
        seen, whole = [], True
        for seed in range(8):
            cnt["draws"] += 1
            unk, hit = "no path taken", None
            for o, ret in rets:
                S = RandSummary(cx, args, E0)
                S.seed = seed
                try:
                    r = S.run(o.st, ret)
                except (Unk, RecursionError) as x:
                    unk = str(x)
                    continue
                except Undef:
                    continue
                if r is None:
                    continue
                if S.soft is not None:
                    unk = str(S.soft)
                    continue
                hit = r[0]
                break
            if hit is None or not (isinstance(hit, A) and hit[0] == "Result") or not hit[1] and (not isinstance(hit[2], A) or any(isinstance(x, U) for x in hit[2])):
                cnt["draws_unknown"] += 1
                why = why or "%s for %r" % (unk, args)
                whole = False
                continue
            cnt["draws_judged"] += 1
            bad = None
            if want is None or hit[1]:
                if (want is None) != bool(hit[1]):
                    bad = "has a value where it must fail" if want is None else "fails where there is something to draw"
            elif n == "rand@int":
                if KINDS[hit[2][1]] != "Integer" or hit[2][2] not in want:
                    bad = "draws a number outside the range"
                seen.append(hit[2][2:])
            elif n == "rand@choose":
                if hit[2] not in want:
                    bad = "returns something that is not an element of the list"
                seen.append(hit[2])
            else:
                if KINDS[hit[2][1]] != "List" or sorted(map(repr, hit[2][2])) != sorted(map(repr, want)):
                    bad = "drops, adds or changes elements"
                seen.append(hit[2][2:] and hit[2][2])
            if bad and found is None:
                found = {"what": bad, "arguments": repr(args)[:300], "returns": repr(hit)[:300], "draw": seed}, o
        if whole and want and n != "rand@shuffle" and found is None:
            miss = [x for x in want if (x,) not in seen and x not in seen]
            if miss:
                found = {"what": "can never draw %r" % (miss[0],), "arguments": repr(args)[:300]}, rets[0][0]
        if whole and want and n == "rand@shuffle" and found is None and len(set(map(repr, want))) == len(want) > 1:
            miss = [i for i in range(len(want)) if len({repr(x[i]) for x in seen}) == 1]
            if miss:
                found = {"what": "never moves the element at index %d" % miss[0], "arguments": repr(args)[:300]}, rets[0][0]
    return found, cnt, why
