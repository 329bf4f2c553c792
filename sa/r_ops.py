"""P03, P04: the operators."""
import itertools, math, re
import core, canon, contract, model
from terms import *
from util import *
from contract import KINDS, names, digest, parse, unparse, noloop
from rules import rule
from engine import RANGES
from report import Guard

ARITH_WHY = ("The operator's builtin is analysed with two symbolic arguments (calls inlined, including the arithmetic impls of Expression): for every pair of "
             "argument kinds, each returned value must be the table's normal form and each error must be one the table allows.")
OPS = {"+": "Add", "-": "Sub", "*": "Mul", "//": "Div", "%": "Rem"}


def I(i):
    return "fcast(f64, val%d.Integer, i64)" % i


def table():
    t = {}
    for op, n in OPS.items():
        d = t[op] = {("Integer", "Integer"): ["Integer(%s(val0.Integer, val1.Integer))" % n]}
        if op != "%":
            d["Float", "Float"] = ["Float(%s(val0.Float, val1.Float))" % n]
            d["Integer", "Float"] = ["Float(%s(%s, val1.Float))" % (n, I(0))]
            d["Float", "Integer"] = ["Float(%s(val0.Float, %s))" % (n, I(1))]
    t["+"].update({("String", "String"): ["String(concat(val0.String, val1.String))"], ("Bytes", "Bytes"): ["Bytes(vcat(val0.Bytes, val1.Bytes))"],
                   ("List", "List"): ["List(vcat(val0.List, val1.List))"]})
    t["-"].update({("Map", "String"): ["mget(val0.Map, val1.String).Some"], ("List", "Integer"): ["val0.List[cast(usize, val1.Integer, i64)]"]})
    for a, b in ((0, 1), (1, 0)):
        k = ("String", "Integer") if a == 0 else ("Integer", "String")
        t["*"][k] = ["String(repeatstr(val%d.String, cast(usize, max(0, val%d.Integer), i64)))" % (a, b), "String(fold(''; concat(acc0, val%d.String)))" % a,
                     "String(each(''; val%d.String))" % a, "String('')", "String(repeatstr(val%d.String, 0))" % a,
                     "String(repeatstr(val%d.String, cast(usize, val%d.Integer, i64)))" % (a, b)]
        k = ("List", "Integer") if a == 0 else ("Integer", "List")
        t["*"][k] = ["List(fold(vec(); vcat(acc0, val%d.List)))" % a, "List(each(vec(); val%d.List[k0]))" % a, "List(vec())",
                     "List(repeat(val%d.List, cast(usize, max(0, val%d.Integer), i64)))" % (a, b)]
    return t


TABLE = table()
# kinds for which an error is allowed although the table has a value: arithmetic overflow, zero divisors, absent keys and indices
MAYFAIL = {("+", "Integer", "Integer"), ("-", "Integer", "Integer"), ("*", "Integer", "Integer"), ("//", "Integer", "Integer"), ("%", "Integer", "Integer"),
           ("-", "Map", "String"), ("-", "List", "Integer")}


def args_vec(cx, uid, n):
    a = cx.builtin_args(uid)
    base = [x for x in a if x.a[0] == "args"]
    if not base:
        raise core.Anchor("argument vector of " + uid)
    base = base[0]
    els = [cx.E.get(None, base, ("i", INT(i, "usize"))) for i in range(n)]
    d = cx.p.types[base.ty]
    for x in els:
        if x.ty is None and d["k"] == "adt" and d["a"]:
            x.ty = d["a"][0]
    v = mkt(base.ty, "vec", *els)
    return [v if x is base else x for x in a]


def outs_n(cx, path, n):
    uid = cx.reg.uid(path)
    return uid, cx.outs(uid, args_vec(cx, uid, n), "n%d" % n)


def outs_ints(cx, path, n):
    """outcomes for n operands that all evaluate to integers"""
    uid = cx.reg.uid(path)
    cx.E.hyp = frozenset([VIDX(EXPR, "Integer")])
    try:
        return uid, cx.outs(uid, args_vec(cx, uid, n), "i%d" % n)
    finally:
        cx.E.hyp = None


def collapse(s):
    """evaluating an integer gives the integer back"""
    i = 0
    while True:
        i = s.find("val(Integer(", i)
        if i < 0:
            return s
        d, j = 1, i + 12
        while j < len(s) and d:
            d += {"(": 1, ")": -1}.get(s[j], 0)
            j += 1
        if s.startswith(").Integer", j):
            s = s[:i] + s[i + 12:j - 1] + s[j + 9:]
        else:
            i += 1


def norm(s):
    return collapse(norm0(s))


def norm0(s):
    n = 0
    while n < 6:
        n += 1
        t = re.sub(r"\bval\(((?:val|args\[)\d+\]?)\)", lambda m: m.group(1) if m.group(1).startswith("val") else "val" + re.search(r"\d+", m.group(1)).group(0), s)
        if t == s:
            break
        s = t
    return s


WIDER = {("i128", "i64"), ("i128", "i32"), ("i64", "i32"), ("i128", "u64"), ("i128", "usize"), ("i128", "u32"), ("i64", "u32")}


def widen(a):
    if isinstance(a, str):
        return a
    ch = [(sep, widen(x)) for sep, x in a[1]]
    if a[0] == "cast" and len(ch) == 3 and (ch[0][1], ch[2][1]) in WIDER:
        return ch[1][1]
    return (a[0], ch)


def arithform(a):
    """an arithmetic node of the normal form, as text"""
    return isinstance(a, tuple) and a[0] in ("Add", "Sub", "Mul", "Div", "Rem")


def exact(o):
    """operations the path knows to be exact (as text), and those it knows to overflow"""
    ex, ov = set(), set()
    lo, hi = set(), set()
    evs = o.st.events()
    for t, v in o.st.conds():
        if not isinstance(v, bool):
            continue
        q = unparse(widen(parse(norm(cstr(t, evs)))))
        while q.startswith("not("):
            q, v = q[4:-1], not v
        if q.startswith("ovf:"):
            (ov if v else ex).add(q[4:])
        m = re.match(r"Lt\((.*), -9223372036854775808\)$", q)
        if m and v:
            ov.add(m.group(1))
        elif m:
            lo.add(m.group(1))
        m = re.match(r"Lt\(9223372036854775807, (.*)\)$", q)
        if m and v:
            ov.add(m.group(1))
        elif m:
            hi.add(m.group(1))
    return ex | (lo & hi), ov


def lower(s, o):
    """wrapping and 128-bit arithmetic is the exact operation where the path has established that it is exact"""
    ex, ov = exact(o)

    def go(a):
        if isinstance(a, str):
            return a
        ch = [(sep, go(x)) for sep, x in a[1]]
        if a[0].startswith("wrap:"):
            x = (a[0][5:], ch)
            if unparse(x) in ex:
                return x
        if a[0] == "cast" and len(ch) == 3 and ch[0][1] == "i64" and ch[2][1] == "i128" and unparse(ch[1][1]) in ex:
            return ch[1][1]
        return (a[0], ch)
    for _ in range(3):
        ex = ex | {unparse(go(parse(x))) for x in ex}
    return unparse(go(widen(parse(s)))), ex, ov


def kinds_of(cx, o, n):
    """kinds of val0..val(n-1) on the path"""
    ks = [set(KINDS) for _ in range(n)]
    for t, v in o.st.conds():
        if not isinstance(v, frozenset):
            continue
        m = re.match(r"val(\d+)$", norm(cstr(t, o.st.events())))
        if m and int(m.group(1)) < n:
            ks[int(m.group(1))] &= {canon.vname(EXPR, x) for x in v}
    return ks


def kinds_of_default(cx, o, n):
    return kinds_of(cx, o, n)


def value_conds(o, n):
    """conditions on the path that are not kinds of the operands or success of evaluations"""
    out = []
    evs = o.st.events()
    for t, v in o.st.conds():
        s = norm(cstr(t, evs))
        if isinstance(v, frozenset):
            if canon.is_eval(t) or re.match(r"val\d+$", s):
                continue
            out.append((s, v, t))
        else:
            out.append((s, v, t))
    return out


VOC = {"Ok", "Err", "Integer", "Float", "String", "List", "Bytes", "Boolean", "Map", "Add", "Sub", "Mul", "Div", "Rem", "RemE", "fcast", "cast", "concat", "vcat", "mget", "repeatstr", "max", "min",
       "fold", "val", "un", "not", "vec", "wrap:Add", "wrap:Sub", "wrap:Mul", "f64::powf", "f64::floor", "rev", "len", "None", "skip", "take", "push", "None?", "Symbol",
       "powf", "wrap:SatAdd", "wrap:SatSub", "wrap:SatMul", "DivE", "wrap:Neg", "wrap:Div", "wrap:Rem", "wrap:DivE", "Shl", "Shr", "Pow", "Abs", "BitAnd", "BitOr", "BitXor"}


class Ops(object):
    """an operator's paths against its table: a path matches when its normal form is the table's, or when no model of the
    operands tells them apart; a difference is reported with the operands that show it"""

    def __init__(self, cx, rep):
        self.cx, self.rep = cx, rep

    def comparable(self, s, opaque):
        if opaque:
            return "not expressible in normal form"
        u = names(s) - VOC
        return "operations outside the vocabulary: " + ", ".join(sorted(u)) if u else None

    def paths(self, name, uid, outs, n, oracle, forms, cases, want, summary=None, kinds=kinds_of_default, covers=()):
        """cases: iterable of kind tuples the rule speaks about; oracle(m, seed): admissible results; forms(p): normal forms;
        covers: cases in which every operand pair must get a result"""
        cx, rep = self.cx, self.rep
        rep.unit(uid)
        rep.count("operators")
        taken = {p: set() for p in covers}
        total = {}
        for o in outs:
            if o.kind != "ret":
                continue
            rep.count("paths")
            C = canon.Canon(o.st.events())
            s = norm(C(o.ret))
            if re.match(r"Err\(err", s):
                continue
            s = lower(s, o)[0]
            ks = kinds(cx, o, n)
            for p in cases:
                if any(a not in k for a, k in zip(p, ks)):
                    continue
                ms = op_models(p)
                t = taken.get(p)
                v = model.judge(cx.E, o, {}, n, [], oracle, ms=ms, summary=summary, taken=t, seeds=(0,))
                if t is not None and p not in total:
                    total[p] = sum(1 for _ in ms(()))
                if v[0] == "differs":
                    rep.violation("%s:%s:%s" % (name, "error" if s.startswith("Err(") else "value", ":".join(p)),
                                  "`%s` on %s returns %s; %s" % (name, " and ".join(p), s[:200], want(p)),
                                  {"function": uid, "path": conds_str(o), "told_apart_by": model.show_model(v[1])})
                elif v[0] == "same":
                    rep.count("cases")
                    rep.sample("%s %s -> %s" % (name, " ".join(p), s[:100]))
                elif v[0] == "unknown":
                    r = s[3:-1] if s.startswith("Ok(") else s
                    if r in forms(p):
                        rep.count("cases")
                    else:
                        rep.undecided("%s:%s" % (name, ",".join(p)), "%s: %s" % (s[:100], model.LAST[0]))
        for p in covers:
            if p in total and len(taken[p]) < total[p]:
                left = [m for i, m in enumerate(op_models(p)(())) if i not in taken[p]]
                rep.violation("%s:noresult:%s" % (name, ":".join(p)), "`%s` on %s neither returns a value nor an error for some operands" % (name, " and ".join(p)),
                              {"function": uid, "operands": model.show_model(left[0])})


def op_models(p):
    """operand tuples of the given kinds"""
    if all(a == "Integer" for a in p) and p:
        return int_models(len(p))

    def f(cs=()):
        for m in model.models({i: {a} for i, a in enumerate(p)}, len(p), cs, 1500):
            yield m
    return f


OK = lambda x: model.A(("Result", 0, x))
X = model.EX


def pay(x):
    return model.KINDS[x[1]], x[2] if len(x) > 2 else None


def arith_oracle(op):
    def f(m, seed):
        (ka, a), (kb, b) = pay(m[0]), pay(m[1])
        if (ka, kb) not in TABLE[op]:
            return [model.is_error]
        if ka == kb == "Integer":
            if op == "%" and a == RANGES["i64"][0] and b == -1:
                return None             # 0, or an error: the quotient has no 64-bit value
            v = folded(op, [a, b])
            return [model.is_error] if v is None else [OK(X("Integer", v))]
        if {ka, kb} <= {"Integer", "Float"}:
            return [OK(X("Float", model.arith(OPS[op], float(a), float(b), "f64")))]
        if op == "+":
            return [OK(X(ka, a + b if ka == "String" else model.V(a + b)))]
        if op == "-":
            if ka == "Map":
                v = a.d.get(b)
            else:
                v = a[b] if 0 <= b < len(a) else None
            if v is None:
                return [model.is_error]
            return [OK(v)] if v != model.NONEX else None        # a stored none is reported as an error
        n, x = (a, b) if ka == "Integer" else (b, a)
        if n > 1000:
            return None                 # more than memory holds
        k = ka if ka != "Integer" else kb
        return [OK(X(k, x * max(0, n) if k == "String" else model.V(x * max(0, n))))]
    return f


def arith(k, op, only=None):
    uid, outs = outs_n(k.cx, "ops@" + op, 2)
    tab = TABLE[op]
    cases = [only] if only else sorted(tab) + sorted((a, b) for a in KINDS for b in KINDS if (a, b) not in tab and not free_kind(a) and not free_kind(b))
    k.paths(op, uid, outs, 2, arith_oracle(op), lambda p: tab.get(p, ()), cases,
            lambda p: "the contract is %s" % tab[p][0] if p in tab and p != ("Integer", "Integer") else
            "the contract is the exact 64-bit result, or an error where there is none" if p in tab else "there is no such operation, the contract is an error",
            covers=[("Integer", "Integer")])


def free_kind(a):
    """kinds evaluation does not produce as they stand"""
    return a in ("Group", "Assign", "For", "If", "Apply", "Do", "Quote", "Lambda", "Symbol")


@rule("P03", ARITH_WHY)
def p03(cx, rep, tier):
    rep.rule("integer + - * // %: every path returns the exact 64-bit result, or an error exactly where there is none (overflow, zero divisor); "
             "unary minus and n-ary forms fold from the left")
    k = Ops(cx, rep)
    for op in OPS:
        with Guard(rep, op):
            arith(k, op, ("Integer", "Integer"))
        with Guard(rep, op + " n-ary"):
            nary(k, op)
    with Guard(rep, "negation"):
        neg(k, ("Integer",))


NARY = (2, 3, 4, 5, 6, 9, 17)


def int_models(n):
    """integer operand tuples: small values, then mixtures with boundary values (a fixed congruential sequence)"""
    def f(cs=()):
        x = 12345
        big = [RANGES["i64"][0], RANGES["i64"][1], RANGES["i64"][0] + 1, 1 << 62, -(1 << 62), 1 << 32, (1 << 31) + 3]
        near = sorted({q + d for q in cs if type(q) is int and abs(q) < 1 << 62 for d in (-1, 0, 1)})[:8] or [0]
        for r in range(1200 if n < 4 else 400):
            m = {}
            for i in range(n):
                x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
                y = x >> 33
                c = (y >> 8) % 16
                v = (y & 255) % 19 - 6
                if r % 3 == 1 and c == 0 or r % 3 == 2 and c < 5:
                    v = big[y % len(big)]
                elif r % 3 and c == 6:
                    v = near[y % len(near)]
                elif r % 3 == 0 and v == 0 and r % 2:
                    v = 2
                m[i] = model.EX("Integer", v)
            yield m
    return f


def folded(op, xs):
    """left fold in exact 64-bit arithmetic; None where some step has no result"""
    a = xs[0]
    for b in xs[1:]:
        v = model.exact(OPS[op], a, b, "i64")
        if v is None or not RANGES["i64"][0] <= v <= RANGES["i64"][1]:
            return None
        a = v
    return a


def nary(k, op):
    """(..(a op b) op ..) z for operand counts far beyond what one expression writes"""
    cx, rep = k.cx, k.rep
    fn = OPS[op]
    for n in NARY:
        uid, outs = outs_ints(cx, "ops@" + op, n)
        want = "val0.Integer"
        for i in range(1, n):
            want = "%s(%s, val%d.Integer)" % (fn, want, i)
        want = "Ok(Integer(%s))" % want

        def oracle(m, seed):
            v = folded(op, [m[i][2] for i in range(n)])
            if v is None:
                return [model.is_error]
            if op == "%" and m[0][2] == RANGES["i64"][0] and m[1][2] == -1:
                return None         # 0, or an error: the quotient has no 64-bit value
            return [model.A(("Result", 0, model.EX("Integer", v)))]
        found = False
        for o in outs:
            if o.kind != "ret":
                continue
            rep.count("n_ary_paths")
            C = canon.Canon(o.st.events())
            s = lower(norm(C(o.ret)), o)[0]
            if s == want:
                found = True
            v = model.judge(cx.E, o, {}, n, [], oracle, ms=int_models(n))
            if v[0] == "same":
                found = found or s.startswith("Ok(")
            if v[0] == "differs":
                rep.violation("%s:nary:%d" % (op, n), "`%s` with %d integers returns %s; the contract is the left fold, with an error exactly where a step has no 64-bit result" % (op, n, s[:200]),
                              {"function": uid, "path": conds_str(o), "told_apart_by": model.show_model(v[1])})
            elif v[0] == "unknown" and s != want:
                rep.undecided("ops@%s/%d" % (op, n), "the path has no interpretation: " + model.LAST[0])
        if found:
            rep.count("n_ary_folds")
        else:
            rep.undecided("ops@%s/%d" % (op, n), "no path of the expected form")


NEG = {"Integer": "Integer(un(Neg, i64, val0.Integer))", "Float": "Float(un(Neg, f64, val0.Float))", "Boolean": "Boolean(not(val0.Boolean))"}


def neg_oracle(m, seed):
    k, a = pay(m[0])
    if k == "Integer":
        return [model.is_error] if a == RANGES["i64"][0] else [OK(X(k, -a))]
    if k == "Float":
        return [OK(X(k, -a))]
    if k == "Boolean":
        return [OK(X(k, not a))]
    return [model.is_error]


def neg(k, kinds):
    uid, outs = outs_n(k.cx, "ops@-", 1)
    cases = [(a,) for a in (kinds or KINDS) if not free_kind(a)]
    k.paths("unary -", uid, outs, 1, neg_oracle, lambda p: [NEG[p[0]]] if p[0] in NEG else [], cases,
            lambda p: "the contract is %s" % NEG.get(p[0], "an error"), covers=[("Integer",)])


CMP = {"==": "eq(val0, val1)", "!=": "not(eq(val0, val1))", "<": "fcmp(Lt, dune::expr::Expression, val0, val1)", "<=": "fcmp(Le, dune::expr::Expression, val0, val1)",
       ">": "fcmp(Lt, dune::expr::Expression, val1, val0)", ">=": "fcmp(Le, dune::expr::Expression, val1, val0)"}
TRUTHY = {"Integer": "not(Eq(0, $.Integer))", "Float": ("not(fcmp(Eq, f64, $.Float, 0.0))", "not(fcmp(Eq, f64, 0.0, $.Float))"), "String": "not(Eq(0, len($.String)))",
          "Bytes": "not(Eq(0, len($.Bytes)))", "Boolean": "$.Boolean", "List": "not(Eq(0, len($.List)))", "Map": "not(Eq(0, len($.Map)))",
          "Lambda": "true", "Macro": "true", "Builtin": "true"}


def truthy_of(a, x):
    f = TRUTHY.get(a, "false")
    return [y.replace("$", x) for y in ((f,) if isinstance(f, str) else f)]


def negs(s):
    if s == "true":
        return "false"
    if s == "false":
        return "true"
    return s[4:-1] if s.startswith("not(") else "not(%s)" % s


def truth(x):
    """the truth value of a value"""
    k, a = pay(x)
    if k in ("Integer", "Float"):
        return a != 0
    if k in ("String", "Bytes", "List"):
        return len(a) > 0
    if k == "Map":
        return len(a.d) > 0
    if k == "Boolean":
        return a
    return k in ("Lambda", "Macro", "Builtin")


def method(k, tag, uid, params, cases, oracle, known, want):
    """paths of a method of Expression against its table; params: names of its expression parameters"""
    cx, rep = k.cx, k.rep
    rep.unit(uid)
    summary = lambda E, m, seed: model.Summary(E, {}, seed, syms={q: m[i] for i, q in enumerate(params)})
    for o in cx.outs(uid):
        if o.kind != "ret":
            continue
        C = canon.Canon(o.st.events())
        s = C(o.ret)
        ks = [set(KINDS) for _ in params]
        for t, v in o.st.conds():
            if isinstance(v, frozenset) and t.op == "sym" and t.a[0] in params:
                ks[params.index(t.a[0])] &= {canon.vname(EXPR, i) for i in v}
        rep.count("paths")
        for p in cases:
            if any(a not in q for a, q in zip(p, ks)):
                continue
            v = model.judge(cx.E, o, {}, len(params), [], oracle, ms=op_models(p), summary=summary, seeds=(0,))
            if v[0] == "same":
                rep.count("cases")
            elif v[0] == "differs":
                rep.violation("%s:%s" % (tag, ":".join(p)), "%s of %s is %s; the contract is %s" % (tag, " and ".join(p), s[:120], want(p)),
                              {"function": uid, "path": conds_str(o), "told_apart_by": model.show_model(v[1])})
            elif v[0] == "unknown" and not known(p, s, o):
                rep.undecided("%s:%s" % (tag, ",".join(p)), "%s: %s" % (s[:100], model.LAST[0]))


def params_of(cx, uid):
    L = cx.p.bodies[uid]["locals"]
    return [L[i + 1][1] if len(L[i + 1]) > 1 else "arg%d" % (i + 1) for i in range(cx.p.bodies[uid]["argc"])]


def truthiness(k):
    """Expression::is_truthy, by kind"""
    uid = k.cx.method("Expression", "is_truthy")
    ps = params_of(k.cx, uid)
    k.rep.count("kinds", len(KINDS))
    method(k, "truthy", uid, ps, [(a,) for a in KINDS], lambda m, seed: [truth(m[0])], lambda p, s, o: s in truthy_of(p[0], ps[0]),
           lambda p: truthy_of(p[0], ps[0])[0])


def compare(k):
    """the ordering of expressions: same kinds compare by their payload, different kinds do not compare"""
    uid = k.cx.method("Expression", "partial_cmp", "PartialOrd")
    ps = params_of(k.cx, uid)

    def oracle(m, seed):
        c = model.pcmp(m[0], m[1])
        return [model.A(("Option", 0)) if c is None else model.A(("Option", 1, model.ordering(c)))]

    def known(p, s, o):
        m = re.match(r"(?:Some\()?(?:Partial)?Ord\.(?:partial_)?cmp\((.*?)(?:, '[^']*')?\)+$", s)
        return p[0] == p[1] and m and m.group(1) == "%s.%s, %s.%s" % (ps[0], p[0], ps[1], p[0])
    method(k, "order", uid, ps, [(a, b) for a in KINDS for b in KINDS], oracle, known,
           lambda p: "that of their contents" if p[0] == p[1] else "none")


def cmp_oracle(op):
    def f(m, seed):
        a, b = m[0], m[1]
        if op in ("==", "!="):
            e = model.peq(a, b)
            if e is None:
                return None
            return [OK(X("Boolean", e == (op == "==")))]
        c = model.pcmp(a, b)
        return [OK(X("Boolean", {"<": c == -1, "<=": c in (-1, 0), ">": c == 1, ">=": c in (0, 1)}[op]))]
    return f


def comparisons(k):
    cases = [(a, b) for a in KINDS for b in KINDS if not free_kind(a) and not free_kind(b)]
    for op, f in CMP.items():
        with Guard(k.rep, op):
            uid, outs = outs_n(k.cx, "ops@" + op, 2)
            g = ["Boolean(%s)" % f] + (["Boolean(%s)" % f.replace("val0, val1", "val1, val0")] if "eq(" in f else [])
            k.paths(op, uid, outs, 2, cmp_oracle(op), lambda p: g, cases, lambda p: "the contract is %s" % f)


LOGIC = {"&&": all, "||": any, "!": lambda ts: not any(ts)}


def logic(k):
    """&& || ! on 0, 1, 2, 3 and 5 operands: the truth values of all of them"""
    cx, rep = k.cx, k.rep
    for op, f in LOGIC.items():
        oracle = lambda m, seed: [OK(X("Boolean", f([truth(m[i]) for i in range(len(m))])))]
        with Guard(rep, op):
            uid, outs = None, None
            for n in (0, 1, 2, 3, 5):
                uid, outs = outs_n(cx, "ops@" + op, n)
                rep.unit(uid)
                for o in outs:
                    if o.kind != "ret":
                        continue
                    s = norm(cstr(o.ret, o.st.events()))
                    rep.count("paths")
                    if re.match(r"Err\(err", s):
                        continue
                    ks = kinds_of(cx, o, n)
                    simple = [[a for a in sorted(ks[i]) if not free_kind(a)] for i in range(n)]
                    cases = itertools.product(*simple) if n <= 2 else itertools.product(*[[a for a in x if a in ("Integer", "Boolean")] for x in simple])
                    for p in cases:
                        v = model.judge(cx.E, o, {}, n, [], oracle, ms=logic_models(p), seeds=(0,))
                        if v[0] == "differs":
                            rep.violation("%s:value:%s" % (op, ":".join(p[:2])), "`%s` on %s returns %s; the contract speaks about the truth values of all operands" % (op, " and ".join(p), s[:140]),
                                          {"function": uid, "path": conds_str(o), "told_apart_by": model.show_model(v[1])})
                        elif v[0] == "unknown":
                            rep.undecided("ops@" + op, "%s: %s" % (s[:100], model.LAST[0]))
                        elif v[0] == "same":
                            rep.count("cases")
            rep.count("operators")


def logic_models(p):
    """values of the given kinds, one of each truth value and a few more"""
    def vals(a):
        if a == "Integer":
            return [X(a, 0), X(a, 1), X(a, -1), X(a, 2)] if len(p) < 5 else [X(a, 0), X(a, 3)]
        if a == "Float":
            return [X(a, x) for x in (0.0, 1.0, -0.5, -0.0, math.nan)]
        if a == "String":
            return [X(a, x) for x in ("", "a", "0", " ")]
        return model.pool(a)[:6]

    def f(cs=()):
        for m in itertools.product(*[vals(a) for a in p]):
            yield dict(enumerate(m))
    return f


def index_oracle(m, seed):
    (ka, a), kb = pay(m[0]), m[1]
    b = kb if model.KINDS[kb[1]] in ("Integer", "Symbol") else model.evaluate(kb, seed)
    kb, b = pay(b)
    if ka == "List" and kb == "Integer" and 0 <= b < len(a):
        return [OK(a[b])]
    if ka == "Map" and kb in ("String", "Symbol") and b in a.d:
        return [OK(a.d[b])]
    return [OK(model.NONEX)]


def index(k):
    """a @ b"""
    uid, outs = outs_n(k.cx, "ops@@", 2)
    cases = [(a, b) for a in KINDS for b in KINDS if not free_kind(a) and (not free_kind(b) or b == "Symbol")]

    def kinds(cx, o, n):
        ks = kinds_of(cx, o, n)
        for t, v in o.st.conds():
            if isinstance(v, frozenset) and cstr(t, o.st.events()) == "args[1]":
                ks[1] &= {canon.vname(EXPR, x) for x in v}
        return ks
    k.paths("@", uid, outs, 2, index_oracle, lambda p: ["val0.List[cast(usize, val1.Integer, i64)]", "mget(val0.Map, val1.String).Some", "mget(val0.Map, val1.Symbol).Some"][0 if p[0] == "List" else 1:],
            cases, lambda p: "the contract is the element at that position or key, or nothing", summary=lambda E, m, seed: model.Summary(E, m, seed, raw={1: m[1]}), kinds=kinds)


@rule("P04", ARITH_WHY + " Comparisons, logic operators, indexing, truth values and the order of expressions are compared with their own tables.")
def p04(cx, rep, tier):
    rep.rule("operand kinds -> normal form, for + - * // %, unary -, == != < <= > >=, && || !, @; truth value and order by kind")
    k = Ops(cx, rep)
    for op in OPS:
        with Guard(rep, op):
            arith(k, op)
    for f in (lambda k: neg(k, None), comparisons, logic, index, truthiness, compare):
        with Guard(rep, getattr(f, "__name__", "neg")):
            f(k)
