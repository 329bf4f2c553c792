"""Contracts of builtins: for every combination of argument kinds, the value the builtin must return,
as a normal form over the evaluated arguments. Every path through the builtin's body (analysed in MIR,
calls inlined, loops summarised) must return the normal form of its case."""
import re
import canon, core, engine, model, oracles
from terms import *
from canon import Canon

KINDS = ["Group", "Symbol", "Integer", "Float", "Bytes", "String", "Boolean", "List", "Map", "None", "Assign", "For", "If",
         "Apply", "Lambda", "Macro", "Do", "Builtin", "Quote"]


class Case(object):
    def __init__(self, kinds, forms, guard=None, partial=False, oracle=None):
        self.oracle = oracle    # interpretation of the contract where the form's alternatives do not determine it
        self.kinds = {i: set(k.split("|")) for i, k in kinds.items()}
        self.forms = [forms] if isinstance(forms, str) else list(forms)
        self.guard = guard      # name of the only condition under which an error is allowed
        self.partial = partial  # errors are not judged


class Spec(object):
    def __init__(self, path, lo, hi, cases, ret=None):
        self.path, self.lo, self.hi, self.cases = path, lo, hi, cases
        self.ret = ret


# ------------------------------------------------------------------ normal forms as trees
def parse(s):
    s = s.strip()
    i = head_end(s)
    if i is None:
        return s
    out = []
    for sep, part in split(s[i + 1:-1]):
        out.append((sep, parse(part)))
    return (s[:i], out)


def head_end(s):
    """index of the opening parenthesis when s is HEAD(...)"""
    if not s.endswith(")") or s[0] in "'\"":
        return None
    d = 0
    q = None
    first = None
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            if c == "\\":
                i += 1
            elif c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c in "([":
            if d == 0 and c == "(":
                if first is not None:
                    return None
                first = i
            d += 1
        elif c in ")]":
            d -= 1
            if d == 0 and first is not None and i != len(s) - 1:
                return None
        elif d == 0 and c in " .|;," and first is None:
            if c != ".":
                return None
        i += 1
    return first if first is not None and "[" not in s[:first] else None


def split(s):
    out = []
    d = 0
    q = None
    st = 0
    sep = ""
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            if c == "\\":
                i += 1
            elif c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c in "([":
            d += 1
        elif c in ")]":
            d -= 1
        elif d == 0:
            for p in (", ", "; ", " | "):
                if s.startswith(p, i):
                    out.append((sep, s[st:i]))
                    sep = p
                    i += len(p) - 1
                    st = i + 1
                    break
        i += 1
    if st < len(s) or sep or out:
        out.append((sep, s[st:]))
    return out


def unparse(a):
    if isinstance(a, str):
        return a
    return a[0] + "(" + "".join(sep + unparse(x) for sep, x in a[1]) + ")"


def noloop(a):
    """the value of a form whose loops do not iterate"""
    if isinstance(a, str):
        return a
    if a[0] in ("each", "some", "fold") and a[1]:
        return noloop(a[1][0][1])
    return (a[0], [(sep, noloop(x)) for sep, x in a[1]])


def noskip(a):
    """some(b;  | x) as each(b; x), and a loop that copies every element as the sequence itself"""
    if isinstance(a, str):
        return a
    ch = [(sep, noskip(x)) for sep, x in a[1]]
    h = a[0]
    if h == "some" and len(ch) > 2 and ch[1][1] == "":
        h = "each"
        ch = [ch[0], (ch[1][0], ch[2][1])] + ch[3:]
    if h == "each" and len(ch) == 2 and unparse(ch[0][1]) in ("vec()", "''"):
        m = re.match(r"^(.*)\[k\d+\]$", unparse(ch[1][1]))
        if m:
            return m.group(1)
    return (h, ch)


class Facts(object):
    """what the path condition says about lengths and constants"""

    def __init__(self, E, st, C, terms):
        self.empty, self.const = {}, {}
        self.E, self.st, self.C = E, st, C
        seen = set()
        for t in terms:
            for x in subterms(t):
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == "len":
                    lo, hi = E.bounds(st, x)
                    if hi == 0 or E.is_le(st, x, INT(0, "usize")):
                        s = C(x.a[0])
                        self.empty[s] = "''" if s.endswith(".String") or s.endswith(".Symbol") else "map(())" if s.endswith(".Map") else "vec()"
                elif x.op == "field" and E.tyrange(x):
                    lo, hi = E.bounds(st, x)
                    if lo == hi:
                        self.const[C(x)] = str(lo)

    def simp(self, a):
        if isinstance(a, str):
            return self.empty.get(a, self.const.get(a, a))
        ch = [(sep, self.simp(x)) for sep, x in a[1]]
        h = a[0]
        flat = [unparse(x) for _, x in ch]
        orig = [unparse(x) for _, x in a[1]]
        if h in ("each", "some", "fold") and len(ch) > 1:
            for e in self.empty:
                if all(e + "[" in x or ("(" + e + ", ") in x or "acc" == x[:3] or x == "" for x in orig[1:]):
                    return ch[0][1]
        if h == "rev" and flat[0] in ("vec()", "''"):
            return flat[0]
        if h == "strof" and flat[0] in ("vec()", "''", "chars('')"):
            return "''"
        if h in ("take", "skip") and len(ch) == 2:
            if flat[0] == "vec()":
                return "vec()"
            n = self.num(flat[1])
            if n == 0:
                return "vec()" if h == "take" else ch[0][1]
            x, y = self.C.rev.get(orig[0]), self.C.rev.get(orig[1])
            if x is not None and y is not None:
                if self.E.is_le(self.st, self.E.length(self.st, x), y):
                    return ch[0][1] if h == "take" else "vec()"
        if h == "cast" and len(flat) == 3 and re.match(r"-?\d+$", flat[1]):
            return flat[1]
        return (h, ch)

    @staticmethod
    def num(s):
        return int(s) if re.match(r"\d+$", s) else None


NAME = re.compile(r"([A-Za-z_][\w:.<>?]*)\(")
LOOPY = ("fold", "each", "some", "accum", "each?", "rk", "quant", "loop")
BASE = {"Ok", "Err", "List", "Map", "String", "Integer", "Float", "Boolean", "Bytes", "Symbol", "vec", "push", "vins", "take", "skip", "rev", "len", "cast", "map",
        "mapins", "mapdel", "mget", "disp", "Add", "Sub", "Mul", "Div", "Rem", "not", "Eq", "Lt", "eq", "concat", "chstr", "char", "chars",
        "charcount", "val", "fcast", "isvar", "vcat", "strof", "upd", "slice", "sins", "strfn", "strpred", "fcmp", "Quote", "into", "mkey", "mval",
        "repeatstr", "RemE", "join", "bytesof", "un", "p", "Shl", "Shr", "Pow", "BitAnd", "BitOr", "BitXor", "None", "and", "or", "lines", "split", "eval", "Apply"}


def strip_quotes(s):
    return re.sub(r"'(\\.|[^'\\])*'|\"(\\.|[^\"\\])*\"", "Q", s)


def names(s):
    return set(NAME.findall(strip_quotes(s)))


def loopsig(s):
    return {x for x in names(s) if x in LOOPY}


# ------------------------------------------------------------------ one outcome
class Out(object):
    def __init__(self, E, o):
        self.o, self.E, self.st = o, E, o.st
        evs = o.st.events()
        self.C = Canon(evs)
        self.s = self.C(o.ret)
        self.opaque = self.C.opaque
        self.conds = o.st.conds()
        self.vals = {}
        for t in [o.ret] + [t for t, _ in self.conds]:
            for x in subterms(t):
                if x.op == "field" and x.a[1] == 0 and x.a[2] == 0:
                    k = canon.ev_arg(x.a[0])
                    if k is not None:
                        self.vals[k] = x
        for e in evs:
            if e.kind == "prim" and e.name in ("Expression::eval", "Expression::eval_mut") and e.res is not None:
                k = canon.ev_arg(e.res)
                if k is not None and k not in self.vals and self.E.varset(self.st, e.res) == frozenset((0,)):
                    self.vals[k] = E.payload(self.st, e.res, 0)
        self.kinds = {}

    def kind(self, i):
        """possible kinds of the value of args[i] on this path"""
        if i not in self.kinds:
            t = self.vals.get(i)
            if t is None:
                self.kinds[i] = set(KINDS)
            else:
                v = self.E.varset(self.st, t)
                self.kinds[i] = set(KINDS) if v is None else {canon.vname(EXPR, x) for x in v}
        return self.kinds[i]

    def failed(self, i):
        """is this the path on which evaluating args[i] failed?"""
        return self.s == "Err(err%d)" % i

    def is_err(self):
        r = self.o.ret
        return r.op == "adt" and r.a[0].endswith("Result") and r.a[1] == 1

    def is_ok(self):
        r = self.o.ret
        return r.op == "adt" and r.a[0].endswith("Result") and r.a[1] == 0

    def extra(self):
        """conditions that are neither about the kinds of the arguments, nor about evaluation success, nor arity"""
        out = []
        for t, v in self.conds:
            if isinstance(v, frozenset):
                if canon.is_eval(t):
                    continue
                s = Canon(self.st.events())(t)
                if re.match(r"val\d+$", s):
                    continue
                out.append((s, v, t))
            else:
                s = Canon(self.st.events())(t)
                if "len(args)" in s and "val" not in s:
                    continue
                out.append((s, v, t))
        return out


def loopconds(evs):
    return [e for e in evs if e.kind in ("loop", "acc")]


def arity_ok(E, st, lo, hi, args):
    n = E.length(st, args)
    a = E.is_le(st, INT(lo, "usize"), n)
    b = hi is None or E.is_le(st, n, INT(hi, "usize"))
    return a, b


def guard_term(E, o, g):
    """the condition under which the builtin must succeed"""
    st = o.st
    P = lambda i, k: E.payload(st, o.vals[i], VIDX(EXPR, k))
    if g == "in-range":        # index val0 into list val1, negative from the end
        n, l = P(0, "Integer"), E.length(st, P(1, "List"))
        return [("Lt", n, l), ("Le", INT(0, "i64"), n)]
    return None


class Checker(object):
    def __init__(self, cx, rep, specs, vocab_extra=()):
        self.cx, self.rep, self.specs = cx, rep, specs
        self.vocab = set(BASE) | set(vocab_extra)
        for s in specs:
            for c in s.cases:
                for f in c.forms:
                    self.vocab |= names(f)

    def run(self):
        from report import Guard
        for s in self.specs:
            with Guard(self.rep, s.path):
                self.spec(s)

    def spec(self, sp):
        cx, rep = self.cx, self.rep
        uid = cx.reg.uid(sp.path)
        rep.unit(uid)
        outs = cx.builtin(uid)
        if outs is None:
            rep.undecided(sp.path, "analysis budget exceeded")
            return
        rep.count("builtins")
        real = {}
        unclear = {}
        for o in outs:
            if o.kind != "ret":
                continue
            O = Out(cx.E, o)
            rep.count("paths")
            if O.is_err() or not O.is_ok() and O.s.startswith("Err("):
                self.err(sp, O)
                continue
            self.ok(sp, O, real, unclear)
        for ci, c in enumerate(sp.cases):
            if ci not in real and ci not in unclear and c.forms:
                # nothing returns the value of this case
                rep.violation("%s:never:%d" % (sp.path, ci), "%s: no path returns %s for arguments of kinds %s" % (
                    sp.path, " or ".join(c.forms), fmtk(c.kinds)), {"function": uid})
            elif ci in real:
                rep.count("cases")
                rep.sample("%s %s -> %s" % (sp.path, fmtk(c.kinds), c.forms[0]) if c.forms else sp.path)

    def compatible(self, sp, O):
        for ci, c in enumerate(sp.cases):
            ks = {}
            for i, want in c.kinds.items():
                k = O.kind(i) & want
                if not k:
                    break
                ks[i] = k
            else:
                yield ci, c, ks

    def forms(self, c, ks):
        """the case's normal forms for every choice of kinds left open"""
        choices = [{}]
        for i, k in ks.items():
            choices = [dict(d, **{str(i): x}) for d in choices for x in sorted(k)]
            if len(choices) > 40:
                choices = choices[:40]
        for d in choices:
            for f in c.forms:
                yield re.sub(r"\$(\d)", lambda m: "val%s.%s" % (m.group(1), d.get(m.group(1), "?")), f)

    def ok(self, sp, O, real, unclear):
        rep = self.rep
        s = O.s
        comp = list(self.compatible(sp, O))
        if not comp:
            rep.count("paths_outside_contract")
            return
        hit = False
        for ci, c, ks in comp:
            for f in self.forms(c, ks):
                if same(f, s):
                    real[ci] = True
                    hit = f
                    break
        left = hit and self.early(O)
        v = self.models(sp, O, comp, {}, {}) if left or hit and sp.path in oracles.ORACLES else None
        if v is not None and v[0] == "same":
            rep.count("paths_equal_in_models")
        if hit and not (v and v[0] == "differs"):
            import steps
            steps.after(O.E, O, sp, hit, rep, self.cx.reg.uid(sp.path), left and v[0] != "same")
            rep.count("paths_matched")
            return
        # normalise under what the path knows
        F = Facts(O.E, O.st, O.C, [O.o.ret] + [t for t, _ in O.conds])
        if F.empty or F.const:
            a = unparse(F.simp(parse(s)))
            for ci, c, ks in comp:
                for f in self.forms(c, ks):
                    if same(unparse(F.simp(parse(f))), a):
                        unclear[ci] = True
                        rep.count("paths_matched")
                        return
        # the same form with loops that ran zero times
        z = {s}
        for ci, c, ks in comp:
            for f in self.forms(c, ks):
                if unparse(noloop(parse(f))) in z and loopsig(f):
                    unclear[ci] = True
                    rep.count("paths_without_iterations")
                    return
        why = self.incomparable(s, O, comp)
        v = self.models(sp, O, comp, real, unclear)
        if v[0] == "same":
            rep.count("paths_equal_in_models")
            return
        if v[0] != "differs":
            rep.undecided("%s: %s" % (sp.path, s[:160]), why or "the forms differ, no model tells them apart" + (": " + model.LAST[0] if v[0] == "unknown" else ""))
            return
        ci, c, ks = v[3]
        rep.violation("%s:returns:%s" % (sp.path, digest(s)), "%s returns %s for arguments of kinds %s; the contract is %s" % (
            sp.path, s, fmtk(ks), " or ".join(sorted(set(self.forms(c, ks)))[:4])),
            {"function": self.cx.reg.uid(sp.path), "path": [q for q, _, _ in O.extra()], "told_apart_by": model.show_model(v[1])})

    def models(self, sp, O, comp, real, unclear):
        """does some model tell the path's result from the contract's?"""
        seen = []
        for ci, c, ks in comp:
            r = []
            for n in self.arities(sp, c):
                kinds = {i: O.kind(i) & c.kinds.get(i, set(KINDS)) for i in range(n)}
                v = model.judge(O.E, O.o, kinds, n, list(self.forms(c, ks)), c.oracle or oracles.ORACLES.get(sp.path) if set(c.kinds) or sp.hi is None else None)
                if v[0] == "differs":
                    return v + ((ci, c, ks),)
                r.append(v[0])
            if "unknown" not in r and "same" in r:
                real[ci] = True
            else:
                unclear[ci] = True
            seen += r
        if "unknown" in seen:
            return ("unknown",)
        return ("same",) if "same" in seen else ("untaken",)

    def early(self, O):
        """does the path leave a loop before its sequence is exhausted?"""
        for e in O.st.events():
            if e.kind == "loop" and e.x.get("iters"):
                ks = set()
                for evs, _, _ in e.x["iters"]:
                    try:
                        for k, _, _ in model.Summary(O.E, {}, 0).kvars(evs):
                            ks.add((k.a[2] if k.op == "rk" else k).a[0][:2])
                    except model.Unk:
                        return False
                if ks and not ks & set(O.st.ends):
                    return True
        return False

    def arities(self, sp, c):
        lo = max([sp.lo] + [i + 1 for i in c.kinds])
        return range(lo, (sp.hi if sp.hi is not None else lo + 2) + 1)

    def fails(self, sp, O, c, guard):
        """does some model with arguments in the contract's domain take this path to an error?"""
        r = []
        for n in self.arities(sp, c):
            kinds = {i: O.kind(i) & c.kinds.get(i, set(KINDS)) for i in range(n)}
            v = model.judge_err(O.E, O.o, kinds, n, guard)
            if v[0] == "differs":
                return v
            r.append(v[0])
        return ("unknown",) if "unknown" in r else ("untaken",)

    def incomparable(self, s, O, comp):
        if O.opaque:
            return "the result is not expressible in normal form"
        unk = {n for n in names(s) if n not in self.vocab}
        if unk and re.search(r"\b(min|max)\((-?\d+, |.*, -?\d+\))", s):
            unk -= {"min", "max"}       # bounded by a constant
        if unk:
            return "operations outside the contract's vocabulary: " + ", ".join(sorted(unk))
        ls = loopsig(s)
        if self.skipping(s, comp):
            return None
        if all(not (ls <= loopsig(f)) for _, c, ks in comp for f in self.forms(c, ks)):
            return "computed by a loop of another shape"
        for q, v, t in O.extra():
            # tests a maintainer may use for a shortcut that does not change the result
            if re.search(r"is_ascii\(|^strpred\(contains|^isvar\(str::r?find|^eq\(", q):
                return "under a condition that may make the results equal: " + q
        return None

    def skipping(self, s, comp):
        """the contract's result, except that one turn of the loop may add nothing"""
        if not any(re.search(r"some\(", s) for _ in (0,)):
            return False
        a = unparse(noskip(parse(s)))
        return any(a == unparse(noskip(parse(f))) and not loopsig(f) & {"some"} for _, c, ks in comp for f in self.forms(c, ks))

    def err(self, sp, O):
        rep = self.rep
        if re.match(r"Err\(err\d+\)$", O.s) or re.match(r"Err\(err\(", O.s):
            rep.count("paths_evaluation_error")
            return
        E, st = O.E, O.st
        args = self.cx.builtin_args(self.cx.reg.uid(sp.path))[0]
        n = E.length(st, args)
        # arity errors
        if E.is_le(st, n, INT(sp.lo - 1, "usize")) if sp.lo > 0 else False:
            return
        if sp.hi is not None and E.is_le(st, INT(sp.hi + 1, "usize"), n):
            return
        if any("len(args)" in Canon(st.events())(t) for t, v in O.conds if not isinstance(v, frozenset)) and not O.vals:
            return
        comp = [q for q in self.compatible(sp, O) if not q[1].partial]
        for ci, c, ks in comp:
            if any(i not in O.vals for i in c.kinds):
                continue
            if any(len(O.kind(i) - want) for i, want in c.kinds.items() if False):
                continue
            ex = O.extra()
            if c.guard is not None and GUARDS[c.guard](E, O) is False:
                rep.count("guarded_errors")
                continue
            r = self.fails(sp, O, c, (lambda m: True) if c.guard is None else PYGUARDS[c.guard])
            if r[0] == "differs":
                rep.violation("%s:error:%d" % (sp.path, ci), "%s returns an error for arguments of kinds %s%s, for which the contract promises %s" % (
                    sp.path, fmtk(ks), "" if c.guard is None else " that are in range (%s)" % c.guard, " or ".join(c.forms)),
                    {"function": self.cx.reg.uid(sp.path), "returns": O.s, "path": [("" if v else "!") + q for q, v, _ in ex], "for_example": model.show_model(r[1])})
            elif r[0] == "unknown":
                rep.undecided("%s: error" % sp.path, "the condition of the error has no interpretation: " + model.LAST[0])
            else:
                rep.count("guarded_errors")


def simple(q):
    return not (names(q) - {"Lt", "Eq", "Le", "not", "len", "cast", "and", "or", "Sub", "Add", "un", "ovf:Sub", "ovf:Add", "charb", "ovf:Mul", "ovf:Neg", "ovf:Abs", "ovf:Pow",
                            "ovf:Rem", "ovf:Div", "charcount", "Rem", "Div", "Mul"})


def possible(E, st, *cs):
    """can all the comparisons hold together on this path?  False when refuted, None otherwise"""
    s = st.copy()
    for c in cs:
        if not E.assume(s, c, True):
            return False
    # integer conversions that are exact under the assumed ranges
    for t, v in s.conds():
        for x in subterms(t):
            if x.op == "cast" and E.tyrange(x):
                lo, hi = E.bounds(s, x.a[1])
                l2, h2 = E.tyrange(x)
                if l2 <= lo and hi <= h2:
                    one = {x: 1}
                    c, k = E.lf(s, x.a[1])
                    d = dict(c)
                    d[x] = d.get(x, 0) - 1
                    if not E.add_le0(s, {a: q for a, q in d.items() if q}, k) or not E.add_le0(s, {a: -q for a, q in d.items() if q}, -k):
                        return False
    return None


def g_nth(E, O):
    P = lambda i, k: E.payload(O.st, O.vals[i], VIDX(EXPR, k))
    n, l = P(0, "Integer"), E.length(O.st, P(1, "List"))
    s = O.st.copy()
    ok1 = possible(E, s, E.cmp(s, "Le", "i64", INT(0, "i64"), n), E.cmp(s, "Lt", "i64", n, l))
    return ok1


def rng(i, lo, hi):
    """error only outside lo <= val_i <= hi (hi: a constant or the index of a list argument, whose length is meant)"""
    def g(E, O):
        n = E.payload(O.st, O.vals[i], VIDX(EXPR, "Integer"))
        h = INT(hi, "i64") if not isinstance(hi, str) else E.length(O.st, E.payload(O.st, O.vals[int(hi)], VIDX(EXPR, "List")))
        s = O.st.copy()
        return possible(E, s, E.cmp(s, "Le", "i64", INT(lo, "i64"), n), E.cmp(s, "Le", "i64", n, h))
    return g


def g_ovf(E, O):
    """error only where the exact result does not exist in 64 bits"""
    for t, v in O.conds:
        if v is True and t.op == "ovf":
            return False
    return None


def pg(f):
    def g(m):
        try:
            return f(*[v[2] for _, v in sorted(m.items())])
        except (IndexError, TypeError):
            return False
    return g


PYGUARDS = {"in-range": pg(lambda n, l: -len(l) <= n < len(l)), "shift": pg(lambda a, b: 0 <= b < 64), "insert-list": lambda m: 0 <= m[1][2] <= len(m[0][2]),
            "split": pg(lambda n, l: 0 <= n <= len(l)), "overflow": pg(lambda n: n != -(1 << 63))}
GUARDS = {"in-range": g_nth, "shift": rng(1, 0, 63), "insert-list": rng(1, 0, "0"), "split": rng(0, 0, "1"), "overflow": g_ovf}


def same(f, s):
    if f == s:
        return True
    if "*" in f:
        return wild(f, s)
    return False


def wild(f, s):
    """`*` in a form stands for anything"""
    return re.match("^" + ".*".join(re.escape(x) for x in f.split("*")) + "$", s) is not None


def digest(s):
    import hashlib
    return hashlib.sha1(s.encode()).hexdigest()[:8]


def fmtk(ks):
    return ", ".join("%d:%s" % (i, "|".join(sorted(k)) if len(k) < 8 else "any") for i, k in sorted(ks.items())) or "any"
