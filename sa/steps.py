"""Loop contracts: what one turn of a loop must add to its result, under which condition; loops that stop early."""
import re
import canon, core, model
from terms import *
from canon import Canon, pushed
from util import walk


class Turn(object):
    """one iteration path of one loop, seen from one accumulated sequence"""
    def __init__(self, E, C, items, conds, st, loop, acc, nxt):
        self.E, self.C, self.items, self.conds, self.st, self.loop, self.acc, self.nxt = E, C, items, conds, st, loop, acc, nxt

    def find(self, s):
        """the term whose normal form is s, if the loop mentions it"""
        return self.C.rev.get(s)

    def feasible(self, *asm):
        """can this path be taken when all assumptions hold?  assumption: (term, True/False) or (term, set of variants)"""
        s = self.st.copy()
        for t, v in asm:
            ok = self.E.setvar(s, t, frozenset(v)) if not isinstance(v, bool) else self.E.assume(s, t, v)
            if not ok:
                return False
        return True

    def path(self):
        out = []
        for c, v in self.conds:
            if isinstance(v, bool):
                out.append(("" if v else "not ") + self.C(c)[:120])
        return "; ".join(out)[:400]


def turns(E, O, pick=None):
    """every iteration path of the loops whose accumulator occurs in the returned value"""
    C = O.C
    C(O.o.ret)
    inside = {x.id for x in subterms(O.o.ret)}
    accs = {}
    for x in subterms(O.o.ret):
        if x.op in ("phi", "gvec"):
            accs[x.a[0] if x.op == "phi" else x.id] = x
    out = []
    for lp in walk(O.st.events()):
        if lp.kind != "loop":
            continue
        iters = lp.x["iters"]
        for it in iters:
            for c, _ in it[1]:
                for y in subterms(c):
                    C(y)
        for key, t in accs.items():
            if t.op == "phi" and key in lp.x["phis"]:
                entry, nexts = lp.x["phis"][key]
                nl = [(w, cs) for w, cs in nexts]
            elif t.op == "gvec" and key in lp.x["gvecs"]:
                entry, ns, conds, filt = lp.x["gvecs"][key]
                nl = list(zip(ns, conds))
            else:
                continue
            for w, cs in nl:
                it = [i for i in iters if i[1] == cs]
                if not it:
                    continue
                p = pushed(t, w) if not (w.op == "push" and w.a[0].op == "vec" and w is not t) else [w.a[1]]
                out.append(Turn(E, C, None if p is None else [C(x) for x in p], cs, it[0][2], lp, t, w))
    return out


def early(O):
    """loops whose accumulator is in the returned value and which this path left before the sequence ended"""
    evs = O.st.events()
    inside = set()
    for x in subterms(O.o.ret):
        if x.op == "phi":
            inside.add(x.a[0])
        elif x.op == "gvec":
            inside.add(x.id)
    out = []
    for i, e in enumerate(evs):
        if e.kind != "loop" or not e.x["iters"]:
            continue
        ks = set()
        try:
            for evs2, _, _ in e.x["iters"]:
                for k, _, _ in model.Summary(O.E, {}, 0).kvars(evs2):
                    ks.add((k.a[2] if k.op == "rk" else k).a[0][:2])
        except model.Unk:
            continue
        if ks and not ks & set(O.st.ends) and (inside & (set(e.x["phis"]) | set(e.x["gvecs"]))):
            out.append(e)
    return out


# ------------------------------------------------------------------ conditions of the tables
def _i(n):
    return INT(n, "i64")


def truth_cases(E, st, V):
    """[(kind, truthy, assumptions)] for every kind V may have"""
    vs = E.varset(st, V)
    for k in canon_kinds():
        i = VIDX(EXPR, k)
        if vs is not None and i not in vs:
            continue
        base = (V, frozenset([i]))
        s = st.copy()
        if not E.setvar(s, V, frozenset([i])):
            continue
        if k in ("Lambda", "Macro", "Builtin"):
            yield k, True, [base]
        elif k in ("Integer", "Float", "String", "Bytes", "List", "Map", "Boolean"):
            p = E.payload(s, V, i)
            if k == "Integer":
                c = E.cmp(s, "Eq", "i64", p, _i(0))
                yield k, True, [base, (c, False)]
                yield k, False, [base, (c, True)]
            elif k == "Boolean":
                yield k, True, [base, (p, True)]
                yield k, False, [base, (p, False)]
            elif k == "Float":
                c = [x for x, v in st.conds() if isinstance(v, bool) and x.op == "fcmp" and x.a[0] == "Eq" and p in x.a[2:]]
                if c:
                    yield k, True, [base, (c[0], False)]
                    yield k, False, [base, (c[0], True)]
                else:
                    yield k, True, [base]
                    yield k, False, [base]
            else:
                c = E.cmp(s, "Eq", "usize", E.length(s, p), INT(0, "usize"))
                yield k, True, [base, (c, False)]
                yield k, False, [base, (c, True)]
        else:
            yield k, False, [base]


def canon_kinds():
    import contract
    return contract.KINDS


class Say(object):
    def __init__(self, rep, sp, uid):
        self.rep, self.sp, self.uid = rep, sp, uid
        self.n = 0

    def ok(self):
        self.rep.count("loop_obligations")
        self.n += 1

    def bad(self, key, msg, t):
        self.rep.violation("%s:%s" % (self.sp.path, key), "%s %s" % (self.sp.path, msg), {"function": self.uid, "path of one turn": t.path() if t is not None else ""})

    def unclear(self, why):
        self.rep.undecided(self.sp.path + ": loop", why)


def iff(E, ts, say, what, when, noun):
    """when(turn) -> list of (description, wanted: must the item be added, assumptions) or None"""
    seen = False
    for t in ts:
        ws = when(t)
        if ws is None or t.items is None:
            continue
        seen = True
        for d, want, asm in ws:
            say.ok()
            if bool(t.items) != want and t.feasible(*asm):
                say.bad("%s:%s" % (what, d), "%s %s %s" % ("adds" if t.items else "skips", noun, d), t)
    if not seen:
        say.unclear("the loop that selects the elements was not recognised")


def s_filter(E, O, say):
    def when(t):
        V = None
        for s, x in t.C.rev.items():
            if re.match(r"^val\(Apply\(val0, vec\(val1\.List\[k\d+\]\)\)\)$", s):
                V = x
        if V is None:
            return None
        return [("%s predicate result %s" % ("a truthy" if b else "a falsy", k), b, a) for k, b, a in truth_cases(E, t.st, V)]
    iff(E, turns(E, O), say, "filter", when, "an element with")


def s_from_items(E, O, say):
    def when(t):
        V = [x for s, x in t.C.rev.items() if re.match(r"^val0\.List\[k\d+\]$", s)]
        if not V:
            return None
        V = V[0]
        li = VIDX(EXPR, "List")
        s = t.st.copy()
        if not E.setvar(s, V, frozenset([li])):
            return [("that is not a list", False, [])] if E.varset(t.st, V) is not None and li not in E.varset(t.st, V) else []
        c = E.cmp(s, "Eq", "usize", E.length(s, E.payload(s, V, li)), INT(2, "usize"))
        return [("that is a pair", True, [(V, frozenset([li])), (c, True)])]
    iff(E, turns(E, O), say, "from-items", when, "an item")


def member(other):
    def f(E, O, say, want_present):
        def when(t):
            M = [x for s, x in t.C.rev.items() if re.match(r"^mget\(%s, mkey\(val[01]\.Map, k\d+\)\)$" % re.escape(other), s)]
            if not M:
                return None
            return [("whose key the other map has", want_present, [(M[0], frozenset([1]))]), ("whose key the other map lacks", not want_present, [(M[0], frozenset([0]))])]
        ts = turns(E, O)
        if ts and all(when(t) is None for t in ts) and all(t.items is not None for t in ts):
            for t in ts:
                if not any("mkey" in t.C(c) or "mget" in t.C(c) for c, _ in t.conds) and any(bool(x.items) for x in ts):
                    say.unclear("membership is not tested by looking up the key")
                    return
        iff(E, ts, say, "member", when, "an entry")
    return f


def s_intersect(E, O, say):
    member("val1.Map")(E, O, say, True)


def s_difference(E, O, say):
    # removing every key of the second map from the first
    ts = [t for t in turns(E, O) if t.acc.op in ("phi", "gvec")]
    s = O.s
    if "mapdel" not in s:
        return member("val1.Map")(E, O, say, False)
    for t in ts:
        w = t.C(t.nxt)
        if "mapdel" in w and t.nxt is not t.acc:
            say.ok()
            continue
        if t.nxt is t.acc:
            say.ok()
            M = [x for q, x in t.C.rev.items() if re.match(r"^mget\(.*mkey\(val1\.Map, k\d+\)\)$", q)]
            if not M:
                say.bad("keep", "keeps an entry whose key the second map has", t)
            elif t.feasible((M[0], frozenset([1]))):
                say.bad("keep", "keeps an entry whose key the second map has", t)


def s_join(E, O, say):
    for t in turns(E, O):
        if t.items is None or not t.items:
            continue
        sep = len(t.items) == 2
        k = [x for q, x in t.C.rev.items() if x.op == "k" or x.op == "rk"]
        idx = None
        for c, v in t.conds:
            if isinstance(v, bool) and c.op == "cmp" and re.match(r"^(Eq|Lt)\(0, k\d+\)$", t.C(c)):
                idx = (t.C(c)[:2] == "Eq") == v      # first element
            elif isinstance(v, bool) and re.match(r"^Eq\(0, len\(", t.C(c)) and t.acc in list(subterms(c)):
                say.bad("separator", "decides by the text so far, not by the position, whether a separator is due: empty elements lose theirs", t)
                return
        if idx is None:
            continue
        say.ok()
        extra = [c for c, v in t.conds if isinstance(v, bool) and not re.match(r"^(Eq|Lt)\(0, k\d+\)$", t.C(c))]
        if sep == idx:
            say.bad("separator", "%s a separator before %s element" % ("puts" if sep else "omits", "the first" if idx else "a later"), t)


def s_chunk(E, O, say):
    if "chunks(" in O.s:
        return
    ts = [t for t in turns(E, O) if t.items is not None]
    n = O.vals.get(0)
    if n is None:
        return
    N = E.payload(O.st, n, VIDX(EXPR, "Integer"))
    outer = [t for t in ts if any(x.startswith("List(") for x in t.items)] and [t for t in ts if t.acc in {u.acc for u in ts if any(x.startswith("List(") for x in u.items)}]
    for t in outer or ():
        # the chunk being filled
        inner = [x for x in subterms(t.nxt) if x.op in ("phi", "gvec") and x is not t.acc] or \
                [x for c, _ in t.conds for x in subterms(c) if x.op in ("phi", "gvec") and x is not t.acc and t.C(x).startswith("fold(vec()")]
        if not inner:
            continue
        s = t.st.copy()
        full = E.cmp(s, "Eq", "usize", E.add(s, E.length(s, inner[0]), INT(1, "usize")), mk("cast", "usize", N, "i64"))
        say.ok()
        if t.items and t.feasible((full, False)):
            say.bad("early", "ends a chunk that does not have the requested size", t)
        if not t.items and t.feasible((full, True)):
            say.bad("late", "does not end a chunk of the requested size", t)


def char_code_paths(ts):
    """evaluate the character conditions of each turn for every code point of a finite sample"""
    from r_log import value
    return value


PRED = {"is_ascii_alphabetic": lambda c: chr(c).isascii() and chr(c).isalpha(), "is_ascii_lowercase": lambda c: 97 <= c <= 122, "is_ascii_uppercase": lambda c: 65 <= c <= 90,
        "is_ascii": lambda c: c < 128, "is_ascii_digit": lambda c: 48 <= c <= 57, "is_ascii_alphanumeric": lambda c: chr(c).isascii() and chr(c).isalnum(),
        "is_ascii_punctuation": lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126, "is_ascii_whitespace": lambda c: c in (9, 10, 12, 13, 32)}
UNI = {"is_alphabetic": str.isalpha, "is_lowercase": str.islower, "is_uppercase": str.isupper}


def ctest(t, ch, code):
    """value of a condition about the character ch when it is `code`; None: unknown"""
    if t.op == "not":
        v = ctest(t.a[0], ch, code)
        return None if v is None else not v
    if t.op in ("and", "or"):
        x, y = ctest(t.a[0], ch, code), ctest(t.a[1], ch, code)
        if t.op == "and":
            return False if x is False or y is False else True if x and y else None
        return True if x or y else False if x is False and y is False else None
    if t.op == "call" and len(t.a) >= 2 and t.a[1] is ch:
        n = t.a[0].split("::")[-1]
        if n in PRED:
            return bool(PRED[n](code))
        if n in UNI:
            return bool(UNI[n](chr(code)))
        return None
    if t.op in ("cmp", "ovf"):
        x, y = cval(t.a[2], ch, code), cval(t.a[3], ch, code)
        if x is None or y is None:
            return None
        if t.op == "cmp":
            return {"Eq": x == y, "Lt": x < y, "Le": x <= y, "Ne": x != y}.get(t.a[0])
        if t.a[0] == "Sub" and t.a[1] == "u8":
            return x < y
        return None
    return None


def cval(t, ch, code):
    if t is ch:
        return code
    if t.op in ("int", "char"):
        return t.a[0] if isinstance(t.a[0], int) else None
    if t.op == "cast":
        v = cval(t.a[1], ch, code)
        if v is None:
            return None
        return v & 255 if t.a[0] == "u8" else v
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        x, y = cval(t.a[2], ch, code), cval(t.a[3], ch, code)
        if x is None or y is None:
            return None
        return x + y if t.a[0] == "Add" else x - y
    return None


SAMPLE = list(range(0, 0x180)) + [0x212A, 0x3B1, 0x4E00, 0xFF21, 0x1D400]


def s_caesar(E, O, say):
    for t in turns(E, O):
        if t.items is None or len(t.items) != 1:
            continue
        ch = [x for q, x in t.C.rev.items() if x.op == "char" and re.match(r"^char\(val0\.\w+, k\d+\)$", q)]
        if not ch:
            continue
        ch = ch[0]
        q = t.items[0]
        cls = "upper" if "Add(65, Rem" in q else "lower" if "Add(97, Rem" in q else "same" if q == "chstr(%s)" % t.C(ch) else None
        if cls is None:
            continue
        for code in SAMPLE:
            r = [ctest(c, ch, code) for c, v in t.conds if isinstance(v, bool)]
            vs = [v for c, v in t.conds if isinstance(v, bool)]
            if any(x is not None and x != v for x, v in zip(r, vs)):
                continue
            say.ok()
            want = "upper" if 65 <= code <= 90 else "lower" if 97 <= code <= 122 else "same"
            if want != cls:
                say.bad("char:%s:%s" % (want, cls), "treats %r (%s) as %s" % (chr(code), {"same": "not an ASCII letter"}.get(want, want + "case"), {"same": "not a letter"}.get(cls, cls + "case")), t)
                break


def s_title(E, O, say):
    """upper case exactly at the start of a word"""
    for t in turns(E, O):
        if t.items is None or len(t.items) != 1:
            continue
        cls = "upper" if "to_uppercase" in t.items[0] else "lower" if "to_lowercase" in t.items[0] else None
        bools = [n for n, (e, nx) in t.loop.x["phis"].items() if e is not None and (e in (TRUE, FALSE) or e.op == "int" and e.a[1] == "bool")]
        if len(bools) != 1 or cls is None:
            continue
        entry, nexts = t.loop.x["phis"][bools[0]]
        up0 = entry is TRUE or entry.op == "int" and bool(entry.a[0])   # the first character must be upper: this polarity means "start of a word"
        stt = ws = None
        for c, v in t.conds:
            if isinstance(v, bool):
                n = c
                while n.op == "not":
                    n, v = n.a[0], not v
                if n.op == "phi" and n.a[0] == bools[0]:
                    stt = v
                elif n.op == "call" and n.a[0].endswith("is_whitespace"):
                    ws = v
        nx = [w for w, cs in nexts if cs == t.conds]
        if stt is not None:
            say.ok()
            if (stt == up0) != (cls == "upper"):
                say.bad("case", "writes %s case %s of a word" % (cls, "at the start" if stt == up0 else "inside"), t)
        if ws is not None and nx and (nx[0].op == "int"):
            say.ok()
            if (bool(nx[0].a[0]) == up0) != ws:
                say.bad("state", "%s white space as %s of a word" % ("treats the character after" if ws else "treats the character after a character that is no", "inside" if ws else "the start"), t)
        elif ws is not None and nx and nx[0].op == "phi":
            say.ok()
            if stt is None or (stt == up0) != ws:
                say.bad("state", "does not note whether a word ended", t)


def s_sum(E, O, say):
    """the operand of every kind goes into its own accumulator"""
    seen = set()
    for lp in walk(O.st.events()):
        if lp.kind != "loop" or id(lp) in seen:
            continue
        seen.add(id(lp))
        C = O.C
        for name, (entry, nexts) in lp.x["phis"].items():
            e = C(entry) if entry is not None else ""
            for w, cs in nexts:
                for c, _ in cs:
                    C(c)
            for w, cs in nexts:
                V = [c for c, v in cs if isinstance(v, frozenset) and re.match(r"^val\((args|val\(args\[k\d+\]\)\.List)\[k\d+\]\)$", C(c))]
                if not V:
                    continue
                it = [i for i in lp.x["iters"] if i[1] == cs]
                if not it:
                    continue
                v = V[-1]
                ks = {canon.vname(EXPR, i) for i in (E.varset(it[0][2], v) or ())}
                me = [x for x in subterms(w) if x.op == "phi" and x.a[0] == name]
                ty = "Float" if e.startswith("0.0") or e.startswith("1.0") or "Float" in C(w) and "fold" not in C(w)[:1] else None
                if not me:
                    continue
                if w is me[0]:
                    # nothing added: the kind must not belong here
                    kind = {"i64": "Integer", "f64": "Float"}.get(acctype(lp, name))
                    say.ok()
                    if kind in ks:
                        say.bad("lost:" + kind, "ignores an operand of kind %s" % kind, Turn(E, C, [], cs, it[0][2], lp, me[0], w))


def acctype(lp, name):
    for w, cs in lp.x["phis"][name][1]:
        if w.op == "bin":
            return w.a[1]
    return None


STEPS = {"fn@filter": s_filter, "dict@from-items": s_from_items, "dict@intersect": s_intersect, "dict@difference": s_difference, "string@join": s_join, "list@chunk": s_chunk,
         "string@caesar": s_caesar, "string@to-title": s_title, "string@is-title": s_title, "math@sum": s_sum, "math@product": s_sum}


# ------------------------------------------------------------------ results allowed only under a condition
def w_empty(E, O, f):
    """list@head yields none only for the empty list"""
    s = O.st.copy()
    p = E.payload(s, O.vals[0], VIDX(EXPR, "List"))
    return [("the list is not empty", [(E.cmp(s, "Lt", "usize", INT(0, "usize"), E.length(s, p)), True)])]


def w_sign(neg):
    def g(E, O, f):
        s = O.st.copy()
        n = E.payload(s, O.vals[0], VIDX(EXPR, "Integer"))
        c = E.cmp(s, "Lt", "i64", n, _i(0))
        return [("the index is %s" % ("negative" if not neg else "not negative"), [(c, not neg)])]
    return g


def w_absent(E, O, f):
    M = O.C.rev.get("mget(val0.Map, disp(val1))")
    if M is None:
        return [("the map has the key", [])]
    return [("the map has the key", [(M, frozenset([1]))])]


def w_rest(want):
    def g(E, O, f):
        # the last chunk is dropped although it has elements / added although it has none
        x = None
        for q, t in O.C.rev.items():
            if t.op in ("phi", "gvec") and q == "fold(vec(); push(acc0, val1.List[k0]) | vec())":
                x = t
        for c, _ in O.conds:
            for t in subterms(c):
                if t.op in ("phi", "gvec") and O.C(t) == "fold(vec(); push(acc0, val1.List[k0]) | vec())":
                    x = t
        if x is None:
            return []
        s = O.st.copy()
        c = E.cmp(s, "Eq", "usize", E.length(s, x), INT(0, "usize"))
        return [("the last, incomplete chunk %s" % ("has elements" if not want else "is empty"), [(c, want)])]
    return g


def w_nofloat(E, O, f):
    """an integer result only when no float was added"""
    for c, v in O.conds:
        if c.op == "fcmp" and c.a[0] == "Eq" and isinstance(v, bool):
            if v:
                return []
    return [("a float operand was given", [])]


WHEN = {("list@head", "Ok(None)"): w_empty,
        ("list@nth", "Ok(val1.List[cast(usize, val0.Integer, i64)])"): w_sign(False),
        ("list@nth", "Ok(val1.List[Sub(len(val1.List), cast(usize, un(UAbs, i64, val0.Integer), u64))])"): w_sign(True),
        ("dict@remove", "Ok(Map(val0.Map))"): w_absent,
        ("list@chunk", "Ok(List(some(vec();  | List(push(fold(vec(); push(acc0, val1.List[k0]) | vec()), val1.List[k0])))))"): w_rest(False),
        ("list@chunk", "Ok(List(push(some(vec();  | List(push(fold(vec(); push(acc0, val1.List[k0]) | vec()), val1.List[k0]))), List(fold(vec(); push(acc0, val1.List[k0]) | vec())))))"): w_rest(True),
        }


def after(E, O, sp, form, rep, uid, left=True):
    """obligations of a path whose result has the contract's form"""
    for c, _ in O.conds:
        O.C(c)
    w = WHEN.get((sp.path, form))
    if w is not None:
        for d, asm in w(E, O, form):
            rep.count("conditional_results")
            s = O.st.copy()
            ok = True
            for t, v in asm:
                if not (E.setvar(s, t, frozenset(v)) if not isinstance(v, bool) else E.assume(s, t, v)):
                    ok = False
                    break
            if ok:
                rep.violation("%s:when:%s" % (sp.path, d[:40]), "%s returns %s although %s" % (sp.path, form[:120], d),
                              {"function": uid, "path": [("" if v is True else "!") + q for q, v, _ in O.extra()][:8]})
    for lp in early(O) if left else ():
        rep.violation("%s:early" % sp.path, "%s stops before the end of the sequence" % sp.path, {"function": uid, "loop": lp.name, "path": [("" if v is True else "!") + q for q, v, _ in O.extra()][:8]})
    f = STEPS.get(sp.path)
    if f is not None:
        f(E, O, Say(rep, sp, uid))
