"""Canonical rendering of results: evaluation results of arguments become `val(i)`,
call-site tags and iteration indices are renumbered, so that the rendering depends on what is
computed and not on where."""
from terms import *
from engine import callee_name

VKIND = {}


def vname(adt, v):
    n = VARNAME(adt, v)
    return n if n is not None else "%s#%s" % (adt.split("::")[-1], v)


OPAQUE = {"phi", "uninit", "bad", "proj", "mut", "havoc"}


def is_eval(x):
    return x.op == "call" and x.a[0] in ("Expression::eval", "Expression::eval_mut")


def ev_arg(x):
    """index i when x is the evaluation of args[i] in the caller's environment"""
    if not is_eval(x) or len(x.a) < 3:
        return None
    a = x.a[1]
    if a.op == "elem" and a.a[0].op == "sym" and a.a[0].a[0] == "args" and a.a[1].op == "int" and x.a[2].op == "sym" and x.a[2].a[0] == "env":
        return a.a[1].a[0]
    return None


def tables(evs, phis, gv, filts):
    for e in evs:
        x = e.x
        if not x:
            continue
        if e.kind in ("loop", "acc"):
            f = any(q.kind == "filt" for it in x.get("iters", ()) for q in it[0])
            for n, (entry, nexts) in x.get("phis", {}).items():
                if f:
                    filts.add(n)
                o = phis.get(n)
                phis[n] = (entry, nexts) if o is None else (o[0] if o[0] is not None else entry, o[1] + [q for q in nexts if q[0] not in [z[0] for z in o[1]]])
            for g, q in x.get("gvecs", {}).items():
                o = gv.get(g)
                gv[g] = q if o is None else (o[0], o[1] + q[1], o[2] + q[2], o[3] or q[3])
            for it in x.get("iters", ()):
                tables(it[0], phis, gv, filts)
        for p in x.get("paths", ()):
            tables(p[0], phis, gv, filts)


def pushed(v, w):
    """items one iteration adds to the accumulated sequence v, or None"""
    items = []
    n = 0
    while w is not v and n < 60:
        n += 1
        if w.op == "push":
            items.append(w.a[1])
            w = w.a[0]
        elif w.op == "mapins":
            items.append(mk("tuple", w.a[1], w.a[2]))
            w = w.a[0]
        elif w.op == "concat" and w.a[0] is v:
            items += list(reversed(w.a[1:]))
            w = v
        elif w.op == "concat" and v.op == "concat" and w.a[:len(v.a)] == v.a:
            items += list(reversed(w.a[len(v.a):]))
            w = v
        elif w.op == "concat" and v.op == "gvec" and v.a[0].op == "str" and v.a[0].a[0] == "" and w.a[0] is not v:
            return None
        elif w.op == "gvec" and w.a[0] is v:
            return None
        elif w.op == "vec" and not w.a and v.op == "gvec" and w is v.a[0]:
            w = v
        else:
            return None
    return items[::-1] if w is v else None


def one(x):
    return x.op == "int" and x.a[0] == 1


class Canon(object):
    def __init__(self, events=()):
        self.idx = {}
        self.memo = {}
        self.rev = {}
        self.opaque = False
        self.phis, self.gv = {}, {}
        self.filts = set()
        tables(events, self.phis, self.gv, self.filts)
        self.busy = {}
        self.loopy = False

    def fold(self, t, d):
        entry, nexts = self.phis[t.a[0]]
        if entry is None:
            self.opaque = True
            return "phi"
        steps = []
        for n, _ in nexts:
            if n not in steps:
                steps.append(n)
        moving = [n for n in steps if n is not t]
        if entry.op == "int" and moving and all(n.op == "bin" and n.a[0] == "Add" and ((n.a[2] is t and one(n.a[3])) or (n.a[3] is t and one(n.a[2]))) for n in moving):
            self.loopy = True
            return "%sk%d" % ("" if entry.a[0] == 0 else "%d+" % entry.a[0], self.num(t))
        me = "acc%d" % len(self.busy)
        self.busy[t.id] = me
        init = self.s(entry, d + 1)
        filt = t.a[0] in self.filts
        out = sorted(set([self.s(n, d + 1) for n in steps] + [me] * filt))
        del self.busy[t.id]
        # renderings made under the binding are not reusable outside of it
        self.memo = {k: v for k, v in self.memo.items() if me not in v}
        self.loopy = True
        if entry.op in ("vec", "map", "str", "concat", "gvec") or entry.op == "field":
            ps = [pushed(t, n) for n, _ in nexts]
            if all(p is not None for p in ps) and any(ps):
                self.busy[t.id] = me
                alts = sorted(set([", ".join(self.s(x, d + 1) for x in p) for p in ps] + [""] * filt))
                del self.busy[t.id]
                self.memo = {k: v for k, v in self.memo.items() if me not in v}
                if not any(me in x for x in alts):
                    return "%s(%s; %s)" % ("each" if all(len(p) == 1 for p in ps) and not filt else "some", init, " | ".join(alts))
        return "fold(%s; %s)" % (init, " | ".join(out))

    def acc(self, t, d):
        base, items = t.a[0], t.a[1]
        info = self.gv.get(t.id)
        s = lambda x: self.s(x, d + 1)
        self.loopy = True
        if info is None:
            # built by a closure pipeline or an inner loop whose record is not in this path
            self.opaque = self.opaque or len(items) > 1
            return "each?(%s; %s)" % (s(base), " | ".join(s(x) for x in items))
        entry, nexts, conds, filt = info
        ps = [pushed(t, n) if n.op != "push" or n.a[0].op != "vec" else [n.a[1]] for n in nexts]
        if any(p is None for p in ps):
            self.opaque = True
            return "accum(%s; %s)" % (s(base), " | ".join(s(x) for x in items))
        alts = sorted(set(", ".join(s(x) for x in p) for p in ps))
        total = not filt and all(len(p) == 1 for p in ps)
        if total and len(alts) == 1:
            x = ps[0][0]
            b = base.op == "vec" and not base.a
            if b and x.op == "elem" and self.plain(x.a[1], x.a[0]):
                return s(x.a[0])
            if b and x.op == "elem" and x.a[1].op == "k" and x.a[1].a[2] == "r":
                return "rev(%s)" % s(x.a[0])
            if base.op == "map" and not base.a[0] and x.op == "tuple" and x.a[0].op == "mkey" and x.a[1].op == "mval" \
                    and x.a[0].a[0] is x.a[1].a[0] and x.a[0].a[1] is x.a[1].a[1] and x.a[0].a[1].op == "k" and not x.a[0].a[1].a[2]:
                return s(x.a[0].a[0])
        if filt:
            alts = sorted(set(alts + [""]))
        return "%s(%s; %s)" % ("each" if total else "some", s(base), " | ".join(alts))

    def plain(self, k, src):
        if k.op == "k":
            return not k.a[2]
        if k.op == "rk":
            return k.a[0].op == "int" and k.a[0].a[0] == 0 and k.a[1].op == "len" and k.a[1].a[0] is src and not k.a[2].a[2]
        return False

    def num(self, t):
        if t.id not in self.idx:
            self.idx[t.id] = len(self.idx)
        return self.idx[t.id]

    def __call__(self, t):
        return self.s(t)

    def s(self, t, d=0):
        if isinstance(t, tuple):
            return "(" + ", ".join(self.s(x, d + 1) for x in t) + ")"
        if not isinstance(t, T):
            return str(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.s0(t, d)
            self.rev.setdefault(r, t)
        return r

    def s0(self, t, d):
        if d > 60:
            self.opaque = True
            return "…"
        o, a = t.op, t.a
        s = lambda x: self.s(x, d + 1)
        if o == "phi":
            if t.id in self.busy:
                return self.busy[t.id]
            if t.a[0] in self.phis and d < 40:
                return self.fold(t, d)
        if o == "gvec":
            return self.acc(t, d)
        if o == "acc":
            return self.busy.get(("acc",), "acc0")
        if o == "fold":
            self.loopy = True
            return "fold(%s; %s)" % (s(a[0]), " | ".join(sorted(set(s(x) for x in a[1]))))
        if o in OPAQUE:
            self.opaque = True
        if o == "int":
            return ("true" if a[0] else "false") if a[1] == "bool" else str(a[0])
        if o == "str":
            return repr(a[0])
        if o == "float":
            import struct
            try:
                return repr(struct.unpack("<d", struct.pack("<Q", a[0]))[0])
            except Exception:
                return "float(%s)" % a[0]
        if o == "adt":
            n = a[0].split("::")[-1]
            if n == "Result":
                n = ["Ok", "Err"][a[1]]
            elif n == "Option":
                n = ["None?", "Some"][a[1]]
            else:
                n = vname(a[0], a[1])
            return n + ("(" + ", ".join(s(x) for x in a[2:]) + ")" if len(a) > 2 else "")
        if o == "tuple":
            return "(" + ", ".join(s(x) for x in a) + ")"
        if o == "sym":
            return a[0]
        if o == "field":
            b, var, i = a
            if is_eval(b) and var in (0, 1) and i == 0:
                k = ev_arg(b)
                if k is not None:
                    return ("val%d" if var == 0 else "err%d") % k
                return ("val(" if var == 0 else "err(") + s(b.a[1]) + (", " + s(b.a[2]) if not (b.a[2].op == "sym" and b.a[2].a[0] == "env") else "") + ")"
            ty = tyname(b)
            if var is not None and ty:
                return "%s.%s%s" % (s(b), vname(ty, var), "" if i == 0 else ".%d" % i)
            return "%s.%s%s" % (s(b), "" if var is None else "@%s." % var, i)
        if o == "elem":
            if a[1].op == "rk" and self.plain(a[1], a[0]):
                return "%s[k%d]" % (s(a[0]), self.num(a[1]))
            return "%s[%s]" % (s(a[0]), s(a[1]))
        if o == "k":
            return "k%d%s" % (self.num(t), a[2] and "~" + a[2])
        if o == "rk":
            return "rk(%s, %s, %s)" % (s(a[0]), s(a[1]), s(a[2]))
        if o == "call" and is_eval(t):
            k = ev_arg(t)
            return "eval%d" % k if k is not None else "eval(%s)" % ", ".join(s(x) for x in a[1:] if not at(x))
        if o == "call":
            args = [x for x in a[1:] if not at(x)]
            n = a[0]
            if n.startswith("From::from:dune::expr::Expression") and len(args) == 1:
                n = "into"
            return "%s(%s)" % (n, ", ".join(s(x) for x in args))
        if o == "closure":
            return "closure(%s)" % ", ".join([a[0]] + [s(x) for x in a[1:]])
        if o in ("bin", "wrap", "ovf", "cmp"):
            n = "%s%s" % ("" if o in ("bin", "cmp") else o + ":", a[0])
            x, y = s(a[2]), s(a[3])
            if a[0] in ("Add", "Mul", "Eq", "BitAnd", "BitOr", "BitXor") and y < x and "f64" not in str(a[1]):
                x, y = y, x
            return "%s(%s, %s)" % (n, x, y)
        if o == "fn":
            fc = a[0]
            c = getattr(fc, "c", None)
            return "fn(%s)" % (callee_name(c) if c else "?")
        return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def at(x):
    return isinstance(x, T) and x.op == "at"


def tyname(b):
    t = b.ty
    if t is None or t < 0 or PROG is None:
        # payload of an evaluation is an Expression
        if b.op == "field" and is_eval(b.a[0]) and b.a[1] == 0:
            return EXPR
        return None
    d = PROG.types[t]
    n = 0
    while d["k"] in ("ref", "ptr") and n < 4:
        d = PROG.types[d["t"]]
        n += 1
    if d["k"] == "adt" and d["n"] == "alloc::boxed::Box":
        d = PROG.types[d["a"][0]]
    return d["n"] if d["k"] == "adt" else None


PROG = None


def canon(t, events=()):
    c = Canon(events)
    return c(t), c.opaque
