"""Path-sensitive dataflow over MIR with a value-numbering domain.

Nothing is executed and no solver is used: every body is traversed over its
control-flow graph, states are partitioned by the branch taken, loops are
over-approximated by generalising everything the loop body can change, local
helper functions are analysed in the calling context, and numeric conditions are
decided by interval and linear-difference bookkeeping.
"""
import re, sys
from terms import *

sys.setrecursionlimit(20000)
INF = float("inf")
RANGES = {}
for _b in (8, 16, 32, 64, 128):
    RANGES["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    RANGES["u%d" % _b] = (0, (1 << _b) - 1)
RANGES["usize"] = RANGES["u64"]
RANGES["isize"] = RANGES["i64"]
RANGES["bool"] = (0, 1)
RANGES["char"] = (0, 0x10FFFF)
LENMAX = (1 << 63) - 1


class Budget(Exception):
    pass


class Ev(object):
    __slots__ = ("kind", "name", "args", "res", "site", "x")

    def __init__(self, kind, name, args, res, site, **x):
        self.kind, self.name, self.args, self.res, self.site, self.x = kind, name, args, res, site, x

    def key(self):
        return (self.kind, self.name, self.args, self.res)

    def __repr__(self):
        return "<%s %s(%s)%s>" % (self.kind, self.name, ", ".join(show(a, 5) for a in self.args or ()),
                                  "" if self.res is None else " = " + show(self.res, 3))


class State(object):
    __slots__ = ("mem", "vf", "bf", "iv", "lin", "ev", "pc", "cnt", "held", "ends")

    def __init__(self):
        self.mem = {}
        self.vf = {}
        self.bf = {}
        self.iv = {}
        self.lin = ()
        self.ev = None
        self.pc = None
        self.cnt = {}
        self.held = ()
        self.ends = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.vf = dict(self.vf)
        s.bf = dict(self.bf)
        s.iv = dict(self.iv)
        s.lin = self.lin
        s.ev = self.ev
        s.pc = self.pc
        s.cnt = dict(self.cnt)
        s.held = self.held
        s.ends = self.ends
        return s

    def event(self, e):
        self.ev = (self.ev, e)

    def events(self, since=None):
        out = []
        n = self.ev
        while n is not None and n is not since:
            out.append(n[1])
            n = n[0]
        out.reverse()
        return out

    def conds(self, since=None):
        out = []
        n = self.pc
        while n is not None and n is not since:
            out.append(n[1])
            n = n[0]
        out.reverse()
        return out


class Outcome(object):
    __slots__ = ("kind", "st", "ret")

    def __init__(self, kind, st, ret):
        self.kind, self.st, self.ret = kind, st, ret


class Frame(object):
    __slots__ = ("uid", "body", "key", "loops", "chain", "fid")


class Call(object):
    __slots__ = ("args", "callee", "site", "fr", "dest", "argtys", "name", "span")


# ---------------------------------------------------------------- naming
def norm_path(p):
    """core::option::Option::<T>::unwrap -> Option::unwrap ; impls cleaned."""
    p = re.sub(r"<impl ([^<>]*?)>", lambda m: "\x01" + m.group(1).strip("[]& ").replace("::", "\x02"), p)
    depth = 0
    out = []
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    parts = [x for x in "".join(out).split("::") if x]
    parts = [x.replace("\x02", "::") for x in parts]
    for i, x in enumerate(parts):
        if x.startswith("\x01"):
            y = x[1:].split("::")[-1]
            parts[i] = "slice" if y == "T" else y
    return "::".join(parts[-2:])


_names = {}


def callee_name(c):
    n = _names.get(id(c))
    if n is None:
        if "tr" in c:
            n = c["tr"].split("::")[-1] + "." + c["m"]
        else:
            n = norm_path(c["p"])
        _names[id(c)] = n
    return n


class Engine(object):
    # methods never inlined: they are the vocabulary of the properties
    PRIM_IMPL_TYPES = {"dune::env::Environment"}
    MAXSTEPS = 400000

    def __init__(self, prog, prims=()):
        self.p = prog
        ADTS.clear()
        ADTS.update(prog.adts)
        self.prims = set(prims)
        self.keys = {}
        self.loopcache = {}
        self.steps = 0
        self.nextmode = False
        self.stack = []
        self.constcache = {}
        import models
        self.models = models.MODELS
        self.traitmodels = models
        self.froms = {}
        self.genfrom = {}       # (type, container) -> (generic From impl, variant that wraps the elements unchanged)
        for u, b in prog.bodies.items():
            if b.get("tr") == "core::convert::From" and b.get("m") == "from":
                self.froms[(prog.tystr(b["im"]), prog.tystr(b["tra"][1]))] = u
        self.unknown = {}
        self.maxdepth = 14
        self.extra_prims = {}
        self.hyp = None
        self.call_hook = None
        self.cut = set()
        self.inlined = set()

    # ------------------------------------------------------------ frames
    def key(self, parent, site):
        k = (parent, site)
        v = self.keys.get(k)
        if v is None:
            v = self.keys[k] = len(self.keys) + 1
        return v

    def loops(self, uid):
        r = self.loopcache.get(uid)
        if r is None:
            r = self.loopcache[uid] = find_loops(self.p.bodies[uid])
        return r

    # ------------------------------------------------------------- types
    def pty(self, body, place):
        """type index of a place"""
        t = body["locals"][place[0]][0]
        for e in place[1]:
            t = self.pstep(t, e)
        return t

    def pstep(self, t, e):
        if t < 0:
            return e[2] if e[0] == "." else -1
        d = self.p.types[t]
        k = e[0]
        if k == ".":
            return e[2]
        if k == "*":
            if d["k"] in ("ref", "ptr"):
                return d["t"]
            if d["k"] == "adt" and d["n"] == "alloc::boxed::Box":
                return d["a"][0]
            return -1
        if k in ("[]", "[c]"):
            return d.get("t", -1)
        return t

    def isbox(self, t):
        if t < 0:
            return False
        d = self.p.types[t]
        return d["k"] == "adt" and d["n"] == "alloc::boxed::Box"

    # ------------------------------------------------------------ memory
    def get(self, st, v, step):
        o = v.op
        if step[0] == "f":
            var, i = step[1], step[2]
            if o == "adt":
                if var is None or v.a[1] == var:
                    if 2 + i < len(v.a):
                        return v.a[2 + i]
                return mk("bad")
            if o in ("tuple", "closure"):
                off = 1 if o == "closure" else 0
                if i + off < len(v.a):
                    return v.a[i + off]
                return mk("bad")
            if o == "upd":
                b, s, nv = v.a
                if s == step:
                    return nv
                if s[0] == "f" and (s[1] == var or s[1] is None or var is None) and s[2] != i:
                    return self.get(st, b, step)
                if s[0] == "f" and s[2] == i:
                    return nv
            return mk("field", v, var, i)
        if step[0] == "i":
            idx = step[1]
            if o == "vec" or o == "array":
                c = self.constint(st, idx)
                if c is not None and 0 <= c < len(v.a):
                    return v.a[c]
            if o == "upd":
                b, s, nv = v.a
                if s == step:
                    return nv
                if s[0] == "i":
                    c1, c2 = self.constint(st, idx), self.constint(st, s[1])
                    if c1 is not None and c2 is not None and c1 != c2:
                        return self.get(st, b, step)
            if o == "slice":
                lo = v.a[1]
                return self.get(st, v.a[0], ("i", self.add(st, lo, idx)))
            return mk("elem", v, idx)
        if step[0] == "c":
            off, fe = step[1], step[2]
            if fe:
                n = self.length(st, v)
                return self.get(st, v, ("i", self.sub(st, n, INT(off, "usize"))))
            return self.get(st, v, ("i", INT(off, "usize")))
        if step[0] == "s":
            lo, hi, fe = step[1], step[2], step[3]
            n = self.length(st, v)
            h = self.sub(st, n, INT(hi, "usize")) if fe else INT(hi, "usize")
            return self.mkslice(st, v, INT(lo, "usize"), h)
        return mk("proj", v, str(step))

    def mkslice(self, st, v, lo, hi):
        if v.op in ("vec", "array"):
            a, b = self.constint(st, lo), self.constint(st, hi)
            if a is not None and b is not None and 0 <= a <= b <= len(v.a):
                return mk("vec", *v.a[a:b])
        if v.op == "slice":
            return mk("slice", v.a[0], self.add(st, v.a[1], lo), self.add(st, v.a[1], hi))
        if self.constint(st, lo) == 0 and hi is self.length(st, v):
            return v
        return mk("slice", v, lo, hi)

    def set(self, st, v, path, new):
        if not path:
            return new
        s = path[0]
        o = v.op
        if s[0] == "c" and not s[2]:
            s = ("i", INT(s[1], "usize"))
        sub = self.set(st, self.get(st, v, s), path[1:], new) if len(path) > 1 else new
        if s[0] == "f":
            if o == "adt" and (s[1] is None or s[1] == v.a[1]) and 2 + s[2] < len(v.a):
                l = list(v.a)
                l[2 + s[2]] = sub
                return mk("adt", *l)
            if o in ("tuple", "closure"):
                off = 1 if o == "closure" else 0
                if s[2] + off < len(v.a):
                    l = list(v.a)
                    l[s[2] + off] = sub
                    return mk(o, *l)
            if o == "upd" and v.a[1] == s:
                return mk("upd", v.a[0], s, sub)
        if s[0] == "i" and o in ("vec", "array"):
            c = self.constint(st, s[1])
            if c is not None and 0 <= c < len(v.a):
                l = list(v.a)
                l[c] = sub
                return mk(o, *l)
        return mk("upd", v, s, sub)

    def init_of(self, root):
        if root[0] == "D":
            return root[1]
        if root[0] == "S":
            return mk("static", root[1])
        return mk("uninit", root)

    def rroot(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.init_of(root)
        return v

    def rplace(self, st, root, path):
        v = self.rroot(st, root)
        for s in path:
            v = self.get(st, v, s)
        return v

    def wplace(self, st, root, path, new):
        if not path:
            st.mem[root] = new
        else:
            st.mem[root] = self.set(st, self.rroot(st, root), path, new)

    def locate(self, st, fr, place):
        """-> (root, path)"""
        root = ("L", fr.key, place[0])
        path = []
        t = fr.body["locals"][place[0]][0]
        var = None
        for e in place[1]:
            k = e[0]
            if k == "*":
                if self.isbox(t):
                    pass
                else:
                    v = self.rplace(st, root, path)
                    if v.op == "ref":
                        root, path = v.a[0], list(v.a[1])
                    else:
                        root, path = ("D", v), []
            elif k == ".":
                path.append(("f", var, e[1]))
                var = None
            elif k == "v":
                var = e[1]
                t2 = t
                t = t2
                continue
            elif k == "[]":
                idx = self.rroot(st, ("L", fr.key, e[1]))
                path.append(("i", idx))
            elif k == "[c]":
                path.append(("c", e[1], e[2]))
            elif k == "[..]":
                path.append(("s", e[1], e[2], e[3]))
            else:
                path.append(("?", str(e)))
            t = self.pstep(t, e)
        return root, path, t

    def read(self, st, fr, place):
        root, path, t = self.locate(st, fr, place)
        v = self.rplace(st, root, path)
        if v.ty is None and t >= 0:
            v.ty = t
        return v

    def write(self, st, fr, place, val):
        root, path, t = self.locate(st, fr, place)
        if val.ty is None and t >= 0:
            val.ty = t
        self.wplace(st, root, path, val)

    def mkref(self, st, root, path):
        if root[0] == "D" and not path and st.mem.get(root, root[1]) is root[1]:
            return root[1]
        return mk("ref", root, tuple(path))

    def load(self, st, r):
        """contents behind a reference-valued term"""
        n = 0
        while r.op == "ref" and n < 8:
            r = self.rplace(st, r.a[0], r.a[1])
            n += 1
        if r.op != "ref" and ("D", r) in st.mem:
            return st.mem[("D", r)]
        return r

    def load1(self, st, r):
        if r.op == "ref":
            return self.rplace(st, r.a[0], r.a[1])
        if ("D", r) in st.mem:
            return st.mem[("D", r)]
        return r

    def snap(self, st, t, d=12):
        if not isinstance(t, T):
            return t
        if d <= 0:
            return t
        if t.op == "ref":
            return self.snap(st, self.rplace(st, t.a[0], t.a[1]), d - 1)
        if ("D", t) in st.mem and st.mem[("D", t)] is not t:
            return self.snap(st, st.mem[("D", t)], d - 1)
        if t.op == "mutmap":
            w = st.mem.get(("D", t.a[2]))
            if w is None or w is t.a[2]:
                return self.snap(st, t.a[0], d - 1)
            return mk("mapins", self.snap(st, t.a[0], d - 1), t.a[1], self.snap(st, w, d - 1))
        if t.op == "upd" and isinstance(t.a[2], T):
            w = self.snap(st, t.a[2], d - 1)
            return t if w is t.a[2] else mkt(t.ty, "upd", t.a[0], t.a[1], w)
        if t.op in ("adt", "tuple", "vec", "array", "closure", "fmt", "disp", "push", "gvec", "concat", "map", "gmap"):
            n = []
            ch = False
            for x in t.a:
                y = self.snap(st, x, d - 1) if isinstance(x, T) else (
                    tuple(self.snap(st, z, d - 1) for z in x) if isinstance(x, tuple) else x)
                ch = ch or y is not x and y != x
                n.append(y)
            if ch:
                r = mk(t.op, *n)
                if r.ty is None:
                    r.ty = t.ty
                return r
        return t

    def store(self, st, ref, val):
        """write through a reference-valued term"""
        if ref.op == "ref":
            self.wplace(st, ref.a[0], ref.a[1], val)
        else:
            st.mem[("D", ref)] = val

    # ----------------------------------------------------------- numbers
    def constint(self, st, t):
        if t.op == "int":
            return t.a[0]
        c, k = self.lf(st, t)
        if not c:
            return k
        if len(c) == 1:
            (b, q), = c.items()
            lo, hi = self.bounds(st, b)
            if lo == hi and lo not in (INF, -INF):
                return q * lo + k
        return None

    def lf(self, st, t, d=0):
        o = t.op
        if o == "int":
            return {}, t.a[0]
        if d > 20:
            return {t: 1}, 0
        if o == "bin":
            op = t.a[0]
            if op in ("Add", "Sub"):
                c1, k1 = self.lf(st, t.a[2], d + 1)
                c2, k2 = self.lf(st, t.a[3], d + 1)
                s = 1 if op == "Add" else -1
                r = dict(c1)
                for b, q in c2.items():
                    q = r.get(b, 0) + s * q
                    if q:
                        r[b] = q
                    else:
                        r.pop(b, None)
                return r, k1 + s * k2
            if op == "Mul":
                for x, y in ((t.a[2], t.a[3]), (t.a[3], t.a[2])):
                    if x.op == "int":
                        c, k = self.lf(st, y, d + 1)
                        m = x.a[0]
                        if m == 0:
                            return {}, 0
                        return {b: q * m for b, q in c.items()}, k * m
        if o == "un" and t.a[0] == "Neg":
            c, k = self.lf(st, t.a[2], d + 1)
            return {b: -q for b, q in c.items()}, -k
        if o == "cast":
            lo, hi = self.bounds(st, t.a[1], d + 1)
            r = RANGES.get(t.a[0])
            if r and lo >= r[0] and hi <= r[1]:
                return self.lf(st, t.a[1], d + 1)
        if o == "len" and t.a[0].op in ("push", "slice", "vec", "array", "str"):
            n = self.length(st, t.a[0])
            if n is not t:
                return self.lf(st, n, d + 1)
        return {t: 1}, 0

    def tyrange(self, t):
        if t.op in ("bin", "wrap"):
            return RANGES.get(t.a[1])
        if t.op == "cast":
            return RANGES.get(t.a[0])
        if t.ty is not None and t.ty >= 0:
            d = self.p.types[t.ty]
            n = 0
            while d["k"] == "ref" and n < 4:
                d = self.p.types[d["t"]]
                n += 1
            if d["k"] == "int":
                return RANGES.get(d["n"])
            if d["k"] in ("bool", "char"):
                return RANGES[d["k"]]
        return None

    def bounds(self, st, t, d=0):
        o = t.op
        if o == "int":
            return t.a[0], t.a[0]
        lo, hi = -INF, INF
        if o in ("len", "k", "charcount", "size"):
            lo, hi = 0, LENMAX
        else:
            r = self.tyrange(t)
            if r:
                lo, hi = r
            if d < 8:
                if o == "cast":
                    a, b = self.bounds(st, t.a[1], d + 1)
                    if a >= lo and b <= hi:
                        lo, hi = a, b
                elif o == "bin":
                    op = t.a[0]
                    a1, b1 = self.bounds(st, t.a[2], d + 1)
                    a2, b2 = self.bounds(st, t.a[3], d + 1)
                    if op == "Rem" and a2 == b2 and a2 > 0 and a2 != INF:
                        lo, hi = max(lo, 0 if a1 >= 0 else -(a2 - 1)), min(hi, a2 - 1)
                    elif op == "Div" and a2 > 0 and a1 >= 0:
                        lo, hi = max(lo, 0), min(hi, b1)
                    elif op in ("Add", "Sub", "Mul") and d < 5:
                        c, k = self.lf(st, t)
                        if t not in c:
                            l2 = k + sum(q * self.bounds(st, b, d + 1)[0 if q > 0 else 1] for b, q in c.items())
                            h2 = k + sum(q * self.bounds(st, b, d + 1)[1 if q > 0 else 0] for b, q in c.items())
                            lo, hi = max(lo, l2), min(hi, h2)
                    elif op == "BitAnd":
                        for a, b in ((a1, b1), (a2, b2)):
                            if a >= 0:
                                lo, hi = max(lo, 0), min(hi, b)
                elif o == "min":
                    a1, b1 = self.bounds(st, t.a[0], d + 1)
                    a2, b2 = self.bounds(st, t.a[1], d + 1)
                    lo, hi = max(lo, min(a1, a2)), min(hi, b1, b2)
                elif o == "max":
                    a1, b1 = self.bounds(st, t.a[0], d + 1)
                    a2, b2 = self.bounds(st, t.a[1], d + 1)
                    lo, hi = max(lo, a1, a2), min(hi, max(b1, b2))
        v = st.iv.get(t)
        if v:
            lo, hi = max(lo, v[0]), min(hi, v[1])
        return lo, hi

    def ub(self, st, c, k):
        s = k
        for b, q in c.items():
            lo, hi = self.bounds(st, b)
            s += q * (hi if q > 0 else lo)
        return s

    @staticmethod
    def comb(c, k, c2, k2, s):
        r = dict(c)
        for b, q in c2.items():
            q = r.get(b, 0) + s * q
            if q:
                r[b] = q
            else:
                r.pop(b, None)
        return r, k + s * k2

    def le0(self, st, c, k):
        """is sum(c)+k <= 0 entailed?"""
        if self.ub(st, c, k) <= 0:
            return True
        if not c:
            return False
        cand = [f for f in st.lin if any(b in c and (c[b] > 0) == (q > 0) for b, q in f[0].items())]
        for f in cand:
            c1, k1 = self.comb(c, k, f[0], f[1], -1)
            if self.ub(st, c1, k1) <= 0:
                return True
            for g in st.lin:
                if g is f or not any(b in c1 and (c1[b] > 0) == (q > 0) for b, q in g[0].items()):
                    continue
                c2, k2 = self.comb(c1, k1, g[0], g[1], -1)
                if self.ub(st, c2, k2) <= 0:
                    return True
                if len(st.lin) < 12:
                    for h in st.lin:
                        if h is f or h is g or not any(b in c2 and (c2[b] > 0) == (q > 0) for b, q in h[0].items()):
                            continue
                        c3, k3 = self.comb(c2, k2, h[0], h[1], -1)
                        if self.ub(st, c3, k3) <= 0:
                            return True
        return False

    def add_le0(self, st, c, k):
        if not c:
            return k <= 0
        if len(c) == 1:
            (b, q), = c.items()
            lo, hi = self.bounds(st, b)
            if q > 0:  # q*b <= -k
                hi = min(hi, (-k) // q)
            else:
                # b >= k/(-q)   ceil
                m = -q
                lo = max(lo, -((-k) // m))
            st.iv[b] = (lo, hi)
            if lo > hi:
                return False
            return True
        if self.le0(st, {b: -q for b, q in c.items()}, 1 - k):
            return False
        st.lin = st.lin + ((c, k),)
        return True

    def diff(self, st, a, b):
        c1, k1 = self.lf(st, a)
        c2, k2 = self.lf(st, b)
        return self.comb(c1, k1, c2, k2, -1)

    def is_le(self, st, a, b, off=0):
        """a + off <= b entailed"""
        c, k = self.diff(st, a, b)
        return self.le0(st, c, k + off)

    def add(self, st, a, b, ty="usize"):
        if a.op == "int" and b.op == "int":
            return INT(a.a[0] + b.a[0], ty)
        if b.op == "int" and b.a[0] == 0:
            return a
        if a.op == "int" and a.a[0] == 0:
            return b
        return mk("bin", "Add", ty, a, b)

    def sub(self, st, a, b, ty="usize"):
        if a.op == "int" and b.op == "int":
            return INT(a.a[0] - b.a[0], ty)
        if b.op == "int" and b.a[0] == 0:
            return a
        return mk("bin", "Sub", ty, a, b)

    def length(self, st, v):
        o = v.op
        if o in ("vec", "array"):
            return INT(len(v.a), "usize")
        if o == "str":
            return INT(len(v.a[0].encode("utf-8", "surrogatepass")), "usize")
        if o == "bytes":
            return INT(len(v.a[0]) // 2, "usize")
        if o == "push":
            return self.add(st, self.length(st, v.a[0]), INT(1, "usize"))
        if o == "slice":
            return self.sub(st, v.a[2], v.a[1])
        if o == "upd" and v.a[1][0] in ("i", "c"):
            return self.length(st, v.a[0])
        if o == "repeat":
            return v.a[1]
        if o in ("rev", "sorted"):
            return self.length(st, v.a[0])
        return mk("len", v)

    # ------------------------------------------------------------- truth
    def tnot(self, t):
        if t is TRUE:
            return FALSE
        if t is FALSE:
            return TRUE
        if t.op == "not":
            return t.a[0]
        return mk("not", t)

    def cmp(self, st, op, ty, a, b):
        """boolean term for a comparison"""
        if ty in RANGES:
            if a.op == "int" and b.op == "int":
                x, y = a.a[0], b.a[0]
                return BOOL({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            if ty == "bool" and op in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    if y.op == "int":
                        r = x if bool(y.a[0]) == (op == "Eq") else self.tnot(x)
                        return r
            if op == "Eq" or op == "Ne":
                if a is b:
                    return BOOL(op == "Eq")
                if a.id > b.id:
                    a, b = b, a
                r = mk("cmp", "Eq", ty, a, b)
                return r if op == "Eq" else self.tnot(r)
            if a is b:
                return BOOL(op in ("Le", "Ge"))
            if op == "Lt":
                return mk("cmp", "Lt", ty, a, b)
            if op == "Gt":
                return mk("cmp", "Lt", ty, b, a)
            if op == "Ge":
                return self.tnot(mk("cmp", "Lt", ty, a, b))
            return self.tnot(mk("cmp", "Lt", ty, b, a))
        if op == "Ne":
            return self.tnot(self.cmp(st, "Eq", ty, a, b))
        if op == "Gt":
            return mk("fcmp", "Lt", ty, b, a)
        if op == "Ge":
            return mk("fcmp", "Le", ty, b, a)
        if op == "Eq" and a.id > b.id:
            a, b = b, a
        return mk("fcmp", op, ty, a, b)

    def truth(self, st, t):
        if t.op == "int":
            return bool(t.a[0])
        if t.op == "not":
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        r = st.bf.get(t)
        if r is not None:
            return r
        if t.op == "cmp":
            op, ty, a, b = t.a
            if op == "Lt":
                if self.is_le(st, a, b, 1):
                    return True
                if self.is_le(st, b, a):
                    return False
            else:
                le, ge = self.is_le(st, a, b), self.is_le(st, b, a)
                if le and ge:
                    return True
                if self.is_le(st, a, b, 1) or self.is_le(st, b, a, 1):
                    return False
        if t.op == "and":
            x, y = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
        if t.op == "or":
            x, y = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
        if t.op == "ovf":
            return self.ovf_truth(st, t)
        if t.op == "isvar":
            vs = self.varset(st, t.a[0])
            if vs is not None:
                if vs == frozenset([t.a[1]]):
                    return True
                if t.a[1] not in vs:
                    return False
        if t.op == "fcmp" and t.a[0] == "Eq" and t.a[2] is t.a[3] and t.a[2].op == "str":
            return True
        if t.op == "eq":
            return self.eq_truth(st, t.a[0], t.a[1])
        return None

    def eq_truth(self, st, a, b):
        if a is b:
            return True
        if a.op == "str" and b.op == "str":
            return a.a[0] == b.a[0]
        if a.op == "int" and b.op == "int":
            return a.a[0] == b.a[0]
        if a.op == "adt" and b.op == "adt":
            if a.a[1] != b.a[1]:
                return False
            r = True
            for x, y in zip(a.a[2:], b.a[2:]):
                e = self.eq_truth(st, self.load(st, x), self.load(st, y))
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        for x, y in ((a, b), (b, a)):
            if y.op == "adt":
                vs = self.varset(st, x)
                if vs is not None and y.a[1] not in vs:
                    return False
                if vs == frozenset([y.a[1]]) and len(y.a) == 2:
                    return True
        return None

    def ovf_truth(self, st, t):
        op, ty, a, b = t.a
        r = RANGES.get(ty)
        if r is None:
            return None
        la, ha = self.bounds(st, a)
        lb, hb = self.bounds(st, b)
        if op in ("Add", "Sub"):
            c, k = self.lf(st, mk("bin", op, ty, a, b))
            # value <= max and value >= min
            if self.le0(st, c, k - r[1]) and self.le0(st, {x: -q for x, q in c.items()}, -k + r[0]):
                return False
            lo, hi = (la + lb, ha + hb) if op == "Add" else (la - hb, ha - lb)
            if lo >= r[0] and hi <= r[1]:
                return False
            if lo > r[1] or hi < r[0]:
                return True
        elif op == "Mul":
            if INF in (abs(la), abs(ha), abs(lb), abs(hb)):
                return None
            vs = [la * lb, la * hb, ha * lb, ha * hb]
            if min(vs) >= r[0] and max(vs) <= r[1]:
                return False
        elif op in ("Shl", "Shr"):
            bits = (r[1] - r[0] + 1).bit_length() - 1
            if lb >= 0 and hb < bits:
                return False
        elif op == "Neg":
            if la > r[0] or self.truth(st, self.cmp(st, "Eq", ty, a, INT(r[0], ty))) is False:
                return False
        elif op == "Div" or op == "Rem":
            if la > r[0] or lb > -1 or hb < -1:
                return False
            if self.truth(st, self.cmp(st, "Eq", ty, a, INT(r[0], ty))) is False or self.truth(st, self.cmp(st, "Eq", ty, b, INT(-1, ty))) is False:
                return False
        elif op == "Pow":
            return None
        return None

    def assume(self, st, t, val):
        """add fact; False if contradictory"""
        cur = self.truth(st, t)
        if cur is not None:
            return cur == val
        while t.op == "not":
            t, val = t.a[0], not val
        st.pc = (st.pc, (t, val))
        return self.assume0(st, t, val)

    def assume0(self, st, t, val):
        while t.op == "not":
            t, val = t.a[0], not val
        if t.op == "int":
            return bool(t.a[0]) == val
        st.bf[t] = val
        if t.op == "cmp":
            op, ty, a, b = t.a
            c, k = self.diff(st, a, b)
            n = {x: -q for x, q in c.items()}
            if op == "Lt":
                return self.add_le0(st, c, k + 1) if val else self.add_le0(st, n, -k)
            if val:
                return self.add_le0(st, c, k) and self.add_le0(st, n, -k)
            if self.le0(st, c, k):
                return self.add_le0(st, c, k + 1)
            if self.le0(st, n, -k):
                return self.add_le0(st, n, -k + 1)
        elif t.op == "and" and val:
            return self.assume0(st, t.a[0], True) and self.assume0(st, t.a[1], True)
        elif t.op == "or" and not val:
            return self.assume0(st, t.a[0], False) and self.assume0(st, t.a[1], False)
        elif t.op == "isvar":
            if val:
                return self.setvar(st, t.a[0], frozenset([t.a[1]]), log=False)
            n = t.a[2]
            vs = self.varset(st, t.a[0]) or frozenset(range(n))
            return self.setvar(st, t.a[0], vs - {t.a[1]}, log=False)
        elif t.op == "eq":
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if y.op == "adt" and y.a[0] in ADTS:
                    n = len(ADTS[y.a[0]]["v"])
                    vs = self.varset(st, x)
                    if vs is None:
                        vs = frozenset(range(n))
                    if val:
                        return self.setvar(st, x, vs & {y.a[1]}, log=False)
                    if len(y.a) == 2:
                        return self.setvar(st, x, vs - {y.a[1]}, log=False)
        return True

    def fork_bool(self, st, t):
        """-> list of (state, bool)"""
        v = self.truth(st, t)
        if v is not None:
            return [(st, v)]
        s2 = st.copy()
        out = []
        if self.assume(st, t, True):
            out.append((st, True))
        if self.assume(s2, t, False):
            out.append((s2, False))
        return out

    # ---------------------------------------------------------- variants
    def varset(self, st, v):
        if v.op == "adt":
            return frozenset([v.a[1]])
        r = st.vf.get(v)
        if r is not None:
            return r
        if v.op == "upd" and v.a[1][0] == "f":
            return self.varset(st, v.a[0])
        return None

    def setvar(self, st, v, vs, log=True):
        cur = self.varset(st, v)
        if cur is not None:
            vs = vs & cur
        if not vs:
            return False
        if cur != vs:
            st.vf[v] = vs
            if log:
                st.pc = (st.pc, (v, vs))
        return True

    def split(self, st, v, n):
        """fork over variants of an enum value with n variants -> [(st, idx)]"""
        vs = self.varset(st, v)
        if vs is None:
            vs = frozenset(range(n))
        if len(vs) == 1:
            return [(st, next(iter(vs)))]
        out = []
        l = sorted(vs)
        for j, i in enumerate(l):
            s = st if j == len(l) - 1 else st.copy()
            if self.setvar(s, v, frozenset([i])):
                out.append((s, i))
        return out

    def payload(self, st, v, var, i=0):
        return self.get(st, v, ("f", var, i))

    # ----------------------------------------------------------- operands
    def operand(self, st, fr, o):
        k = o["k"]
        if k == "p" or k == "m":
            return self.read(st, fr, o["p"])
        if k == "fn":
            return mkt(o["t"], "fn", FnC.of(o["c"]))
        if k == "c":
            return self.konst(st, o)
        return mk("rtcheck", o.get("d"))

    def konst(self, st, o):
        t = o["t"]
        d = self.p.types[t]
        if "v" in o:
            k = d["k"]
            if k in ("int", "bool", "char"):
                return INT(o["v"], d["n"] if k == "int" else k)
            if k == "float":
                return mkt(t, "float", o["v"], d["n"])
            if k == "adt":
                return mkt(t, "kadt", d["n"], o["v"])
            return mkt(t, "int", o["v"], self.p.tystr(t))
        if "s" in o:
            return STR(o["s"])
        if "static" in o:
            return mk("ref", ("S", o["static"]), ())
        if "def" in o and o["def"] in self.p.bodies and not o.get("promoted"):
            return self.const_body(o["def"])
        if "bytes" in o:
            return mk("bytes", o["bytes"])
        if o.get("zst"):
            if d["k"] == "tuple":
                return UNIT
            if d["k"] == "closure":
                return mkt(t, "closure", d["n"])
            if d["k"] == "adt" and not ADTS.get(d["n"], {"enum": True})["enum"]:
                return mkt(t, "adt", d["n"], 0)
        if "def" in o:
            return mkt(t, "kdef", o["def"])
        return mkt(t, "konst", self.p.tystr(t))

    def const_body(self, uid):
        r = self.constcache.get(uid)
        if r is None:
            self.constcache[uid] = mk("kdef", uid)
            st = State()
            outs = self.run_body(uid, [], st, self.key(0, "const:" + uid))
            rets = [(s, v) for k, s, v in outs if k == "ret"]
            r = mk("kdef", uid)
            if len(rets) == 1:
                r = self.snap(rets[0][0], rets[0][1])
            self.constcache[uid] = r
        return r

    # ------------------------------------------------------------ rvalues
    def optyname(self, fr, o):
        if o["k"] in "pm":
            t = self.pty(fr.body, o["p"])
        else:
            t = o.get("t", -1)
        if t < 0:
            return "?"
        return self.p.tystr(t)

    def rvalue(self, st, fr, r, span):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "rawptr":
            pl = r[2] if k == "ref" else r[1]
            root, path, t = self.locate(st, fr, pl)
            return self.mkref(st, root, path)
        if k == "bin":
            return self.binop(st, r[1], self.optyname(fr, r[2]), self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.optyname(fr, r[2]) == "bool":
                    return self.tnot(a)
                return mk("un", "Not", self.optyname(fr, r[2]), a)
            if r[1] == "Neg":
                ty = self.optyname(fr, r[2])
                if a.op == "int":
                    return INT(-a.a[0], ty)
                return mk("un", "Neg", ty, a)
            if r[1] == "PtrMetadata":
                return self.length(st, self.load(st, a))
            return mk("un", r[1], "?", a)
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), r[3], self.optyname(fr, r[2]))
        if k == "discr":
            v = self.read(st, fr, r[1])
            t = self.pty(fr.body, r[1])
            adt = self.p.types[t]["n"] if t >= 0 and self.p.types[t]["k"] == "adt" else None
            if v.op == "adt" and adt in ADTS:
                return INT(int(ADTS[adt]["v"][v.a[1]]["d"]), "isize")
            return mk("discr", v, adt)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            g = r[1]
            if g["k"] == "adt":
                return mk("adt", g["n"], g["v"], *ops)
            if g["k"] == "tuple":
                return mk("tuple", *ops)
            if g["k"] == "array":
                return mk("array", *ops)
            if g["k"] == "closure":
                return mk("closure", g["n"], *ops)
            return mk("agg", str(g), *ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is not None and n <= 16:
                return mk("array", *([v] * n))
            return mk("repeat", v, INT(n if n is not None else -1, "usize"))
        if k == "setdiscr":
            return mk("setdiscr", r[1])
        return mk("rv", str(r)[:80])

    def binop(self, st, op, ty, a, b):
        if op.endswith("WithOverflow"):
            op = op[:-12]
            if a.op == "int" and b.op == "int":
                v = {"Add": a.a[0] + b.a[0], "Sub": a.a[0] - b.a[0], "Mul": a.a[0] * b.a[0]}[op]
                lo, hi = RANGES[ty]
                if lo <= v <= hi:
                    return mk("tuple", INT(v, ty), FALSE)
                return mk("tuple", mk("bin", op, ty, a, b), TRUE)
            return mk("tuple", self.arith(st, op, ty, a, b), mk("ovf", op, ty, a, b))
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(st, op, ty, a, b)
        if ty == "bool" and op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if x.op == "int":
                    if op == "BitAnd":
                        return y if x.a[0] else FALSE
                    return TRUE if x.a[0] else y
            return mk("and" if op == "BitAnd" else "or", a, b)
        return self.arith(st, op, ty, a, b)

    def arith(self, st, op, ty, a, b):
        if a.op == "int" and b.op == "int" and ty in RANGES:
            x, y = a.a[0], b.a[0]
            v = None
            if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
                v = {"A": x + y, "S": x - y, "M": x * y}[op[0]]
            elif op in ("Div", "Rem") and y:
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                v = q if op == "Div" else x - q * y
            elif op == "BitAnd":
                v = x & y
            elif op == "BitOr":
                v = x | y
            elif op == "BitXor":
                v = x ^ y
            elif op == "Shl" and 0 <= y < 128:
                v = x << y
            elif op == "Shr" and 0 <= y < 128:
                v = x >> y
            lo, hi = RANGES[ty]
            if v is not None and lo <= v <= hi:
                return INT(v, ty)
        if ty in RANGES and op == "Add":
            return self.addn(st, a, b, ty)
        if ty in RANGES and op == "Sub" and b.op == "int" and b.a[0] == 0:
            return a
        if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and ty in RANGES and a.id > b.id:
            a, b = b, a
        return mk("bin", op, ty, a, b)

    def addn(self, st, a, b, ty):
        if b.op == "int" and b.a[0] == 0:
            return a
        if a.op == "int" and a.a[0] == 0:
            return b
        if a.id > b.id:
            a, b = b, a
        return mk("bin", "Add", ty, a, b)

    def cast(self, st, fr, kind, v, ty, fromty):
        tn = self.p.tystr(ty)
        if kind.startswith("IntToInt"):
            if v.op == "int":
                r = RANGES.get(tn)
                x = v.a[0]
                if r:
                    m = r[1] - r[0] + 1
                    x = (x - r[0]) % m + r[0]
                return INT(x, tn)
            if tn == fromty:
                return v
            return mk("cast", tn, v, fromty)
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind.startswith("Transmute") or "Subtype" in kind:
            return v
        if v.op == "cast" and v.a[0] == tn:
            return v
        return mk("fcast", tn, v, fromty)

    # ------------------------------------------------------------- bodies
    def run_body(self, uid, args, st, key):
        """analyse body `uid` in context -> [(kind, st, value)] kind in ret/div"""
        body = self.p.bodies[uid]
        fr = Frame()
        fr.uid, fr.body, fr.key = uid, body, key
        fr.loops = self.loops(uid)
        fr.fid = 0
        for i, a in enumerate(args):
            st.mem[("L", key, i + 1)] = a
        self.stack.append(uid)
        try:
            out = self.explore(fr, st, 0, None, False)
        finally:
            self.stack.pop()
        res = []
        for o in out:
            if o[0] == "ret":
                s, v = o[1], o[2]
                self.gc(s, key, v)
                res.append(("ret", s, v))
            elif o[0] == "div":
                res.append(("div", o[1], o[2]))
            else:
                raise AssertionError(o[0])
        return self.dedupe(res)

    def dedupe(self, res):
        if len(res) < 24:
            return res
        seen = {}
        out = []
        for r in res:
            s = r[1]
            k = (r[0], r[2], id(s.ev), tuple(sorted(((str(a), b.id) for a, b in s.mem.items()))),
                 frozenset(s.vf.items()), frozenset(s.bf.items()))
            if k in seen:
                continue
            seen[k] = 1
            out.append(r)
        return out

    def gc(self, st, key, val):
        live = set()

        def mark(t):
            for x in subterms(t):
                if x.op == "ref":
                    r = x.a[0]
                    if r[0] == "L" and r[1] == key and r not in live:
                        live.add(r)
                        v = st.mem.get(r)
                        if v is not None:
                            mark(v)
        mark(val)
        dead = [r for r in st.mem if r[0] == "L" and r[1] == key and r not in live]
        for r in dead:
            del st.mem[r]

    def explore(self, fr, st, bb, loop, first):
        stack = [(st, bb, first)]
        out = []
        while stack:
            st, bb, isfirst = stack.pop()
            if loop is not None:
                if bb == loop[0] and not isfirst:
                    out.append(("back", st, None))
                    continue
                if bb not in loop[1]:
                    out.append(("exit", st, bb))
                    continue
            if bb in fr.loops and not (loop is not None and bb == loop[0]):
                for t in (self.cut_loop(fr, st, bb) if fr.uid in self.cut and st.pc is None and st.ev is None else self.do_loop(fr, st, bb)):
                    if t[0] == "exit":
                        stack.append((t[1], t[2], False))
                    else:
                        out.append(t)
                continue
            for t in self.block(fr, st, bb):
                if t[0] == "go":
                    stack.append((t[1], t[2], False))
                else:
                    out.append(t)
        return out

    def unrollable(self, fr, st, L):
        for l in L[2]:
            v = st.mem.get(("L", fr.key, l))
            if v is not None and concrete_iter(v):
                return True
        return False

    def cut_loop(self, fr, st, head):
        """a loop around the whole body, one turn at a time: going round again is reported as
        continue(values the arguments have been replaced with)"""
        start = {r: v for r, v in st.mem.items() if r[0] == "L" and r[1] == fr.key and v.op == "sym"}
        out = []
        for t in self.explore(fr, st, head, fr.loops[head], True):
            if t[0] != "back":
                out.append(t)
                continue
            s = t[1]
            new = []
            for r, v in sorted(start.items(), key=lambda q: q[0][2]):
                w = s.mem.get(r, v)
                new.append(mk("tuple", v, self.snap(s, w)))
            out.append(("ret", s, mk("continue", *new)))
        return out

    def do_loop(self, fr, st, head):
        L = fr.loops[head]
        out = []
        if self.unrollable(fr, st, L):
            work = [st]
            n = 0
            while work:
                s = work.pop()
                n += 1
                if n > 1500:
                    raise Budget("unrolling")
                for t in self.explore(fr, s, head, L, True):
                    if t[0] == "back":
                        work.append(t[1])
                    else:
                        out.append(t)
            return out
        gen = st
        rec = None
        tag = "%s:%d#%d" % (fr.uid, head, fr.key)
        for rnd in range(7):
            s0 = gen.copy()
            rec = Ev("loop", tag, (), None, (fr.uid, head), iters=[])
            s0.event(rec)
            mark, pcm = s0.ev, s0.pc
            res = self.explore(fr, s0, head, L, True)
            backs = [t for t in res if t[0] == "back"]
            for b in backs:
                for r, v in list(b[1].mem.items()):
                    if v.op == "mutmap":
                        b[1].mem[r] = self.snap(b[1], v)
            new = gen
            for b in backs:
                new = self.join(fr, new, b[1], tag, rnd >= 4)
            if new is gen:
                break
            gen = new
        rec.x["iters"] = [(b[1].events(mark), b[1].conds(pcm), b[1]) for b in backs]
        rec.x["phis"], rec.x["gvecs"] = {}, {}
        for r, v in gen.mem.items():
            w = st.mem.get(r)
            if w is None:
                w = self.init_of(r) if r[0] != "L" else None
            if w is not v:
                self.loopvar(rec, v, w, [(b[1].mem.get(r, v), b[1].conds(pcm)) for b in backs])
        return [t for t in res if t[0] != "back"]

    def loopvar(self, rec, v, entry, nexts, d=0):
        """how a loop-carried value starts and what one iteration makes of it"""
        if v.op == "phi":
            rec.x["phis"].setdefault(v.a[0], (entry, nexts))
        elif v.op == "gvec":
            rec.x["gvecs"].setdefault(v.id, (entry, [n for n, _ in nexts], [c for _, c in nexts], False))
        elif d < 6 and isinstance(entry, T) and v.op == entry.op and len(v.a) == len(entry.a):
            for i, x in enumerate(v.a):
                if isinstance(x, T) and x is not entry.a[i] and all(n.op == v.op and len(n.a) == len(v.a) for n, _ in nexts):
                    self.loopvar(rec, x, entry.a[i], [(n.a[i], c) for n, c in nexts], d + 1)

    def join(self, fr, a, b, tag, top):
        ch = {}
        for r, v in a.mem.items():
            w = b.mem.get(r)
            if w is None or w is v:
                continue
            if r[0] == "L" and r[1] == fr.key and r[2] not in fr.loops[int(tag.rsplit("#", 1)[0].rsplit(":", 1)[1])][3]:
                continue   # dead at the loop head
            n = self.joinv(a, b, v, w, "%s/%s" % (tag, rootname(r)), top)
            if n is not v:
                ch[r] = n
        for r, w in b.mem.items():
            if r in a.mem or r[0] == "L":
                continue
            v = self.init_of(r)
            if w is v:
                continue
            n = self.joinv(a, b, v, w, "%s/%s" % (tag, rootname(r)), top)
            if n is not v:
                ch[r] = n
        if not ch:
            return a
        s = a.copy()
        s.mem.update(ch)
        return s

    def joinv(self, sa, sb, v, w, name, top):
        if v is w:
            return v
        if v.op == "iter" and w.op == "iter" and v.a[0] is w.a[0] and v.a[2] == w.a[2] and v.a[1] is not w.a[1]:
            if v.a[1].op == "int" and v.a[1].a[0] > 0:
                return mk("iter", mk("skip", v.a[0], v.a[1]), mk("pk"), v.a[2])
            return v if v.a[1].op == "pk" else mk("iter", v.a[0], mk("pk"), v.a[2])
        if v.op == "iter" and w.op == "iter" and v.a[1].op == "pk":
            pass
        if v.op == "phi" and v.a[0] == name:
            if len(v.a) > 1 and v.a[1] is not None:
                if not self.induct_ok(sb, v, w):
                    r = mk("phi", name, None)
                    if r.ty is None:
                        r.ty = v.ty
                    return r
            return v
        if not top:
            if v.op in ("adt", "iter", "imap", "ienum", "ifilter", "irev", "itake", "iskip", "icloned", "izip", "ichain",
                        "tuple", "closure", "ipeek", "iwrap") and v.op == w.op and len(v.a) == len(w.a):
                if all((x is y) or (isinstance(x, T) and isinstance(y, T)) or x == y for x, y in zip(v.a, w.a)):
                    return mk(v.op, *[self.joinv(sa, sb, x, y, "%s.%d" % (name, i), top) if isinstance(x, T) else x
                                      for i, (x, y) in enumerate(zip(v.a, w.a))])
            # accumulators: base ++ items
            g = self.join_acc(v, w)
            if g is not None:
                return g
            if v.ty is not None or v.op == "int":
                rng = v.op == "int" or self.tyrange(v)
                if rng and self.induct_first(sb, v, w):
                    r = mk("phi", name, v)
                    if r.ty is None:
                        r.ty = v.ty if v.ty is not None else w.ty
                    return r
        r = mk("phi", name, None)
        if r.ty is None:
            r.ty = v.ty if v.ty is not None else w.ty
        return r

    def induct_first(self, sb, v, w):
        return self.is_le(sb, v, w) and (w.op != "int")

    def induct_ok(self, sb, phi, w):
        """phi >= its entry value is preserved: w >= phi"""
        return self.is_le(sb, phi, w)

    def join_acc(self, v, w):
        """v then (v pushed with items) -> gvec"""
        items = []
        x = w
        n = 0
        while n < 50:
            n += 1
            if x is v:
                break
            if x.op == "push":
                items.append(x.a[1])
                x = x.a[0]
            elif x.op == "mapins":
                items.append(mk("tuple", x.a[1], x.a[2]))
                x = x.a[0]
            elif x.op == "concat" and len(x.a) > 1:
                # strings
                base = x.a[0]
                items += [y for y in x.a[1:]]
                x = base
                if v.op == "concat" and x is not v:
                    # v may itself be a concat that is a prefix
                    k = len(v.a)
                    if w.a[:k] == v.a:
                        items = list(w.a[k:])
                        x = v
            elif x.op == "gvec" and v.op != "gvec":
                items += list(x.a[1])
                x = x.a[0]
            elif v.op == "gvec" and x is v.a[0]:
                x = v
            else:
                break
        if x is not v:
            if v.op == "vec" and w.op == "vec" and len(w.a) > len(v.a) and w.a[:len(v.a)] == v.a:
                items = list(w.a[len(v.a):])
            elif v.op == "str" and w.op == "concat" and v.a[0] == "" :
                items = list(w.a)
            elif v.op == "str" and w.op == "str" and w.a[0].startswith(v.a[0]):
                items = [STR(w.a[0][len(v.a[0]):])]
            elif v.op == "str" and w.op == "concat" and w.a[0].op == "str" and w.a[0].a[0].startswith(v.a[0]):
                items = [STR(w.a[0].a[0][len(v.a[0]):])] + list(w.a[1:])
            else:
                return None
        if not items:
            return None
        if v.op == "gvec":
            have = list(v.a[1])
            base = v.a[0]
        else:
            have, base = [], v
        ch = False
        for it in items:
            if it not in have:
                have.append(it)
                ch = True
        if v.op == "gvec" and not ch:
            return v
        if len(have) > 12:
            return None
        r = mk("gvec", base, tuple(have))
        if r.ty is None:
            r.ty = v.ty
        return r

    # -------------------------------------------------------------- blocks
    def block(self, fr, st, bb):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget("steps")
        b = fr.body["bb"][bb]
        for s in b["s"]:
            v = self.rvalue(st, fr, s[1], s[2])
            if v.op == "setdiscr":
                continue
            if s[0][1]:
                self.write(st, fr, s[0], v)
            else:
                if v.ty is None:
                    v.ty = fr.body["locals"][s[0][0]][0]
                st.mem[("L", fr.key, s[0][0])] = v
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [("go", st, t[1])]
        if k == "drop":
            return [("go", st, t[2])]
        if k == "return":
            return [("ret", st, self.rroot(st, ("L", fr.key, 0)))]
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "call":
            return self.call_term(fr, st, bb, t)
        if k == "assert":
            return self.do_assert(fr, st, bb, t)
        if k == "unreachable":
            return []
        return [("div", st, mk("stop"))]

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        targets, other = t[2], t[3]
        if v.op == "int":
            for x, tg in targets:
                if self.sval(int(x), v.a[1]) == v.a[0]:
                    return [("go", st, tg)]
            return [("go", st, other)]
        tyn = self.p.tystr(t[4])
        if v.op == "discr":
            val, adt = v.a
            if adt in ADTS:
                vs = ADTS[adt]["v"]
                d2i = {int(x["d"]) & ((1 << 128) - 1): i for i, x in enumerate(vs)}
                rest = set(range(len(vs)))
                out = []
                cur = self.varset(st, val)
                for x, tg in targets:
                    i = d2i.get(int(x))
                    if i is None:
                        i = d2i.get((int(x) - (1 << 64)) & ((1 << 128) - 1))
                    if i is None:
                        continue
                    rest.discard(i)
                    if cur is not None and i not in cur:
                        continue
                    s = st.copy()
                    if self.setvar(s, val, frozenset([i])):
                        out.append(("go", s, tg))
                if rest:
                    s = st.copy()
                    if self.setvar(s, val, frozenset(rest)):
                        if not (fr.body["bb"][other]["t"][0] == "unreachable"):
                            out.append(("go", s, other))
                return out
        if tyn == "bool":
            out = []
            tg0 = targets[0][1]
            zero = targets[0][0] == "0"
            for s, b in self.fork_bool(st, v):
                out.append(("go", s, (other if zero else tg0) if b else (tg0 if zero else other)))
            return out
        out = []
        s = st
        for x, tg in targets:
            c = self.cmp(s, "Eq", tyn if tyn in RANGES else "u64", v, INT(self.sval(int(x), tyn), tyn))
            tv = self.truth(s, c)
            if tv is True:
                out.append(("go", s, tg))
                return out
            if tv is False:
                continue
            s2 = s.copy()
            if self.assume(s2, c, True):
                out.append(("go", s2, tg))
            if not self.assume(s, c, False):
                return out
        out.append(("go", s, other))
        return out

    @staticmethod
    def sval(x, ty):
        r = RANGES.get(ty)
        if r and r[0] < 0 and x > r[1]:
            x -= (r[1] - r[0] + 1)
        return x

    def oblige(self, st, what, cond, site, terms, x=None):
        """condition that must hold or the program panics.  Records status; continues assuming it."""
        tv = self.truth(st, cond)
        if tv is True:
            st.event(Ev("oblig", what, terms, None, site, status="ok"))
            return [st]
        status = "fail" if tv is False else ("free" if self.free(st, cond) and not self.complex_facts(st, cond) else "open")
        st.event(Ev("oblig", what, tuple(self.snap(st, z) for z in terms), None, site, status=status, cond=cond, why=x))
        if tv is False or not self.assume(st, cond, True):
            return []
        return [st]

    FREE_OPS = {"bin", "un", "cast", "cmp", "ovf", "not", "int", "min", "max", "and", "or", "isvar", "eq"}

    def free(self, st, t):
        """the condition speaks only about unconstrained inputs, so it can be falsified"""
        work = [t]
        while work:
            x = work.pop()
            if x.op in self.FREE_OPS:
                work += [y for y in x.a if isinstance(y, T)]
            elif x.op in ("len", "charcount", "disp"):
                if not self.freeval(st, x.a[0]):
                    return False
            elif x.op == "charb":
                if not self.freeindex(st, x.a[0], x.a[1]):
                    return False
            elif not self.freeval(st, x):
                return False
        return True

    PIECES = {"lines", "split", "split_inclusive", "split_whitespace", "split_ascii_whitespace", "rsplit", "splitn", "rsplitn", "split_terminator", "words"}
    TEXTS = {"trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase"}

    def freetext(self, st, v):
        """a text the user chooses, or a piece of one: its first character may have any width"""
        n = 0
        while n < 12:
            n += 1
            if v.op in ("sym", "field") and self.freeval(st, v):
                return v
            nm = v.a[0].split("::")[-1] if v.op == "call" else v.a[0] if v.op == "strfn" else v.op
            a = v.a[1:] if v.op in ("call", "strfn") else v.a
            if v.op == "elem" and isinstance(v.a[0], T):
                w = v.a[0]
                nm = w.a[0].split("::")[-1] if w.op == "call" else w.op
                a = w.a[1:] if w.op == "call" else w.a
                if nm not in self.PIECES:
                    return None
            elif nm not in self.TEXTS:
                return None
            if not a or not isinstance(a[0], T):
                return None
            v = a[0]
        return None

    def freeindex(self, st, v, i):
        """a constant index other than 0 into such a text, about which the path knows nothing but lengths and kinds"""
        if i.op != "int" or i.a[0] <= 0:
            return False
        base = self.freetext(st, v)
        if base is None:
            return False
        for t, c in st.conds():
            if isinstance(c, frozenset):
                if t not in subterms(v) and base in subterms(t):
                    return False
                continue
            work = [t]
            while work:
                x = work.pop()
                if x.op in self.FREE_OPS:
                    work += [y for y in x.a if isinstance(y, T)]
                elif x.op != "len" and base in subterms(x) and x is not base:
                    return False
        return True

    LINEAR = {"cmp", "not", "int", "len", "field", "elem", "sym", "call", "and", "or", "isvar", "max", "min", "ovf", "cast"}

    def leaves(self, t):
        out = set()
        work = [t]
        while work:
            x = work.pop()
            if x.op in self.FREE_OPS or x.op == "len":
                work += [y for y in x.a if isinstance(y, T)]
            else:
                out.add(x)
        return out

    def linear(self, t):
        work = [t]
        while work:
            x = work.pop()
            if x.op in ("field", "elem", "sym", "call"):
                continue
            if x.op == "bin" and x.a[0] in ("Add", "Sub") or x.op == "un" or x.op in self.LINEAR:
                work += [y for y in x.a if isinstance(y, T)]
                continue
            if x.op == "bin" and x.a[0] == "Mul" and any(isinstance(y, T) and y.op == "int" for y in x.a):
                work += [y for y in x.a if isinstance(y, T)]
                continue
            return False
        return True

    def complex_facts(self, st, cond):
        """a path condition speaks about the same inputs in a way the linear reasoning cannot use"""
        lv = self.leaves(cond)
        for t, v in st.conds():
            if isinstance(v, frozenset):
                continue
            if (any(x in lv for x in self.leaves(t)) or any(x in lv for x in subterms(t))) and not self.linear(t):
                return True
        return False

    def simple_path(self, st):
        """nothing on the path but kinds of values and linear comparisons over free inputs"""
        for t, v in st.conds():
            if isinstance(v, frozenset):
                if not self.freeval(st, t):
                    return False
            elif not self.free(st, t) or not self.linear(t):
                return False
        return True

    def freeval(self, st, v):
        n = 0
        while n < 30:
            n += 1
            if v.op in ("sym",):
                return True
            if v.op == "field" or v.op == "elem":
                v = v.a[0]
                continue
            if v.op == "call" and v.a[0] in self.free_calls:
                return True
            return False
        return False

    free_calls = {"Expression::eval", "Expression::eval_mut"}

    def do_assert(self, fr, st, bb, t):
        cond = self.operand(st, fr, t[1])
        want = t[2]
        m = t[3]
        c = cond if want else self.tnot(cond)
        ops = tuple(self.operand(st, fr, o) for o in m[1:] if isinstance(o, dict))
        site = (fr.uid, fr.body["bb"][bb]["sp"], self.entry())
        if m[0] == "bounds" and ops[0].op == "len":
            pass
        if m[0] == "overflow" and m[1] in ("Shl", "Shr"):
            ty = self.optyname(fr, m[2])
            c = self.tnot(mk("ovf", m[1], ty, ops[0], ops[1]))
        elif m[0] == "overflow" and m[1] in ("Div", "Rem"):
            ty = self.optyname(fr, m[2])
            c = self.tnot(mk("ovf", m[1], ty, ops[0], ops[1]))
        elif m[0] == "overflow_neg":
            ty = self.optyname(fr, m[1])
            c = self.tnot(mk("ovf", "Neg", ty, ops[0], INT(0)))
        elif m[0] in ("div_zero", "rem_zero"):
            # operand is the dividend; cond already says divisor == 0
            pass
        return [("go", s, t[4]) for s in self.oblige(st, m[0] if m[0] != "overflow" else "overflow:" + m[1], c, site, ops)]

    def entry(self):
        return self.stack[0] if self.stack else ""

    # --------------------------------------------------------------- calls
    def call_term(self, fr, st, bb, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        c = Call()
        c.args = args
        c.site = (fr.uid, bb)
        c.span = t[5]
        c.fr = fr
        c.dest = self.pty(fr.body, t[3])
        c.argtys = [self.pty(fr.body, o["p"]) if o["k"] in "pm" else o.get("t", -1) for o in t[2]]
        out = []
        for s, v in self.invoke(st, f, c):
            if v is None:
                out.append(("div", s, None))
                continue
            if t[4] is None:
                out.append(("div", s, None))
                continue
            self.write(s, fr, t[3], v)
            out.append(("go", s, t[4]))
        return out

    def invoke(self, st, f, c):
        """call value f -> [(st, ret or None for divergence)]"""
        n = 0
        while f.op == "ref" and n < 6:
            f2 = self.rplace(st, f.a[0], f.a[1])
            if f2.op == "closure":
                return self.call_closure(st, f, f2, c)
            f = f2
            n += 1
        if f.op == "closure":
            return self.call_closure(st, None, f, c)
        if f.op == "fn":
            return self.call_fn(st, f.a[0], c)
        # unknown function value: callback
        c.callee = None
        args = tuple(self.snap(st, a) for a in c.args)
        r = self.opaque(st, "callback", c, (self.snap(st, f),) + args, impure=True)
        st.event(Ev("callback", "callback", (self.snap(st, f),) + args, r, self.esite(c)))
        return [(st, r)]

    def call_closure(self, st, fref, clo, c):
        uid = clo.a[0]
        if uid not in self.p.bodies:
            return [(st, self.opaque(st, "closure:" + uid, c, tuple(c.args), impure=True))]
        body = self.p.bodies[uid]
        t1 = self.p.types[body["locals"][1][0]]
        key = self.key(c.fr.key if c.fr else 0, (c.site, uid))
        if t1["k"] == "ref":
            if fref is None:
                root = ("L", key, "self")
                st.mem[root] = clo
                selfv = mk("ref", root, ())
            else:
                selfv = fref
        else:
            selfv = clo
        args = list(c.args)
        if body["argc"] == 1 + len(args):
            pass
        elif len(args) == 1 and args[0].op == "tuple" and body["argc"] == 1 + len(args[0].a):
            args = list(args[0].a)
        if self.stack.count(uid) or len(self.stack) > self.maxdepth:
            return [(st, self.opaque(st, "rec:" + uid, c, tuple(args), impure=True))]
        return self.inline(st, uid, [selfv] + args, key)

    def inline(self, st, uid, args, key):
        self.inlined.add(uid)
        out = []
        for kind, s, v in self.run_body(uid, args, st, key):
            out.append((s, v if kind == "ret" else None))
        return out

    def esite(self, c):
        return (c.fr.uid if c.fr else "?", c.span, self.entry())

    def spread(self, c):
        return c

    def call_fn(self, st, fc, c):
        callee = fc.c
        c.callee = callee
        name = c.name = callee_name(callee)
        if self.call_hook is not None:
            r = self.call_hook(self, st, c)
            if r is not None:
                return r
        # function traits
        if name in ("Fn.call", "FnMut.call_mut", "FnOnce.call_once"):
            tup = c.args[1]
            c2 = Call()
            c2.args = list(tup.a) if tup.op == "tuple" else [tup]
            c2.site, c2.fr, c2.dest, c2.span = c.site, c.fr, c.dest, c.span
            c2.argtys = [-1] * len(c2.args)
            c2.name = name
            c2.callee = callee
            return self.invoke(st, c.args[0], c2)
        if "ctor" in callee:
            return [(st, mk("adt", callee["ctor"][0], callee["ctor"][1], *c.args))]
        prim = self.extra_prims.get(name)
        if prim is not None:
            return prim(self, st, c)
        m = self.models.get(name)
        ruid = callee.get("ru") or callee["u"]
        local = ruid in self.p.bodies
        if local and self.is_prim(ruid, callee):
            return self.prim_call(st, ruid, c)
        if m is not None and not (local and name not in self.traitmodels.OVERRIDE_LOCAL):
            r = m(self, st, c)
            if r is not NotImplemented:
                if isinstance(r, T):
                    return [(st, r)]
                return r
        if local:
            if ruid in self.stack or len(self.stack) > self.maxdepth:
                return self.prim_call(st, ruid, c)
            return self.inline(st, ruid, list(c.args), self.key(c.fr.key if c.fr else 0, (c.site, ruid)))
        return self.external(st, c)

    def is_prim(self, uid, callee):
        if uid in self.prims:
            return True
        b = self.p.bodies[uid]
        if b.get("im") is not None:
            t = self.p.types[b["im"]]
            if t["k"] == "adt" and t["n"] in self.PRIM_IMPL_TYPES:
                return True
        return False

    def prim_name(self, uid):
        b = self.p.bodies[uid]
        if "m" in b and "im" in b:
            n = self.p.tystr(b["im"]).split("<")[0].split("::")[-1]
            if "tr" in b:
                return "%s<%s>::%s" % (n, b["tr"].split("::")[-1], b["m"])
            return n + "::" + b["m"]
        return b["p"].split("::", 1)[1] if "::" in b["p"] else b["p"]

    PURE_PRIMS = {"Environment::get_cwd"}

    def prim_call(self, st, uid, c):
        name = self.prim_name(uid)
        args = tuple(self.snap(st, a) for a in c.args)
        r = self.opaque(st, name, c, args, impure=name not in self.PURE_PRIMS)
        st.event(Ev("prim", name, args, r, self.esite(c), uid=uid, raw=tuple(c.args)))
        self.havoc(st, c, name, r)
        if self.hyp is not None and name in ("Expression::eval", "Expression::eval_mut"):
            # hypothesis of the rule: evaluation succeeds with a value of these kinds
            self.setvar(st, r, frozenset([0]), False)
            self.setvar(st, self.payload(st, r, 0), self.hyp, False)
        return [(st, r)]

    IDENT_TYPES = {"dune::env::Environment"}

    def havoc(self, st, c, name, r, skip=()):
        for i, (a, t) in enumerate(zip(c.args, c.argtys)):
            if i in skip or t < 0:
                continue
            d = self.p.types[t]
            if d["k"] == "ref" and d["m"]:
                inner = self.p.types[d["t"]]
                if inner["k"] == "adt" and inner["n"] in self.IDENT_TYPES:
                    continue
                if inner["k"] == "closure":
                    continue
                old = self.load(st, a)
                self.store(st, self.deep(st, a), mkt(d["t"], "mut", name, old, r))

    def deep(self, st, a):
        """follow &mut &mut chains to the last reference"""
        n = 0
        while a.op == "ref" and n < 6:
            v = self.rplace(st, a.a[0], a.a[1])
            if v.op == "ref":
                a = v
                n += 1
                continue
            break
        return a

    def opaque(self, st, name, c, args, impure):
        if impure:
            k = (c.fr.key if c.fr else 0, c.site)
            n = st.cnt.get(k, 0)
            st.cnt[k] = n + 1
            t = mk("call", name, *(args + (mk("at", k, n),)))
        else:
            t = mk("call", name, *args)
        if t.ty is None and c.dest is not None and c.dest >= 0:
            t.ty = c.dest
        return t

    def external(self, st, c):
        name = c.name
        args = tuple(self.snap(st, a) for a in c.args)
        impure = self.traitmodels.is_impure(name, c.callee)
        full = c.callee["p"]
        r = self.opaque(st, name, c, args, impure)
        self.unknown[name] = self.unknown.get(name, 0) + 1
        st.event(Ev("ext", name, args, r, self.esite(c), path=full, rpath=c.callee.get("rp"), selfty=(
            self.p.tystr(c.callee["a"][0]) if c.callee["a"] else None), raw=tuple(c.args)))
        # closures handed to unknown code may be invoked
        for a in c.args:
            f = self.load(st, a)
            if f.op == "closure" and f.a[0] in self.p.bodies and f.a[0] not in self.stack and len(self.stack) < self.maxdepth:
                b = self.p.bodies[f.a[0]]
                s2 = st.copy()
                m0, p0 = s2.ev, s2.pc
                c2 = Call()
                c2.args = [mkt(b["locals"][i + 1][0], "sym", "cbarg%d@%s" % (i, f.a[0]))
                           for i in range(1, b["argc"])]
                c2.site, c2.fr, c2.dest, c2.span, c2.name, c2.callee = c.site, c.fr, -1, c.span, name, c.callee
                c2.argtys = [-1] * len(c2.args)
                paths = []
                for s3, v in self.call_closure(s2, None, f, c2):
                    paths.append((s3.events(m0), s3.conds(p0), s3, v))
                st.event(Ev("maybe", name, args, r, self.esite(c), paths=paths))
        self.havoc(st, c, name, r)
        if c.dest is not None and c.dest >= 0 and self.p.types[c.dest]["k"] == "never":
            return [(st, None)]
        return [(st, r)]

    # --------------------------------------------------------------- roots
    def analyse(self, uid, args=None, st=None):
        """run a body as an entry point with symbolic arguments"""
        body = self.p.bodies[uid]
        self.steps = 0
        if st is None:
            st = State()
        if args is None:
            args = []
            for i in range(body["argc"]):
                l = body["locals"][i + 1]
                args.append(mkt(l[0], "sym", l[1] if len(l) > 1 else "arg%d" % (i + 1), l[0]))
        outs = []
        for k, s, v in self.run_body(uid, args, st, self.key(0, "root:" + uid)):
            outs.append(Outcome(k, s, self.snap(s, v) if v is not None else None))
        return outs


class FnC(object):
    """interned callee"""
    __slots__ = ("c", "k")
    tab = {}

    @classmethod
    def of(cls, c):
        k = (c["u"], tuple(c["a"]), c.get("ru"))
        r = cls.tab.get(k)
        if r is None:
            r = cls()
            r.c, r.k = c, k
            cls.tab[k] = r
        return r

    def __repr__(self):
        return "fn:" + self.c["p"]


def rootname(r):
    if r[0] == "L":
        return "%s_%s" % (r[1], r[2])
    if r[0] == "D":
        return "D%d" % r[1].id
    return str(r[1])


def concrete_iter(v, d=0):
    if d > 6:
        return False
    if v.op == "iter":
        return v.a[0].op in ("vec", "array") and v.a[1].op == "int" and v.a[2] in ("own", "ref")
    if v.op == "irange":
        return v.a[0].op == "int" and v.a[1].op == "int" and v.a[1].a[0] - v.a[0].a[0] <= 64
    if v.op in ("imap", "ienum", "icloned", "ifilter", "irev", "ipeek"):
        return concrete_iter(v.a[0], d + 1)
    if v.op in ("izip", "ichain"):
        return concrete_iter(v.a[0], d + 1) and concrete_iter(v.a[1], d + 1)
    if v.op in ("itake", "iskip"):
        return v.a[1].op == "int" and concrete_iter(v.a[0], d + 1)
    return False


# -------------------------------------------------------------------- loops
def succs(bb):
    t = bb["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "drop":
        return [t[2]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def find_loops(body):
    """natural loops: head -> (head, blocks, locals touched, locals live at head)"""
    bbs = body["bb"]
    color = {}
    back = []
    stack = [(0, iter(succs(bbs[0])))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            c = color.get(m, 0)
            if c == 0:
                color[m] = 1
                stack.append((m, iter(succs(bbs[m]))))
                break
            if c == 1:
                back.append((n, m))
        else:
            color[n] = 2
            stack.pop()
    preds = {}
    for i in color:
        for s in succs(bbs[i]):
            preds.setdefault(s, []).append(i)
    loops = {}
    for n, h in back:
        blocks = loops.setdefault(h, {h})
        work = [n]
        while work:
            x = work.pop()
            if x in blocks:
                continue
            blocks.add(x)
            work += preds.get(x, [])
    out = {}
    live = None
    for h, blocks in loops.items():
        if live is None:
            live = liveness(body)
        touched = set()
        for b in blocks:
            for s in bbs[b]["s"]:
                touched.add(s[0][0])
                collect_locals(s[1], touched)
            t = bbs[b]["t"]
            if t[0] == "call":
                touched.add(t[3][0])
                for o in t[2]:
                    if o["k"] in "pm":
                        touched.add(o["p"][0])
        # a local that is live at the head, or whose address was taken
        out[h] = (h, frozenset(blocks), touched, live[h])
    return out


def collect_locals(r, acc):
    if isinstance(r, dict):
        if r.get("k") in ("p", "m") and "p" in r and isinstance(r["p"], list):
            acc.add(r["p"][0])
        return
    if isinstance(r, list):
        if r and r[0] in ("ref",):
            acc.add(r[2][0])
        elif r and r[0] in ("rawptr", "discr"):
            acc.add(r[1][0])
        for x in r[1:]:
            if isinstance(x, dict):
                collect_locals(x, acc)
            elif isinstance(x, list) and x and isinstance(x[0], dict):
                for y in x:
                    collect_locals(y, acc)


def liveness(body):
    """live-in locals per block; a local whose address is taken is always live"""
    bbs = body["bb"]
    addr = set()
    use = []
    dfn = []
    for bb in bbs:
        u, d = set(), set()

        def place_use(p):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "[]" and e[1] not in d:
                    u.add(e[1])

        def op(o):
            if o["k"] in "pm":
                place_use(o["p"])

        for s in bb["s"]:
            r = s[1]
            k = r[0]
            if k == "ref":
                place_use(r[2])
                if not any(e[0] == "*" for e in r[2][1]):
                    addr.add(r[2][0])
            elif k in ("rawptr", "discr"):
                place_use(r[1])
                if k == "rawptr":
                    addr.add(r[1][0])
            else:
                for x in r[1:]:
                    if isinstance(x, dict) and "k" in x and x["k"] in ("p", "m"):
                        op(x)
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, dict) and y.get("k") in ("p", "m"):
                                op(y)
            if s[0][1]:
                place_use(s[0])
            else:
                d.add(s[0][0])
        t = bb["t"]
        if t[0] == "call":
            op(t[1]) if t[1]["k"] in "pm" else None
            for o in t[2]:
                op(o)
            if t[3][1]:
                place_use(t[3])
            else:
                d.add(t[3][0])
        elif t[0] == "switch":
            op(t[1])
        elif t[0] == "assert":
            op(t[1])
            for x in t[3]:
                if isinstance(x, dict):
                    op(x)
        elif t[0] == "return":
            if 0 not in d:
                u.add(0)
        use.append(u)
        dfn.append(d)
    n = len(bbs)
    livein = [set(use[i]) | addr for i in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succs(bbs[i]):
                o |= livein[s]
            new = use[i] | (o - dfn[i]) | addr
            if new != livein[i]:
                livein[i] = new
                ch = True
    return livein
