"""Expressions: the summary of one turn of the evaluator interpreted in models, nested evaluations by the language's own rules."""
import copy
import canon, model, r_fs
from model import A, V, U, Mp, EX, NONEX, KINDS, Unk, Undef, disp, eq3, need
from r_fs import Ok, Some, NO, UNIT
from r_eval import mods_of

ERR = lambda x: A(("Result", 1, x))
ERRORS = ["CannotApply", "SymbolNotDefined", "CommandFailed", "ForNonList", "RecursionDepth", "PermissionDenied", "ProgramNotFound", "SyntaxError", "CustomError"]
MISSING = {"nosuch": "NotFound", "noperm": "PermissionDenied", "broken": "OutOfMemory"}


def Error(n, *xs):
    return A(("Error", ERRORS.index(n)) + xs)


class Env(tuple):
    """(bindings, parent)"""


def env(d, parent=None):
    return Env((Mp(d), parent if parent is not None else U(("noparent",))))


def lookup(e, n):
    while isinstance(e, Env):
        if n in e[0].d:
            return e[0].d[n]
        e = e[1]
    return None


def define(e, n, x):
    return Env((Mp(dict(e[0].d, **{n: x})), e[1]))


def undefine(e, n):
    d = dict(e[0].d)
    d.pop(n, None)
    return Env((Mp(d), e[1]))


def cwd(e):
    x = lookup(e, "CWD")
    return x[2] if x is not None and KINDS[x[1]] == "String" else "/"


SYM = lambda x: EX("Symbol", x)
STR = lambda x: EX("String", x)
INT = lambda x: EX("Integer", x)
BOOL = lambda x: EX("Boolean", x)
LIST = lambda *xs: EX("List", V(xs))
APP = lambda f, *xs: EX("Apply", f, V(xs))
DO = lambda *xs: EX("Do", V(xs))
LET = lambda n, x: EX("Assign", n, x)
IF = lambda a, b, c: EX("If", a, b, c)
FOR = lambda n, l, b: EX("For", n, l, b)
QUOTE = lambda x: EX("Quote", x)
GROUP = lambda x: EX("Group", x)
MACRO = lambda n, b: EX("Macro", n, b)
MAP = lambda **d: EX("Map", Mp(d))
LAM = lambda n, b, e=None: EX("Lambda", n, b, e if e is not None else env({}))
BUILTIN = lambda n: EX("Builtin", (n, U(("fn", n)), "help of " + n))


def truthy(x):
    k = KINDS[x[1]]
    if k == "Integer":
        return x[2] != 0
    if k == "Float":
        return x[2] != 0.0
    if k == "Boolean":
        return x[2]
    if k in ("String", "Bytes", "List"):
        return len(x[2]) > 0
    if k == "Map":
        return len(x[2].d) > 0
    if k in ("Lambda", "Macro", "Builtin"):
        return True
    return False


def kids(x):
    k = KINDS[x[1]]
    if k in ("Group", "Quote"):
        return [x[2]]
    if k in ("List", "Do"):
        return list(x[2])
    if k == "Map":
        return [x[2].d[n] for n in sorted(x[2].d)]
    if k in ("Assign", "Lambda", "Macro"):
        return [x[3]]
    if k == "For":
        return [x[3], x[4]]
    if k == "If":
        return [x[2], x[3], x[4]]
    if k == "Apply":
        return [x[2]] + list(x[3])
    return []


def used(x):
    """every symbol in the expression"""
    if KINDS[x[1]] == "Symbol":
        return [x[2]]
    return [n for y in kids(x) for n in used(y)]


def free(x):
    """the symbols evaluating the expression may look up in the environment it starts in"""
    k = KINDS[x[1]]
    if k == "Symbol":
        return {x[2]}
    if k in ("Lambda", "Macro"):
        return free(x[3]) - {x[2]}
    if k == "For":
        return free(x[3]) | free(x[4]) - {x[2]}
    if k == "Do":
        out, bound = set(), set()
        for y in x[2]:
            out |= free(y) - bound
            if KINDS[y[1]] == "Assign":
                bound.add(y[2])
        return out
    return {n for y in kids(x) for n in free(y)}


def flatten(xs):
    out = []
    for x in xs:
        if KINDS[x[1]] == "List":
            out += flatten(x[2])
        elif KINDS[x[1]] == "Group":
            out += flatten([x[2]])
        else:
            out.append(x)
    return out


SHOWN = {}


def show(x):
    """a binding's text"""
    r = SHOWN.get(id(x))
    if r is None or r[0] is not x:
        r = SHOWN[id(x)] = (x, disp(x))
    return r[1]


class World(object):
    def __init__(self, e):
        self.places = {"env": e}
        self.origin = {}
        self.trace = []

    def copy(self):
        x = copy.copy(self)
        x.places, x.origin, x.trace = dict(self.places), dict(self.origin), list(self.trace)
        return x


class Lang(object):
    """the language's evaluation rules"""

    def __init__(self, trace):
        self.trace = trace

    def run(self, x, e, depth=0):
        """-> (result, environment afterwards)"""
        if depth > 60:
            raise Unk("depth")
        ev = lambda y, f: self.run(y, f, depth + 1)
        k = KINDS[x[1]]
        if k == "Quote":
            return Ok(x[2]), e
        if k == "Group":
            return ev(x[2], e)
        if k == "Symbol":
            v = lookup(e, x[2])
            return Ok(x if v is None else v), e
        if k == "Assign":
            r, e = ev(x[3], e)
            return (r, e) if r[1] else (Ok(NONEX), define(e, x[2], r[2]))
        if k == "For":
            r, e = ev(x[3], e)
            if r[1]:
                return r, e
            if KINDS[r[2][1]] != "List":
                return ERR(Error("ForNonList", x[3])), e
            out = []
            for y in r[2][2]:
                e = define(e, x[2], y)
                q, e = ev(x[4], e)
                if q[1]:
                    return q, e
                out.append(q[2])
            return Ok(LIST(*out)), e
        if k == "If":
            r, e = ev(x[2], e)
            return (r, e) if r[1] else ev(x[3] if truthy(r[2]) else x[4], e)
        if k == "Do":
            r = Ok(NONEX)
            for y in x[2]:
                r, e = ev(y, e)
                if r[1]:
                    return r, e
            return r, e
        if k in ("List", "Map"):
            m = x[2].d if k == "Map" else None
            out = []
            for y in ([m[n] for n in sorted(m)] if m is not None else x[2]):
                r, e = ev(y, e)
                if r[1]:
                    return r, e
                out.append(r[2])
            return Ok(EX("Map", Mp(dict(zip(sorted(m), out)))) if m is not None else LIST(*out)), e
        if k == "Lambda":
            c = x[4]
            t = define(define(c, x[2], NONEX), "CWD", STR(cwd(e)))
            for n in used(x[3]):
                if n != x[2] and lookup(c, n) is None and lookup(e, n) is not None:
                    t = define(t, n, lookup(e, n))
            return Ok(EX("Lambda", x[2], x[3], t)), e
        if k == "Apply":
            return self.apply(x, e, ev)
        return Ok(x), e

    def apply(self, x, e, ev):
        f, args = x[2], x[3]
        r, e = ev(f, e)
        if r[1]:
            return r, e
        g = r[2]
        k = KINDS[g[1]]
        if k in ("Symbol", "String"):
            binds = {n: show(v) for n, v in e[0].d.items()}
            out = []
            for a in args:
                r, e = ev(a, e)
                if r[1]:
                    return r, e
                for y in flatten([r[2]]):
                    if KINDS[y[1]] == "None":
                        continue
                    out.append(model.lossy(y[2]) if KINDS[y[1]] == "Bytes" else disp(y))
            self.trace.append(("run", g[2], tuple(out), cwd(e), binds, e))
            w = MISSING.get(g[2])
            if w is None:
                return Ok(NONEX), e
            return ERR(Error("ProgramNotFound", g[2]) if w == "NotFound" else Error("PermissionDenied", x) if w == "PermissionDenied" else Error("CommandFailed", g[2], args)), e
        if k == "Builtin":
            return self.builtin(g, args, e)
        if k in ("Lambda", "Macro") and args:
            if k == "Lambda":
                n = define(g[4], "CWD", STR(cwd(e)))
                r, e = ev(args[0], e)
                if r[1]:
                    return r, e
                n = define(n, g[2], r[2])
                r, n = ev(g[3], n)
            else:
                r, e = ev(args[0], e)
                if r[1]:
                    return r, e
                e = define(e, g[2], r[2])
                r, e = ev(g[3], e)
            if r[1] or len(args) == 1:
                return r, e
            return ev(EX("Apply", r[2], V(args[1:])), e)
        return ERR(Error("CannotApply", f, args)), e

    SEEN = ("v", "s", "p", "x", "y", "CWD", "noted", "k")

    def builtin(self, g, args, e):
        n = g[2][0]
        self.trace.append(("call", n, V(args), tuple((m, lookup(e, m) or U(("undefined",))) for m in self.SEEN), tuple(sorted(m for m in self.SEEN if m in e[0].d))))
        if n == "fails":
            return ERR(Error("CustomError", "failed")), e
        if n == "sets":
            e = define(e, "noted", args[0] if args else NONEX)
        return Ok(args[0] if args else NONEX), e


def debug(v):
    """text of a value's Debug form"""
    if isinstance(v, A) and v[0] == "Expression" and KINDS[v[1]] == "String":
        v = v[2]
    elif isinstance(v, A) and v[0] == "Expression" and KINDS[v[1]] in ("Symbol", "Integer", "Float", "Boolean", "None"):
        return model.disp(v)
    if isinstance(v, str):
        if not all(c == "\n" or " " <= c <= "~" for c in v):
            return "\u27e8text %r\u27e9" % v
        return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
    if isinstance(v, (bool, int)) and not isinstance(v, Ch):
        return model.disp(v)
    if type(v) in (V, tuple) and all(type(x) is int for x in v):
        return "[%s]" % ", ".join(map(str, v))
    if isinstance(v, (U, A)) and v[0] == "Expression" or isinstance(v, U):
        return "\u27e8debug %r\u27e9" % (v,)
    raise Unk("debug form")


def plain(S, t, env):
    """a plain function of values, or None"""
    if t.op == "fmt1" and t.a[0] == "debug":
        return debug(S.ev(t.a[1], env))
    if t.op == "mut" and t.a[0] in ("BTreeMap::pop_first", "BTreeMap::pop_last", "BTreeMap::clear"):
        d = model.need(S.ev(t.a[1], env), Mp).d
        q = sorted(d, key=lambda k: k.encode("utf-8", "surrogatepass"))
        q = q[:0] if t.a[0].endswith("clear") else q[1:] if t.a[0].endswith("first") else q[:-1]
        return Mp({k: d[k] for k in q})
    if t.op == "mut" and t.a[0] in ("Vec::dedup", "Vec::sort", "Vec::sort_unstable", "Vec::clear", "Vec::reverse", "slice::reverse"):
        l = model.need(S.ev(t.a[1], env), V)
        if t.a[0].endswith("clear"):
            return V()
        if t.a[0].endswith("reverse"):
            return V(l[::-1])
        if t.a[0].endswith("dedup"):
            return V(x for i, x in enumerate(l) if not i or x != l[i - 1])
        if all(isinstance(x, str) for x in l):
            return V(sorted(l, key=lambda x: x.encode("utf-8", "surrogatepass")))


class EvalSummary(r_fs.FsSummary):
    def __init__(self, cx, x, e):
        r_fs.FsSummary.__init__(self, cx, {}, World(e), {"self": x, "env": r_fs.ENV, "depth": 0})
        self.lang = Lang(None)
        self.fuel = 200000

    kinds = ("ext", "prim", "callback")

    def run(self, st, ret):
        self.top = st
        self.incollect = inside(st)
        env = self.endenv = {}
        if not self.holds(st.events(), st.conds(), st, env):
            return None
        if ret.op == "continue":
            d = {p.a[0].a[0]: p.a[1] for p in ret.a if p.a[0].op == "sym"}
            e = d.get("env")
            k = "env" if e is None or self.tryenv(e, env) else None
            if k is None:
                raise Unk("continues in another environment")
            return (self.evaluate(self.ev(d["self"], env) if "self" in d else self.syms["self"], k),)
        r = self.ev(ret, env)
        for k, v in st.mem.items():
            # the environment itself overwritten
            if k[0] == "D" and self.tryenv(k[1], env) and v is not k[1]:
                self.fs.places["env"] = self.fs.places[self.place(v, env)]
        return (r,)

    def tryenv(self, t, env):
        return t.op == "sym" and t.a[0] == "env"

    def evaluate(self, x, place):
        if not (isinstance(x, A) and x[0] == "Expression"):
            raise Unk("expression")
        w = self.fs
        self.lang.trace = w.trace
        r, w.places[place] = self.lang.run(x, w.places[place])
        return r

    def place(self, t, env):
        """the environment a term stands for"""
        if self.tryenv(t, env):
            return "env"
        w = self.fs
        if t.id in self.bind or t.id in w.origin and t.id in w.places and t.op not in ("call", "field"):
            if t.id not in w.places:
                w.places[t.id] = w.origin[t.id] = need(self.bind[t.id], Env)
            return t.id
        was = w.places.pop(t.id, None)
        v = self.ev(t, env)
        if was is not None and w.origin.get(t.id) == v:
            v = was
        else:
            w.origin[t.id] = v
        w.places[t.id] = need(v, Env)
        return t.id

    def ev0(self, t, env):
        if t.op == "sym" and t.a[0] == "env":
            return self.fs.places["env"]
        if t.id in self.fs.places:
            return self.fs.places[t.id]
        if t.id in self.bind:
            return self.bind[t.id]
        if canon.is_eval(t):
            raise Unk("evaluation out of order")
        x = plain(self, t, env)
        if x is not None:
            return x
        if t.op == "cmd":
            mods = {}
            for k, v in mods_of(canon.Canon(()), t).items():
                mods.setdefault(k, [])
            for m in t.a[1:]:
                for x in m if isinstance(m, tuple) else m.a:
                    x = x.a if hasattr(x, "op") else x
                    mods[x[0]].append(tuple(self.ev(y, env) for y in x[1:]))
            return A(("Command", 0, self.ev(t.a[0], env), Mp({k: V(v) for k, v in mods.items()})))
        return r_fs.FsSummary.ev0(self, t, env)

    def matters(self, e):
        return id(e) not in self.incollect and (e.kind == "callback" or e.res is not None and canon.is_eval(e.res) or e.name.startswith(("Environment", "Command::", "Child::")))

    def eager(self, e):
        if e.x.get("gvecs") and any(x.kind == "next" for x in e.x.get("evs", ())):
            return True
        return any(q.kind == "callback" or q.res is not None and canon.is_eval(q.res) or q.name.startswith(("Environment", "Command::")) for q in e.x.get("evs", ()))

    def step(self, evs, env):
        """what drawing one element does"""
        for q in evs:
            if q.kind in self.kinds:
                try:
                    v = self.apply(q, env)
                except Unk:
                    if q.res is not None:
                        self.bind.pop(q.res.id, None)
                    if q.kind == "callback" or q.res is not None and canon.is_eval(q.res) or q.name.startswith(("Environment", "Command::")):
                        raise
                    continue
                if q.res is not None:
                    self.bind[q.res.id] = v
            elif q.kind in ("loop", "maybe"):
                raise Unk("loop in an iterator")

    def apply(self, e, env):
        w, n = self.fs, e.name
        if id(e) in self.incollect and not getattr(self, "stepping", False) and False:
            raise Unk("element")
        if e.kind == "callback":
            fs = [self.ev(a, env) for a in e.args[:1]]
            if not (isinstance(fs[0], U) and fs[0][0] == "fn"):
                raise Unk("callback")
            xs = self.ev(e.args[1], env)
            p = self.place(e.args[2], env)
            self.lang.trace = w.trace
            r, w.places[p] = self.lang.builtin(BUILTIN(fs[0][1]), need(xs, V), w.places[p])
            return r
        if e.res is not None and canon.is_eval(e.res):
            x = self.ev(e.args[0], env)
            return self.evaluate(x, self.place(e.args[1], env))
        if n.startswith("Environment"):
            m = n.split("::")[-1]
            if m == "clone":
                v = w.places[self.place(e.args[0], env)]
                w.places[e.res.id] = w.origin[e.res.id] = v
                return v
            if m in ("new", "default"):
                w.places[e.res.id] = w.origin[e.res.id] = globals()["env"]({})
                return w.places[e.res.id]
            p = self.place(e.args[0], env)
            xs = [self.ev(a, env) for a in e.args[1:]]
            if m == "get":
                v = lookup(w.places[p], xs[0])
                return NO if v is None else Some(v)
            if m == "is_defined":
                return lookup(w.places[p], xs[0]) is not None
            if m == "get_cwd":
                return cwd(w.places[p])
            if m == "define":
                w.places[p] = define(w.places[p], need(xs[0], str), need(xs[1], A))
                return UNIT
            if m == "set_cwd":
                w.places[p] = define(w.places[p], "CWD", STR(need(xs[0], str)))
                return UNIT
            if m == "set_parent":
                w.places[p] = Env((w.places[p][0], need(xs[0], Env)))
                return UNIT
            if m == "undefine":
                w.places[p] = undefine(w.places[p], xs[0])
                return UNIT
            raise Unk(n)
        if n == "Expression::get_used_symbols":
            return V(used(self.ev(e.args[0], env)))
        if n == "Expression::flatten":
            return V(flatten(need(self.ev(e.args[0], env), V)))
        if n in ("Command::status", "Command::spawn", "Command::output"):
            c = self.ev(e.args[0], env)
            if not (isinstance(c, A) and c[0] == "Command"):
                raise Unk("command")
            name, mods = c[2], c[3].d
            args = []
            if "args" in mods and "arg" in mods:
                raise Unk("arguments")
            for v in mods.get("args", ()):
                args += list(v[0])
            for v in mods.get("arg", ()):
                args.append(v[0])
            envs = {}
            if "envs" in mods and "env" in mods:
                raise Unk("variables")
            for v in mods.get("envs", ()):
                envs.update(v[0].d if isinstance(v[0], Mp) else dict(v[0]))
            for v in mods.get("env", ()):
                envs[v[0]] = v[1]
            d = [v[0] for v in mods.get("current_dir", ())][-1:]
            w.trace.append(("run", name, tuple(args), d[0] if d else None, envs))
            for k in mods:
                if k not in ("args", "arg", "envs", "env", "current_dir"):
                    w.trace.append(("setting", k))
            if n == "Command::output":
                w.trace.append(("setting", "output"))
            if name in MISSING:
                return ERR(U(("start", name)))
            if n == "Command::spawn":
                w.trace.append(("unwaited",))
                return Ok(U(("child",)))
            return Ok(U(("status",)))
        if n == "Child::wait":
            if ("unwaited",) not in w.trace:
                raise Unk("child")
            w.trace.remove(("unwaited",))
            return Ok(U(("status",)))
        if n == "Error::kind":
            x = self.ev(e.args[0], env)
            if not (isinstance(x, U) and x[0] == "start"):
                raise Unk("error kind")
            return A(("ErrorKind", model.VIDX("core::io::error::ErrorKind", MISSING[x[1]]) if hasattr(model, "VIDX") else r_fs.VIDX("core::io::error::ErrorKind", MISSING[x[1]])))
        if n == "String::from_utf8_lossy":
            x = self.ev(e.args[0], env)
            return model.lossy(x)
        f = r_fs.PURE.get(n)
        if f is not None:
            return f(w, *[self.ev(a, env) for a in e.args])
        raise Unk(n)


INSIDE = {}


def inside(st):
    """the events of closures that run once per element of a collect"""
    r = INSIDE.get(id(st))
    if r is None or r[0] is not st:
        r = INSIDE[id(st)] = (st, {id(q) for e in canon_walk(st.events()) if e.kind == "acc" for q in e.x.get("evs", ())})
    return r[1]


def kinds_of(o):
    """the kinds of expression a path is for, or None"""
    for t, v in o.st.conds():
        if t.op == "sym" and t.a[0] == "self" and isinstance(v, frozenset):
            return v
    return None


def canon_walk(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            for it in e.x.get("iters") or ():
                for q in canon_walk(it[0]):
                    yield q


# ---------------------------------------------------------------- models
CAPT = env({"v": INT(50), "CWD": STR("/captured"), "k": INT(70)})
BIG = env({"b%d" % i: INT(i) for i in range(300)})
E0 = env({"CWD": STR("/w"), "v": INT(5), "s": STR("text"), "l": LIST(INT(1), INT(2), STR("b c")), "alias": SYM("prog"), "none": NONEX, "k": INT(8), "id": LAM("x", SYM("x"), CAPT)},
         env({"p": INT(9), "v": INT(100), "CWD": STR("/parent"), "n": BUILTIN("note"), "set": BUILTIN("sets"), "bad": BUILTIN("fails"),
              "see": LAM("x", APP(BUILTIN("note"), SYM("x"), SYM("v")), CAPT),
              "def": LAM("x", DO(LET("v", SYM("x")), LET("y", SYM("v")), APP(BUILTIN("sets"), SYM("y"))), CAPT),
              "add": LAM("x", LAM("y", LIST(SYM("x"), SYM("y"), SYM("v")), CAPT), CAPT),
              "three": LAM("x", LAM("y", LAM("k", APP(BUILTIN("note"), SYM("x"), SYM("y"), SYM("k")), env({})), env({})), env({})),
              "err": LAM("x", APP(BUILTIN("fails"), SYM("x")), CAPT), "mac": MACRO("x", DO(LET("y", SYM("x")), APP(BUILTIN("sets"), SYM("v")))),
              "mac2": MACRO("x", LAM("y", LIST(SYM("x"), SYM("y")), env({}))), "macerr": MACRO("y", APP(BUILTIN("fails"), SYM("y"))),
              "where": LAM("x", APP(SYM("pwd"), SYM("x")), CAPT),
              "wide": LAM("x", LIST(SYM("x"), SYM("v"), SYM("s"), SYM("b3")), BIG), "wide2": LAM("x", LAM("y", DO(LET("b2", SYM("x")), LIST(SYM("b2"), SYM("y"), SYM("v"), SYM("s"))), BIG), BIG),
              "macs": MACRO("m", LIST(SYM("s"), SYM("l"), SYM("m")))}))
N = lambda *xs: APP(SYM("n"), *xs)
FAIL = APP(SYM("bad"), INT(1))
FAIL2 = APP(INT(3), INT(4))
VALUES = [INT(0), INT(3), EX("Float", 0.0), EX("Float", 2.5), EX("Bytes", V()), EX("Bytes", V((65,))), STR(""), STR("x"), BOOL(True), BOOL(False), LIST(), LIST(INT(0)), MAP(), MAP(a=INT(1)), NONEX,
          MACRO("x", SYM("x")), BUILTIN("note")]
SUBS = [INT(1), SYM("v"), SYM("unbound"), SYM("p"), LET("v", INT(7)), N(STR("t")), FAIL, FAIL2, APP(SYM("prog"), SYM("v")), QUOTE(SYM("v")), GROUP(SYM("s")), LIST(SYM("v"), N(INT(2))),
        APP(SYM("set"), INT(4)), APP(SYM("def"), INT(6)), DO(LET("y", SYM("v")), N(SYM("y"))), MAP(a=SYM("v"), b=N(INT(3)))]
ODD = ["\0", "a\0b", " ", "\t", " x ", "~", "~/x", "$HOME", "${v}", "*", "*.rs", "[a]", "?", "-x", "--", "-", "\"q\"", "'", "\\", "a\\b", "\n", "x\n", "\r\n", "%s", "{}", "é", "日本", "/abs", ".", "..", "&", "|", ";", ">f", "#", "=", "A=b", "x" * 5000,
       "\x1b[0m", "True", "None", "0", "-1", "@a", "!", "\ufffd", "\u202e", "v", "CWD"]
FEW = [SYM("v"), LET("v", INT(7)), N(STR("t")), FAIL, APP(SYM("set"), SYM("v"))]


def programs():
    for x in VALUES + SUBS:
        yield x
        yield QUOTE(x)
        yield GROUP(x)
        yield LET("v", x)
        yield LET("q", x)
        yield IF(x, N(INT(1)), N(INT(2)))
        yield IF(INT(1), x, N(INT(2)))
        yield IF(INT(0), N(INT(1)), x)
        yield LIST(x)
        yield MAP(z=x, a=N(INT(1)))
        yield DO(x)
        yield LAM("x", x)
        yield LAM("v", x)
        yield LAM("x", x, CAPT)
        yield MACRO("x", x)
        yield FOR("i", x, SYM("i"))
        yield FOR("i", LIST(INT(1), INT(2)), x)
        for f in ("id", "see", "def", "err", "mac", "mac2", "macerr", "n", "set", "bad", "prog", "alias", "v", "add", "where", "nosuch"):
            yield APP(SYM(f), x)
        yield APP(x, INT(1))
        yield APP(x)
        yield APP(x, N(INT(1)), INT(2))
    for a in FEW:
        for b in FEW:
            yield LIST(a, b)
            yield MAP(b=a, a=b)
            yield DO(a, b)
            yield IF(a, b, FAIL)
            yield FOR("i", LIST(a, b), N(SYM("i")))
            yield FOR("v", LIST(a, b, INT(3)), N(SYM("v")))
            for f in ("id", "see", "def", "add", "err", "mac", "mac2", "macerr", "n", "bad", "prog", "noperm", "three"):
                yield APP(SYM(f), a, b)
            for c in FEW:
                yield DO(a, b, c)
                yield LIST(a, b, c)
                yield MAP(a=a, b=b, c=c)
                for f in ("add", "three", "mac2", "id", "prog"):
                    yield APP(SYM(f), a, b, c)
                yield APP(SYM("three"), a, b, c, a)
                yield APP(a, b, c)
    many = [INT(i % 7) for i in range(40)]
    for f in ("n", "prog", "id", "three", "mac2"):
        yield APP(SYM(f), *many)
        yield APP(SYM(f), *[STR("a%d" % i) for i in range(300)]) if f == "prog" else LIST(*[N(INT(i)) for i in range(9)])
    yield FOR("i", LIST(*many), N(SYM("i")))
    yield FOR("i", LIST(*many), DO(LET("v", SYM("i")), SYM("v")))
    yield LIST(*many)
    yield DO(*[N(x) for x in many])
    yield DO(*[LET("v", x) for x in many] + [SYM("v")])
    yield MAP(**{"k%d" % i: SYM("v") for i in range(20)})
    for x in ("_", "it", "self", "x", "", "$", "PATH", "HOME", "env", "é", "a b", "cd", "exit", "let", "0"):
        yield SYM(x)
        yield LET(x, N(INT(1)))
        yield FOR(x, LIST(INT(1), INT(2)), SYM(x))
        yield APP(SYM(x), N(INT(1)))
        yield APP(STR(x), N(INT(1)))
        yield APP(LAM(x, LIST(SYM(x), SYM("v"))), INT(4))
        yield APP(MACRO(x, LIST(SYM(x), SYM("v"))), INT(4))
        yield LAM(x, LIST(SYM(x), SYM("v")))
        yield LAM("q", LIST(SYM(x), SYM("v")))
    for x in ODD:
        for f in ("prog", "n", "id", "alias"):
            yield APP(SYM(f), STR(x))
        yield APP(SYM("prog"), STR("a"), LIST(STR(x), SYM(x)), EX("Bytes", V(x.encode())))
        yield LET("v", STR(x))
        yield LET("q", STR(x))
        yield FOR("i", LIST(STR(x)), SYM("i"))
        yield IF(STR(x), INT(1), INT(2))
    for x in ((255,), (65, 255, 66), (0,), (195,), (13, 10), (239, 187, 191, 65)):
        for f in ("prog", "n", "id"):
            yield APP(SYM(f), EX("Bytes", V(x)), INT(1))
    for x in (-1, 10, -(1 << 63), (1 << 63) - 1, 1000000):
        for f in ("prog", "n", "id"):
            yield APP(SYM(f), INT(x))
        yield IF(INT(x), INT(1), INT(2))
    for x in (1e300, -0.0, 0.1, 1e-7, 1.0):
        for f in ("prog", "n", "id"):
            yield APP(SYM(f), EX("Float", x))
        yield IF(EX("Float", x), INT(1), INT(2))
    for x in (float("nan"), float("inf"), float("-inf"), 5e-324, -2.5):
        yield IF(EX("Float", x), N(INT(1)), N(INT(2)))
    for c in (LET("CWD", STR("/z")), DO(LET("CWD", STR("/z")), LET("v", STR("/z")))):
        for f in (LAM("x", DO(c, SYM("x"))), LAM("x", DO(c, SYM("x")), CAPT), MACRO("x", DO(c, SYM("x")))):
            for xs in ([INT(1)], [c], [N(INT(1))]):
                yield APP(f, *xs)
                yield DO(APP(f, *xs), SYM("CWD"))
                yield LIST(APP(f, *xs), APP(SYM("prog"), INT(2)))
        f = LAM("x", LAM("y", DO(c, LIST(SYM("x"), SYM("y")))))
        yield APP(f, INT(1), INT(2))
        yield DO(APP(f, INT(1), INT(2)), APP(SYM("prog"), INT(2)))
        f = LAM("x", DO(c, LAM("y", LIST(SYM("x"), SYM("y"), SYM("CWD")))))
        yield APP(f, INT(1), INT(2))
        yield DO(APP(f, INT(1), INT(2)), SYM("CWD"))
    for c in (BIG, env({"b%d" % i: INT(i) for i in range(40)})):
        for b in (LIST(SYM("x"), SYM("v"), SYM("b3"), SYM("p")), LET("v", SYM("x")), DO(LET("b1", INT(9)), APP(SYM("prog"), SYM("b1"))), LET("b3", APP(SYM("n"), SYM("x")))):
            yield LAM("x", b, c)
            yield APP(LAM("x", b, c), INT(1))
            yield DO(APP(LAM("x", b, c), INT(1)), LIST(SYM("b1"), SYM("v")))
            yield APP(LAM("x", LAM("y", b, c), c), INT(1), INT(2))
    for f in ("wide", "wide2"):
        for a in FEW:
            yield APP(SYM(f), a)
            yield APP(SYM(f), a, SYM("v"))
            yield DO(APP(SYM(f), a), LIST(SYM("b2"), SYM("v")))
            yield DO(LET("b3", INT(4)), LET("s", INT(4)), APP(SYM(f), a, SYM("b3")))
    for n in (1, 2, 3, 4, 5, 6, 9, 20, 70):
        for b in (DO(*[SYM(("v", "p", "k", "alias", "x")[i % 5] if i < 5 else "u%d" % i) for i in range(n)] + [APP(SYM("macs"), SYM("x"))]), APP(SYM("macs"), LIST(*[SYM(("v", "p", "k", "alias", "x", "none", "u")[i % 7]) for i in range(n)]))):
            yield APP(LAM("x", b), INT(1))
            yield APP(LAM("x", LAM("y", b)), INT(1), INT(2))
            yield DO(LET("f", LAM("x", b)), LET("s", INT(3)), LET("v", INT(4)), APP(SYM("f"), SYM("v")))
            yield DO(LET("g", INT(3)), LET("f", LAM("x", LIST(b, SYM("g"), SYM("late")))), LET("g", INT(4)), LET("late", INT(5)), APP(SYM("f"), SYM("g")))
    for n in (5, 20, 70):
        yield LAM("x", LIST(*[SYM("u%d" % i) for i in range(n)] + [SYM("v"), SYM("p"), SYM("x")]))
        yield LAM("x", DO(*[LET("u%d" % i, SYM("v")) for i in range(n)] + [SYM("p")]))
        yield APP(LAM("x", DO(*[LET("v", INT(i)) for i in range(n)] + [SYM("v")])), INT(1))
        yield DO(*[LET("u%d" % i, INT(i)) for i in range(n)] + [LIST(*[SYM("u%d" % i) for i in range(n)])])
    for f in ("n", "set", "bad", "prog"):
        for x in (GROUP(SYM("v")), GROUP(LET("v", INT(7))), QUOTE(SYM("v")), LIST(SYM("v")), DO(SYM("v"), SYM("s")), MAP(a=SYM("v")), LAM("x", SYM("v")), MACRO("x", SYM("v"))):
            yield APP(SYM(f), x)
            yield APP(SYM(f), INT(1), x, x)
            yield APP(BUILTIN("note"), x)
        yield APP(SYM(f))
        yield DO(APP(SYM(f)), SYM("v"))
    for x in (" prog", "prog ", "two words", "\tprog", "PROG", "Prog", "pr.og", "./prog", "/bin/prog", "prog\n", "日本"):
        yield APP(STR(x))
        yield APP(STR(x), INT(1))
        yield APP(SYM(x), STR(x))
        yield LIST(APP(SYM(x), STR(x)), INT(1))
    for v in ((1, 2, 3), tuple(range(256)), (65,) * 5000, (27, 91, 48, 109)):
        yield APP(SYM("prog"), EX("Bytes", V(v)), INT(1))
        yield APP(SYM("n"), EX("Bytes", V(v)))
    yield DO()
    for x in ("id", "mac", "n", "l", "alias", "none"):
        yield IF(SYM(x), N(INT(1)), N(INT(2)))
    for f in ("id", "see", "add", "mac", "n", "bad", "prog", "alias", "v", "l", "none", "nosuch", "noperm", "broken"):
        yield APP(SYM(f))
        yield APP(SYM(f), *[INT(i) for i in range(5)])
        yield APP(SYM(f), LIST(INT(1), LIST(STR("a b"), NONEX, LIST()), SYM("v")), NONEX, STR(""), EX("Bytes", V((65, 66))), BOOL(True), SYM("unbound"), EX("Float", 1.5))
        yield APP(STR(f), STR("x y"), STR("*"), STR("$HOME"))
    for b in (N(SYM("i")), LET("i", INT(9)), LET("l", LIST()), DO(LET("v", SYM("i")), SYM("v")), IF(SYM("i"), SYM("i"), FAIL), APP(SYM("prog"), SYM("i")), LAM("x", LIST(SYM("x"), SYM("i"))), FAIL2, NONEX):
        for l in (SYM("l"), LIST(), LIST(INT(0), INT(1), INT(0)), LIST(INT(1), INT(1), INT(1)), LIST(INT(1), INT(0), INT(2)), INT(3), MAP(a=INT(1)), STR("abc"), NONEX, LIST(LIST(INT(1)), NONEX), SYM("none")):
            yield FOR("i", l, b)
            yield FOR("l", l, b)
    for b in (LIST(SYM("x"), SYM("v"), SYM("p"), SYM("unbound")), LAM("y", LIST(SYM("x"), SYM("y"), SYM("v"), SYM("k"))), LAM("v", SYM("v")), MACRO("v", LIST(SYM("v"), SYM("k"))), FOR("v", SYM("l"), LIST(SYM("v"), SYM("k"))),
              DO(LET("v", INT(1)), SYM("v")), DO(LET("z", SYM("v")), LET("v", INT(2))), APP(SYM("n"), SYM("v"), SYM("k")), APP(SYM("prog"), SYM("CWD")), MAP(a=SYM("v"), b=SYM("s")), IF(SYM("v"), SYM("s"), SYM("p")),
              QUOTE(SYM("v")), GROUP(SYM("k")), APP(LAM("k", SYM("k")), SYM("k")), SYM("x"), INT(1), STR("v"), SYM("none"), LIST(), SYM("l")):
        for p in ("x", "v", "k"):
            for c in (env({}), CAPT, env({"v": INT(1), "x": INT(2)}), env({"s": STR("own")}, env({"k": INT(33)}))):
                yield LAM(p, b, c)


def symbols():
    """expressions for the symbols an expression uses"""
    a, b, c = SYM("a"), SYM("b"), SYM("c")
    leaf = [INT(1), EX("Float", 1.0), EX("Bytes", V()), STR("a"), BOOL(True), NONEX, BUILTIN("a")]
    for x in leaf + [a]:
        yield x
    for x in (a, LIST(a, b), DO(a, b), MAP(a=b), INT(1), LAM("a", b), APP(a, b), QUOTE(a), IF(a, b, c), LET("b", a)):
        yield GROUP(x)
        yield QUOTE(x)
        yield LIST(x)
        yield LIST(INT(1), x, c)
        yield LIST(a, b, x)
        yield MAP(a=x)
        yield MAP(a=c, b=INT(1), c=x)
        yield MAP(a=x, z=c)
        yield LET("x", x)
        yield LET("a", x)
        yield FOR("i", x, INT(1))
        yield FOR("i", INT(1), x)
        yield FOR("a", x, x)
        yield IF(x, INT(1), INT(2))
        yield IF(INT(1), x, INT(2))
        yield IF(INT(1), INT(2), x)
        yield APP(x)
        yield APP(INT(1), x)
        yield APP(INT(1), c, x)
        yield APP(x, b, c)
        yield LAM("x", x)
        yield LAM("a", x)
        yield LAM("b", x, env({"c": a}))
        yield MACRO("x", x)
        yield MACRO("a", x)
        yield DO(x)
        yield DO(c, x)
        yield DO(x, c)
        yield DO(LET("a", INT(1)), x)
        yield DO(LET("z", x), LET("a", INT(1)), LET("b", INT(1)))
        yield DO(x, LET("a", INT(1)), LET("b", INT(1)), a, b)
        yield DO(LET("a", x), a)
        yield LIST(LET("a", INT(1)), x)
        yield DO(IF(c, LET("a", INT(1)), INT(2)), x)
        yield DO(FOR("a", c, INT(1)), x)
        yield DO(LAM("a", INT(1)), x)
    yield DO()
    yield LIST()
    yield MAP()
    yield APP(a)
    for n in (9, 17, 40, 130):
        l = [SYM("a%d" % i) for i in range(n)]
        yield DO(*l)
        yield DO(*[LET("x%d" % i, y) for i, y in enumerate(l)])
        yield LIST(*l)
        yield APP(*l)
        yield APP(INT(1), *l)
        yield MAP(**{"k%03d" % i: y for i, y in enumerate(l)})
        yield LAM("x", LIST(*l))
        yield LIST(*[LIST(y) for y in l])
    d = a
    for i in range(7):
        d = (LIST, GROUP, QUOTE, DO)[i % 4](d)
        yield d
    for n in ("A", "a b", "é", "_", "CWD", "it", "PATH", "", "0", "-x", "long" * 40, "let", "a-b", "@", "x?"):
        yield SYM(n)
        yield LIST(a, SYM(n), b)
        yield LAM("x", SYM(n))
        yield APP(SYM(n), SYM(n))


def same(g, w, e):
    """is a value the wanted one?  a closure may know more of the environment it was made in"""
    if isinstance(w, A) and w[0] == "Expression" and KINDS[w[1]] == "Lambda" and isinstance(g, A) and g[:2] == w[:2] and isinstance(g[4], Env):
        if not (same(g[2], w[2], e) and same(g[3], w[3], e)):
            return False
        for n, x in w[4][0].d.items():
            if n in ("CWD", w[2]):
                continue
            y = lookup(g[4], n)
            if y is None or not same(y, x, e):
                return False
        for n, y in g[4][0].d.items():
            if n in ("CWD", w[2]) or n in w[4][0].d:
                continue
            x = lookup(e, n)
            if x is None or not same(y, x, e):
                return False
        return True
    if isinstance(w, Mp):
        return isinstance(g, Mp) and set(g.d) == set(w.d) and all(same(g.d[n], w.d[n], e) for n in w.d)
    if isinstance(w, tuple) and not isinstance(w, U):
        return type(g) is type(w) and len(g) == len(w) and all(same(x, y, e) for x, y in zip(g, w))
    if isinstance(g, U) and not isinstance(w, U):
        raise Unk("value")
    return eq3(g, w) is True


def difference(x, got, w, want, wenv, wtr):
    """-> None or (kind, message)"""
    tr = w.trace
    for j in range(max(len(tr), len(wtr))):
        g, q = (tr[j:j + 1] or [None])[0], (wtr[j:j + 1] or [None])[0]
        if g is None or q is None or g[0] != q[0]:
            k = "run" if (g or q)[0] in ("run", "setting", "unwaited") or (q or g)[0] == "run" else "call"
            return k, "evaluates, runs or calls something else, or in another order"
        if g[0] == "run":
            for i, m in ((1, "runs another program"), (2, "gives a program other arguments"), (3, "runs a program in another directory")):
                if g[i] != q[i]:
                    return "run:" + ("name", "args", "cwd")[i - 1], m
            if {n: g[4].get(n) for n in q[4]} != q[4] and {n: g[4].get(n) for n in q[5][0].d} != {n: show(v) for n, v in q[5][0].d.items()}:
                return "run:env", "does not give a program the shell's bindings"
        elif g[0] == "call":
            if not same(g[1], q[1], wenv) or not same(g[2], q[2], wenv):
                return "call", "calls a builtin with something else than the arguments as written"
            if not same(g[3], q[3], wenv) or g[4] != q[4]:
                return "env", "evaluates in another environment"
    if not (isinstance(got, A) and got[0] == "Result"):
        raise Unk("result")
    if got[1] != want[1]:
        return "result", "fails where it has a value" if got[1] else "has a value where it fails"
    if not same(got[2], want[2], w.places["env0"]):
        return ("captured" if KINDS[x[1]] == "Lambda" else "result"), "has another result" if not got[1] else "fails with another error"
    g = w.places["env"]
    if not same(g, wenv, w.places["env0"]):
        return "env", "changes the environment differently"
    return None


def judge(cx, outs, skip=()):
    """-> (findings {kind: (message, detail, outcome)}, counters, why)"""
    cnt = {"programs": 0, "programs_judged": 0, "programs_unknown": 0}
    why = ""
    found, failing = {}, judge.failing
    failing.clear()
    cover, taken, unknown = set(), set(), set()
    outs = [(o, kinds_of(o), cx.E.snap(o.st, o.ret)) for o in outs]
    for x in programs():
        cnt["programs"] += 1
        tr = []
        want, wenv = Lang(tr).run(x, E0)
        unk = hit = None
        for o, ks, ret in outs:
            if ks is not None and x[1] not in ks:
                continue
            S = EvalSummary(cx, x, E0)
            S.cover = cover
            try:
                r = S.run(o.st, ret)
            except (Unk, RecursionError) as u:
                unk = str(u)
                continue
            except Undef:
                continue
            if r is None:
                continue
            if S.soft is not None:
                unk = str(S.soft)
                continue
            hit = (r[0], S.fs, o)
            break
        if hit is not None:
            got, w, o = hit
            w.places["env0"] = E0
            try:
                d = difference(x, got, w, want, wenv, tr)
            except Unk as u:
                hit, unk = None, str(u)
        if hit is None:
            cnt["programs_unknown"] += 1
            unknown.add(x[1])
            why = why or "%s for %r" % (unk or "no path taken", x)
            continue
        cnt["programs_judged"] += 1
        taken.add(id(o))
        if d:
            k = KINDS[x[1]]
            h = ""
            if k == "Apply":
                f = x[2]
                f = lookup(E0, f[2]) or f if KINDS[f[1]] == "Symbol" else f
                h = KINDS[f[1]]
            for fs in (found, failing) if want[1] else (found,):
                fs.setdefault((k, h, d[0]), (d[1], {"expression": repr(x)[:300], "returns": repr(got)[:300], "expected": repr(want)[:300], "does": repr(w.trace)[:500], "expected steps": repr(tr)[:500],
                                                       "environment": repr(w.places["env"])[:200] if d[0] == "env" else None}, o))
    covered = {id(o) for o, ks, ret in outs if id(o) in taken and not (ks or unknown) & unknown and ways(o) <= cover}
    return found, cnt, why, covered


judge.failing = {}      # the findings where the reference fails


def ways(o):
    """the ways round the loops of a path"""
    return {(e.name, model.variant(it[1])) for e in canon_walk(o.st.events()) if e.kind == "loop" for it in e.x.get("iters") or ()}


class UsedSummary(r_fs.FsSummary):
    """a function of expressions that calls itself on their parts"""

    def __init__(self, cx, x, u, outs, name, depth=0):
        r_fs.FsSummary.__init__(self, cx, {i: None for i in range(len(x))} if name == "args" else {}, World(env({})), {name: x}, depth)
        if name == "args":
            self.raw = dict(enumerate(x))
        self.u, self.outs_, self.name = u, outs, name
        self.lent = {}

    def apply(self, e, env):
        if e.x.get("uid") == self.u:
            if self.depth > 8:
                raise Unk("recursion")
            r, o = symbols_of(self.cx, self.ev(e.args[0], env), self.u, self.outs_, self.name, self.depth + 1)
            if r is None:
                raise Unk(o)
            return r
        f = r_fs.PURE.get(e.name)
        if f is not None:
            return f(self.fs, *[self.ev(a, env) for a in e.args])
        if e.kind == "prim" and e.x.get("uid") in self.cx.p.bodies:
            return self.enter(e, [self.ev(a, env) for a in e.args])
        raise Unk(e.name)

    def enter(self, e, xs):
        """a further function: its value, and what it leaves in what it was lent"""
        v = e.x["uid"]
        if self.depth > 12:
            raise Unk("recursion")
        b = self.cx.p.bodies[v]
        ls = b["locals"][1:1 + b["argc"]]
        old = self.cx.E.prims
        self.cx.E.prims = set(old) | {self.u}
        try:
            outs = self.cx.outs(v, None, "rec:" + self.u)
        finally:
            self.cx.E.prims = old
        unk = "no path taken"
        for o in outs:
            if o.kind != "ret":
                continue
            S = UsedSummary(self.cx, xs[0], self.u, self.outs_, ls[0][1], self.depth + 1)
            S.name = self.name
            S.syms = dict(getattr(S, "syms", None) or {}, **{l[1]: x for l, x in zip(ls, xs)})
            S.cover = COVER
            try:
                r = S.run(o.st, self.cx.E.snap(o.st, o.ret))
                if r is None:
                    continue
                if S.soft is not None:
                    raise S.soft
                for l, x in zip(ls, xs):
                    d = self.cx.p.types[l[0]]
                    if d["k"] == "ref" and d["m"]:
                        w = [q for q in o.st.mem if q[0] == "D" and q[1].op == "sym" and q[1].a[0] == l[1]]
                        if w:
                            rest = o.st.copy()      # its name in the value is what was lent
                            t = rest.mem.pop(w[0])
                            x = S.ev(self.cx.E.snap(rest, t), S.endenv)
                        self.lent[e.res.id] = x
            except (Unk, RecursionError) as w:
                unk = str(w)
                continue
            except Undef:
                continue
            return r[0]
        raise Unk(unk)

    def ev0(self, t, env):
        if t.op == "mut" and t.a[2].id in self.lent:
            return self.lent[t.a[2].id]
        x = plain(self, t, env)
        if x is not None:
            return x
        return r_fs.FsSummary.ev0(self, t, env)

    def matters(self, e):
        return False

    def eager(self, e):
        return any(q.kind == "prim" for q in e.x.get("evs", ()))

    kinds = ("ext", "prim")
    step = EvalSummary.step


def symbols_of(cx, x, u, outs, name, depth=0):
    unk = "no path taken"
    for o in outs:
        S = UsedSummary(cx, x, u, outs, name, depth)
        S.cover = COVER
        try:
            r = S.run(o.st, cx.E.snap(o.st, o.ret))
        except (Unk, RecursionError) as w:
            unk = str(w)
            continue
        except Undef:
            continue
        if r is None:
            continue
        if S.soft is not None:
            unk = str(S.soft)
            continue
        TAKEN.add(id(o))
        return r[0], o
    return None, unk


COVER, TAKEN = set(), set()


def covered(outs):
    return {id(o) for o in outs if id(o) in TAKEN and ways(o) <= COVER}


def flat(cx, u, outs):
    """-> (finding or None, counters, why)"""
    cnt = {"argument_lists": 0, "argument_lists_judged": 0, "argument_lists_unknown": 0}
    why = ""
    name = cx.p.bodies[u]["locals"][1][1]
    X = VALUES + [SYM("v"), LET("v", INT(1)), QUOTE(LIST(INT(1))), GROUP(LIST(INT(1))), APP(SYM("n"), LIST(INT(1))), DO(LIST(INT(2))), LAM("x", LIST(INT(1))), LIST(LIST()), LIST(LIST(INT(1), LIST(STR("a"))), NONEX), LIST(NONEX)]
    L = [V(), V(X)] + [V([x]) for x in X] + [V([INT(1), x, STR("z")]) for x in X] + [V([x, x]) for x in X] + [V([LIST(x, INT(1)), LIST(INT(2), LIST(LIST(x)))]) for x in X]
    L += [V([LIST(INT(1)), LIST(INT(2)), LIST(INT(1))]), V([INT(i % 3) for i in range(9)]), V([LIST(*[INT(i) for i in range(6)])] * 3)]
    for xs in L:
        cnt["argument_lists"] += 1
        r, o = symbols_of(cx, xs, u, outs, name)
        if r is None or not isinstance(r, V) or any(isinstance(x, U) for x in r):
            cnt["argument_lists_unknown"] += 1
            why = why or "%s for %r" % (o, xs)
            continue
        cnt["argument_lists_judged"] += 1
        if list(r) != flatten(xs):
            return ("flatten", "flattening arguments drops, adds or reorders elements", {"arguments": repr(xs)[:300], "becomes": repr(r)[:300], "expected": repr(flatten(xs))[:300]}, o), cnt, why
    return None, cnt, why


def uses(cx, u, outs):
    """-> (finding or None, counters, why)"""
    cnt = {"expressions": 0, "expressions_judged": 0, "expressions_unknown": 0}
    why = ""
    name = cx.p.bodies[u]["locals"][1][1]
    for x in symbols():
        cnt["expressions"] += 1
        r, o = symbols_of(cx, x, u, outs, name)
        if r is None or not isinstance(r, V) or not all(isinstance(n, str) for n in r):
            cnt["expressions_unknown"] += 1
            why = why or "%s for %r" % (o, x)
            continue
        cnt["expressions_judged"] += 1
        lost = free(x) - set(r)
        if lost:
            return ("used:" + KINDS[x[1]], "the symbols an expression uses lack %s" % ", ".join(sorted(lost)), {"expression": repr(x)[:300], "reports": repr(r)[:200], "free": sorted(free(x))}, o), cnt, why
    return None, cnt, why
