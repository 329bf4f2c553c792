"""Builtins interpreted with real evaluation: the summary of a builtin is run on argument expressions and an environment, every evaluation it asks for is
done by the reference rules of the language, and result, environment and calls are compared with what the builtin is documented to do."""
import posixpath, re
import model, m_eval, r_fs, script
from model import Unk, Undef, U, A, V, Mp
from m_eval import *
from terms import subterms, mk


OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


@op("+")
def plus(a, b):
    k, q = KINDS[a[1]], KINDS[b[1]]
    if k == q == "Integer":
        if not -(1 << 63) <= a[2] + b[2] < 1 << 63:
            return None
        return INT(a[2] + b[2])
    if k == q == "List":
        return EX("List", V(tuple(a[2]) + tuple(b[2])))
    if k == "List":
        return EX("List", V(tuple(a[2]) + (b,)))
    if k == q == "String":
        return STR(a[2] + b[2])
    raise Unk("+ of %s and %s" % (k, q))


@op("-")
def minus(a, b):
    if KINDS[a[1]] == KINDS[b[1]] == "Integer" and -(1 << 63) <= a[2] - b[2] < 1 << 63:
        return INT(a[2] - b[2])
    raise Unk("-")


def order(f):
    def g(a, b):
        if KINDS[a[1]] in ("Integer", "Float") and KINDS[b[1]] in ("Integer", "Float"):
            if a[1] != b[1]:
                raise Unk("mixed comparison")
            return BOOL(f(a[2], b[2]))
        raise Unk("comparison")
    return g


OPS.update({">": order(lambda a, b: a > b), "<": order(lambda a, b: a < b), ">=": order(lambda a, b: a >= b), "<=": order(lambda a, b: a <= b)})


class CallLang(Lang):
    """with builtins whose application depends on the values of their arguments"""
    level = 0       # of the log

    def out(self, s):
        self.trace.append(("out", s))

    def builtin(self, g, args, e):
        n = g[2][0]
        if n in OPS or n in ("pair", "picky", "big", "tick"):
            vs = []
            for a in args:
                r, e = self.run(a, e)
                if r[1]:
                    return r, e
                vs.append(r[2])
            if n in OPS:
                if len(vs) != 2:
                    raise Unk("operator")
                r = OPS[n](*vs)
                return (ERR(Error("CustomError", "overflow")) if r is None else Ok(r)), e
            if n == "pair":
                return Ok(LIST(*vs)), e
            if n == "tick":
                # counts its applications in the environment
                k = lookup(e, "ticks")
                k = k[2] if k is not None else 0
                return Ok(LIST(INT(k), *vs)), define(e, "ticks", INT(k + 1))
            x = vs[-1] if vs else NONEX
            if n == "picky":
                return (ERR(Error("CustomError", "picky")) if x == INT(3) else Ok(LIST(*vs))), e
            return Ok(BOOL(KINDS[x[1]] == "Integer" and x[2] >= 2)), e
        return Lang.builtin(self, g, args, e)


BINARY = {"+", "-", ">", "<", ">=", "<="}


def expression(x):
    """a parsed script as an expression"""
    k = x[0]
    if k == "lam":
        return LAM(x[1], expression(x[2]))
    if k == "let":
        return LET(x[1], expression(x[2]))
    if k == "for":
        return FOR(x[1], expression(x[2]), expression(x[3]))
    if k == "if":
        return IF(expression(x[1]), expression(x[2]), expression(x[3]))
    if k == "none":
        return NONEX
    if k == "do":
        return DO(*[expression(y) for y in x[1]])
    if k == "list":
        return LIST(*[expression(y) for y in x[1]])
    if k == "app":
        return APP(expression(x[1]), *[expression(y) for y in x[2]])
    if k == "bin" and x[1] in BINARY:
        if x[2][0] == "bin" or x[3][0] == "bin":
            raise Unk("nested operators")
        return APP(SYM(x[1]), expression(x[2]), expression(x[3]))
    if k == "sym":
        n = x[1]
        if n[0].isdigit():
            return INT(int(n)) if n.isdigit() else _unk("number")
        if n[0] == '"':
            if "\\" in n:
                raise Unk("escape")
            return STR(n[1:-1])
        if n in ("True", "False"):
            return BOOL(n == "True")
        if n == "None":
            return NONEX
        return SYM(n)
    raise Unk("script")


def _unk(w):
    raise Unk(w)


PARSED = {}


def parsed(s):
    """the expression a constant script stands for"""
    if s not in PARSED:
        try:
            PARSED[s] = expression(script.parse(s))
        except (script.Bad, Unk, ValueError) as w:
            PARSED[s] = None
    if PARSED[s] is None:
        raise Unk("script")
    return PARSED[s]


# the files of the models
SOURCES = {"/w/defs": DO(LET("v", INT(41)), LET("made", SYM("v")), SYM("made")), "/w/one": INT(1), "/abs/two": LET("v", STR("two")), "/w/bad": FAIL2, "/proc/one": INT(2), "/w/sub/calls": DO(APP(SYM("n"), SYM("v")), APP(SYM("set"), INT(3)))}
PROC = "/proc"  # the directory the process is in
BROKEN = ("/w/broken", "/w/binary")


def filepath(d, x):
    p = posixpath.normpath(posixpath.join(d, x))
    if p in SOURCES or p in BROKEN:
        return p
    return None


NOTHING = mk("tuple")


class CallSummary(EvalSummary):
    def __init__(self, cx, args, e):
        EvalSummary.__init__(self, cx, None, e)
        self.vals = {i: None for i in range(len(args))}
        self.raw = dict(enumerate(args))
        self.syms = {"env": r_fs.ENV}
        self.lang = CallLang(None)

    def run(self, st, ret):
        try:
            r = EvalSummary.run(self, st, ret)
            for k, v in st.mem.items():
                if k[0] == "D" and v is not k[1] and any(x.op == "call" and x.a[0] in ("RwLock::write", "Mutex::lock") for x in subterms(k[1])):
                    self.level = self.ev(v, self.endenv)
            return r
        except Unk:
            # which message is not compared
            if ret.op == "adt" and ret.a[0].endswith("::Result") and ret.a[1] == 1 and self.held:
                return (ERR(U(("an error",))),)
            raise

    held = False

    def holds(self, evs, conds, st, env):
        r = EvalSummary.holds(self, evs, conds, st, env)
        self.held = bool(r)
        return r

    kinds = ("ext", "prim", "callback", "print")
    level = 0       # of the log

    exited = event = None
    line = "typed text\n"

    def ev0(self, t, env):
        if t.op == "mut" and t.a[0] == "Stdin::read_line":
            return model.need(self.ev(t.a[1], env), str) + self.line
        return EvalSummary.ev0(self, t, env)

    def matters(self, e):
        return e.kind == "print" or e.name in ("process::exit", "Write.flush") or e.name.startswith("terminal::") or EvalSummary.matters(self, e)

    def apply(self, e, env):
        n = e.name
        if e.kind == "print":
            s = self.ev(e.args[0], env)
            if not isinstance(s, str):
                raise Unk("printed text")
            self.fs.trace.append(("err" if n.startswith("e") else "out", s))
            return UNIT
        if n == "process::exit":
            self.exited = self.ev(e.args[0], env)
            return UNIT
        if n in ("terminal::enable_raw_mode", "terminal::disable_raw_mode"):
            self.fs.trace.append(("terminal", n.split("_")[0].split(":")[-1]))
            return ERR(U(("io", "Other"))) if self.level == 1 else Ok(UNIT)
        if n in ("unix::terminal_size", "terminal_size::terminal_size"):
            return NO if self.level == 1 else Some(((97,), (31,)))
        if n == "terminal::size":
            return ERR(U(("io", "Other"))) if self.level == 1 else Ok((97, 31))
        if n == "Write.flush":
            self.fs.trace.append(("flush",))
            return ERR(U(("io", "Other"))) if self.level == 1 else Ok(UNIT)
        if n == "Stdin::read_line":
            return ERR(U(("io", "Other"))) if self.level == 1 else Ok(len(self.line))
        if n == "event::read":
            return self.event
        if n in ("stdio::stdin", "stdio::stdout", "stdio::stderr"):
            return U((n[7:],))
        if n in ("RwLock::read", "RwLock::write", "Mutex::lock"):
            return Ok(self.level)
        if n == "env::current_dir" and not e.args:
            return Ok(PROC)
        if n in ("parser::parse_script", "parse", "dune::parse"):
            x = self.ev(e.args[0], env)
            if isinstance(x, U) and x[0] == "text":
                return Ok(SOURCES[x[1]]) if x[1] in SOURCES else ERR(A(("Err", 1, U(("syntax error",)))))
            if isinstance(x, str):
                return Ok(parsed(x))
            raise Unk("parse")
        if n in ("dunce::canonicalize", "fs::canonicalize", "Path::canonicalize"):
            x = self.ev(e.args[0], env)
            if not isinstance(x, str):
                raise Unk("path")
            p = filepath(PROC, x)
            return Ok(p) if p is not None else ERR(U(("io", "NotFound")))
        if n == "fs::read_to_string":
            x = self.ev(e.args[0], env)
            if not isinstance(x, str):
                raise Unk("path")
            p = filepath(PROC, x)
            return Ok(U(("text", p))) if p is not None and p != "/w/binary" else ERR(U(("io", "NotFound")))
        return EvalSummary.apply(self, e, env)


ANSI = re.compile("\x1b\\[[0-9;]*m")


def printed(tr):
    return tuple("".join(x[1] for x in tr if x[0] == k) for k in ("out", "err"))


def plain(p):
    """what is printed, without colours"""
    return tuple(ANSI.sub("", x) for x in p)


ANYERR = U(("any error",))
FAILED = ERR(ANYERR)


def ended(o):
    """does the path end the process?"""
    es = [e for e in o.st.events() if e.kind == "ext"]
    return o.kind == "div" and es and es[-1].name == "process::exit"


def judge_builtin(cx, outs, refs, models, probe=(), setup=None, seen=None):
    """-> (finding or None, counters, why, does some model take every path?); the builtin must agree with one of the references"""
    cnt = {"calls": 0, "calls_judged": 0, "calls_unknown": 0}
    why = ""
    rets = [(o, cx.E.snap(o.st, o.ret) if o.kind == "ret" else NOTHING) for o in outs if o.kind == "ret" or ended(o)]
    found = None
    cover, taken = set(), set()
    for args, e, *lv in models:
        cnt["calls"] += 1
        wants = []
        try:
            for ref in refs:
                tr = []
                L = CallLang(tr)
                L.level = lv[0] if lv else 0
                want, wenv = ref(L, list(args), e)
                wants.append((want, wenv, tr, L.level))
        except Unk as w:
            cnt["calls_unknown"] += 1
            why = why or "reference: %s" % w
            continue
        unk = hit = None
        for o, ret in rets:
            S = CallSummary(cx, args, e)
            S.level = lv[0] if lv else 0
            S.cover = cover
            if setup:
                setup(S, args)
            try:
                r = S.run(o.st, ret)
                if r is not None and S.exited is not None:
                    r = (Ok(U(("exit", S.exited))),)
            except (Unk, RecursionError) as w:
                unk = str(w)
                continue
            except Undef:
                continue
            if r is None:
                continue
            if S.soft is not None:
                unk = str(S.soft)
                continue
            hit = (r[0], S.fs, o)
            taken.add(id(o))
            level = S.level
            break
        d = None
        if hit is not None:
            got, w, o = hit
            w.places["env0"] = e
            try:
                for want, wenv, tr, wl in wants:
                    d = compare(got, w, want, wenv, tr, probe, seen)
                    if d is None and got[1] == 0:
                        if isinstance(level, U):
                            raise Unk("log level")
                        if level != wl:
                            d = "level", "leaves the log level at %s and not %s" % (level, wl)
                    if d is None:
                        break
                else:
                    want, wenv, tr, wl = wants[0]
            except Unk as u:
                hit, unk = None, str(u)
        if hit is None:
            cnt["calls_unknown"] += 1
            why = why or "%s for %r" % (unk or "no path taken", args)
            continue
        cnt["calls_judged"] += 1
        if d and found is None:
            found = (d, {"arguments": repr(args)[:300], "returns": repr(got)[:300], "expected": "an error" if want == FAILED else repr(want)[:300], "does": repr(w.trace)[:400], "expected steps": repr(tr)[:400],
                         "environment": repr(w.places["env"])[:200] if d[0] == "env" else None}, o)
    return found, cnt, why, not cnt["calls_unknown"] and all(id(o) in taken and m_eval.ways(o) <= cover for o, _ in rets)


def compare(got, w, want, wenv, tr, probe=(), seen=None):
    if not (isinstance(got, A) and got[0] == "Result"):
        raise Unk("result")
    if want == FAILED:
        return None if got[1] == 1 else ("result", "has a value where it must fail")
    a, b = [(seen or plain)(printed(t)) for t in (w.trace, tr)]
    c, d = [[x for x in t if x[0] in ("terminal", "flush")] for t in (w.trace, tr)]
    if ("flush",) not in d:
        c = [x for x in c if x[0] != "flush"]
    if c != d and got[1] == want[1]:
        return "terminal", "does %r to the terminal and not %r" % (c, d)
    w.trace[:], tr = [[x for x in t if x[0] not in ("out", "err", "terminal", "flush")] for t in (w.trace, tr)]
    if got[1] == want[1] == 0 and a != b:
        return "output", "prints %r and not %r" % (a, b)
    if probe and got[1] == want[1] == 0 and KINDS[want[2][1]] in ("Lambda", "Macro"):
        # functions are compared by what they return
        if not (isinstance(got[2], A) and got[2][0] == "Expression"):
            raise Unk("function")
        for xs in probe:
            a, b = [], []
            r, q = CallLang(a).run(APP(got[2], *xs), wenv), CallLang(b).run(APP(want[2], *xs), wenv)
            if r[0][1] and q[0][1]:
                continue
            if not m_eval.same(r[0], q[0], wenv) or len(a) != len(b):
                return "result", "has another result: applied to %r it gives %r and not %r" % (xs, r[0], q[0])
        got = want = Ok(NONEX)
    return difference(NONEX, got, w, want, wenv, tr)


# ---------------------------------------------------------------- what the builtins are documented to do
def evaluated(f, *orders):
    """the arguments' values, evaluated in one of these orders, then f on them"""
    def ref(order):
        def g(L, args, e):
            vs = [None] * len(args)
            for i in order or range(len(args)):
                r, e = L.run(args[i], e)
                if r[1]:
                    return r, e
                vs[i] = r[2]
            return f(L, vs, e)
        return g
    return [ref(o) for o in orders or (None,)]


def exactly(n, fs, hi=None):
    return [lambda L, args, e, f=f: f(L, args, e) if n <= len(args) <= (hi or n) else (FAILED, e) for f in (fs if isinstance(fs, list) else [fs])]


def atleast(n, f):
    return [lambda L, args, e: f(L, args, e) if len(args) >= n else (FAILED, e)]


# -- the environment
def b_eval(L, args, e):
    r, f = L.run(args[0], e)
    return (r, f) if r[1] else (L.run(r[2], e)[0], f)


def b_eval2(L, args, e):
    r, e = L.run(args[0], e)
    return (r, e) if r[1] else (L.run(r[2], e)[0], e)


def b_exec(L, args, e):
    r, e = L.run(args[0], e)
    return (r, e) if r[1] else L.run(r[2], e)


def b_unbind(L, args, e):
    x = args[0]
    return (Ok(NONEX), undefine(e, x[2])) if KINDS[x[1]] in ("Symbol", "String") else (FAILED, e)


def b_file(here):
    def g(L, args, e):
        d = cwd(e)
        r, e = L.run(args[0], e)
        if r[1]:
            return r, e
        p = filepath(d, disp(r[2]))
        if p not in SOURCES:
            return FAILED, e
        r, f = L.run(SOURCES[p], e)
        return r, f if here else e
    return g


EVAL = atleast(1, b_eval) + atleast(1, b_eval2)
ENVB = {
    "eval": EVAL, "exec": atleast(1, b_exec), "sys@eval": EVAL, "sys@exec": atleast(1, b_exec),
    "sys@include": exactly(1, b_file(True)), "sys@import": exactly(1, b_file(False)),
    "sys@quote": exactly(1, lambda L, a, e: (Ok(QUOTE(a[0])), e)),
    "sys@set": exactly(2, lambda L, a, e: (Ok(NONEX), define(e, disp(a[0]), a[1]))),
    "sys@unset": exactly(1, lambda L, a, e: (Ok(NONEX), undefine(e, disp(a[0])))),
    "sys@defined?": exactly(1, lambda L, a, e: (Ok(BOOL(lookup(e, disp(a[0])) is not None)), e)),
    "sys@cwd": [lambda L, a, e: (Ok(STR(cwd(e))), e)],
    "unbind": exactly(1, b_unbind),
    "sys@env": [lambda L, a, e: (Ok(EX("Map", e[0])), e)],
    "vars": [lambda L, a, e: (Ok(EX("Map", e[0])), e)],
}


# -- functions of functions
def listed(i, f):
    return lambda L, vs, e: f(L, vs, e) if KINDS[vs[i][1]] == "List" else (FAILED, e)


def call(L, f, xs, e):
    return L.run(APP(f, *xs), e)


def h_map(L, vs, e):
    out = []
    for x in vs[1][2]:
        r, e = call(L, vs[0], [x], e)
        if r[1]:
            return r, e
        out.append(r[2])
    return Ok(LIST(*out)), e


def h_filter(L, vs, e):
    out = []
    for x in vs[1][2]:
        r, e = call(L, vs[0], [x], e)
        if r[1]:
            return r, e
        if truthy(r[2]):
            out.append(x)
    return Ok(LIST(*out)), e


def h_fold(i, right=False):
    def g(L, vs, e):
        acc = vs[1]
        for x in (reversed(vs[i][2]) if right else vs[i][2]):
            r, e = call(L, vs[0], [x, acc] if right else [acc, x], e)
            if r[1]:
                return r, e
            acc = r[2]
        return Ok(acc), e
    return g


def h_apply(L, vs, e):
    return call(L, vs[0], vs[1][2], e)


def h_if(L, args, e):
    r, e = L.run(args[0], e)
    return (r, e) if r[1] else L.run(args[1 if truthy(r[2]) else 2], e)


def h_curry(L, vs, e):
    if KINDS[vs[1][1]] != "Integer":
        return Ok(vs[0]), e
    n = vs[1][2]
    if n < 0:
        return FAILED, e
    names = ["arg%d" % i for i in range(n)]
    x = APP(vs[0], *[SYM(m) for m in names])
    for m in reversed(names):
        x = LAM(m, x)
    return L.run(x, e) if n else (Ok(x), e)


def code(x):
    return CODES.get(ERRORS[x[1]])


def t_try(L, args, e):
    r, e = L.run(args[0], e)
    if not r[1]:
        return r, e
    return L.run(APP(args[1], MAP(message=STR(model.disp(r[2])), code=INT(code(r[2])), expression=QUOTE(args[0]))), e)


def script_of(x):
    """a function given fewer arguments than it takes waits for the others"""
    return lambda L, args, e: L.run(APP(x, *args), e)


def by_count(lo, hi, few, full):
    return [lambda L, args, e, f=f: (FAILED, e) if not lo <= len(args) <= hi else f(L, args, e) if len(args) == hi else script_of(few)(L, args, e) for f in full]


MAPF = LAM("f", LAM("list", FOR("item", SYM("list"), APP(SYM("f"), SYM("item")))))
FILTERF = LAM("f", LAM("list", DO(LET("result", LIST()), FOR("item", SYM("list"), IF(APP(SYM("f"), SYM("item")), LET("result", APP(SYM("+"), SYM("result"), LIST(SYM("item")))), NONEX)), SYM("result"))))
FOLDF = LAM("f", LAM("acc", LAM("list", DO(FOR("item", SYM("list"), LET("acc", APP(SYM("f"), SYM("acc"), SYM("item")))), SYM("acc")))))
HOF = {
    "fn@map": (by_count(1, 2, MAPF, evaluated(listed(1, h_map), (1, 0), (0, 1))), 1), "fn@filter": (by_count(1, 2, FILTERF, evaluated(listed(1, h_filter), (1, 0), (0, 1))), 1),
    "fn@reduce": (by_count(1, 3, FOLDF, evaluated(listed(2, h_fold(2)), (2, 0, 1), (0, 1, 2))), 2), "fn@apply": (exactly(2, evaluated(listed(1, h_apply), (0, 1), (1, 0))), 1),
    "fn@?": (exactly(3, h_if), 0), "fn@curry": ([lambda L, a, e, f=f: f(L, a[:2], e) if len(a) >= 2 else (FAILED, e) for f in evaluated(h_curry, (0, 1), (1, 0))], 0),
}
FOLDS = {"list@foldl": (exactly(3, evaluated(listed(2, h_fold(2)), (0, 1, 2), (2, 0, 1))), 2), "list@foldr": (exactly(3, evaluated(listed(2, h_fold(2, True)), (0, 1, 2), (2, 0, 1))), 2)}


# -- the log
LEVELS = {"error": 1, "warn": 2, "info": 3, "debug": 4, "trace": 5}


def l_echo(L, args, e):
    for i, a in enumerate(args):
        r, e = L.run(a, e)
        if r[1]:
            return r, e
        L.out(disp(r[2]) + (" " if i < len(args) - 1 else "\n"))
    return Ok(NONEX), e


def l_log(f):
    def g(L, args, e):
        if L.level < LEVELS[f]:
            return Ok(NONEX), e
        p, fresh = "[%s] " % f.upper(), True
        for i, a in enumerate(args):
            r, e = L.run(a, e)
            if r[1]:
                return r, e
            x = disp(r[2])
            ls = x.split("\n")
            if len(ls) > 1:
                for l in ls[:-1]:
                    L.out(p + l + "\n")
                if ls[-1]:
                    L.out(p + ls[-1])
            else:
                L.out((p if fresh else "") + x + (" " if i < len(args) - 1 else "\n"))
            fresh = x.endswith("\n")
        return Ok(NONEX), e
    return g


def l_set(L, args, e):
    r, e = L.run(args[0], e)
    if r[1]:
        return r, e
    if KINDS[r[2][1]] != "Integer":
        return FAILED, e
    L.level = r[2][2]
    return Ok(NONEX), e


def l_disable(L, args, e):
    L.level = 0
    return Ok(NONEX), e


def l_enabled(L, args, e):
    r, e = L.run(args[0], e)
    if r[1]:
        return r, e
    return (Ok(BOOL(r[2][2] <= 0 or L.level >= r[2][2])) if KINDS[r[2][1]] == "Integer" else FAILED), e


LOG = {"log@echo": [l_echo], "echo": [l_echo], "log@set-level": exactly(1, l_set), "log@get-level": exactly(0, lambda L, a, e: (Ok(INT(L.level)), e)), "log@disable": exactly(0, l_disable), "log@enabled?": exactly(1, l_enabled)}
LOG.update({"log@" + f: [l_log(f)] for f in LEVELS})


def logmodels(n):
    T = [STR(x) for x in ("a", "", "a b", "a\n", "a\nb", "\n", "a\n\nb\n", "\na", "x\ny\nz", "a\r\nb")] + [INT(0), NONEX, BOOL(False), N(INT(4)), LET("v", INT(5)), SYM("s"), FAIL, QUOTE(SYM("q"))]
    for lv in range(-1, 7) if n not in ("echo", "log@echo") else (0, 5):
        yield V([]), E0, lv
        for x in T + [INT(i) for i in range(-2, 8)] if n in ("log@set-level", "log@enabled?", "log@get-level") else T:
            yield V([x]), E0, lv
        if n in ("log@set-level", "log@enabled?"):
            yield V([INT(1), INT(2)]), E0, lv
        if lv in (LEVELS.get(n[4:]), 5, 0):
            for x in T:
                for y in T:
                    yield V([x, y]), E0, lv
                yield V([x, STR("m"), STR("z")]), E0, lv
                yield V([STR("m"), x, STR("z")]), E0, lv
                yield V([STR("m\n"), STR("z"), x]), E0, lv


TRY = {"err@try": exactly(2, t_try)}

# ---------------------------------------------------------------- models
E1 = env(dict(E0[0].d), env(dict(E0[1][0].d, **{n: BUILTIN(n) for n in ("+", "-", ">", "<", "pair", "tick", "picky", "big")})))
FUNS = [SYM("id"), SYM("n"), SYM("tick"), SYM("pair"), SYM("picky"), SYM("big"), SYM("set"), SYM("bad"), SYM("def"), SYM("mac"), LAM("x", IF(SYM("x"), SYM("v"), NONEX)), LAM("x", LAM("y", LIST(SYM("x"), SYM("y"), SYM("v")))), SYM("prog"),
        SYM("+"), INT(3), APP(SYM("add"), INT(9))]
LISTS = [LIST(), LIST(INT(1)), LIST(INT(1), INT(2)), LIST(INT(3), INT(1), INT(2), INT(0)), LIST(INT(1), INT(3), INT(2)), SYM("l"), LIST(QUOTE(SYM("v")), INT(2)), LIST(LIST(INT(1)), LIST()), LIST(STR(""), STR("a"), NONEX, BOOL(True)),
         LIST(*[INT(i % 5) for i in range(12)]), INT(3), NONEX, STR("abc"), MAP(a=INT(1)), FAIL, LIST(N(INT(1)), N(INT(2)))]
INITS = [INT(0), LIST(), SYM("v"), STR("s"), N(INT(8)), FAIL, LET("v", INT(5))]
PROBES = [V([INT(1)]), V([INT(1), INT(2)]), V([LIST(INT(2), INT(1))]), V([INT(0), LIST(INT(2), INT(1))]), V([INT(1), SYM("v"), STR("c")])]


def envmodels(n=None):
    yield V([]), E0
    for x in list(VALUES) + SUBS + [QUOTE(LET("v", INT(7))), QUOTE(FAIL), LAM("x", SYM("v")), QUOTE(LET("fresh", INT(7))), QUOTE(QUOTE(N(INT(3)))), QUOTE(QUOTE(SYM("v"))), SYM("none"), QUOTE(QUOTE(QUOTE(SYM("v"))))]:
        yield V([x]), E0
        yield V([x, INT(1)]), E0
        yield V([SYM("v"), x]), E0
        yield V([x, x, x]), E0
    if n in ("sys@include", "sys@import"):
        for x in ("defs", "one", "/abs/two", "bad", "sub/calls", "./one", "sub/../defs", "nofile", "broken", "binary", "", "/one"):
            yield V([STR(x)]), E0
            yield V([SYM(x)]), E0


def hofmodels(k):
    """k: the position of the list"""
    for i, f in enumerate(FUNS):
        for j, l in enumerate(LISTS):
            if k == 1:
                yield V([f, l]), E1
            elif k == 2:
                yield V([f, INITS[(i + j) % 3], l]), E1
        if k == 2:
            for a in INITS:
                yield V([f, a, LISTS[2]]), E1
                yield V([f, a]), E1
        if k == 0:
            for n in (0, 1, 2, 3, -1):
                yield V([f, INT(n)]), E1
            yield V([f, STR("x")]), E1
        yield V([f]), E1
    for x in SUBS + list(VALUES):
        if k == 0:
            yield V([x, N(INT(1)), N(INT(2))]), E1
            yield V([INT(1), x, FAIL]), E1
            yield V([NONEX, FAIL, x]), E1
        else:
            yield V([x] + [INT(0)] * (k - 1) + [LIST(INT(1))]), E1
        yield V([x, x]), E1
        yield V([x, x, x, x]), E1
    yield V([]), E1


def trymodels():
    hs = [SYM("n"), SYM("id"), SYM("set"), SYM("bad"), SYM("see"), SYM("mac"), LAM("e", SYM("e")), LAM("x", SYM("v")), MACRO("e", LET("v", SYM("e"))), SYM("prog"), INT(3), FAIL]
    for h in hs:
        for x in [FAIL, FAIL2, APP(SYM("err"), INT(1)), APP(SYM("nosuch")), APP(SYM("noperm"), INT(1)), APP(SYM("broken")), FOR("i", INT(3), INT(1)), DO(LET("v", INT(9)), FAIL), DO(LET("v", INT(9)), SYM("v")), N(INT(1)), SYM("v"), QUOTE(FAIL), INT(0), NONEX, STR("")]:
            yield V([x, h]), E1
    for x in SUBS:
        yield V([x]), E1
        yield V([x, SYM("n"), x]), E1
    yield V([]), E1
