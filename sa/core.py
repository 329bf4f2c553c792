"""Shared machinery of the checks: building the MIR dump of /repo's working tree, the
registry of builtins, cached analyses, canonical rendering of results, reporting."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DUNE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "sa"))
import canon, engine, mir, models
from terms import *
from engine import Ev

LIB, BIN = "dune", "dunesh"
INIT = "dunesh::binary::init::"


# ------------------------------------------------------------------ the dump
def tree_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            top = os.path.relpath(p, REPO)
            if top.startswith("src" + os.sep) or top in ("Cargo.toml", "Cargo.lock", "build.rs") or top.startswith(".cargo"):
                out.append(top)
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in tree_files():
        h.update(f.encode() + b"\0")
        h.update(open(os.path.join(REPO, f), "rb").read())
        h.update(b"\1")
    for d, ds, fs in os.walk(os.path.join(VERIF, "driver")):
        ds.sort()
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:20]


class BuildFailure(Exception):
    pass


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR",
              "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def ensure_driver():
    drv = os.path.join(BUILD, "driver", "debug", "dune-mir-dump")
    rc, out = run(["cargo", "+nightly", "build", "--offline", "--locked"], {"CARGO_TARGET_DIR": os.path.join(BUILD, "driver")},
                  os.path.join(VERIF, "driver"))
    if rc or not os.path.exists(drv):
        raise BuildFailure("the MIR driver does not build:\n" + out[-3000:])
    return drv


def ensure_dump():
    """MIR of the current working tree of /repo (cached by content hash)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash()
    out = os.path.join(BUILD, "mir", h)
    if os.path.exists(os.path.join(out, "done")):
        return out, True
    drv = ensure_driver()
    root = os.path.join(BUILD, "mir")
    if os.path.isdir(root):
        for x in os.listdir(root):
            p = os.path.join(root, x)
            if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 600:
                shutil.rmtree(p, ignore_errors=True)
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    tgt = os.path.join(BUILD, "target")
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for x in os.listdir(fp):
            if x.startswith("dune-") or x.startswith("dunesh-"):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    rc, txt = run(["cargo", "+stable", "check", "--offline", "--all-features"],
                  {"RUSTC": drv, "CARGO_TARGET_DIR": tgt, "DUNE_MIR_OUT": tmp}, REPO)
    for c in (LIB, BIN):
        if rc or not os.path.exists(os.path.join(tmp, c + ".json")):
            raise BuildFailure("/repo does not type-check under the MIR driver:\n" + txt[-3000:])
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    open(os.path.join(out, "done"), "w").close()
    return out, False


# ------------------------------------------------------------------ context
class Missing(Exception):
    """something the property itself names (a builtin, a constant) is gone: a violation"""


class Anchor(Exception):
    """an internal function the rule is written against has moved: undecided"""


class Ctx(object):
    def __init__(self):
        d, self.cached = ensure_dump()
        self.dir = d
        self.p = mir.load(d)
        self.E = engine.Engine(self.p)
        self.E.MAXSTEPS = 60000
        E = self.E
        self.evals = {u for u, b in self.p.bodies.items()
                      if b.get("m") in ("eval", "eval_mut") and "Expression" in self.p.tystr(b.get("im", -1)) and "tr" not in b}
        self.prims = set(self.evals) | {u for u in self.p.bodies if u == "dune::parser::parse_script"}
        E.prims = self.prims
        self._outs = {}
        for (d, src), u in sorted(E.froms.items()):
            g = re.match(r"alloc::(vec::Vec|collections::btree::map::BTreeMap)<(alloc::string::String,)?[A-Z],", src)
            if g and d == "dune::expr::Expression":
                E.genfrom[(d, g.group(1))] = (u, self.wraps(u))
        self._reg = None
        self.budget = []

    def wraps(self, u):
        """the variant a generic conversion wraps its elements in, element by element, or None"""
        t = self.p.bodies[u]["locals"][1][0]
        outs = self.outs(u, [mkt(t, "sym", "x", t)], "from")
        if len(outs) != 1 or outs[0].kind != "ret" or outs[0].st.conds():
            return None
        canon.PROG = self.p
        s = canon.Canon(outs[0].st.events())(outs[0].ret)
        ok = {"List(each(vec(); into(x[k0])))": "List", "Map(each?(map(()); (mkey(x, k0), into(mval(x, k0)))))": "Map"}
        return VIDX(EXPR, ok[s]) if s in ok else None

    # -- lookup
    def fn(self, pat):
        """unique body whose path matches the regular expression"""
        c = [u for u, b in self.p.bodies.items() if re.search(pat, u)]
        if len(c) != 1:
            raise Anchor("function matching /%s/: %d found" % (pat, len(c)))
        return c[0]

    def method(self, ty, m, tr=None):
        """uid of an impl method"""
        c = []
        for u, b in self.p.bodies.items():
            if b.get("m") != m or b.get("im") is None:
                continue
            if self.p.tystr(b["im"]).split("::")[-1].split("<")[0] != ty:
                continue
            t = b.get("tr")
            if tr is None and t is None or tr is not None and t is not None and t.split("::")[-1] == tr:
                c.append(u)
        if not c:
            raise Anchor("method %s::%s%s" % (ty, m, " (%s)" % tr if tr else ""))
        return c[0] if len(c) == 1 else c

    # -- analyses
    def outs(self, uid, args=None, key=None):
        k = (uid, key)
        r = self._outs.get(k)
        if r is None:
            if uid not in self.p.bodies:
                raise Anchor("function " + uid)
            r = self._outs[k] = self.E.analyse(uid, args)
        return r

    def builtin_args(self, uid):
        """canonical symbolic arguments for a builtin body (args vector, environment)"""
        b = self.p.bodies[uid]
        out = []
        for i in range(b["argc"]):
            t = b["locals"][i + 1][0]
            s = self.p.tystr(t)
            if "Vec<" in s:
                n = "args"
            elif "Environment" in s:
                n = "env"
            else:
                n = "self"
            out.append(mkt(t, "sym", n, t))
        return out

    def builtin(self, uid):
        """outcomes of a builtin's body; None when the analysis gave up"""
        k = (uid, "builtin")
        if k not in self._outs:
            try:
                self._outs[k] = self.E.analyse(uid, self.builtin_args(uid))
            except engine.Budget as ex:
                self._outs[k] = None
                self.budget.append((uid, str(ex)))
        return self._outs[k]

    @property
    def reg(self):
        if self._reg is None:
            self._reg = Registry(self)
        return self._reg


# ------------------------------------------------------------------ registry
class Entry(object):
    __slots__ = ("path", "name", "uid", "term", "kind", "params", "order", "help")

    def __repr__(self):
        return "<%s %s %s>" % (self.path, self.kind, self.uid)


def unmap(t):
    """dictionary of a map expression term, or None"""
    n = 0
    while n < 5:
        n += 1
        if t.op == "adt" and t.a[0] == EXPR and VARNAME(EXPR, t.a[1]) == "Map":
            t = t.a[2]
            continue
        if t.op == "call" and t.a[0].startswith("From::from"):
            t = t.a[1]
            continue
        break
    if t.op == "map":
        out = {}
        for kv in t.a[0]:
            k, v = (kv.a[0], kv.a[1]) if isinstance(kv, T) else kv
            if k.op != "str":
                return None
            out[k.a[0]] = v
        return out
    if t.op == "mapins":
        b = unmap(t.a[0])
        if b is not None and t.a[1].op == "str":
            b = dict(b)
            b[t.a[1].a[0]] = t.a[2]
            return b
    return None


class Registry(object):
    """what `init` puts into the global environment, by dataflow over `init` and the module constructors"""

    def __init__(self, cx):
        self.cx = cx
        E = cx.E
        self.modfns = {u: u.split("::")[-2] for u in cx.p.bodies if re.match(r"dunesh::binary::init::\w+_module::get$", u)}
        if len(self.modfns) < 17:
            raise Anchor("module constructors: %d found" % len(self.modfns))
        self.modterm = {}
        self.modouts = {}
        old, E.call_hook = E.call_hook, self.hook
        steps, E.MAXSTEPS = E.MAXSTEPS, 400000
        try:
            for u in sorted(self.modfns):
                self.module(u)
            self.init = [o for o in E.analyse(INIT + "init") if o.kind == "ret"]
        finally:
            E.call_hook = old
            E.MAXSTEPS = steps
        if not self.init:
            raise Anchor("no completed path through init")
        self.globals = []
        for o in self.init:
            g = {}
            for e in o.st.events():
                self.define(g, e)
            self.globals.append(g)
        self.entries = {}
        for g in self.globals[:1]:
            for k, v in g.items():
                self.collect(k, v)
        for v in list(self.entries.values()):
            pass

    def define(self, g, e):
        if e.kind != "prim" or len(e.args) < 3 or e.args[0].op != "sym" or e.args[1].op != "str":
            return
        n = e.name
        if n == "Environment::define":
            g[e.args[1].a[0]] = e.args[2]
        elif n == "Environment::define_module":
            g[e.args[1].a[0]] = mk("adt", EXPR, VIDX(EXPR, "Map"), e.args[2])
        elif n == "Environment::define_builtin":
            g[e.args[1].a[0]] = mk("adt", EXPR, VIDX(EXPR, "Builtin"), mk("adt", "dune::expr::Builtin", 0, e.args[1], e.args[2], e.args[3]))

    def module(self, u):
        if u not in self.modterm:
            self.modterm[u] = None
            E = self.cx.E
            st, steps = E.stack, E.steps
            E.stack = []
            outs = [o for o in E.analyse(u) if o.kind == "ret"]
            E.stack, E.steps = st, steps
            self.modouts[u] = outs
            if not outs:
                raise Anchor("no completed path through " + u)
            t = outs[0].ret
            if unmap(t) is None:
                # built through an Environment: the definitions made on it
                g = {}
                envs = {}
                for e in outs[0].st.events():
                    if e.kind == "prim" and e.name.startswith("Environment::define") and e.args[0].op != "sym":
                        e2 = Ev(e.kind, e.name, (mk("sym", "env", -1),) + tuple(e.args[1:]), e.res, e.site)
                        self.define(envs.setdefault(e.args[0].id, {}), e2)
                best = None
                for i, d in envs.items():
                    if any(x.id == i for x in subterms(t)):
                        best = d
                if best is None:
                    raise Anchor("what %s returns" % u)
                t = mk("adt", EXPR, VIDX(EXPR, "Map"), mk("map", tuple(sorted(((STR(k), v) for k, v in best.items()), key=lambda q: q[0].a[0]))))
            self.modterm[u] = t
        return self.modterm[u]

    def hook(self, E, st, c):
        r = c.callee.get("ru") or c.callee["u"]
        if r in self.modfns and E.stack and E.stack[-1] != r:
            t = self.module(r)
            m = unmap(t)
            return [(st, mk("adt", EXPR, VIDX(EXPR, "Map"), mk("map", tuple(sorted(((STR(k), v) for k, v in m.items()), key=lambda q: q[0].a[0])))))]
        if r and r.endswith("::get") and len(c.args) == 2 and "Environment" in self.cx.p.tystr(self.cx.p.bodies[r].get("im", -1) if r in self.cx.p.bodies else -1):
            env = E.snap(st, c.args[0])
            k = E.snap(st, c.args[1])
            if env.op == "sym" and k.op == "str":
                g = {}
                for e in st.events():
                    self.define(g, e)
                if k.a[0] in g:
                    return [(st, SOME(g[k.a[0]]))]
        return None

    def collect(self, path, v):
        m = unmap(v)
        if m is not None:
            for k, x in m.items():
                self.collect(path + "@" + k, x)
            return
        e = Entry()
        e.path, e.term, e.uid, e.params, e.order, e.kind, e.name, e.help = path, v, None, None, None, "other", None, None
        b = v if v.op == "adt" and v.a[0] == EXPR and VARNAME(EXPR, v.a[1]) == "Builtin" else None
        if b is None:
            # curried: Lambda(arg0, .. Apply(Builtin, [Symbol arg..]))
            for x in subterms(v):
                if x.op == "adt" and x.a[0] == EXPR and VARNAME(EXPR, x.a[1]) == "Apply" and x.a[2].op == "adt" \
                        and VARNAME(EXPR, x.a[2].a[1]) == "Builtin" and x.a[3].op == "vec":
                    b = x.a[2]
                    e.order = [y.a[2].a[0] if y.op == "adt" and VARNAME(EXPR, y.a[1]) == "Symbol" and y.a[2].op == "str" else None for y in x.a[3].a]
            lam = []
            x = v
            n = 0
            while n < 12:
                n += 1
                while x.op == "field":
                    x = x.a[0]
                if x.op == "call" and x.a[0] in ("Expression::eval",) and x.a[1].op == "adt" and VARNAME(EXPR, x.a[1].a[1]) == "Lambda":
                    lam.append(x.a[1].a[2].a[0] if x.a[1].a[2].op == "str" else None)
                    x = x.a[1].a[3]
                    continue
                break
            e.params = lam
            if b is not None:
                e.kind = "curried"
            else:
                for x in subterms(v):
                    if x.op == "call" and x.a[0] == "parser::parse_script" and x.a[1].op == "str":
                        e.kind = "script"
                        e.name = x.a[1].a[0]
        else:
            e.kind = "builtin"
        if b is not None:
            bt = b.a[2]
            if bt.op == "adt" and len(bt.a) >= 5:
                e.name = bt.a[2].a[0] if bt.a[2].op == "str" else None
                f = bt.a[3]
                e.help = bt.a[4].a[0] if bt.a[4].op == "str" else None
                for x in subterms(f):
                    if x.op == "closure":
                        e.uid = x.a[0]
                        break
                    if x.op == "fn":
                        fc = x.a[0]
                        c = getattr(fc, "c", None)
                        if c:
                            e.uid = c.get("ru") or c["u"]
                        break
        self.entries[path] = e

    def find(self, path):
        e = self.entries.get(path)
        if e is None:
            raise Missing("builtin %s is not registered" % path)
        return e

    def uid(self, path):
        if path.startswith("fn:"):
            return self.cx.fn("::" + re.escape(path[3:]) + "$")
        e = self.find(path)
        if e.uid is None or e.uid not in self.cx.p.bodies:
            raise Anchor("builtin %s has no analysable body" % path)
        return e.uid
