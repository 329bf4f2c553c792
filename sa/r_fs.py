"""P07-P10, P35: the file builtins.  The dataflow engine summarises each builtin as a set of paths: conditions, calls of the
file-system API in order with their argument terms, and the returned term.  The summaries are interpreted in small models of a
file system (every call of the API a transition of the model, including its failures), and the resulting state and value are
compared with what the builtin is documented to do.  No file is touched: what is interpreted are terms."""
import copy, fnmatch, posixpath, re
import core, canon, engine, model, models
from model import A, U, V, Mp, EX, Unk, Undef, NONEX, eq3
from terms import *
from util import *
from rules import rule
from report import Guard


def Ok(x):
    return A(("Result", 0, x))


def Bad(op, *a):
    return A(("Result", 1, U(("ioerr", op) + a)))


def whatkind(fs, op, p, to=None):
    """std::io::ErrorKind of a failing operation"""
    q = fs.path(p)
    if op == "utf8":
        return "InvalidData"
    if op == "glob" or not isinstance(p, str):
        raise Unk("kind of error")
    if op == "rename" and q is not None and q in fs.n and to is not None:
        return whatkind(fs, "mkdir", to)
    if op == "link" and q in fs.n:
        return whatkind(fs, "mkdir", to)
    full = posixpath.join(fs.proc, p)
    cur = "/"
    for c in [c for c in full.split("/") if c not in ("", ".")][:-1]:
        if cur in fs.n and fs.n[cur] is not None:
            return "NotADirectory"
        cur = posixpath.dirname(cur) if c == ".." else posixpath.join(cur, c)
        if cur not in fs.n:
            return "NotFound"
    if fs.n.get(cur, 0) is not None or q is None:
        return "NotADirectory"
    if op == "write":
        return "StorageFull"
    if op in ("open", "mkdir") and q not in fs.n:
        return "PermissionDenied" if fs.flag("nowrite", posixpath.dirname(q)) else "NotFound"
    if q not in fs.n:
        return "NotFound"
    if op == "mkdir":
        return "AlreadyExists"
    if op in ("read", "open", "remove") and fs.n[q] is None:
        return "IsADirectory"
    if op in ("read_dir", "rmdir", "chdir") and fs.n[q] is not None:
        return "NotADirectory"
    if op == "rmdir" and fs.kids(q) and not fs.flag("nowrite", posixpath.dirname(q)):
        return "DirectoryNotEmpty"
    if op == "entry":
        return "Other"
    return "PermissionDenied"


def kind(fs, e):
    if not (isinstance(e, U) and e[0] == "ioerr"):
        raise Unk("error")
    return A(("ErrorKind", VIDX("core::io::error::ErrorKind", whatkind(fs, *e[1:]))))


def Some(x):
    return A(("Option", 1, x))


NO = A(("Option", 0))
UNIT = ()


def data(x):
    """bytes written"""
    if isinstance(x, str):
        return V(x.encode("utf-8", "surrogateescape"))
    if isinstance(x, V) and all(type(c) is int for c in x):
        return x
    raise Unk("data")


def text(v):
    try:
        return bytes(v).decode("utf-8")
    except UnicodeDecodeError:
        return None


def utf8(v):
    if not isinstance(v, V):
        raise Unk("bytes")
    t = text(v)
    return Ok(t) if t is not None else A(("Result", 1, U(("notutf8", v))))


def join(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        raise Unk("path")
    return b if b.startswith("/") else a if not a else a.rstrip("/") + "/" + b


class FS(object):
    """a small file system: path -> bytes, or None for a directory"""

    def __init__(self, nodes, cwd, proc, **flags):
        self.n = dict(nodes)
        self.cwd, self.proc = cwd, proc
        self.flags = {k: frozenset(v) for k, v in flags.items()}
        self.handles = []
        self.made = 0

    def copy(self):
        x = copy.copy(self)
        x.n = dict(self.n)
        x.handles = [dict(h) for h in self.handles]
        return x

    def flag(self, f, p):
        return p in self.flags.get(f, ())

    def path(self, p):
        if not isinstance(p, str):
            raise Unk("path")
        if p == "":
            return None
        p = posixpath.join(self.proc, p)
        out = ["/"]
        parts = [c for c in p.split("/") if c not in ("", ".")]
        cur = "/"
        for c in parts:
            if self.n.get(cur, 0) is not None:      # not a directory
                return None
            cur = posixpath.dirname(cur) if c == ".." else posixpath.join(cur, c)
        if p.endswith("/") and isinstance(self.n.get(cur), V):
            return None
        return cur

    def kids(self, p):
        pre = p.rstrip("/") + "/"
        return [q for q in self.n if q.startswith(pre) and q != p and "/" not in q[len(pre):]]

    def below(self, p):
        pre = p.rstrip("/") + "/"
        return [q for q in self.n if q.startswith(pre) and q != "/"]

    def isdir(self, p):
        p = self.path(p)
        return p is not None and p in self.n and self.n[p] is None

    def isfile(self, p):
        p = self.path(p)
        return p is not None and p in self.n and self.n[p] is not None

    def exists(self, p):
        p = self.path(p)
        return p is not None and p in self.n

    def canmake(self, p):
        """may an entry p be created or removed"""
        d = posixpath.dirname(p)
        return p != "/" and d in self.n and self.n[d] is None and not self.flag("nowrite", d)

    # -- operations
    def read(self, p):
        q = self.path(p)
        if q is None or self.n.get(q) is None or self.flag("noread", q):
            return Bad("read", p)
        return Ok(self.n[q])

    def read_to_string(self, p):
        r = self.read(p)
        if r[1] == 1:
            return r
        t = text(r[2])
        return Ok(t) if t is not None else Bad("utf8", p)

    def openw(self, p, o):
        q = self.path(p)
        if q is None or q in self.n and self.n[q] is None or q in self.n and self.flag("readonly", q):
            return Bad("open", p)
        if q in self.n:
            if o.get("create_new"):
                return Bad("open", p)
        elif not (o.get("create") or o.get("create_new")) or not self.canmake(q):
            return Bad("open", p)
        if q not in self.n or o.get("truncate"):
            self.n[q] = V()
        self.handles.append({"p": q, "append": bool(o.get("append")), "pos": 0})
        return Ok(U(("handle", len(self.handles) - 1)))

    def open(self, o, p):
        if o.get("write") or o.get("append"):
            if o.get("append") and o.get("truncate"):
                return Bad("open", p)
            return self.openw(p, o)
        if not o.get("read") or o.get("create") or o.get("create_new") or o.get("truncate"):
            return Bad("open", p)
        q = self.path(p)
        if q is None or q not in self.n or self.flag("noread", q):
            return Bad("open", p)
        self.handles.append({"p": q, "append": False, "pos": 0, "ro": True})
        return Ok(U(("handle", len(self.handles) - 1)))

    def write_all(self, h, x, short=None):
        if not (isinstance(h, U) and h[0] == "handle"):
            raise Unk("handle")
        h = self.handles[h[1]]
        d = data(x)
        if short is not None:
            d = V(d[:short])
        if "ro" in h or len(d) and self.flag("full", h["p"]):
            return Bad("write", h["p"])
        old = self.n[h["p"]]
        if h["append"]:
            new = V(old + d)
        else:
            new = V(old[:h["pos"]] + d + old[h["pos"] + len(d):])
            h["pos"] += len(d)
        self.n[h["p"]] = new
        return Ok(len(d) if short is not None else UNIT)

    def write(self, p, x):
        r = self.openw(p, {"write": True, "create": True, "truncate": True})
        return r if r[1] == 1 else self.write_all(r[2], x)

    def remove_file(self, p):
        q = self.path(p)
        if q is None or self.n.get(q) is None or not self.canmake(q):
            return Bad("remove", p)
        del self.n[q]
        return Ok(UNIT)

    def remove_dir(self, p):
        q = self.path(p)
        if not self.isdir(p) or self.kids(q) or not self.canmake(q):
            return Bad("rmdir", p)
        del self.n[q]
        return Ok(UNIT)

    def remove_dir_all(self, p):
        q = self.path(p)
        if not self.isdir(p):
            return Bad("rmdir", p)
        for x in sorted(self.below(q), reverse=True) + [q]:
            if not self.canmake(x) or self.flag("noread", x):
                return Bad("rmdir", p)
            del self.n[x]
        return Ok(UNIT)

    def create_dir(self, p):
        q = self.path(p)
        if q is None or q in self.n or not self.canmake(q):
            return Bad("mkdir", p)
        self.n[q] = None
        return Ok(UNIT)

    def create_dir_all(self, p):
        if p == "":
            return Ok(UNIT)
        q = posixpath.normpath(posixpath.join(self.proc, p))
        todo = []
        while q not in self.n:
            todo.append(q)
            q = posixpath.dirname(q)
        if self.n[q] is not None:
            return Bad("mkdir", p)
        for x in reversed(todo):
            r = self.create_dir(x)
            if r[1] == 1:
                return r
        return Ok(UNIT)

    def rename(self, a, b):
        p, q = self.path(a), self.path(b)
        if p is None or q is None or p not in self.n or not self.canmake(p) or not self.canmake(q) or (q + "/").startswith(p + "/") and p != q:
            return Bad("rename", a, b)
        if p == q:
            return Ok(UNIT)
        if q in self.n:
            if (self.n[p] is None) != (self.n[q] is None) or self.kids(q):
                return Bad("rename", a, b)
            del self.n[q]
        for x in self.below(p) + [p]:
            self.n[q + x[len(p):]] = self.n.pop(x)
        return Ok(UNIT)

    def copyfile(self, a, b):
        r = self.read(a)
        if r[1] == 1:
            return r
        w = self.openw(b, {"write": True, "create": True, "truncate": True})
        if w[1] == 1:
            return w
        if self.path(a) == self.path(b):
            return Ok(0)
        w = self.write_all(w[2], r[2])
        return w if w[1] == 1 else Ok(len(r[2]))

    def link(self, a, b):
        q = self.path(b)
        if not self.isfile(a) or q is None or q in self.n or not self.canmake(q):
            return Bad("link", a, b)
        self.n[q] = self.n[self.path(a)]
        return Ok(UNIT)

    def read_dir(self, p):
        q = self.path(p)
        if not self.isdir(p) or self.flag("noread", q):
            return Bad("read_dir", p)
        es = [Ok(A(("DirEntry", 0, join(p, k.split("/")[-1])))) for k in self.kids(q)]
        if self.flag("badentry", q):
            es[1:1] = [Bad("entry", p)]
        return Ok(V(es))

    def canonicalize(self, p):
        q = self.path(p)
        if q is None or q not in self.n:
            return Bad("canonicalize", p)
        return Ok(q)

    def chdir(self, p):
        if not self.isdir(p) or self.flag("noenter", self.path(p)):
            return Bad("chdir", p)
        self.proc = self.path(p)
        return Ok(UNIT)

    def glob(self, p):
        if not isinstance(p, str):
            raise Unk("pattern")
        if "***" in p or re.search(r"\[[^\]]*$", re.sub(r"\[[\[\]?*]\]", "", p)):
            return Bad("glob", p)
        out = []

        def go(base, comps):
            if not comps:
                out.append(Ok(base))
                return
            c, rest = comps[0], comps[1:]
            if not re.search(r"[*?\[]", c):
                q = join(base, c)
                if self.exists(q):
                    go(q, rest)
                return
            rp = self.path(base) if base else self.proc
            if rp is None or self.n.get(rp, 0) is not None:
                return
            if self.flag("noread", rp):
                out.append(Bad("glob", base))
                return
            for k in sorted(x.split("/")[-1] for x in self.kids(rp)):
                if fnmatch.fnmatchcase(k, c):
                    go(join(base, k), rest)
        cs = [c for c in p.split("/") if c]
        if "**" in cs:
            raise Unk("**")
        go("/" if p.startswith("/") else "", cs)
        return Ok(V(out))


def osname(x):
    if not isinstance(x, str):
        raise Unk("name")
    return x


def fname(p):
    c = [x for x in osname(p).split("/") if x not in ("", ".")]
    return Some(c[-1]) if c and c[-1] != ".." else NO


def parent(p):
    osname(p)
    q = p.rstrip("/")
    if not q:
        return NO
    i = q.rfind("/")
    return Some("/" if i == 0 else q[:i] if i > 0 else "")


def prefix(p, b):
    p1, b1 = [x for x in osname(p).split("/") if x], [x for x in osname(b).split("/") if x]
    return p.startswith("/") == b.startswith("/") and p1[:len(b1)] == b1


def strip(p, b):
    return Ok("/".join([x for x in p.split("/") if x][len([x for x in b.split("/") if x]):])) if prefix(p, b) else A(("Result", 1, U(("prefix",))))


def de(x):
    if isinstance(x, A) and x[0] == "DirEntry":
        return x[2]
    raise Unk("entry")


def meta(fs, p):
    if not fs.exists(p):
        return Bad("metadata", p)
    b = fs.n.get(fs.path(p))
    return Ok(A(("Metadata", 0, "d", 4096) if fs.isdir(p) else ("Metadata", 0, "f", len(b))))


def mlen(m):
    ftype(m, "f")
    return m[3]


def ftype(x, k):
    if not (isinstance(x, A) and x[0] in ("Metadata", "FileType")):
        raise Unk("metadata")
    return x[2] == k


def esc(s):
    return re.sub(r"([?*\[\]])", r"[\1]", osname(s))


PURE = {
    "Path::join": lambda fs, a, b: join(a, b), "PathBuf::join": lambda fs, a, b: join(a, b), "Path::display": lambda fs, p: osname(p),
    "Path::to_path_buf": lambda fs, p: p, "Path::parent": lambda fs, p: parent(p), "Path::file_name": lambda fs, p: fname(p),
    "Path::to_str": lambda fs, p: Some(osname(p)), "OsStr::to_str": lambda fs, p: Some(osname(p)), "OsString::into_string": lambda fs, p: Ok(osname(p)),
    "Path::is_absolute": lambda fs, p: osname(p).startswith("/"), "Path::is_relative": lambda fs, p: not osname(p).startswith("/"), "Path::has_root": lambda fs, p: osname(p).startswith("/"),
    "Path::starts_with": lambda fs, p, b: prefix(p, b), "Path::strip_prefix": lambda fs, p, b: strip(p, b), "Pattern::escape": lambda fs, s: esc(s),
    "DirEntry::path": lambda fs, e: de(e), "DirEntry::file_name": lambda fs, e: de(e).split("/")[-1],
    "Metadata::is_dir": lambda fs, m: ftype(m, "d"), "Metadata::is_file": lambda fs, m: ftype(m, "f"), "FileType::is_dir": lambda fs, m: ftype(m, "d"), "FileType::is_file": lambda fs, m: ftype(m, "f"),
    "Error::kind": lambda fs, e: kind(fs, e), "FileType::is_symlink": lambda fs, m: False, "Metadata::is_symlink": lambda fs, m: False, "Metadata::file_type": lambda fs, m: m, "Metadata::len": lambda fs, m: mlen(m),
}
def within(v, x):
    need = model.need
    if not all(isinstance(y, (str, int)) and type(y) is type(x) for y in need(v, V)):
        raise Unk("contains")
    return x in v


PURE.update({
    "slice::contains": lambda fs, v, x: within(v, x), "Vec::contains": lambda fs, v, x: within(v, x), "String::from_utf8": lambda fs, v: utf8(v), "str::from_utf8": lambda fs, v: utf8(v), "FromUtf8Error::into_bytes": lambda fs, e: e[1] if e[0] == "notutf8" else data(e),
})
READ = {
    "Path::exists": FS.exists, "Path::is_dir": FS.isdir, "Path::is_file": FS.isfile, "Path::try_exists": lambda fs, p: Ok(fs.exists(p)), "fs::exists": lambda fs, p: Ok(fs.exists(p)),
    "Path::is_symlink": lambda fs, p: False,
    "fs::read": FS.read, "fs::read_to_string": FS.read_to_string, "fs::read_dir": FS.read_dir, "Path::read_dir": FS.read_dir, "fs::metadata": meta, "Path::metadata": meta,
    "fs::symlink_metadata": meta, "Path::symlink_metadata": meta, "DirEntry::metadata": lambda fs, e: meta(fs, de(e)), "DirEntry::file_type": lambda fs, e: meta(fs, de(e)),
    "dunce::canonicalize": FS.canonicalize, "fs::canonicalize": FS.canonicalize, "Path::canonicalize": FS.canonicalize, "glob::glob": FS.glob,
    "env::current_dir": lambda fs: Ok(fs.proc), "File::open": lambda fs, p: fs.open({"read": True}, p),
}
MUT = {
    "fs::write": FS.write, "fs::remove_file": FS.remove_file, "fs::remove_dir": FS.remove_dir, "fs::remove_dir_all": FS.remove_dir_all, "fs::create_dir": FS.create_dir,
    "fs::create_dir_all": FS.create_dir_all, "fs::rename": FS.rename, "fs::copy": FS.copyfile, "fs::hard_link": FS.link, "OpenOptions::open": lambda fs, o, p: fs.open(o, p),
    "File::create": lambda fs, p: fs.openw(p, {"write": True, "create": True, "truncate": True}), "File::create_new": lambda fs, p: fs.openw(p, {"write": True, "create_new": True}),
    "Write.write_all": FS.write_all, "Write.write": lambda fs, h, x: fs.write_all(h, x, 2), "Write.flush": lambda fs, h: Ok(UNIT), "File::sync_all": lambda fs, h: Ok(UNIT),
    "File::sync_data": lambda fs, h: Ok(UNIT), "env::set_current_dir": FS.chdir,
}
EFFECT = re.compile(r"^(fs::|File::(?!open)|OpenOptions::open|Write\.|Command::|Child::|env::set_|env::remove_|process::|os::)")
ENV = U(("env",))


class FsSummary(model.Summary):
    """one path of a summary in one model of the file system"""

    def __init__(self, cx, vals, fs, syms=None, depth=0):
        model.Summary.__init__(self, cx.E, vals, 0, syms=dict(syms or {}, env=ENV) if not depth else syms)
        self.cx, self.fs, self.depth = cx, fs, depth
        self.bind = {}

    soft = None         # why it is not known whether the model takes the path
    kinds = ("ext", "prim")
    incollect = ()      # what the closures of a collect do

    def matters(self, e):
        return False

    def run(self, st, ret):
        self.top = st
        r = model.Summary.run(self, st, ret)
        return r

    def ev(self, t, env):
        return self.ev0(t, env)

    def ev0(self, t, env):
        if t.id not in self.bind and t.op == "oopts":
            return {n: self.ev(v, env) for n, v in t.a[0]}
        if t.op == "elem" and t.a[1].op == "k" and t.a[1].a[2] == "f" and models.reads_dir(t.a[0]):
            return Ok(model.index(self.good(t.a[0], env), self.ev(t.a[1], env)))
        if t.op == "isvar" and len(t.a) > 2:
            x = self.ev(t.a[0], env)
            if isinstance(x, A):
                return x[1] == t.a[1]
            raise Unk("variant")
        return model.Summary.ev0(self, t, env)

    def good(self, t, env):
        """the entries a flattened listing yields"""
        return V(x[2] for x in model.need(self.ev(t, env), V) if x[1] == 0)

    def klen(self, k, args, name, env):
        if name != "range" and k.op == "k" and k.a[2] == "f":
            if not models.reads_dir(args[0]):
                raise Unk("filtered iterator")
            return len(self.good(args[0], env))
        return model.Summary.klen(self, k, args, name, env)

    def holds(self, evs, conds, st, env):
        fs, bind = self.fs.copy(), dict(self.bind)
        try:
            r = self.holds1(evs, conds, st, env)
        except Undef:
            r = False
        except Unk:
            self.fs, self.bind = fs, bind
            raise
        if not r:
            self.fs, self.bind = fs, bind
        return r

    def holds1(self, evs, conds, st, env):
        unk = None
        ended = []
        for i, e in enumerate(evs):
            k = e.kind
            if k == "filt":
                if e.site not in self.piped and not any(q.kind == "next" and q.res is not None and q.res.op == "elem" and q.res.a[1].op == "k" and q.res.a[1].a[2] == "f" and models.reads_dir(q.res.a[0]) for q in evs[:i]):
                    raise Unk("filtered iterator")
            if k == "ended":
                ended.append(e)
            elif k == "acc":
                try:
                    if not self.gathered(e, env):
                        return False
                except Unk as u:
                    unk = unk or u
            elif k == "loop" and e.x.get("iters") is not None:
                try:
                    done, ks = self.loop(e, env)
                except Unk as u:
                    unk = unk or u
                    continue
                if ks and model.ends(ks, st) != done:
                    return False
            elif k in self.kinds:
                if id(e) in self.incollect:
                    continue
                try:
                    v = self.apply(e, env)
                except Unk as u:
                    if e.res is not None:
                        self.bind.pop(e.res.id, None)       # not the previous turn's
                    if self.matters(e) or EFFECT.match(e.name) or e.x.get("uid") in self.cx.p.bodies and not e.name.startswith(("Expression::", "Environment::")):
                        unk = unk or u
                    continue
                if e.res is not None:
                    self.bind[e.res.id] = v
            elif k == "write":
                try:
                    v = self.fs.write_all(self.ev(e.args[0], env), self.ev(e.args[1], env))
                    if e.res is not None:
                        self.bind[e.res.id] = v
                except Unk as u:
                    unk = unk or u
            elif k == "maybe":
                unk = unk or Unk("callback")
        for e in ended:
            if self.drawn(e.args[0], env, e.x.get("like", ())):
                return False
        soft = None
        inner = self.inner(evs)
        for t, v in conds:
            if (t.id, v) in inner:
                continue
            try:
                if isinstance(v, frozenset):
                    x = self.ev(t, env)
                    if not isinstance(x, A):
                        raise Unk("variant")
                    if x[1] not in v:
                        return False
                elif model.need(self.ev(t, env), bool) != v:
                    return False
            except Unk as u:
                soft = soft or u
        if soft is not None:
            if st is self.top and not self.depth:
                self.soft = soft
            else:
                unk = unk or soft
        if unk is not None:
            raise unk
        return True

    def apply(self, e, env):
        n = e.name
        fs = self.fs
        f = PURE.get(n) or READ.get(n) or MUT.get(n)
        xs = None
        if f is not None:
            xs = [self.ev(a, env) for a in e.args]
            if any(isinstance(x, U) and x[0] not in ("handle", "ioerr", "notutf8") for x in xs):
                raise Unk("argument of " + n)
            try:
                return f(fs, *xs)
            except (TypeError, AttributeError):
                raise Unk("arguments of " + n)
        m = n.split("::")[-1]
        if n.startswith("Environment::") and m in ("get_cwd", "set_cwd"):
            xs = [self.ev(a, env) for a in e.args]
            if not xs or xs[0] != ENV:
                raise Unk("another environment")
            if m == "get_cwd":
                return fs.cwd
            fs.cwd = model.need(xs[1], str)
            return UNIT
        if canon.is_eval(e.res) if e.res is not None else False:
            return self.ev(e.res, env) if e.res.id not in self.bind else self.bind[e.res.id]
        u = e.x.get("uid")
        if e.kind == "prim" and u in self.cx.p.bodies and "::eval" not in u and "Environment" not in u:
            return self.recurse(u, [self.ev(a, env) for a in e.args])
        raise Unk(n)

    def recurse(self, u, xs):
        if self.depth > 6:
            raise Unk("recursion")
        b = self.cx.p.bodies[u]
        names = [x[1] if len(x) > 1 and x[1] else "arg%d" % i for i, x in enumerate(b["locals"][1:1 + b["argc"]])]
        unk = None
        for o in self.cx.outs(u):
            if o.kind != "ret":
                continue
            S = FsSummary(self.cx, {}, self.fs.copy(), dict(zip(names, xs)), self.depth + 1)
            S.fuel = self.fuel
            try:
                r = S.run(o.st, o.ret)
            except Unk as w:
                unk = unk or w
                continue
            except Undef:
                continue
            if r is not None:
                self.fs = S.fs
                return r[0]
        raise unk or Unk("no path of " + u)


# ---------------------------------------------------------------- models
def B(s):
    return V(s.encode())


BASE = {
    "/": None, "/w": None, "/w/a": B("alpha\nbeta\n\ngam"), "/w/e": B(""), "/w/d": None, "/w/d/x": B("1\r\n2\n"), "/w/d/s": None, "/w/d/s/y": B("two"), "/w/d/.h": B("hid"),
    "/w/m": None, "/w/bin": V((255, 0, 10, 13)), "/w/ a": B("lead"), "/w/d ": None, "/w/d /x": B("trail"), "/p": None, "/p/a": B("WRONG\n"), "/p/q": B("proc"), "/p/d": None, "/p/d/zz": B("pd"), "/p/u": None, "/o": None, "/o/f1": B("other\nfile\n"), "/o/k": None,
}
# the shell's directory also exists with a name full of pattern characters
NAMES = ["a", "e", "d", "m", "bin", "zz", "d/x", "d/zz", "zz/q", "/o/f1", "/o/new", "a/b", "q", "../o/f1", "d/s", "/o/k/new", "u", "/w/a", "d/s/y", " a", "d ", "zz "]
MORE = [".", "..", "d/..", "./d", "d/../m", "../o", "../o/k", "", "a/", "d/", "m/../d/./s", "/w/d/../a", "/"]
FAULTS = [{}, {"noread": ["/w/a", "/o/f1"]}, {"noread": ["/w/d", "/w/m"]}, {"noread": ["/w/d/x", "/w/d/s", "/w/bin"]}, {"nowrite": ["/w", "/o"]}, {"nowrite": ["/w/d", "/w/d/s"]},
          {"badentry": ["/w/d"]}, {"badentry": ["/w/d/s"]}, {"full": ["/w/a", "/w/zz", "/o/new", "/w/e"]}, {"full": ["/w/zz/x", "/w/zz/s/y", "/o/new/x"]}, {"readonly": ["/w/a", "/w/e"]}, {"noenter": ["/w/d", "/o/k"]}]


def S(x):
    return EX("String", x)


VALUES = [S("h\nq"), S(""), EX("Bytes", V((255, 0, 65))), EX("Integer", 5), EX("Bytes", V()), EX("List", V([EX("Integer", 1), S("z")])), EX("Boolean", True), S("long enough"), S("\u00e9")]
COUNTS = [EX("Integer", i) for i in (0, 1, 2, 3, 4, 9, -1, -(1 << 63), (1 << 63) - 1)]


def fsm(cwd="/w", proc="/p", **fl):
    return FS(BASE, cwd, proc, **fl)


def one(names=NAMES + MORE, faults=FAULTS):
    for f in faults:
        for n in names:
            yield [S(n)], f
    yield [EX("Symbol", "a")], {}
    yield [EX("Symbol", "d")], {}


def two(vals):
    def g():
        for f in FAULTS:
            for n in NAMES + MORE:
                for v in vals if not f or "full" in f else vals[:2]:
                    yield [S(n), v], f
        yield [EX("Symbol", "a"), vals[0]], {}
    return g


def pairs():
    for f in FAULTS:
        for a in NAMES:
            for b in NAMES:
                if (b + "/").startswith(a + "/") and a != b or a == "d" and b.startswith("d/"):
                    continue        # a directory into itself
                yield [S(a), S(b)], f
    yield [EX("Symbol", "a"), EX("Symbol", "zz")], {}


def disp(v):
    return model.disp(v)


# ---------------------------------------------------------------- what the builtins are documented to do
class Want(object):
    """ok: value or predicate (None: an error); the state after success is in fs"""

    def __init__(self, ok=None, err=False):
        self.ok, self.err = ok, err


ERR = Want(err=True)


def target(fs, x):
    return join(fs.cwd, disp(x))


def w_read(fs, a):
    p = target(fs, a[0])
    r = fs.read(p)
    if r[1] == 1:
        return ERR
    t = text(r[2])
    return Want(S(t) if t is not None else EX("Bytes", r[2]))


def w_lines(pick):
    def f(fs, a):
        r = fs.read_to_string(target(fs, a[0]))
        if r[1] == 1:
            return ERR
        return Want(S("".join(l + "\n" for l in pick(model.lines(r[2]), max(0, a[1][2])))))
    return f


def w_write(fs, a):
    r = fs.write(target(fs, a[0]), a[1][2] if a[1][1] == model.KI["Bytes"] else disp(a[1]))
    return ERR if r[1] == 1 else Want(NONEX)


def w_append(fs, a):
    h = fs.open({"append": True}, target(fs, a[0]))
    if h[1] == 1:
        return ERR
    r = fs.write_all(h[2], a[1][2] if a[1][1] == model.KI["Bytes"] else disp(a[1]))
    return ERR if r[1] == 1 else Want(NONEX)


def w_do(op):
    def f(fs, a):
        r = op(fs, target(fs, a[0]))
        return ERR if r[1] == 1 else Want(NONEX)
    return f


def w_rm(fs, a):
    p = target(fs, a[0])
    r = fs.remove_dir_all(p) if fs.isdir(p) else fs.remove_file(p)
    return ERR if r[1] == 1 else Want(NONEX)


def w_mv(fs, a):
    p, q = target(fs, a[0]), target(fs, a[1])
    if p == q:
        return Want(NONEX)
    if fs.exists(q):
        return ERR
    r = fs.rename(p, q)
    return ERR if r[1] == 1 else Want(NONEX)


def copytree(fs, p, q):
    if fs.exists(q):
        return False
    if fs.isdir(p):
        if fs.create_dir_all(q)[1] == 1:
            return False
        r = fs.read_dir(p)
        return r[1] == 0 and all(e[1] == 0 and copytree(fs, e[2][2], join(q, e[2][2].split("/")[-1])) for e in r[2])
    return fs.copyfile(p, q)[1] == 0


def w_cp(fs, a):
    p, q = target(fs, a[0]), target(fs, a[1])
    if p == q:
        return Want(NONEX)
    return Want(NONEX) if copytree(fs, p, q) else ERR


def w_ls(fs, a):
    p = target(fs, a[0])
    if fs.isdir(p):
        r = fs.read_dir(p)
        if r[1] == 1 or any(e[1] == 1 for e in r[2]):
            return ERR
        return Want(EX("List", V(S(join(disp(a[0]), e[2][2].split("/")[-1])) for e in r[2])))
    return Want(EX("List", V([S(p)]))) if fs.isfile(p) else ERR


def w_test(f):
    return lambda fs, a: Want(EX("Boolean", f(fs, target(fs, a[0]))))


def w_canon(fs, a):
    r = fs.canonicalize(target(fs, a[0]))
    return ERR if r[1] == 1 else Want(S(r[2]))


def w_glob(fs, a):
    r = fs.glob(join(esc(fs.cwd), disp(a[0])))
    if r[1] == 1 or any(e[1] == 1 for e in r[2]):
        return ERR
    return Want(EX("List", V(S(strip(e[2], fs.cwd)[2] if prefix(e[2], fs.cwd) else e[2]) for e in r[2])))


def tree(fs, p, depth):
    d = {".": S(p), "..": S(parent(p)[2] if parent(p)[1] else p)}
    if depth is not None and depth <= 0:
        return EX("Map", Mp(d))
    r = fs.read_dir(p)
    if r[1] == 0:
        for e in r[2]:
            if e[1] == 0:
                q = e[2][2]
                d[q.split("/")[-1]] = tree(fs, q, None if depth is None else depth - 1) if fs.isdir(q) else S(q)
    return EX("Map", Mp(d))


def w_tree(fs, a):
    p, depth = fs.cwd, None
    K = model.KI
    a = list(a)
    if a[0][1] == K["Integer"]:
        depth = a[0][2]
        a = a[1:]
    else:
        a = a[:1]
    if a and a[0][1] in (K["String"], K["Symbol"]):
        p = join(p, a[0][2])
    return Want(tree(fs, p, depth))


def trees():
    for f in FAULTS[:8]:
        for n in ("d", "m", "/o", "a", "zz", "d/s"):
            yield [S(n)], f
            for i in (0, 1, 2, -1):
                yield [EX("Integer", i), S(n)], f
        for i in (0, 1, 2, 5, -3):
            yield [EX("Integer", i)], f
        yield [EX("Symbol", "d")], f
        yield [NONEX], f
        yield [EX("Integer", 1), EX("Symbol", "d")], f
        yield [EX("Integer", 2), EX("Boolean", True)], f
        yield [S("d"), EX("Integer", 0)], f


def w_cd(fs, a, chdir=True):
    r = fs.canonicalize(target(fs, a[0]))
    if r[1] == 1 or not fs.isdir(r[2]):
        return ERR
    if chdir and fs.chdir(r[2])[1] == 1:
        return ERR
    fs.cwd = r[2]
    return Want(NONEX)


def globs():
    for f in FAULTS[:5]:
        for n in ("*", "a", "?", "d/*", "*/*", "/o/*", "zz*", "***", "[", "d/s/y", "[ab]*", "../o/*", "*/s/*", "q", "[!a]"):
            yield [S(n)], f


READS = ("fs@read", "fs@head", "fs@tail", "fs@ls", "fs@exists?", "fs@is-dir?", "fs@is-file?", "fs@canon", "fs@glob", "fs@tree")
DEFAULT = [(), {}]
TABLE = {
    "fs@read": (one, w_read), "fs@head": (two(COUNTS), w_lines(lambda l, n: l[:n])), "fs@tail": (two(COUNTS), w_lines(lambda l, n: l[len(l) - min(n, len(l)):])),
    "fs@write": (two(VALUES), w_write), "fs@append": (two(VALUES), w_append), "fs@mkdir": (one, w_do(FS.create_dir_all)), "fs@rmdir": (one, w_do(FS.remove_dir)),
    "fs@rm": (one, w_rm), "fs@mv": (pairs, w_mv), "fs@cp": (pairs, w_cp), "fs@ls": (one, w_ls), "fs@exists?": (one, w_test(FS.exists)), "fs@is-dir?": (one, w_test(FS.isdir)),
    "fs@is-file?": (one, w_test(FS.isfile)), "fs@canon": (one, w_canon), "fs@glob": (globs, w_glob), "fs@tree": (trees, w_tree), "os@cd": (one, w_cd),
    "sys@cd": (one, lambda fs, a: w_cd(fs, a, False)),
}
PLACES = [("/w", "/p"), ("/w", "/w")]


class Finding(object):
    def __init__(self, what, m, got, want, fs):
        self.what, self.m, self.got, self.want, self.fs = what, m, got, want, fs


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))


def classify(name, args, before, want, after, res, got):
    """-> set of properties the outcome breaks, or None when it cannot be compared"""
    if not (isinstance(res, A) and res[0] == "Result"):
        return None
    out = set()
    err = res[1] == 1
    pid = "P35" if name in READS or name in ("fs@write", "fs@append") else "P26" if name.endswith("@cd") else "P09"
    if want.err != err:
        out.add("P07")
        out.add(pid)
    elif not err:
        e = eq3(res[2], want.ok)
        if e is None:
            return None
        if e is False:
            out.add(pid)
    # the state
    b, w, g = before.n, after.n, got.n
    if not err and not want.err:
        if w != g:
            out.add(pid)
            if not name.endswith("@cd"):
                out.add("P09")
        if (got.cwd, got.proc) != (after.cwd, after.proc):
            out.add("P26" if name.endswith("@cd") else "P09")
    elif err and not name.endswith("@cd") and want.err and g != b and name not in ("fs@cp", "fs@mkdir"):
        # a failed operation leaves what was there (a partial write or removal aside)
        if name in ("fs@write", "fs@append") and any(p not in b for p in diff(b, g)) and before.openw(target(before, args[0]), dict(write=True, append=name == "fs@append", create=name == "fs@write"))[1] == 1:
            out.add("P09")
    if err and (got.cwd, got.proc) != (before.cwd, before.proc) and not (name == "os@cd" and got.cwd == before.cwd):
        out.add("P26" if name.endswith("@cd") else "P09")
    changed = diff(b, g)
    if name in READS or name.endswith("@cd"):
        allowed = lambda p: False
    else:
        ts = [before.path(target(before, a)) or posixpath.normpath(join(before.proc, target(before, a))) for a in args[:2 if name in ("fs@mv", "fs@cp") else 1]]
        if name == "fs@cp":
            ts = ts[1:]
        allowed = lambda p: any(p == t or (p + "/").startswith(t.rstrip("/") + "/") or name in ("fs@mkdir", "fs@cp") and t.startswith(p + "/") and p not in b for t in ts)
    if any(not allowed(p) for p in changed):
        out.add("P09")
        if name in ("fs@mv", "fs@cp"):
            out.add("P08")
    if name in ("fs@mv", "fs@cp"):
        src, dst = before.path(target(before, args[0])), before.path(target(before, args[1]))
        lost = [p for p in changed if p in b and p not in g]
        wrote = [p for p in changed if p in b and p in g]
        if wrote:
            out.add("P08")
        if name == "fs@cp" and lost:
            out.add("P08")
        if name == "fs@mv" and lost:
            # what was at the source must now be at the destination
            for p in lost:
                q = posixpath.normpath(join(before.proc, target(before, args[1]))) + p[len(src):] if src and (p + "/").startswith(src + "/") else None
                if q is None or g.get(q, 0) != b[p]:
                    out.add("P08")
            if err:
                out.add("P08")
        if not err and src != dst and before.exists(target(before, args[1])):
            out.add("P08")
        if not err and (want.err or w != g):
            out.add("P08")
    if name == "fs@append" and before.path(target(before, args[0])) in b:
        p = before.path(target(before, args[0]))
        if b[p] is not None and tuple(g.get(p) or ())[:len(b[p])] != tuple(b[p]):
            out.add("P35")
    return out


def analyse(cx, name):
    """-> (findings by property, counters)"""
    cache = cx.__dict__.setdefault("_fs", {})
    if name in cache:
        return cache[name]
    gen, oracle = TABLE[name]
    u = cx.reg.uid(name)
    outs = cx.builtin(u)
    found, cnt = {}, {"models": 0, "judged": 0, "unknown": 0, "paths": 0}
    if outs is None:
        cnt["budget"] = 1
        cache[name] = (u, found, cnt, "budget")
        return cache[name]
    outs = [o for o in outs if o.kind == "ret"]
    cnt["paths"] = len(outs)
    why = ""
    ms = list(gen())
    live = {}
    for args, fl in ms:
        res = {}
        for cwd, proc in PLACES if not fl else PLACES[:1]:
            cnt["models"] += 1
            before = fsm(cwd, proc, **fl)
            after = before.copy()
            try:
                want = oracle(after, args)
            except Unk as w:
                why = why or "oracle: " + str(w)
                continue
            unk = None
            hit = None
            may = []
            for o in outs:
                s = FsSummary(cx, dict(enumerate(args)), before.copy())
                try:
                    r = s.run(o.st, o.ret)
                except (Unk, RecursionError) as w:
                    unk = str(w)
                    continue
                except Undef:
                    continue
                if r is None:
                    continue
                try:
                    c = classify(name, args, before, want, after, r[0], s.fs)
                except Unk as w:
                    c = None
                if s.soft is not None:
                    may.append((c, o, r[0], want, before, after, s.fs))
                    continue
                if c is None:
                    unk = "comparison"
                    continue
                hit = (c, o, r[0], want, before, after, s.fs)
                break
            if not hit and may and not unk and all(q[0] is not None and q[0] == may[0][0] for q in may):
                hit = may[0]        # one of these paths is taken, whichever it is
            if hit:
                cnt["judged"] += 1
                res[cwd, proc] = hit
            else:
                cnt["unknown"] += 1
                why = why or unk or "no path taken for " + model.show_model(dict(enumerate(args)))
        v = res.get(PLACES[0])
        if v is None:
            continue
        c = set(v[0])
        same = res.get(PLACES[1])
        if c and same is not None and not same[0]:
            c.add("P10")
        for p in c:
            found.setdefault(p, (args, fl) + v[1:])
    cache[name] = (u, found, cnt, why)
    return cache[name]


def run(cx, rep, pid, names, text):
    for n in names:
        with Guard(rep, n):
            u, found, cnt, why = analyse(cx, n)
            rep.unit(u)
            rep.count("builtins")
            for k, v in cnt.items():
                rep.count(k, v)
            rep.count("obligations", cnt["judged"])
            if pid in found:
                args, fl, o, res, want, before, after, got = found[pid]
                rep.violation("%s:%s" % (n, pid), "%s %s" % (n, text), {
                    "model": model.show_model(dict(enumerate(args))), "failures": {k: sorted(v) for k, v in fl.items()}, "shell directory": before.cwd, "process directory": before.proc,
                    "returns": repr(res)[:300], "expected": "an error" if want.err else repr(want.ok)[:300], "changed": diff(before.n, got.n)[:8],
                    "expected changes": None if want.err else diff(before.n, after.n)[:8], "path": conds_str(o)})
            elif cnt["unknown"] or cnt.get("budget"):
                rep.undecided(n, "%d of %d models: %s" % (cnt["unknown"], cnt["models"], why))


WAY = ("Path-sensitive summaries of every file builtin (conditions, file-system calls in order with their argument terms, returned term) are interpreted in small models of a file "
       "system whose every call can also fail, and compared with the documented effect; recursion (cp, tree) is interpreted through the recursive function's own summary.")


@rule("P07", WAY)
def p07(cx, rep, tier):
    rep.rule("whenever a call of the file system fails that the builtin needs, the builtin returns an error, and only then")
    run(cx, rep, "P07", sorted(TABLE), "does not report success and failure as the file operation went")


@rule("P08", WAY)
def p08(cx, rep, tier):
    rep.rule("cp and mv never change or remove what exists at the destination, never lose the source, and the destination ends up with exactly the source's contents")
    run(cx, rep, "P08", ["fs@cp", "fs@mv"], "overwrites or loses a file")


@rule("P09", WAY)
def p09(cx, rep, tier):
    rep.rule("after success exactly the documented change has been made; no builtin changes a path it was not given; reading builtins change nothing")
    run(cx, rep, "P09", sorted(TABLE), "changes something else than what it is documented to change")


@rule("P10", WAY)
def p10(cx, rep, tier):
    rep.rule("the outcome does not depend on the process's working directory: relative paths are joined to the shell's")
    run(cx, rep, "P10", sorted(TABLE), "resolves a relative path against the process's directory instead of the shell's")


@rule("P35", WAY)
def p35(cx, rep, tier):
    rep.rule("reading returns exactly the file's contents (or the documented lines), writing leaves exactly the given contents, listing and tests tell exactly what exists")
    run(cx, rep, "P35", [n for n in sorted(TABLE) if n in READS or n in ("fs@write", "fs@append")], "does not read or write exactly the named file's contents")


@rule("P26", WAY)
def p26(cx, rep, tier):
    rep.rule("cd changes the directory to the canonical form of exactly the named directory, and changes nothing when that is not an enterable directory")
    run(cx, rep, "P26", ["os@cd", "sys@cd"], "does not change to exactly the named directory")
