"""Summaries of the standard-library functions the repository uses."""
import re
from terms import *
from engine import Ev, Call, INF, LENMAX, RANGES, concrete_iter, Budget

MODELS = {}
OVERRIDE_LOCAL = {"Clone.clone", "ToString.to_string", "PartialEq.eq", "PartialEq.ne", "PartialOrd.partial_cmp",
                  "PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge", "Into.into", "Hash.hash"}

IMPURE_WORDS = ("fs::", "io::", "process", "env::", "thread", "rand", "time", "crossterm", "rpassword", "rustyline",
                "Local", "read", "next", "lock", "terminal", "glob", "ctrlc", "dunce", "chess")


def is_impure(name, callee):
    p = callee["p"]
    if name in PURE_EXT:
        return False
    return any(w in p for w in IMPURE_WORDS)


PURE_EXT = {"Path::join", "Path::exists", "Path::is_dir", "Path::is_file", "Path::new", "Path::display",
            "Path::parent", "Path::file_name", "Path::strip_prefix", "Path::to_str", "Path::is_absolute"}


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ty_of(E, i):
    return E.p.types[i] if i is not None and i >= 0 else {"k": "?"}


def adt_of(E, i):
    """type description of a (possibly referenced) adt"""
    d = ty_of(E, i)
    n = 0
    while d["k"] == "ref" and n < 5:
        d = ty_of(E, d["t"])
        n += 1
    return d


def call_value(E, st, f, args, c, tag=""):
    c2 = Call()
    c2.args = list(args)
    c2.site = c.site if not tag else (c.site[0], c.site[1], tag) if len(c.site) == 2 else c.site + (tag,)
    c2.fr, c2.dest, c2.span = c.fr, -1, c.span
    c2.argtys = [-1] * len(args)
    c2.callee, c2.name = c.callee, getattr(c, "name", "?")
    return E.invoke(st, f, c2)


def chain(res, f):
    """apply f to every non-diverging result"""
    out = []
    for s, v in res:
        if v is None:
            out.append((s, None))
        else:
            r = f(s, v)
            if isinstance(r, T):
                out.append((s, r))
            else:
                out.extend(r)
    return out


def vsplit(E, st, v, adt):
    n = len(ADTS[adt]["v"]) if adt in ADTS else 2
    return E.split(st, v, n)


# ------------------------------------------------------------- identities
@m("Deref.deref", "DerefMut.deref_mut", "AsRef.as_ref", "AsMut.as_mut", "Borrow.borrow", "BorrowMut.borrow_mut",
   "String::as_str", "Vec::as_slice", "Vec::as_mut_slice", "PathBuf::as_path", "Box::as_ref", "Box::as_mut",
   "Path::as_os_str", "OsString::as_os_str", "String::as_mut_str", "str::as_ref", "hint::must_use", "hint::black_box",
   "Rc::as_ref", "Option::as_deref_mut", "Path::new", "convert::identity", "Path::as_ref", "slice::as_ref", "str::as_str",
   "Option::as_mut", "Option::as_deref", "Option::as_ref", "Result::as_ref", "Result::as_mut", "Box::leak",
   "IterMut::into_slice", "Pin::as_ref", "Box::pin", "Box::into_pin")
def ident(E, st, c):
    a = c.args[0]
    n = c.name
    if n in ("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref", "Option::as_deref_mut"):
        # Option<&T>: payload is a reference into the original place
        v = E.load1(st, a)
        adt = RESULT if n.startswith("Result") else OPTION
        out = []
        for s, i in E.split(st, v, 2):
            if adt == OPTION and i == 0:
                out.append((s, NONE))
                continue
            p = E.mkref(s, a.a[0], list(a.a[1]) + [("f", i, 0)]) if a.op == "ref" else E.payload(s, v, i)
            if a.op == "ref" and not n.endswith("mut"):
                # shared reference: use the value itself unless it is a container that may be referenced
                pass
            out.append((s, mk("adt", adt, i, p)))
        return out
    if n == "Path::new":
        return E.load(st, a)
    if n in ("Deref.deref", "DerefMut.deref_mut") and "Guard" in E.p.tystr(c.argtys[0]):
        v = E.load1(st, a)
        if v.op != "ref":
            return v           # what a guard protects outlives the guard
    return a


@m("Clone.clone", "ToOwned.to_owned", "slice::to_vec", "Vec::into_boxed_slice", "Path::to_path_buf", "Path::into_os_string",
   "PathBuf::into_os_string", "String::into_boxed_str", "Cow::into_owned", "String::into_bytes", "String::as_bytes",
   "str::as_bytes", "OsStr::to_os_string", "Option::cloned", "Option::copied", "Box::into_inner", "str::to_owned",
   "slice::into_vec", "str::into_string", "Rc::clone", "Arc::clone", "Box::clone", "String::clone", "Vec::clone",
   "PathBuf::from", "String::from_iter", "OsString::from", "slice::into_boxed_slice", "OsStr::to_owned", "str::into_boxed_str",
   "Clone.clone_from", "Option::clone")
def by_value(E, st, c):
    v = E.load(st, c.args[0])
    if c.name in ("Option::cloned", "Option::copied"):
        v = E.load1(st, c.args[0]) if c.args[0].op == "ref" else c.args[0]
        if v.op == "adt" and len(v.a) > 2:
            return mk("adt", v.a[0], v.a[1], E.load(st, v.a[2]))
        return v
    if c.name == "Clone.clone" and c.args[0].op == "ref":
        v1 = E.rplace(st, c.args[0].a[0], c.args[0].a[1])
        d = ty_of(E, c.argtys[0])
        if d["k"] == "ref" and ty_of(E, d["t"])["k"] == "ref":
            return v1      # cloning a reference
        return v1 if v1.op != "ref" else E.load(st, v1)
    return v


@m("Box::new", "Rc::new", "Arc::new", "Mutex::new", "RwLock::new", "Cell::new", "RefCell::new", "Box::from", "Some", "Cow::from",
   "Wrapping", "Reverse")
def wrap1(E, st, c):
    if c.name == "Cell::new" and "prettytable" in c.callee["p"]:
        return NotImplemented
    return c.args[0]


STRINGY = ("alloc::string::String", "std::path::PathBuf", "std::ffi::os_str::OsString", "std::path::Path",
           "std::ffi::os_str::OsStr", "alloc::borrow::Cow")


def is_stringy(E, i):
    d = adt_of(E, i)
    return d["k"] == "str" or (d["k"] == "adt" and d["n"] in STRINGY)


@m("Into.into", "From.from")
def into(E, st, c):
    callee = c.callee
    a = callee["a"]
    if c.name == "Into.into":
        src, dst = a[0], a[1]
    else:
        dst, src = a[0], a[1] if len(a) > 1 else -1
    return convert(E, st, c, c.args[0], src, dst)


def convert(E, st, c, v, src, dst):
    sn, dn = E.p.tystr(src), E.p.tystr(dst)
    if ty_of(E, src)["k"] in ("param", "other") or ty_of(E, dst)["k"] in ("param", "other"):
        # generic code: fall back on the concrete value and destination type
        if c.dest is not None and c.dest >= 0 and ty_of(E, dst)["k"] in ("param", "other"):
            dn = E.p.tystr(c.dest)
        if ty_of(E, src)["k"] in ("param", "other"):
            x = E.load(st, v)
            if x.op in ("str", "concat", "fmt"):
                sn = "alloc::string::String" if dn != "&str" else "&str"
            elif x.ty is not None and x.ty >= 0:
                sn = E.p.tystr(x.ty)
    if sn == dn:
        return v
    u = E.froms.get((dn, sn))
    if u is None:
        g = re.match(r"alloc::(vec::Vec|collections::btree::map::BTreeMap)<(alloc::string::String,)?%s,alloc::alloc::Global>$" % re.escape(dn), sn)
        w = g and E.genfrom.get((dn, g.group(1)))
        if w and w[1] is not None:       # a container of values: the elements stay what they are
            return mkt(dst, "adt", dn, w[1], E.load(st, v))
        if w:
            u = w[0]
    if u is not None:
        if u in E.stack or len(E.stack) > E.maxdepth:
            return E.opaque(st, "From::from:" + dn, c, (E.snap(st, v),), False)
        return E.inline(st, u, [v], E.key(c.fr.key if c.fr else 0, (c.site, u)))
    if src >= 0 and dst >= 0 and (is_stringy(E, src) and (is_stringy(E, dst) or dn.startswith("alloc::boxed::Box"))):
        return E.load(st, v)
    if dn.startswith("alloc::vec::Vec") and (sn.startswith("&") or sn.startswith("[") or sn.startswith("alloc")):
        x = E.load(st, v)
        if x.op == "array":
            return mk("vec", *x.a)
        return x
    if dn.startswith("alloc::boxed::Box") or dn.startswith("alloc::rc") or dn.startswith("alloc::sync"):
        return v
    if dn == "core::option::Option<%s>" % sn:
        return SOME(v)
    if sn == "char" and dn == "alloc::string::String":
        return mk("chstr", v)
    if sn in RANGES and dn in RANGES:
        return E.cast(st, c.fr, "IntToInt", v, dst, sn)
    if sn in RANGES and dn in ("f64", "f32"):
        return mk("fcast", dn, v, sn)
    if dn.startswith("alloc::collections::btree::map::BTreeMap") and sn.startswith("["):
        x = E.load(st, v)
        if x.op == "array":
            mm = mk("map", ())
            for t in x.a:
                if t.op != "tuple":
                    return NotImplemented
                mm = map_insert(mm, t.a[0], t.a[1])
            return mm
    return E.opaque(st, "From::from:" + dn, c, (E.snap(st, v),), False)


# -------------------------------------------------------------- formatting
def parse_template(hexs, nargs):
    b = bytes.fromhex(hexs)
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("s", b[i:i + n].decode("utf-8", "replace")))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(("s", b[i:i + ln].decode("utf-8", "replace")))
            i += ln
        else:
            spec = []
            if n & 1:
                spec.append(("flags", int.from_bytes(b[i:i + 4], "little")))
                i += 4
            if n & 2:
                w = b[i] | (b[i + 1] << 8)
                i += 2
                spec.append(("width_arg" if n & 0x10 else "width", w))
            if n & 4:
                w = b[i] | (b[i + 1] << 8)
                i += 2
                spec.append(("prec_arg" if n & 0x20 else "prec", w))
            if n & 8:
                nxt = b[i] | (b[i + 1] << 8)
                i += 2
            out.append(("a", nxt, tuple(spec)))
            nxt += 1
    return out


def concat(parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out += list(p.a)
        else:
            out.append(p)
    o2 = []
    for p in out:
        if p.op == "str" and o2 and o2[-1].op == "str":
            o2[-1] = STR(o2[-1].a[0] + p.a[0])
        elif p.op == "str" and p.a[0] == "":
            continue
        else:
            o2.append(p)
    if not o2:
        return STR("")
    if len(o2) == 1 and o2[0].op in ("str", "concat"):
        return o2[0]
    if len(o2) == 1:
        return o2[0]
    return mk("concat", *o2)


def stringlike(E, v):
    if v.op in ("str", "concat", "gcat", "repeatstr", "chstr", "disp", "lossy"):
        return True
    if v.ty is not None and v.ty >= 0:
        return is_stringy(E, v.ty)
    return False


def disp(E, st, v):
    v = E.load(st, v)
    if stringlike(E, v):
        return v
    if v.op == "call" and v.a[0] == "Path::display":
        return v.a[1]
    if v.op == "int" and v.a[1] not in ("bool", "char"):
        return STR(str(v.a[0]))
    if v.op == "int" and v.a[1] == "char":
        return STR(chr(v.a[0]))
    return mk("disp", E.snap(st, v))


@m("Argument::new_display", "Argument::new_debug", "Argument::from_usize", "Argument::new_lower_hex", "Argument::new_upper_hex",
   "Argument::new_lower_exp", "Argument::new_octal", "Argument::new_binary", "Argument::new_pointer")
def fmtarg(E, st, c):
    k = c.name.split("::")[1].replace("new_", "")
    ty = c.callee["a"][0] if c.callee["a"] else -1
    a = c.args[0]
    v = E.load(st, a)
    if k == "from_usize":
        return mk("fa", "display", a)
    if k == "display":
        st.event(Ev("show", "display", (E.snap(st, v),), None, E.esite(c), ty=ty))
        return mk("fa", k, disp(E, st, a))
    st.event(Ev("show", k, (E.snap(st, v),), None, E.esite(c), ty=ty))
    return mk("fa", k, E.snap(st, v))


@m("Arguments::new")
def fmtargs(E, st, c):
    t = E.load(st, c.args[0])
    arr = E.load(st, c.args[1])
    if t.op != "bytes" or arr.op != "array":
        return mk("fmtopaque", E.snap(st, t), E.snap(st, arr))
    parts = []
    for p in parse_template(t.a[0], len(arr.a)):
        if p[0] == "s":
            parts.append(STR(p[1]))
        else:
            x = arr.a[p[1]] if p[1] < len(arr.a) else mk("bad")
            spec = []
            for k, v in p[2]:
                if k.endswith("_arg"):
                    y = arr.a[v]
                    spec.append((k, E.load(st, y.a[1]) if y.op == "fa" else y))
                else:
                    spec.append((k, v))
            spec = tuple(s for s in spec if not (s[0] == "flags" and s[1] in (0x20, 0xE0000020, 0x60000020)))
            if x.op == "fa" and x.a[0] == "display" and not spec:
                parts.append(x.a[1])
            elif x.op == "fa":
                parts.append(mk("fmt1", x.a[0], x.a[1], spec))
            else:
                parts.append(mk("fmt1", "?", x, spec))
    return mk("fargs", concat(parts))


@m("Arguments::from_str", "Arguments::new_const")
def fmtconst(E, st, c):
    return mk("fargs", E.load(st, c.args[0]))


def farg(E, st, a):
    a = E.load(st, a)
    return a.a[0] if a.op == "fargs" else mk("disp", a)


@m("fmt::format", "format::format")
def fmtformat(E, st, c):
    return farg(E, st, c.args[0])


@m("stdio::_print", "stdio::_eprint")
def doprint(E, st, c):
    v = farg(E, st, c.args[0])
    st.event(Ev("print", c.name.split("_")[-1], (E.snap(st, v),), None, E.esite(c)))
    return UNIT


@m("Formatter::write_fmt", "Write.write_fmt")
def wfmt(E, st, c):
    v = farg(E, st, c.args[1])
    r = E.opaque(st, c.name, c, (E.snap(st, v),), True)
    st.event(Ev("write", "fmt", (E.snap(st, c.args[0]), E.snap(st, v)), r, E.esite(c)))
    return r


@m("Formatter::write_str", "Write.write_str")
def wstr(E, st, c):
    v = E.load(st, c.args[1])
    st.event(Ev("write", "fmt", (E.snap(st, c.args[0]), E.snap(st, v)), None, E.esite(c)))
    return E.opaque(st, c.name, c, (E.snap(st, v),), True)


@m("ToString.to_string")
def tostring(E, st, c):
    v = E.load(st, c.args[0])
    d = disp(E, st, v)
    if d.op == "disp":
        st.event(Ev("show", "display", (E.snap(st, v),), None, E.esite(c), ty=c.callee["a"][0] if c.callee["a"] else -1))
    return d


# ---------------------------------------------------------------- panics
@m("panicking::panic", "panicking::panic_fmt", "panicking::begin_panic", "panicking::assert_failed", "panicking::panic_display",
   "panicking::unreachable_display", "panicking::panic_explicit", "panicking::panic_str_2015", "panicking::assert_failed_inner",
   "panicking::panic_nounwind", "intrinsics::unreachable", "panicking::panic_bounds_check", "panicking::unreachable_default_msg", "rt::begin_panic")
def panic(E, st, c):
    if c.name == "panicking::unreachable_default_msg":
        return mk("fargs", STR("unreachable"))
    st.event(Ev("oblig", "panic", tuple(E.snap(st, a) for a in c.args), None, site(E, c), status="fail" if E.simple_path(st) else "open", cond=FALSE))
    return [(st, None)]


def site(E, c):
    return (c.fr.uid if c.fr else "?", c.span, E.entry())


@m("process::exit", "process::abort")
def pexit(E, st, c):
    st.event(Ev("ext", c.name, tuple(E.snap(st, a) for a in c.args), None, E.esite(c), path=c.callee["p"], raw=tuple(c.args), selfty=None, rpath=None))
    return [(st, None)]


def oblige(E, st, what, cond, c, terms):
    return E.oblige(st, what, cond, site(E, c), terms)


# ------------------------------------------------------------ option/result
def adtname(E, c, i=0):
    n = c.name.split("::")[0]
    return OPTION if n == "Option" else RESULT


FALLIBLE = re.compile(r"^(fs::|File::|DirEntry::|OpenOptions::|str::parse|.*FromStr|.*from_str|String::from_utf8|str::from_utf8|env::|OsString::into_string|OsStr::to_str|"
                      r"Path::(to_str|canonicalize|strip_prefix|parent|file_name|extension|read_dir|metadata|file_stem)|Command::|Child::|Write\.write|Read\.|BufRead\.|Stdin::|serde_json|toml|"
                      r"char::(from_digit|from_u32|to_digit)|.*TryFrom|.*TryInto|.*try_from|.*try_into|str::(find|rfind|strip_prefix|strip_suffix|split_once|rsplit_once)|dirs::|glob::|terminal::|cursor::|.*::recv|"
                      r"i64::checked|i32::checked|u32::checked|usize::checked|i64::from_str_radix|u32::from_str_radix|f64::from_str)")


def fallible(E, v):
    """an unwrapped result of an operation that fails on some input or in some state of the system"""
    return v.op == "call" and isinstance(v.a[0], str) and FALLIBLE.match(v.a[0]) is not None


@m("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Result::unwrap_err", "Result::expect_err")
def unwrap(E, st, c):
    v = c.args[0]
    good = 0 if c.name == "Result::unwrap" or c.name == "Result::expect" else 1
    vs = E.varset(st, v)
    if vs == frozenset([good]):
        st.event(Ev("oblig", "unwrap", (E.snap(st, v),), None, site(E, c), status="ok"))
        return E.payload(st, v, good)
    bad = vs is not None and good not in vs
    status = "fail" if bad else ("free" if (E.freeval(st, v) or fallible(E, v)) and not E.complex_facts(st, v) else "open")
    st.event(Ev("oblig", "unwrap", (E.snap(st, v),), None, site(E, c), status=status, cond=v))
    if bad or not E.setvar(st, v, frozenset([good])):
        return []
    return E.payload(st, v, good)


@m("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def isvar(E, st, c):
    v = E.load(st, c.args[0])
    w = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[c.name.split("::")[1]]
    vs = E.varset(st, v)
    if vs is not None and len(vs) == 1:
        return BOOL(vs == frozenset([w]))
    return mk("isvar", v, w, 2)


@m("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default",
   "Option::unwrap_or_else", "Result::unwrap_or_else")
def unwrap_or(E, st, c):
    adt = adtname(E, c)
    v = c.args[0]
    out = []
    good = 1 if adt == OPTION else 0
    for s, i in E.split(st, v, 2):
        if i == good:
            out.append((s, E.payload(s, v, i)))
        elif c.name.endswith("default"):
            out.append((s, default_of(E, c.dest)))
        elif c.name.endswith("else"):
            out += call_value(E, s, c.args[1], [] if adt == OPTION else [E.payload(s, v, i)], c)
        else:
            out.append((s, c.args[1]))
    return out


def default_of(E, ty):
    d = ty_of(E, ty)
    if d["k"] == "int":
        return INT(0, d["n"])
    if d["k"] == "bool":
        return FALSE
    if d["k"] == "adt":
        if d["n"] == "alloc::vec::Vec":
            return mk("vec")
        if d["n"] == "alloc::string::String":
            return STR("")
        if d["n"] == OPTION:
            return NONE
        if d["n"].endswith("BTreeMap"):
            return mk("map", ())
    if d["k"] == "float":
        return mk("float", 0, d["n"])
    return mk("default", E.p.tystr(ty) if ty is not None else "?")


@m("Default.default")
def default(E, st, c):
    return default_of(E, c.callee["a"][0] if c.callee["a"] else c.dest)


@m("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Option::map_or", "Result::map_or",
   "Option::map_or_else", "Result::map_or_else", "Option::filter", "Option::or_else", "Result::or_else", "Option::ok_or",
   "Option::ok_or_else", "Result::ok", "Result::err", "Option::or", "Result::or", "Option::and", "Result::and",
   "Option::xor", "Option::is_some_and", "Option::is_none_or", "Result::is_ok_and", "Result::is_err_and", "Option::zip", "Option::flatten", "Option::inspect",
   "Result::inspect_err", "Result::inspect", "Result::flatten", "Option::transpose", "Result::transpose", "Option::unzip", "Result::copied", "Result::cloned",
   "Option::iter", "Result::iter")
def combinator(E, st, c):
    adt = adtname(E, c)
    meth = c.name.split("::")[1]
    v = c.args[0]
    if v.op == "ref":
        v = E.load(st, v)
    good = 1 if adt == OPTION else 0
    out = []
    f = c.args[1] if len(c.args) > 1 else None
    if meth == "iter":
        return mk("iter", mk("optvec", v), mk("p"), "ref")
    for s, i in E.split(st, v, 2):
        ok = i == good
        p = E.payload(s, v, i) if (ok or adt == RESULT) else None
        wrapok = (lambda x: SOME(x)) if adt == OPTION else (lambda x: OK(x))
        fail = NONE if adt == OPTION else (ERR(p) if not ok else None)
        if meth == "map":
            out += chain(call_value(E, s, f, [p], c), lambda s2, x: wrapok(x)) if ok else [(s, fail)]
        elif meth == "and_then":
            out += call_value(E, s, f, [p], c) if ok else [(s, fail)]
        elif meth == "map_err":
            out += [(s, OK(p))] if ok else chain(call_value(E, s, f, [p], c), lambda s2, x: ERR(x))
        elif meth == "map_or":
            out += call_value(E, s, c.args[2], [p], c) if ok else [(s, f)]
        elif meth == "map_or_else":
            out += call_value(E, s, c.args[2], [p], c) if ok else call_value(E, s, f, [] if adt == OPTION else [p], c)
        elif meth == "filter":
            if not ok:
                out.append((s, NONE))
            else:
                for s2, b in call_value(E, s, f, [p], c):
                    if b is None:
                        out.append((s2, None))
                        continue
                    for s3, tv in E.fork_bool(s2, b):
                        out.append((s3, SOME(p) if tv else NONE))
        elif meth == "or_else":
            out += [(s, wrapok(p))] if ok else call_value(E, s, f, [] if adt == OPTION else [p], c)
        elif meth == "ok_or":
            out.append((s, OK(p) if ok else ERR(f)))
        elif meth == "ok_or_else":
            out += [(s, OK(p))] if ok else chain(call_value(E, s, f, [], c), lambda s2, x: ERR(x))
        elif meth == "ok":
            if not ok:
                s.event(Ev("drop_err", "ok", (E.snap(s, v),), None, site(E, c)))
            out.append((s, SOME(p) if ok else NONE))
        elif meth == "err":
            out.append((s, NONE if ok else SOME(p)))
        elif meth == "or":
            out.append((s, wrapok(p) if ok else f))
        elif meth == "and":
            out.append((s, f if ok else fail))
        elif meth in ("is_some_and", "is_ok_and"):
            out += call_value(E, s, f, [p], c) if ok else [(s, FALSE)]
        elif meth in ("is_none_or",):
            out += call_value(E, s, f, [p], c) if ok else [(s, TRUE)]
        elif meth == "is_err_and":
            out += call_value(E, s, f, [p], c) if not ok else [(s, FALSE)]
        elif meth == "flatten":
            out.append((s, p if ok else fail))
        elif meth in ("inspect", "inspect_err"):
            if (meth == "inspect") == ok:
                out += chain(call_value(E, s, f, [p], c), lambda s2, x: v)
            else:
                out.append((s, v))
        elif meth in ("copied", "cloned"):
            out.append((s, wrapok(E.load(s, p)) if ok else fail))
        elif meth == "zip":
            if not ok:
                out.append((s, NONE))
            else:
                for s2, j in E.split(s, f, 2):
                    out.append((s2, SOME(mk("tuple", p, E.payload(s2, f, 1))) if j == 1 else NONE))
        else:
            out.append((s, E.opaque(s, c.name, c, (E.snap(s, v),), False)))
    return out


@m("Option::take", "Option::replace", "Option::insert", "Option::get_or_insert_with", "Option::get_or_insert")
def opt_take(E, st, c):
    r = c.args[0]
    v = E.load1(st, r)
    meth = c.name.split("::")[1]
    if meth == "take":
        E.store(st, r, NONE)
        return v
    if meth == "replace":
        E.store(st, r, SOME(c.args[1]))
        return v
    return NotImplemented


@m("Try.branch")
def branch(E, st, c):
    v = c.args[0]
    d = ty_of(E, c.callee["a"][0]) if c.callee["a"] else {"k": "?"}
    adt = d["n"] if d["k"] == "adt" else (v.a[0] if v.op == "adt" else RESULT)
    good = 1 if adt == OPTION else 0
    out = []
    for s, i in E.split(st, v, 2):
        if i == good:
            out.append((s, mk("adt", CFLOW, 0, E.payload(s, v, i))))
        else:
            res = NONE if adt == OPTION else ERR(E.payload(s, v, i))
            out.append((s, mk("adt", CFLOW, 1, res)))
    return out


@m("Try.from_output")
def from_output(E, st, c):
    d = ty_of(E, c.dest)
    return SOME(c.args[0]) if d.get("n") == OPTION else OK(c.args[0])


@m("FromResidual.from_residual")
def residual(E, st, c):
    v = c.args[0]
    a = c.callee["a"]
    if v.op == "adt" and v.a[0] == OPTION:
        return NONE
    e = E.payload(st, v, 1)
    d0, d1 = ty_of(E, a[0]), ty_of(E, a[1]) if len(a) > 1 else {"k": "?"}
    if d0["k"] == "adt" and d1["k"] == "adt" and len(d0["a"]) == 2 and len(d1["a"]) == 2 and d0["n"] == d1["n"] == RESULT:
        t0, t1 = d0["a"][1], d1["a"][1]
        if E.p.tystr(t0) != E.p.tystr(t1):
            r = convert(E, st, c, e, t1, t0)
            if isinstance(r, T):
                return ERR(r)
            return chain(r, lambda s, x: ERR(x))
    return ERR(e)


# ----------------------------------------------------------------- numbers
def _int_ty(E, c):
    p = c.callee["p"]
    for n in RANGES:
        if "<impl %s>" % n in p:
            return n
    return c.name.split("::")[0]


def reg_checked():
    for ty in list(RANGES):
        for meth, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem"), ("pow", "Pow"),
                         ("shl", "Shl"), ("shr", "Shr"), ("neg", "Neg"), ("abs", "Abs"), ("div_euclid", "DivE"), ("rem_euclid", "RemE")):
            def chk(E, st, c, op=op, ty=ty):
                a = c.args[0]
                b = c.args[1] if len(c.args) > 1 else INT(0, ty)
                out = []
                if op in ("Div", "Rem", "DivE", "RemE"):
                    z = E.cmp(st, "Eq", ty, b, INT(0, ty))
                    res = E.fork_bool(st, z)
                    states = []
                    for s, tv in res:
                        if tv:
                            out.append((s, NONE))
                        else:
                            states.append(s)
                else:
                    states = [st]
                for s0 in states:
                    for s, tv in E.fork_bool(s0, mk("ovf", op, ty, a, b)):
                        if tv:
                            out.append((s, NONE))
                        elif op == "Neg":
                            out.append((s, SOME(mk("un", "Neg", ty, a))))
                        elif op == "Abs":
                            out.append((s, SOME(mk("un", "Abs", ty, a))))
                        else:
                            out.append((s, SOME(E.arith(s, op, ty, a, b))))
                return out

            def wrp(E, st, c, op=op, ty=ty, w="wrap"):
                a = c.args[0]
                b = c.args[1] if len(c.args) > 1 else INT(0, ty)
                return mk(w, op, ty, a, b)

            def ovfl(E, st, c, op=op, ty=ty):
                a = c.args[0]
                b = c.args[1] if len(c.args) > 1 else INT(0, ty)
                return mk("tuple", mk("wrap", op, ty, a, b), mk("ovf", op, ty, a, b))

            MODELS["%s::checked_%s" % (ty, meth)] = chk
            MODELS["%s::wrapping_%s" % (ty, meth)] = wrp
            MODELS["%s::overflowing_%s" % (ty, meth)] = ovfl

            def sat(E, st, c, op=op, ty=ty):
                a = c.args[0]
                b = c.args[1] if len(c.args) > 1 else INT(0, ty)
                if RANGES[ty][0] == 0 and op == "Sub":
                    r = mk("wrap", "Sat" + op, ty, a, b)
                    # 0 <= r <= a
                    cc, k = E.diff(st, r, a)
                    E.add_le0(st, cc, k)
                    out = []
                    for s, lt in E.fork_bool(st, E.cmp(st, "Lt", ty, a, b)):
                        out.append((s, INT(0, ty) if lt else mk("bin", "Sub", ty, a, b)))
                    return out
                if RANGES[ty][0] == 0 and op == "Add" and ty == "usize":
                    # lengths: treat as exact, cannot exceed the address space
                    return E.addn(st, a, b, ty)
                return mk("wrap", "Sat" + op, ty, a, b)
            MODELS["%s::saturating_%s" % (ty, meth)] = sat

        def pw(E, st, c, ty=ty):
            a, b = c.args[0], c.args[1]
            out = []
            for s in E.oblige(st, "overflow:Pow", E.tnot(mk("ovf", "Pow", ty, a, b)), site(E, c), (a, b)):
                out.append((s, mk("bin", "Pow", ty, a, b)))
            return out
        MODELS[ty + "::pow"] = pw

        def iabs(E, st, c, ty=ty):
            a = c.args[0]
            out = []
            for s in E.oblige(st, "overflow:Abs", E.tnot(mk("ovf", "Neg", ty, a, INT(0, ty))), site(E, c), (a,)):
                out.append((s, mk("un", "Abs", ty, a)))
            return out
        MODELS[ty + "::abs"] = iabs

        def uabs(E, st, c, ty=ty):
            return mk("un", "UAbs", ty, c.args[0])
        MODELS[ty + "::unsigned_abs"] = uabs

        def reuc(E, st, c, ty=ty):
            a, b = c.args
            r = mk("bin", "RemE", ty, a, b)
            out = []
            for s in E.oblige(st, "rem_zero", E.tnot(E.cmp(st, "Eq", ty, b, INT(0, ty))), site(E, c), (a, b)):
                if b.op == "int" and b.a[0] != 0:
                    s.iv[r] = (0, abs(b.a[0]) - 1)
                out.append((s, r))
            return out
        MODELS[ty + "::rem_euclid"] = reuc


reg_checked()


@m("TryFrom.try_from", "TryInto.try_into")
def tryfrom(E, st, c):
    a = c.callee["a"]
    if c.name == "TryFrom.try_from":
        dst, src = a[0], a[1]
    else:
        src, dst = a[0], a[1]
    sn, dn = E.p.tystr(src), E.p.tystr(dst)
    if sn in RANGES and dn in RANGES and dn != "char" and sn != "char":
        v = c.args[0]
        lo, hi = RANGES[dn]
        l2, h2 = RANGES[sn]
        states = [st]
        out = []
        conds = []
        if l2 < lo:
            conds.append(E.cmp(st, "Ge", sn, v, INT(lo, sn)))
        if h2 > hi:
            conds.append(E.cmp(st, "Le", sn, v, INT(hi, sn)))
        for cd in conds:
            nx = []
            for s in states:
                for s2, tv in E.fork_bool(s, cd):
                    if tv:
                        nx.append(s2)
                    else:
                        out.append((s2, ERR(mk("call", "TryFromIntError", v))))
            states = nx
        for s in states:
            x = E.cast(s, c.fr, "IntToInt", v, dst, sn)
            out.append((s, OK(x)))
        return out
    return NotImplemented


@m("Ord.min", "Ord.max", "cmp::max", "cmp::min", "Ord.clamp")
def minmax(E, st, c):
    n = c.name.split(".")[-1].split("::")[-1]
    if n == "clamp":
        return NotImplemented
    a, b = c.args
    d = ty_of(E, c.callee["a"][0]) if c.callee["a"] else {"k": "?"}
    ty = d.get("n", "usize") if d["k"] == "int" else None
    if ty in RANGES:
        if E.is_le(st, a, b):
            return a if n == "min" else b
        if E.is_le(st, b, a):
            return b if n == "min" else a
    if a.id > b.id:
        a, b = b, a
    r = mk(n, a, b)
    if ty in RANGES:
        for x in (a, b):
            cc, k = E.diff(st, r, x) if n == "min" else E.diff(st, x, r)
            if not E.le0(st, cc, k):
                E.add_le0(st, cc, k)
    return r


@m("mem::replace", "mem::take", "mem::swap")
def mem_ops(E, st, c):
    r = c.args[0]
    old = E.load1(st, r)
    if c.name == "mem::replace":
        E.store(st, r, c.args[1])
        return old
    if c.name == "mem::take":
        E.store(st, r, default_of(E, c.dest))
        return old
    o2 = E.load1(st, c.args[1])
    E.store(st, r, o2)
    E.store(st, c.args[1], old)
    return UNIT


@m("mem::drop", "mem::forget")
def memdrop(E, st, c):
    return UNIT


# ----------------------------------------------------------- comparisons
PRIMTY = set(RANGES) | {"f64", "f32"}


def strip(E, st, v):
    return E.load(st, v)


def peel(E, ty):
    d = ty_of(E, ty)
    n = 0
    while d["k"] == "ref" and n < 6:
        ty = d["t"]
        d = ty_of(E, ty)
        n += 1
    return E.p.tystr(ty)


@m("PartialEq.eq", "PartialEq.ne")
def peq(E, st, c):
    a, b = strip(E, st, c.args[0]), strip(E, st, c.args[1])
    tn = peel(E, c.callee["a"][0]) if c.callee["a"] else "?"
    if tn in RANGES:
        r = E.cmp(st, "Eq", tn, a, b)
    elif tn in ("f64", "f32"):
        r = E.cmp(st, "Eq", tn, a, b)
    else:
        a, b = E.snap(st, a), E.snap(st, b)
        tv = E.eq_truth(st, a, b) if tn not in ("dune::expr::Expression",) or a is b else None
        if tn == "dune::expr::Expression":
            tv = None
        if tv is not None:
            r = BOOL(tv)
        else:
            r = mk("eq", a, b)
    return r if c.name.endswith("eq") else E.tnot(r)


@m("PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def pord(E, st, c):
    a, b = strip(E, st, c.args[0]), strip(E, st, c.args[1])
    tn = peel(E, c.callee["a"][0]) if c.callee["a"] else "?"
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.name.split(".")[1]]
    return E.cmp(st, op, tn, E.snap(st, a), E.snap(st, b))


@m("PartialOrd.partial_cmp", "Ord.cmp")
def pcmp(E, st, c):
    a, b = strip(E, st, c.args[0]), strip(E, st, c.args[1])
    tn = peel(E, c.callee["a"][0]) if c.callee["a"] else "?"
    return mk("call", c.name, E.snap(st, a), E.snap(st, b), STR(tn))


@m("intrinsics::discriminant_value", "mem::discriminant")
def discval(E, st, c):
    v = E.load(st, c.args[0])
    d = adt_of(E, c.argtys[0])
    adt = d.get("n")
    if v.op == "adt" and adt in ADTS:
        return INT(int(ADTS[adt]["v"][v.a[1]]["d"]), "isize")
    return mk("discr", v, adt)


# ---------------------------------------------------------------- vectors
@m("Vec::new", "Vec::with_capacity", "VecDeque::new")
def vecnew(E, st, c):
    return mk("vec")


@m("String::new", "String::with_capacity")
def strnew(E, st, c):
    return STR("")


@m("Box::new_uninit")
def boxuninit(E, st, c):
    return mk("uninitbox")


@m("boxed::box_assume_init_into_vec_unsafe")
def boxvec(E, st, c):
    v = E.load(st, c.args[0])
    n = 0
    while v.op in ("upd",) and n < 8:
        v = v.a[2]
        n += 1
    if v.op == "array":
        return mk("vec", *v.a)
    return mk("fromarr", v)


@m("vec::from_elem")
def from_elem(E, st, c):
    return mk("repeat", E.snap(st, c.args[0]), c.args[1])


@m("Vec::len", "slice::len", "String::len", "str::len", "BTreeMap::len", "VecDeque::len")
def length(E, st, c):
    return E.length(st, E.load(st, c.args[0]))


@m("Vec::is_empty", "slice::is_empty", "String::is_empty", "str::is_empty", "BTreeMap::is_empty")
def isempty(E, st, c):
    v = E.load(st, c.args[0])
    if v.op == "map":
        return BOOL(len(v.a[0]) == 0)
    return E.cmp(st, "Eq", "usize", E.length(st, v), INT(0, "usize"))


@m("Vec::push", "VecDeque::push_back")
def push(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    x = c.args[1]
    if v.op == "vec" and len(v.a) < 64:
        n = mk("vec", *(v.a + (x,)))
    else:
        n = mk("push", v, x)
    if n.ty is None:
        n.ty = v.ty
    E.store(st, r, n)
    return UNIT


@m("Vec::pop")
def pop(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    if v.op == "vec":
        if not v.a:
            return NONE
        E.store(st, r, mk("vec", *v.a[:-1]))
        return SOME(v.a[-1])
    if v.op == "push":
        E.store(st, r, v.a[0])
        return SOME(v.a[1])
    out = []
    n = E.length(st, v)
    for s, e in E.fork_bool(st, E.cmp(st, "Eq", "usize", n, INT(0, "usize"))):
        if e:
            out.append((s, NONE))
        else:
            last = E.sub(s, n, INT(1, "usize"))
            E.store(s, r, mk("slice", v, INT(0, "usize"), last))
            out.append((s, SOME(E.get(s, v, ("i", last)))))
    return out


@m("Vec::extend_from_slice", "Extend.extend", "Vec::append")
def extend(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    w = E.load(st, c.args[1])
    if is_iter(w):
        out = []
        for s, x in collect_vec(E, st, w, c):
            if x is None:
                out.append((s, None))
                continue
            E.store(s, r, vconcat(v, x))
            out.append((s, UNIT))
        return out
    if c.name == "Vec::append":
        E.store(st, c.args[1], mk("vec"))
    if w.op == "array":
        w = mk("vec", *w.a)
    d = ty_of(E, c.callee["a"][0]) if c.callee["a"] else {"k": "?"}
    if v.op == "map" or (d["k"] == "adt" and d["n"].endswith("BTreeMap")):
        E.store(st, r, mk("mapmerge", v, w))
    else:
        E.store(st, r, vconcat(v, w))
    return UNIT


def vconcat(v, w):
    if v.op == "vec" and w.op == "vec":
        return mk("vec", *(v.a + w.a))
    if v.op == "vec" and not v.a:
        return w
    if w.op == "vec":
        x = v
        for y in w.a:
            x = mk("push", x, y)
        return x
    if v.op == "gvec" and w.op == "gvec" and w.a[0].op == "vec" and not w.a[0].a:
        return mk("gvec", v.a[0], v.a[1] + tuple(x for x in w.a[1] if x not in v.a[1]))
    if w.op == "gvec" and w.a[0].op == "vec" and not w.a[0].a:
        return mk("gvec", v, w.a[1])
    r = mk("vcat", v, w)
    if r.ty is None:
        r.ty = v.ty
    return r


@m("Vec::insert", "Vec::remove", "Vec::swap_remove", "Vec::truncate", "Vec::clear", "Vec::drain", "slice::reverse", "slice::sort",
   "slice::sort_by", "Vec::retain", "Vec::dedup", "slice::swap", "Vec::split_off", "slice::split_at", "slice::copy_from_slice",
   "slice::sort_unstable", "slice::chunks", "slice::windows", "slice::split_at_mut", "slice::chunks_exact", "slice::sort_by_key", "slice::rotate_left", "slice::rotate_right")
def vecmut(E, st, c):
    meth = c.name.split("::")[1]
    r = E.deep(st, c.args[0]) if c.args[0].op == "ref" else c.args[0]
    v = E.load(st, r)
    n = E.length(st, v)
    U = "usize"
    if meth == "insert":
        i = c.args[1]
        out = []
        for s in oblige(E, st, "insert_index", E.cmp(st, "Le", U, i, n), c, (i, n)):
            if v.op == "vec" and i.op == "int":
                l = list(v.a)
                l.insert(i.a[0], c.args[2])
                nv = mk("vec", *l)
            else:
                nv = mk("vins", v, i, c.args[2])
            E.store(s, r, nv)
            out.append((s, UNIT))
        return out
    if meth in ("remove", "swap_remove"):
        i = c.args[1]
        out = []
        for s in oblige(E, st, "remove_index", E.cmp(st, "Lt", U, i, n), c, (i, n)):
            x = E.get(s, v, ("i", i))
            if v.op == "vec" and i.op == "int":
                l = list(v.a)
                del l[i.a[0]]
                nv = mk("vec", *l)
            elif i.op == "int" and i.a[0] == 0:
                nv = mk("slice", v, INT(1, U), n)
            else:
                nv = mk("vdel", v, i)
            E.store(s, r, nv)
            out.append((s, x))
        return out
    if meth == "clear":
        E.store(st, r, mk("vec"))
        return UNIT
    if meth == "truncate":
        E.store(st, r, mk("trunc", v, c.args[1]))
        return UNIT
    if meth == "reverse":
        E.store(st, r, mk("vec", *reversed(v.a)) if v.op == "vec" else mk("rev", v))
        return UNIT
    if meth in ("sort", "sort_by", "sort_unstable", "sort_by_key"):
        if len(c.args) > 1:
            maybe_invoke(E, st, c)
        E.store(st, r, mk("sorted", v))
        return UNIT
    if meth == "swap":
        out = []
        for s in oblige(E, st, "swap_index", E.cmp(st, "Lt", U, c.args[1], n), c, (c.args[1], n)):
            for s2 in oblige(E, s, "swap_index", E.cmp(s, "Lt", U, c.args[2], n), c, (c.args[2], n)):
                E.store(s2, r, mk("vswap", v, c.args[1], c.args[2]))
                out.append((s2, UNIT))
        return out
    if meth in ("split_off", "split_at", "split_at_mut"):
        i = c.args[1]
        out = []
        for s in oblige(E, st, "split_index", E.cmp(st, "Le", U, i, n), c, (i, n)):
            a = E.mkslice(s, v, INT(0, U), i)
            b = E.mkslice(s, v, i, n)
            if meth == "split_off":
                E.store(s, r, a)
                out.append((s, b))
            else:
                out.append((s, mk("tuple", a, b)))
        return out
    if meth == "drain":
        out = []
        rng = range_bounds(E, st, c.args[1], n)
        if rng is None:
            return NotImplemented
        lo, hi = rng
        for s in oblige(E, st, "drain_range", E.cmp(st, "Le", U, hi, n), c, (lo, hi, n)):
            for s2 in oblige(E, s, "drain_range", E.cmp(s, "Le", U, lo, hi), c, (lo, hi, n)):
                d = E.mkslice(s2, v, lo, hi)
                a, b = E.mkslice(s2, v, INT(0, U), lo), E.mkslice(s2, v, hi, n)
                nv = b if E.constint(s2, lo) == 0 else (a if hi is n else mk("vcat", a, b))
                E.store(s2, r, nv)
                out.append((s2, mk("iter", d, INT(0, U), "own")))
        return out
    if meth in ("chunks", "windows", "chunks_exact"):
        out = []
        for s in oblige(E, st, "chunk_size", E.tnot(E.cmp(st, "Eq", U, c.args[1], INT(0, U))), c, (c.args[1],)):
            out.append((s, mk("iter", mk("chunks", v, c.args[1]), mk("p"), "own")))
        return out
    if meth == "retain":
        out = []
        for s, w in collect_vec(E, st, mk("ifilter", mk("iter", v, INT(0, U), "own"), c.args[1]), c, "retain"):
            if w is not None:
                E.store(s, r, w)
            out.append((s, w if w is None else UNIT))
        return out
    return NotImplemented


def maybe_invoke(E, st, c):
    for a in c.args[1:]:
        f = E.load(st, a)
        if f.op == "closure" and f.a[0] in E.p.bodies:
            b = E.p.bodies[f.a[0]]
            s2 = st.copy()
            m0, p0 = s2.ev, s2.pc
            args = [mkt(b["locals"][i + 1][0], "sym", "cbarg%d@%s" % (i, f.a[0])) for i in range(1, b["argc"])]
            paths = [(s3.events(m0), s3.conds(p0), s3, v) for s3, v in call_value(E, s2, f, args, c)]
            st.event(Ev("maybe", c.name, (), None, E.esite(c), paths=paths))


@m("slice::first", "slice::last", "slice::get", "slice::first_mut", "slice::last_mut", "slice::get_mut", "Vec::first", "Vec::last", "str::get",
   "slice::split_first", "slice::split_last")
def get_opt(E, st, c):
    r = c.args[0]
    v = E.load(st, r)
    meth = c.name.split("::")[1]
    n = E.length(st, v)
    U = "usize"
    if meth.startswith("get"):
        i = c.args[1]
        if i.op == "adt" or c.name == "str::get":
            rng = range_bounds(E, st, i, n)
            if rng is None:
                return NotImplemented
            lo, hi = rng
            good = mk("and", E.cmp(st, "Le", U, lo, hi), E.cmp(st, "Le", U, hi, n))
            if c.name == "str::get":
                good = mk("and", good, mk("and", mk("charb", v, lo), mk("charb", v, hi)))
            out = []
            for s, ok in E.fork_bool(st, good):
                out.append((s, SOME(E.mkslice(s, v, lo, hi)) if ok else NONE))
            return out
        cond = E.cmp(st, "Lt", U, i, n)
    else:
        i = INT(0, U) if "first" in meth else E.sub(st, n, INT(1, U))
        cond = E.tnot(E.cmp(st, "Eq", U, n, INT(0, U)))
    out = []
    for s, ok in E.fork_bool(st, cond):
        if not ok:
            out.append((s, NONE))
            continue
        p = E.mkref(s, r.a[0], list(r.a[1]) + [("i", i)]) if r.op == "ref" and E.rplace(s, r.a[0], r.a[1]).op != "ref" else E.get(s, v, ("i", i))
        if meth == "split_first":
            p = mk("tuple", p, E.mkslice(s, v, INT(1, U), n))
        elif meth == "split_last":
            p = mk("tuple", p, E.mkslice(s, v, INT(0, U), E.sub(s, n, INT(1, U))))
        out.append((s, SOME(p)))
    return out


def range_bounds(E, st, r, n):
    """(lo, hi) of a range value used to index something of length n"""
    r = E.load(st, r)
    U = "usize"
    if r.op == "irange":
        return r.a[0], r.a[1]
    if r.op != "adt":
        return None
    nm = r.a[0].split("::")[-1]
    f = r.a[2:]
    if nm == "Range":
        return f[0], f[1]
    if nm == "RangeFrom":
        return f[0], n
    if nm == "RangeTo":
        return INT(0, U), f[0]
    if nm == "RangeFull":
        return INT(0, U), n
    if nm == "RangeInclusive":
        return f[0], E.add(st, f[1], INT(1, U))
    if nm == "RangeToInclusive":
        return INT(0, U), E.add(st, f[0], INT(1, U))
    return None


@m("RangeInclusive::new")
def rincl(E, st, c):
    return mk("adt", "core::ops::range::RangeInclusive", 0, c.args[0], c.args[1])


@m("Index.index", "IndexMut.index_mut")
def index(E, st, c):
    r = c.args[0]
    v = E.load(st, r)
    idx = c.args[1]
    sty = adt_of(E, c.callee["a"][0])
    U = "usize"
    isstr = is_stringy(E, c.callee["a"][0])
    if sty["k"] == "adt" and sty["n"].split("::")[-1] in ("BTreeMap", "HashMap"):
        st.event(Ev("oblig", "map_index", (E.snap(st, v), E.snap(st, idx)), None, site(E, c), status="open", cond=TRUE))
        return mk("mapget", v, E.snap(st, idx))
    n = E.length(st, v)
    ity = E.p.tystr(c.callee["a"][1]) if len(c.callee["a"]) > 1 else ""
    if ity == "usize":
        out = []
        for s in oblige(E, st, "index", E.cmp(st, "Lt", U, idx, n), c, (v, idx, n)):
            rr = E.deep(s, r)
            if rr.op == "ref":
                out.append((s, E.mkref(s, rr.a[0], list(rr.a[1]) + [("i", idx)])))
            else:
                out.append((s, E.get(s, v, ("i", idx))))
        return out
    rng = range_bounds(E, st, idx, n)
    if rng is None:
        return NotImplemented
    lo, hi = rng
    out = []
    for s in oblige(E, st, "slice_order", E.cmp(st, "Le", U, lo, hi), c, (v, lo, hi)):
        for s2 in oblige(E, s, "slice_end", E.cmp(s, "Le", U, hi, n), c, (v, hi, n)):
            sts = [s2]
            if isstr:
                for b in (lo, hi):
                    nx = []
                    for s3 in sts:
                        nx += oblige(E, s3, "char_boundary", charb(E, s3, v, b), c, (v, b))
                    sts = nx
            for s3 in sts:
                out.append((s3, E.mkslice(s3, v, lo, hi)))
    return out


def charb(E, st, v, i):
    """is byte offset i a character boundary of v?"""
    ci = E.constint(st, i)
    if ci == 0:
        return TRUE
    n = E.length(st, v)
    if i is n or (E.is_le(st, i, n) and E.is_le(st, n, i)):
        return TRUE
    return mk("charb", v, i)


@m("PathBuf::push")
def path_push(E, st, c):
    r = E.deep(st, c.args[0])
    a = (E.snap(st, E.load(st, r)), E.snap(st, c.args[1]))
    t = mk("call", "Path::join", *a)
    if t.ty is None:
        t.ty = a[0].ty
    st.event(Ev("ext", "Path::join", a, t, E.esite(c), path="std::path::Path::join", rpath=None, selfty=None, raw=a))
    E.store(st, r, t)
    return UNIT


# ---------------------------------------------------------------- strings
@m("String::push_str", "AddAssign.add_assign", "String::push")
def push_str(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    x = E.load(st, c.args[1])
    if c.name == "AddAssign.add_assign":
        if not is_stringy(E, c.callee["a"][0]):
            return NotImplemented
    if c.name == "String::push":
        x = STR(chr(x.a[0])) if x.op == "int" else mk("chstr", x)
    nv = concat([v, x])
    if nv.ty is None:
        nv.ty = v.ty
    E.store(st, r, nv)
    return UNIT


@m("Add.add")
def add(E, st, c):
    if is_stringy(E, c.callee["a"][0]):
        return concat([E.load(st, c.args[0]), E.load(st, c.args[1])])
    return NotImplemented


@m("String::insert_str", "String::insert", "String::split_off", "str::split_at", "String::remove", "String::truncate", "String::drain")
def strpos(E, st, c):
    meth = c.name.split("::")[1]
    r = c.args[0]
    v = E.load(st, r)
    n = E.length(st, v)
    U = "usize"
    i = c.args[1]
    out = []
    if meth in ("truncate", "drain"):
        return NotImplemented
    cond = E.cmp(st, "Lt" if meth == "remove" else "Le", U, i, n)
    for s in oblige(E, st, "str_index", cond, c, (v, i, n)):
        for s2 in oblige(E, s, "char_boundary", charb(E, s, v, i), c, (v, i)):
            if meth in ("insert_str", "insert"):
                E.store(s2, E.deep(s2, r), mk("sins", v, i, E.load(s2, c.args[2])))
                out.append((s2, UNIT))
            elif meth == "split_at":
                out.append((s2, mk("tuple", E.mkslice(s2, v, INT(0, U), i), E.mkslice(s2, v, i, n))))
            elif meth == "split_off":
                E.store(s2, E.deep(s2, r), E.mkslice(s2, v, INT(0, U), i))
                out.append((s2, E.mkslice(s2, v, i, n)))
            else:
                E.store(s2, E.deep(s2, r), mk("sdel", v, i))
                out.append((s2, mk("char", v, i)))
    return out


@m("str::is_char_boundary")
def ischb(E, st, c):
    v = E.load(st, c.args[0])
    i = c.args[1]
    # true implies i <= len
    t = charb(E, st, v, i)
    if t is TRUE:
        return TRUE
    return mk("and", t, E.cmp(st, "Le", "usize", i, E.length(st, v)))


@m("str::repeat", "slice::repeat")
def srepeat(E, st, c):
    v = E.load(st, c.args[0])
    n = c.args[1]
    lo, hi = E.bounds(st, n)
    ln = E.length(st, v)
    out = []
    # capacity overflow: len * n must fit in isize
    cond = E.tnot(mk("capovf", ln, n))
    ok = hi != INF and E.bounds(st, ln)[1] * hi <= LENMAX
    if ok:
        st.event(Ev("oblig", "repeat_capacity", (), None, site(E, c), status="ok"))
        return mk("repeatstr", v, n)
    # a count bounded by some length in memory cannot overflow for short strings
    status = "free" if E.free(st, n) and not bounded_by_len(E, st, n) else "open"
    st.event(Ev("oblig", "repeat_capacity", (E.snap(st, v), n), None, site(E, c), status=status, cond=cond))
    return mk("repeatstr", v, n)


def bounded_by_len(E, st, n):
    c, k = E.lf(st, n)
    return any(b.op in ("len", "charcount") for b in c)


@m("str::chars")
def chars(E, st, c):
    return mk("iter", mk("chars", E.load(st, c.args[0])), mk("p"), "chars")


@m("str::lines", "str::split", "str::split_whitespace", "str::bytes", "str::char_indices", "str::splitn", "str::rsplit", "str::split_terminator", "str::split_ascii_whitespace",
   "str::split_inclusive", "str::rsplitn", "str::matches")
def lines(E, st, c):
    meth = c.name.split("::")[1]
    s = E.load(st, c.args[0])
    extra = tuple(E.snap(st, a) for a in c.args[1:])
    if any(x.op == "closure" for x in extra):
        maybe_invoke(E, st, c)
    return mk("iter", mk(meth, s, *extra), mk("p"), "own")


@m("str::trim", "str::trim_start", "str::trim_end", "str::to_lowercase", "str::to_uppercase", "str::replace", "str::trim_matches",
   "str::trim_start_matches", "str::trim_end_matches", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::replacen", "str::trim_left", "str::trim_right")
def strfn(E, st, c):
    meth = c.name.split("::")[1]
    r = mk("strfn", meth, *[E.snap(st, a) for a in c.args])
    if r.ty is None:
        r.ty = c.dest
    return r


@m("str::contains", "str::starts_with", "str::ends_with", "str::eq_ignore_ascii_case", "str::is_ascii")
def strpred(E, st, c):
    meth = c.name.split("::")[1]
    if any(E.load(st, x).op == "closure" for x in c.args[1:]):
        maybe_invoke(E, st, c)
    a = [E.snap(st, x) for x in c.args]
    if all(x.op == "str" for x in a[:2]) and len(a) == 2:
        return BOOL({"contains": a[1].a[0] in a[0].a[0], "starts_with": a[0].a[0].startswith(a[1].a[0]),
                     "ends_with": a[0].a[0].endswith(a[1].a[0])}.get(meth, False))
    return mk("strpred", meth, *a)


@m("slice::join", "slice::concat", "Join.join")
def sjoin(E, st, c):
    r = mk("join", *[E.snap(st, a) for a in c.args])
    if r.ty is None:
        r.ty = c.dest
    return r


@m("String::from_utf8_lossy", "Path::to_string_lossy", "OsStr::to_string_lossy", "str::from_utf8_lossy")
def lossy(E, st, c):
    v = E.load(st, c.args[0])
    r = mk("lossy", E.snap(st, v))
    if r.ty is None:
        r.ty = c.dest
    return r


@m("String::from_utf8_lossy_owned")
def lossy2(E, st, c):
    return lossy(E, st, c)


# -------------------------------------------------------------------- maps
@m("BTreeMap::new", "HashMap::new")
def mapnew(E, st, c):
    return mk("map", ())


def map_insert(mv, k, v):
    if mv.op == "map":
        if k.op == "str":
            ent = tuple(e for e in mv.a[0] if e[0] is not k) + ((k, v),)
            if all(e[0].op == "str" for e in ent):
                return mk("map", ent)
        elif not mv.a[0]:
            return mk("mapins", mv, k, v)
    return mk("mapins", mv, k, v)


@m("BTreeMap::insert")
def minsert(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    E.store(st, r, map_insert(v, E.load(st, c.args[1]), c.args[2]))
    # previous value is rarely used
    return E.opaque(st, c.name, c, (), True)


@m("BTreeMap::get", "BTreeMap::get_mut", "BTreeMap::remove", "BTreeMap::remove_entry", "BTreeMap::contains_key", "BTreeMap::get_key_value")
def mget(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    k = E.load(st, c.args[1])
    k = E.snap(st, k)
    meth = c.name.split("::")[1]
    if v.op == "map" and k.op == "str":
        hit = [e for e in v.a[0] if e[0] is k]
        if meth == "contains_key":
            return BOOL(bool(hit))
        if meth == "get":
            return SOME(hit[0][1]) if hit else NONE
    if meth == "contains_key":
        return mk("isvar", mk("mget", v, k), 1, 2)
    t = mk("mget", v, k)
    if t.ty is None:
        t.ty = c.dest
    out = []
    for s, i in E.split(st, t, 2):
        if i == 0:
            out.append((s, NONE))
            continue
        p = E.payload(s, t, 1)
        if meth == "get_mut":
            E.store(s, r, mk("mutmap", v, k, p))
            p = mk("ref", ("D", p), ())
        if meth in ("remove", "remove_entry"):
            E.store(s, r, mk("mapdel", v, k))
            if meth == "remove_entry":
                p = mk("tuple", k, p)
        out.append((s, SOME(p)))
    return out


@m("BTreeMap::entry")
def mentry(E, st, c):
    return mk("mentry", E.deep(st, c.args[0]), E.snap(st, E.load(st, c.args[1])))


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def morins(E, st, c):
    e = c.args[0]
    if e.op != "mentry" or c.name.endswith("default"):
        return None
    r, k = e.a
    v = E.load(st, r)
    t = mk("mget", v, k)
    if t.ty is None:
        t.ty = -1
    out = []
    for s, i in E.split(st, t, 2):
        if i == 1:
            p = E.payload(s, t, 1)
            out.append((s, mk("ref", ("D", p), ())))
            E.store(s, r, mk("mutmap", v, k, p))
            continue
        vals = [(s, c.args[1])]
        if c.name.endswith("with"):
            vals = call_value(E, s, c.args[1], [], c, "oi")
        for s2, x in vals:
            if x is None:
                out.append((s2, None))
                continue
            E.store(s2, r, mk("mutmap", map_insert(v, k, x), k, x))
            out.append((s2, mk("ref", ("D", x), ())))
    return out


@m("BTreeMap::iter", "BTreeMap::keys", "BTreeMap::values", "BTreeMap::into_keys", "BTreeMap::into_values", "BTreeMap::values_mut", "BTreeMap::iter_mut")
def miter(E, st, c):
    meth = c.name.split("::")[1]
    v = E.load(st, c.args[0])
    kind = {"iter": "pairs", "iter_mut": "pairs", "keys": "keys", "into_keys": "keys", "values": "values", "into_values": "values", "values_mut": "values"}[meth]
    return mk("iter", v, mk("p"), kind)


# --------------------------------------------------------------- iterators
ITERS = {"iter", "imap", "ifilter", "ienum", "irev", "izip", "itake", "iskip", "ichain", "icloned", "irange", "ipeek",
         "ifiltermap", "itakewhile", "iskipwhile", "iflatten", "iflatmap", "istep", "irangeincl", "iwrap", "imapwhile", "iempty", "ionce", "irepeat", "iinspect"}


def is_iter(v):
    return v.op in ITERS


def to_iter(E, st, v, ty):
    """IntoIterator::into_iter"""
    if is_iter(v):
        return v
    d = ty_of(E, ty)
    byref = d["k"] == "ref"
    x = E.load(st, v) if (v.op == "ref" or byref) else v
    if is_iter(x):
        return mk("iwrap", v) if byref else x
    if x.op == "adt":
        nm = x.a[0].split("::")[-1]
        if nm == "Range":
            return mk("irange", x.a[2], x.a[3])
        if nm == "RangeInclusive":
            return mk("irangeincl", x.a[2], x.a[3])
        if nm == "RangeFrom":
            return mk("irange", x.a[2], mk("infinity"))
        if nm == "Option":
            if x.a[1] == 0:
                return mk("iter", mk("vec"), INT(0, "usize"), "own")
            return mk("iter", mk("vec", x.a[2]), INT(0, "usize"), "own")
    if x.op in ("vec", "array"):
        return mk("iter", x, INT(0, "usize"), "ref" if byref else "own")
    da = adt_of(E, ty)
    if x.op == "map" and not byref and all(kv.a[0].op == "str" if isinstance(kv, T) else kv[0].op == "str" for kv in x.a[0]):
        kvs = sorted([(kv.a[0], kv.a[1]) if isinstance(kv, T) else kv for kv in x.a[0]], key=lambda q: q[0].a[0])
        return mk("iter", mk("vec", *[mk("tuple", a, b) for a, b in kvs]), INT(0, "usize"), "own")
    if x.op in ("map", "gmap", "mapins") or (da["k"] == "adt" and da["n"].endswith("Map")):
        return mk("iter", x, mk("p"), "pairs")
    if da["k"] == "adt" and da["n"] in (OPTION, RESULT):
        return mk("iter", mk("optvec", x), mk("p"), "own")
    return mk("iter", x, mk("p"), "ref" if byref else "own")


@m("IntoIterator.into_iter", "slice::iter", "slice::iter_mut", "Vec::iter", "Vec::into_iter", "Vec::iter_mut", "Paths::into_iter")
def into_iter(E, st, c):
    v = c.args[0]
    ty = c.callee["a"][0] if c.name == "IntoIterator.into_iter" and c.callee["a"] else c.argtys[0]
    d = ty_of(E, ty)
    if c.name.endswith("iter_mut") or (d["k"] == "ref" and d["m"] and not is_iter(E.load(st, v))):
        r = E.deep(st, v)
        x = E.load(st, r)
        E.store(st, r, mkt(x.ty, "mut", "iter_mut", x, mk("n", c.site)))
        return mk("iter", x, INT(0, "usize") if x.op == "vec" else mk("p"), "own")
    if d["k"] == "param" or d["k"] == "other":
        ty = v.ty if v.ty is not None else ty
    return to_iter(E, st, v, ty)


def adaptor(name, op):
    def f(E, st, c):
        it = to_iter(E, st, c.args[0], c.argtys[0])
        return mk(op, it, *c.args[1:])
    MODELS[name] = f


for _n, _o in (("map", "imap"), ("filter", "ifilter"), ("enumerate", "ienum"), ("rev", "irev"), ("take", "itake"), ("skip", "iskip"),
               ("cloned", "icloned"), ("copied", "icloned"), ("peekable", "ipeek"), ("filter_map", "ifiltermap"), ("take_while", "itakewhile"),
               ("skip_while", "iskipwhile"), ("flatten", "iflatten"), ("flat_map", "iflatmap"), ("step_by", "istep"), ("by_ref", "iwrapref"),
               ("map_while", "imapwhile"), ("fuse", "icloned"), ("inspect", "iinspect")):
    adaptor("Iterator." + _n, _o)


@m("Iterator.by_ref")
def by_ref(E, st, c):
    return c.args[0]


@m("Iterator.zip", "Iterator.chain")
def izip(E, st, c):
    a = to_iter(E, st, c.args[0], c.argtys[0])
    b = to_iter(E, st, c.args[1], c.argtys[1])
    return mk("izip" if c.name == "Iterator.zip" else "ichain", a, b)


@m("iter::repeat", "iter::once", "iter::empty")
def iterctor(E, st, c):
    n = c.name.split("::")[1]
    if n == "once":
        return mk("iter", mk("vec", c.args[0]), INT(0, "usize"), "own")
    if n == "empty":
        return mk("iter", mk("vec"), INT(0, "usize"), "own")
    return mk("irepeat", c.args[0])


def kterm(st, c, fr, tag, back=False):
    k = (c.fr.key if c.fr else 0, c.site, tag)
    n = st.cnt.get(k, 0)
    st.cnt[k] = n + 1
    fl = "".join(sorted(set(re.findall("~([a-z])", tag)) | ({"r"} if back else set())))
    return mk("k", k, n, fl)


def gen(E, st, it, c, tag="", back=False):
    """-> list of (st, item or None at the end, next iterator) ; diverging results have next None"""
    o = it.op
    U = "usize"
    if o == "ref":
        out = []
        for s, x, n in gen(E, st, E.load(st, it), c, tag, back):
            if n is not None:
                E.store(s, E.deep(s, it), n)
            out.append((s, x, it))
        return out
    if o == "iwrap":
        out = []
        for s, x, n in gen(E, st, it.a[0], c, tag, back):
            out.append((s, x, it))
        return out
    if o == "iter":
        src, pos, kind = it.a
        if src.op in ("vec", "array") and pos.op == "int" and not back:
            i = pos.a[0]
            if i >= len(src.a):
                return [(st, None, it)]
            return [(st, src.a[i], mk("iter", src, INT(i + 1, U), kind))]
        if src.op in ("vec", "array") and pos.op == "int" and back:
            if not src.a or pos.a[0] >= len(src.a):
                return [(st, None, it)]
            return [(st, src.a[-1], mk("iter", mk(src.op, *src.a[:-1]), pos, kind))]
        if src.op == "map" and kind in ("pairs", "keys", "values"):
            i = pos.a[0] if pos.op == "int" else 0
            ents = sorted(src.a[0], key=lambda e: e[0].a[0])
            if i >= len(ents):
                return [(st, None, it)]
            e = ents[i]
            x = mk("tuple", e[0], e[1]) if kind == "pairs" else (e[0] if kind == "keys" else e[1])
            return [(st, x, mk("iter", src, INT(i + 1, U), kind))]
        s2 = st.copy()
        out = [(s2, None, it)]
        npos = mk("p2")
        if pos.op == "int" and not E.nextmode:
            src = mk("skip", src, pos)
            it = mk("iter", src, mk("p"), kind)
            pos = it.a[1]
        if E.nextmode and not back and pos.op in ("p", "int") and src.op != "optvec":
            # the iterator's position is known: no loop has advanced it
            k = pos if pos.op == "int" else INT(0, U)
            E.assume(s2, E.cmp(s2, "Le", U, E.length(s2, src), k), True)
            npos = INT(k.a[0] + 1, U)
        elif E.nextmode and back and pos.op == "p":
            n = E.length(st, src)
            E.assume(s2, E.cmp(s2, "Le", U, n, INT(0, U)), True)
            if not E.assume(st, E.cmp(st, "Lt", U, INT(0, U), n), True):
                return out
            k = E.sub(st, n, INT(1, U))
            npos = mk("pb")
        else:
            k = kterm(st, c, c.fr, tag, back)
        if k.op == "int" and not E.assume(st, E.cmp(st, "Lt", U, k, E.length(st, src)), True):
            return out
        if kind == "pairs":
            x = mk("tuple", mk("mkey", src, k), mk("mval", src, k))
        elif kind == "keys":
            x = mk("mkey", src, k)
        elif kind == "values":
            x = mk("mval", src, k)
        elif kind == "chars":
            x = mk("char", src.a[0] if src.op == "chars" else src, k)
        else:
            if src.op == "gvec" and src.a[0].op == "vec" and not src.a[0].a and len(src.a[1]) == 1:
                x = src.a[1][0]
            else:
                x = E.get(st, src, ("i", k))
            n = E.length(st, src)
            cc, kk = E.diff(st, k, n)
            E.add_le0(st, cc, kk + 1)
            # the first element having been produced, the source is not empty
        nit = mk("iter", src, npos, kind)
        st.event(Ev("next", kind, (src, pos), x, c.site))
        out.append((st, x, nit))
        return out
    if o == "irange":
        lo, hi = it.a
        if lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] <= 64:
            if lo.a[0] >= hi.a[0]:
                return [(st, None, it)]
            if back:
                return [(st, INT(hi.a[0] - 1, lo.a[1]), mk("irange", lo, INT(hi.a[0] - 1, lo.a[1])))]
            return [(st, lo, mk("irange", INT(lo.a[0] + 1, lo.a[1]), hi))]
        ty = intty(E, lo) or intty(E, hi) or U
        k = mk("rk", lo, hi, kterm(st, c, c.fr, tag, back))
        if k.ty is None:
            k.ty = lo.ty if lo.ty is not None else hi.ty
        out = []
        s2 = st.copy()
        out.append((s2, None, it))
        cc, kk = E.diff(st, lo, k)
        ok = E.add_le0(st, cc, kk)
        if hi.op != "infinity":
            cc, kk = E.diff(st, k, hi)
            ok = E.add_le0(st, cc, kk + 1) and ok
        if ok:
            st.event(Ev("next", "range", (lo, hi), k, c.site))
            out.append((st, k, it))
        return out
    if o == "irangeincl":
        lo, hi = it.a
        if lo.op == "int" and hi.op == "int" and hi.a[0] - lo.a[0] <= 64:
            if lo.a[0] > hi.a[0]:
                return [(st, None, it)]
            return [(st, lo, mk("irangeincl", INT(lo.a[0] + 1, lo.a[1]), hi))]
        k = mk("rk", lo, mk("incl", hi), kterm(st, c, c.fr, tag, back))
        if k.ty is None:
            k.ty = lo.ty if lo.ty is not None else hi.ty
        s2 = st.copy()
        out = [(s2, None, it)]
        cc, kk = E.diff(st, lo, k)
        ok = E.add_le0(st, cc, kk)
        cc, kk = E.diff(st, k, hi)
        ok = E.add_le0(st, cc, kk) and ok
        if ok:
            st.event(Ev("next", "range", (lo, mk("incl", hi)), k, c.site))
            out.append((st, k, it))
        return out
    if o == "irepeat":
        return [(st, it.a[0], it)]
    if o == "irev":
        out = [(s, x, mk("irev", n) if n is not None else None) for s, x, n in gen(E, st, it.a[0], c, tag + "r", not back)]
        for s, x, n in out:
            if x is not None and n is not None:
                adapt(s, "rev", c)
        return out
    if o in ("icloned", "ipeek"):
        return [(s, x if x is None else E.load(s, x), mk(o, n) if n is not None else None) for s, x, n in gen(E, st, it.a[0], c, tag + "c", back)]
    if o == "ienum":
        cnt = it.a[1] if len(it.a) > 1 else INT(0, U)
        out = []
        for s, x, n in gen(E, st, it.a[0], c, tag + "e", back):
            if x is None:
                out.append((s, None, it))
                continue
            base = it.a[0]
            if concrete_iter(base) and cnt.op == "int":
                out.append((s, mk("tuple", cnt, x), mk("ienum", n, INT(cnt.a[0] + 1, U))))
                continue
            # position: the element index when the base is a plain sequence
            k = x.a[1] if x.op in ("elem", "char") and (x.a[1].op == "k" or x.a[1].op == "int" and E.nextmode) else kterm(s, c, c.fr, tag + "ei")
            src = base
            while src.op in ("icloned", "ipeek"):
                src = src.a[0]
            if src.op == "iter" and k is not (x.a[1] if x.op in ("elem", "char") else None):
                cc, kk = E.diff(s, k, E.length(s, src.a[0]))
                E.add_le0(s, cc, kk + 1)
            if src.op == "iter" and src.a[0].op == "lines":
                pass
            out.append((s, mk("tuple", k, x), mk("ienum", n)))
        return out
    if o in ("imap", "ifilter", "ifiltermap", "itakewhile", "iskipwhile", "iinspect", "imapwhile"):
        f = it.a[1]
        out = []
        for s, x, n in gen(E, st, it.a[0], c, tag + {"itakewhile": "~w", "iskipwhile": "~v", "imapwhile": "~w"}.get(o, "m"), back):
            if x is None:
                out.append((s, None, mk(o, n, *it.a[1:]) if n is not None else None))
                continue
            ni = mk(o, n, *it.a[1:]) if n is not None else None
            for s2, y in call_value(E, s, f, [x], c, tag + "m"):
                if y is None:
                    out.append((s2, None, None))
                    continue
                if o == "imap":
                    out.append((s2, y, ni))
                elif o == "iinspect":
                    out.append((s2, x, ni))
                elif o == "ifilter" or o == "iskipwhile":
                    if o == "ifilter" and E.truth(s2, y) is False and concrete_iter(it.a[0]):
                        out += gen(E, s2, ni, c, tag, back)
                        continue
                    y1 = E.snap(s2, y)
                    if o == "iskipwhile":
                        adapt(s2, "skipwhile", c, y1)
                        out.append((s2, x, ni))
                    elif E.assume(s2, y, True):
                        adapt(s2, "filter", c, y1)
                        out.append((s2, x, ni))
                elif o == "itakewhile":
                    y1 = E.snap(s2, y)
                    for s3, tv in E.fork_bool(s2, y):
                        adapt(s3, "takewhile", c, y1)
                        out.append((s3, x if tv else None, ni))
                elif o in ("ifiltermap", "imapwhile"):
                    y1 = E.snap(s2, y)
                    for s3, i in E.split(s2, y, 2):
                        if i == 1:
                            adapt(s3, o[1:], c, y1)
                            out.append((s3, E.payload(s3, y, 1), ni))
                        elif o == "imapwhile":
                            out.append((s3, None, ni))
                        else:
                            s3.event(Ev("skipitem", o, (x,), None, site(E, c)))
                            out.append((s3, None, ni))
        return out
    if o == "itake":
        n = it.a[1]
        out = []
        for s, x, nx in gen(E, st, it.a[0], c, tag + "~t", back):
            if x is None:
                out.append((s, None, it))
                continue
            k = x.a[1] if x.op in ("elem", "char") and x.a[1].op in ("k", "int") else kterm(s, c, c.fr, tag + "ti")
            if n.op == "int" and concrete_iter(it.a[0]):
                if n.a[0] <= 0:
                    out.append((s, None, it))
                else:
                    out.append((s, x, mk("itake", nx, INT(n.a[0] - 1, U))))
                continue
            cc, kk = E.diff(s, k, n)
            if E.add_le0(s, cc, kk + 1):
                adapt(s, "take", c, E.snap(s, n))
                out.append((s, x, mk("itake", nx, n)))
        return out
    if o in ("iskip", "istep"):
        out = []
        base = it.a[0]
        if concrete_iter(base) and it.a[1].op == "int" and o == "iskip":
            s, cur = st, base
            for _ in range(it.a[1].a[0]):
                r = gen(E, s, cur, c, tag + "s", back)
                if len(r) != 1 or r[0][1] is None:
                    return [(s, None, it)]
                s, cur = r[0][0], r[0][2]
            return gen(E, s, cur, c, tag + "s", back)
        if E.nextmode and o == "iskip" and not back and base.op == "iter" and base.a[1].op == "p" and base.a[0].op not in ("vec", "array", "map"):
            s2, src = st.copy(), base.a[0]
            n = E.length(st, src)
            E.assume(s2, E.cmp(s2, "Le", U, n, it.a[1]), True)
            out.append((s2, None, it))
            if E.assume(st, E.cmp(st, "Lt", U, it.a[1], n), True):
                x = mk("char", src.a[0] if src.op == "chars" else src, it.a[1]) if base.a[2] == "chars" else E.get(st, src, ("i", it.a[1]))
                st.event(Ev("next", base.a[2], (src, base.a[1]), x, c.site))
                out.append((st, x, mk("iskip", mk("iter", src, mk("pb"), base.a[2]), it.a[1])))
            return out
        for s, x, nx in gen(E, st, base, c, tag + ("~s" if o == "iskip" else "~p"), back):
            if x is not None and o == "iskip" and x.op in ("elem", "char") and x.a[1].op == "k":
                # skipped: index >= n
                cc, kk = E.diff(s, it.a[1], x.a[1])
                if not E.add_le0(s, cc, kk):
                    continue
            if x is not None and nx is not None:
                adapt(s, o[1:], c, E.snap(s, it.a[1]))
            out.append((s, x, mk(o, nx, it.a[1]) if nx is not None else None))
        return out
    if o == "izip":
        out = []
        for s, x, n in gen(E, st, it.a[0], c, tag + "z1", back):
            if x is None:
                out.append((s, None, it))
                continue
            for s2, y, n2 in gen(E, s, it.a[1], c, tag + "z2", back):
                if y is None:
                    out.append((s2, None, it))
                else:
                    out.append((s2, mk("tuple", x, y), mk("izip", n, n2)))
        return out
    if o == "ichain":
        out = []
        conc = concrete_iter(it.a[0])
        for s, x, n in gen(E, st, it.a[0], c, tag + "a", back):
            if x is not None:
                if not conc:
                    adapt(s, "chain", c)
                out.append((s, x, mk("ichain", n, it.a[1])))
            else:
                for s2, y, n2 in gen(E, s, it.a[1], c, tag + "b", back):
                    out.append((s2, y, mk("ichain", it.a[0] if not conc else n, n2) if n2 is not None else None))
        return out
    if o in ("iflatten", "iflatmap") and concrete_iter(it.a[0]) and not back:
        out = []
        for s, ch in unflat(E, st, it, c, tag):
            if ch is None:
                out.append((s, None, None))
            else:
                out += gen(E, s, ch, c, tag + "f", back)
        return out
    if o in ("iflatten", "iflatmap") and E.nextmode:
        return plain_gen(E, st, it, c, tag, back)
    if o in ("iflatten", "iflatmap"):
        out = []
        for s, x, n in gen(E, st, it.a[0], c, tag + "~f", back):
            if x is None:
                out.append((s, None, it))
                continue
            inner = [(s, x)]
            if o == "iflatmap":
                inner = call_value(E, s, it.a[1], [x], c, tag + "f")
            for s1, x1 in inner:
                if x1 is None:
                    out.append((s1, None, None))
                    continue
                vt = x1.ty if x1.ty is not None else -1
                d = adt_of(E, vt)
                isopt = (x1.op == "adt" and x1.a[0] in (OPTION, RESULT)) or (d["k"] == "adt" and d["n"] in (OPTION, RESULT))
                if not isopt and it.a[0].op == "iter" and reads_dir(it.a[0].a[0]):
                    isopt = True
                    d = {"k": "adt", "n": RESULT}
                if isopt:
                    good = 1 if (x1.a[0] if x1.op == "adt" else d["n"]) == OPTION else 0
                    for s2, i in E.split(s1, x1, 2):
                        if i == good:
                            out.append((s2, E.payload(s2, x1, i), it))
                        else:
                            if good == 0:
                                s2.event(Ev("drop_err", "flatten", (E.snap(s2, x1),), None, site(E, c)))
                            out.append((s2, None, it))
                else:
                    for s2, y, n2 in gen(E, s1, to_iter(E, s1, x1, vt), c, tag + "~g", back):
                        out.append((s2, y, it))
        return out
    # unknown iterator value
    return [(st.copy(), None, it), (st, mk("elem", it, kterm(st, c, c.fr, tag)), it)]


def reads_dir(t):
    """the entries of a directory: results"""
    if t.op == "field" and t.a[1] == 0:
        t = t.a[0]
    return t.op == "call" and t.a[0] in ("fs::read_dir", "Path::read_dir")


def plain_gen(E, *a):
    E.nextmode = False
    try:
        return gen(E, *a)
    finally:
        E.nextmode = True


def unflat(E, st, it, c, tag):
    """flatten over a known number of items: the chain of the inner iterators"""
    work = [(st, it.a[0], ())]
    out = []
    n = 0
    while work:
        s, b, acc = work.pop()
        n += 1
        if n > 200:
            raise Budget("flatten")
        for s1, x, nb in gen(E, s, b, c, tag + "f"):
            if nb is None:
                out.append((s1, None))
                continue
            if x is None:
                ch = mk("iter", mk("vec"), INT(0, "usize"), "own")
                if acc:
                    ch = acc[-1]
                    for y in acc[-2::-1]:
                        ch = mk("ichain", y, ch)
                out.append((s1, ch))
                continue
            inner = call_value(E, s1, it.a[1], [x], c, tag + "f") if it.op == "iflatmap" else [(s1, x)]
            for s2, y in inner:
                if y is None:
                    out.append((s2, None))
                    continue
                d = adt_of(E, y.ty if y.ty is not None else -1)
                if (y.op == "adt" and y.a[0] in (OPTION, RESULT)) or (d["k"] == "adt" and d["n"] in (OPTION, RESULT)):
                    good = 1 if (y.a[0] if y.op == "adt" else d["n"]) == OPTION else 0
                    for s3, i in E.split(s2, y, 2):
                        if i == good:
                            work.append((s3, nb, acc + (mk("iter", mk("vec", E.payload(s3, y, i)), INT(0, "usize"), "own"),)))
                        else:
                            if good == 0:
                                s3.event(Ev("drop_err", "flatten", (E.snap(s3, y),), None, site(E, c)))
                            work.append((s3, nb, acc))
                else:
                    work.append((s2, nb, acc + (to_iter(E, s2, y, y.ty if y.ty is not None else -1),)))
    return out


def adapt(s, what, c, *a):
    """an adapter the element just drawn has passed, innermost first"""
    s.event(Ev("adapt", what, a, None, c.site))


def intty(E, t):
    if t.op == "int":
        return t.a[1]
    return None


@m("Iterator.next", "DoubleEndedIterator.next_back")
def nxt(E, st, c):
    r = c.args[0]
    it = E.load(st, r)
    if not is_iter(it):
        it0 = it
        if it.op == "adt" and it.a[0].split("::")[-1].startswith("Range"):
            it = to_iter(E, st, it, -1)
        elif it.op in ("vec", "array"):
            it = mk("iter", it, INT(0, "usize"), "own")
        elif it.op == "phi" or it.op == "mut":
            it = mk("iter", it, mk("p"), "own")
        else:
            it = mk("iter", it, mk("p"), "own")
    out = []
    rr = E.deep(st, r)
    base = it
    nm, E.nextmode = E.nextmode, True
    res = gen(E, st, it, c, "", c.name.endswith("back"))
    E.nextmode = nm
    for s, x, n in res:
        if n is None:
            out.append((s, None))
            continue
        E.store(s, rr, n)
        if x is None:
            s.ends += ((c.fr.key if c.fr else 0, c.site),)
            out.append((s, NONE))
        else:
            if filtered(it):
                s.event(Ev("filt", "next", (), None, c.site))
            out.append((s, SOME(x)))
    return out


@m("Peekable::peek")
def peek(E, st, c):
    it = E.load(st, c.args[0])
    out = []
    nm, E.nextmode = E.nextmode, True
    res = gen(E, st, it, c, "pk")
    E.nextmode = nm
    for s, x, n in res:
        out.append((s, NONE if x is None else SOME(x)))
    return out


def filtered(it):
    """does the iterator drop some elements of its source?"""
    while isinstance(it, T):
        if it.op in ("ifilter", "ifiltermap", "itakewhile", "iskipwhile", "imapwhile", "iflatten", "iflatmap"):
            return True
        if it.op in ("imap", "ienum", "irev", "icloned", "ipeek", "iinspect", "iwrap", "iskip", "itake", "istep"):
            it = it.a[0]
            continue
        return False
    return False


def plainmode(f):
    """iterators are consumed as a whole: their elements are generic"""
    def g(E, *a, **k):
        nm, E.nextmode = E.nextmode, False
        try:
            return f(E, *a, **k)
        finally:
            E.nextmode = nm
    return g


@plainmode
def collect_vec(E, st, it, c, tag="col"):
    """collect into a plain sequence -> [(st, vec term)]"""
    if concrete_iter(it):
        work = [(st, it, ())]
        out = []
        n = 0
        while work:
            s, i, acc = work.pop()
            n += 1
            if n > 600:
                raise Budget("collect")
            for s2, x, ni in gen(E, s, i, c, tag):
                if ni is None:
                    out.append((s2, None))
                elif x is None:
                    out.append((s2, mk("vec", *acc)))
                else:
                    work.append((s2, ni, acc + (x,)))
        return out
    if it.op in ("iflatten", "iflatmap") and concrete_iter(it.a[0]):
        out = []
        for s, ch in unflat(E, st, it, c, tag):
            out += [(s, None)] if ch is None else collect_vec(E, s, ch, c, tag)
        return out
    if it.op == "ichain":
        out = []
        for s, v in collect_vec(E, st, it.a[0], c, tag + "a"):
            if v is None:
                out.append((s, None))
                continue
            for s2, w in collect_vec(E, s, it.a[1], c, tag + "b"):
                out.append((s2, None if w is None else vconcat(v, w)))
        return out
    # a plain re-collection of a sequence is the sequence itself
    b = it
    while b.op in ("icloned", "ipeek"):
        b = b.a[0]
    if b.op == "iter" and b.a[2] in ("own", "ref") and b.a[1].op in ("p", "int") and b.a[0].op not in (
            "lines", "split", "split_whitespace", "bytes", "char_indices", "chunks", "optvec"):
        if b.a[1].op == "p" or b.a[1].a[0] == 0:
            return [(st, b.a[0])]
    if b.op == "iskip" and b.a[0].op == "iter" and b.a[0].a[2] in ("own", "ref"):
        src = b.a[0].a[0]
        return [(st, mk("skip", src, b.a[1]))]
    if b.op == "itake" and b.a[0].op == "iter" and b.a[0].a[2] in ("own", "ref"):
        return [(st, mk("take", b.a[0].a[0], b.a[1]))]
    if b.op == "irev" and b.a[0].op == "iter" and b.a[0].a[2] in ("own", "ref", "chars"):
        return [(st, mk("rev", b.a[0].a[0]))]
    mark, pm = st.ev, st.pc
    start = st.copy()
    res = gen(E, st, it, c, tag)
    out = []
    items = [(s, x) for s, x, n in res if n is not None and x is not None]
    ends = [(s, x) for s, x, n in res if n is not None and x is None]
    div = [(s, None) for s, x, n in res if n is None]
    if len(items) > 1 and loopable(it):
        return closure_loop(E, start, it, None, c, "collect", mk("vec"))
    pure = len(items) == 1 and not [e for e in items[0][0].events(mark) if e.kind not in ("show", "oblig", "acc", "next", "adapt")]
    likes = [drawn_like(E, s, x, it, mark, pm) for s, x in items]
    for s, x in items:
        g = mk("gvec", mk("vec"), (x,))
        s.event(Ev("acc", "collect", (), None, site(E, c), gvecs={g.id: (mk("vec"), [mk("push", mk("vec"), x)], [s.conds(pm)], filtered(it))},
                   adapt=[e for e in s.events(mark) if e.kind == "adapt"], evs=s.events(mark), forms=len(items)))
        out.append((s, g))
    if not pure:
        # the empty case
        for s, x in ends[:1]:
            s.event(Ev("ended", "collect", (it,), None, site(E, c), like=likes))
            out.append((s, mk("vec")))
    return out + div


def drawn_like(E, s, x, it, mark, pm):
    """what one element drawn by a collect looks like: (element, conditions, is it filtered, adapters, events)"""
    return (x, s.conds(pm), filtered(it), [e for e in s.events(mark) if e.kind == "adapt"], s.events(mark))


@m("Iterator.collect")
def collect(E, st, c):
    it = to_iter(E, st, c.args[0], c.argtys[0])
    d = ty_of(E, c.dest)
    return collect_into(E, st, it, d, c)


@plainmode
def collect_into(E, st, it, d, c):
    n = d.get("n", "")
    if d["k"] == "adt" and n in (RESULT, OPTION):
        good = 0 if n == RESULT else 1
        inner = ty_of(E, d["a"][0])
        out = []
        if concrete_iter(it):
            work = [(st, it, ())]
            while work:
                s, i, acc = work.pop()
                for s2, x, ni in gen(E, s, i, c, "col"):
                    if ni is None:
                        out.append((s2, None))
                    elif x is None:
                        out.append((s2, mk("adt", n, good, finish(E, s2, mk("vec", *acc), inner))))
                    else:
                        for s3, v in E.split(s2, x, 2):
                            if v == good:
                                work.append((s3, ni, acc + (E.payload(s3, x, good),)))
                            else:
                                out.append((s3, NONE if n == OPTION else ERR(E.payload(s3, x, 1))))
            return out
        mark, pm = st.ev, st.pc
        start = st.copy()
        res = gen(E, st, it, c, "col")
        if loopable(it) and sum(len([v for s3, v in E.split(s.copy(), x, 2) if v == good]) for s, x, ni in res if ni is not None and x is not None) > 1:
            return [(s, mk("adt", n, good, finish(E, s, v, inner)) if v is not None and done else v) for s, v, done in closure_loop(E, start, it, None, c, "collect?", mk("vec"), good)]
        forms = len([x for s, x, ni in res if ni is not None and x is not None])
        likes = [drawn_like(E, s, x, it, mark, pm) for s, x, ni in res if ni is not None and x is not None]
        seen_end = False
        for s, x, ni in res:
            if ni is None:
                out.append((s, None))
            elif x is None:
                if not seen_end:
                    s.event(Ev("ended", "collect", (it,), None, site(E, c), like=likes))
                    out.append((s, mk("adt", n, good, finish(E, s, mk("vec"), inner))))
                    seen_end = True
            else:
                evs = s.events(mark)
                adapt = [e for e in evs if e.kind == "adapt"]
                for s3, v in E.split(s, x, 2):
                    if v == good:
                        y = E.payload(s3, x, good)
                        g = mk("gvec", mk("vec"), (y,))
                        s3.event(Ev("acc", "collect", (), None, site(E, c), gvecs={g.id: (mk("vec"), [mk("push", mk("vec"), y)], [[]], filtered(it))},
                                    adapt=adapt, all=s3.conds(pm), evs=evs, forms=forms))
                        out.append((s3, mk("adt", n, good, finish(E, s3, g, inner))))
                    else:
                        s3.event(Ev("acc", "collect", (), None, site(E, c), adapt=adapt, first=(x, s3.conds(pm)), evs=evs, forms=forms))
                        out.append((s3, NONE if n == OPTION else ERR(E.payload(s3, x, 1))))
        return out
    out = []
    for s, v in collect_vec(E, st, it, c):
        if v is None:
            out.append((s, None))
        else:
            out.append((s, finish(E, s, v, d)))
    return out


def finish(E, st, v, d):
    n = d.get("n", "")
    if n == "alloc::string::String":
        if v.op == "vec":
            return concat([x if stringlike(E, x) else mk("chstr", x) for x in v.a]) if v.a else STR("")
        if v.op == "chars":
            return v.a[0]
        return mk("strof", v)
    if n.endswith("BTreeMap") or n.endswith("HashMap"):
        if v.op == "vec":
            mm = mk("map", ())
            for t in v.a:
                if t.op == "tuple":
                    mm = map_insert(mm, t.a[0], t.a[1])
                else:
                    return mk("mapof", v)
            return mm
        if v.op == "gvec":
            return mk("gvec", mk("map", ()), v.a[1])
        return mk("mapof", v)
    return v


def unrolled(E, st, it, f, c, meth):
    """all/any over known elements: a conjunction or disjunction of the predicate's cases; None when it is not a pure predicate"""
    ps = []
    for _ in range(40):
        s0 = st.copy()
        mark = s0.ev
        r = gen(E, s0, it, c, meth)
        if len(r) != 1 or r[0][2] is None:
            return None
        s, x, ni = r[0]
        if x is None:
            return boolfold(meth, ps)
        pm = s.pc
        cases = []
        for s2, y in call_value(E, s, f, [x], c, meth):
            if y is None or s2.events(mark) or any(r in st.mem and st.mem[r] is not v for r, v in s2.mem.items()):
                return None
            cs = []
            for t, v in s2.conds(pm):
                cs.append(mk("isvars", t, tuple(sorted(v))) if isinstance(v, frozenset) else t if v else mk("not", t))
            y = E.snap(s2, y)
            if y.op != "int" or not y.a[0] or not cs:
                cs.append(y)
            if y.op == "int" and not y.a[0]:
                continue
            cases.append(boolfold("all", cs))
        ps.append(boolfold("any", cases))
        it = ni
    return None


def boolfold(meth, ps):
    """conjunction (all) or disjunction (any)"""
    ps = [p for p in ps if not (p.op == "int" and bool(p.a[0]) == (meth == "all"))]
    for p in ps:
        if p.op == "int":
            return p
    if not ps:
        return INT(1 if meth == "all" else 0, "bool")
    t = ps[0]
    for p in ps[1:]:
        t = mk("and" if meth == "all" else "or", t, p)
    return t


@m("Iterator.all", "Iterator.any", "Iterator.find", "Iterator.position", "Iterator.count", "Iterator.sum", "Iterator.product", "Iterator.fold",
   "Iterator.for_each", "Iterator.max", "Iterator.min", "Iterator.last", "Iterator.nth", "Iterator.max_by_key", "Iterator.try_fold",
   "Iterator.try_for_each", "Iterator.find_map", "Iterator.partition", "Iterator.unzip", "Iterator.min_by_key", "Iterator.max_by", "Iterator.min_by", "Iterator.reduce", "Iterator.eq")
@plainmode
def consume(E, st, c):
    meth = c.name.split(".")[1]
    it0 = c.args[0]
    it = to_iter(E, st, it0, c.argtys[0]) if it0.op != "ref" else E.load(st, it0)
    if it0.op == "ref" and not is_iter(it):
        it = mk("iter", it, mk("p"), "own")
    f = c.args[1] if len(c.args) > 1 else None
    if meth == "count":
        b = it
        if b.op == "iter" and b.a[0].op == "chars":
            return mk("charcount", b.a[0].a[0])
        return mkt(c.dest, "size", E.snap(st, it))
    if meth == "nth" or meth == "last":
        t = mk("iter_" + meth, E.snap(st, it), *([f] if f is not None else []))
        if t.ty is None:
            t.ty = c.dest
        return t
    if meth in ("fold", "try_fold"):
        return fold(E, st, it, c.args[1], c.args[2], c, meth == "try_fold")
    if meth in ("sum", "product"):
        return sumprod(E, st, it, c, meth)
    if meth in ("all", "any") and concrete_iter(it):
        t = unrolled(E, st, it, f, c, meth)
        if t is not None:
            return t
    # run the closure on a generic element
    s0 = st.copy()
    mark, pm = s0.ev, s0.pc
    paths = []
    term = None
    n = 0
    items = []
    for s, x, ni in gen(E, s0, it, c, meth):
        if ni is None or x is None:
            continue
        if f is not None and meth not in ("eq",):
            args = [x] if meth not in ("reduce", "max_by", "min_by") else [x, x]
            for s2, y in call_value(E, s, f, args, c, meth):
                paths.append((s2.events(mark), s2.conds(pm), s2, y))
                items.append((x, y))
        else:
            paths.append((s.events(mark), s.conds(pm), s, None))
            items.append((x, None))
    if meth in LOOPED and busy(paths):
        return closure_loop(E, st, it, f, c, meth)
    if any(p[0] for p in paths):
        st.event(Ev("maybe", c.name, (), None, E.esite(c), paths=paths))
    if meth == "for_each":
        # mutation through captured references
        for p in paths:
            for r, v in p[2].mem.items():
                if r in st.mem and st.mem[r] is not v and r[0] == "L" and (c.fr is None or r[1] <= c.fr.key):
                    j = E.join_acc(st.mem[r], v)
                    st.mem[r] = j if j is not None else mkt(v.ty, "phi", "for_each:%s/%s" % (c.site, r), None)
        return UNIT
    if meth == "try_for_each":
        out = [(st, OK(UNIT))]
        for p in paths:
            if p[3] is not None:
                for s3, v in E.split(p[2].copy(), p[3], 2):
                    if v == 1:
                        out.append((s3, ERR(E.payload(s3, p[3], 1))))
        return out
    if meth in ("all", "any"):
        ys = tuple(y for _, y in items if y is not None)
        t = mk("quant", meth, E.snap(st, it), ys)
        return t
    if meth in ("find", "position", "find_map", "max", "min", "max_by_key", "min_by_key", "max_by", "min_by", "reduce"):
        out = [(st.copy(), NONE)]
        xs = items[-1] if items else (mk("elem", it, mk("k", c.site, 0)), None)
        t = mk("pick", meth, E.snap(st, it), tuple(y for _, y in items if y is not None))
        if meth in ("position",):
            if t.ty is None and c.dest >= 0:
                d = ty_of(E, c.dest)
                t.ty = d["a"][0] if d.get("a") else None
            src = it
            if src.op == "iter":
                n = E.length(st, src.a[0])
                cc, kk = E.diff(st, t, n)
                E.add_le0(st, cc, kk + 1)
            out.append((st, SOME(t)))
        elif meth in ("find",):
            for p in paths:
                s = p[2]
                if p[3] is not None and E.assume(s, p[3], True):
                    out.append((s, SOME(xs[0])))
        elif meth == "find_map":
            for p in paths:
                s = p[2]
                if p[3] is not None:
                    for s3, v in E.split(s, p[3], 2):
                        if v == 1:
                            out.append((s3, SOME(E.payload(s3, p[3], 1))))
        else:
            if t.ty is None and c.dest >= 0:
                d = ty_of(E, c.dest)
                t.ty = d["a"][0] if d.get("a") else None
            out.append((st, SOME(t)))
        return out
    return E.opaque(st, c.name, c, (E.snap(st, it),), False)


@plainmode
def sumprod(E, st, it, c, meth):
    out = []
    res = gen(E, st, it, c, meth)
    dn = E.p.tystr(c.dest)
    for s, x, ni in res:
        if ni is None:
            out.append((s, None))
        elif x is not None:
            t = mk("i" + meth, dn, E.snap(s, x))
            if t.ty is None:
                t.ty = c.dest
            if dn in RANGES:
                status = "free" if E.freeval(s, x) else "open"
                s.event(Ev("oblig", "overflow:" + meth, (E.snap(s, x),), None, site(E, c), status=status, cond=x))
            out.append((s, t))
    if not out:
        return mk("i" + meth, dn, mk("vec"))
    return out


class NoFrame:
    key = None
    loops = {}


def busy(paths):
    """does the closure branch, or do more than compute a value?"""
    return len(paths) > 1 or any(e.kind not in ("show", "oblig", "acc", "next", "adapt") and not pure_ext(e) for p in paths for e in p[0])


def pure_ext(e):
    return e.kind == "ext" and e.res is not None and e.res.op == "call" and not any(isinstance(x, T) and x.op == "at" for x in e.res.a)


LOOPED = ("for_each", "try_for_each", "fold", "try_fold", "any", "all", "find", "find_map")


def loopable(it):
    """can the elements be drawn one by one?"""
    while it.op in ("imap", "ienum", "irev", "icloned", "ipeek", "iinspect", "ifilter", "ifiltermap", "itake", "iskip", "itakewhile", "istep"):
        it = it.a[0]
    return it.op == "iter"


def closure_loop(E, st, it, f, c, meth, init=None, good=None):
    """a consuming adapter whose closure branches or has effects: the loop it is"""
    key = c.fr.key if c.fr else 0
    tag = "%s:%s:%d#%d" % (meth, c.site[0], c.site[1], key) if isinstance(c.site, tuple) else "%s:%s#%d" % (meth, c.site, key)
    own = E.key(key, (c.site, "turns"))
    RI, RA = ("L", own, 0), ("L", own, 1)
    it0 = c.args[0]
    if f is not None and it0.op == "ref" and is_iter(E.load(st, it0)):
        at = E.deep(st, it0)
        load, store = (lambda s: E.load(s, at)), (lambda s, v: E.store(s, at, v))
    else:
        load, store = (lambda s: s.mem[RI]), (lambda s, v: s.mem.__setitem__(RI, v))
    d = ty_of(E, c.dest) if c.dest is not None and c.dest >= 0 else {}
    good = good if good is not None else 1 if d.get("n") == OPTION else 0

    def turn(s0):
        """-> (rounds, ends)"""
        backs, ends = [], []
        nm, E.nextmode = E.nextmode, True
        try:
            res = gen(E, s0, load(s0), c, "")
        finally:
            E.nextmode = nm
        for s, x, n in res:
            if n is None:
                ends.append((s, None))
                continue
            store(s, n)
            if x is None:
                s.ends += ((key, c.site),)
                ends.append((s, {"for_each": UNIT, "try_for_each": SOME(UNIT) if good else OK(UNIT), "any": BOOL(False), "all": BOOL(True), "find": NONE, "find_map": NONE}.get(meth) or (s.mem[RA] if meth in ("fold", "collect", "collect?") else SOME(s.mem[RA]) if good else OK(s.mem[RA]))))
                continue
            if filtered(it):
                s.event(Ev("filt", "next", (), None, c.site))
            if meth == "collect":
                s.mem[RA] = mk("push", s.mem[RA], x)
                backs.append(s)
                continue
            for s2, y in [(s, x)] if f is None else call_value(E, s, f, [s.mem[RA], x] if init is not None else [x], c, meth):
                if y is None:
                    ends.append((s2, None))
                elif meth == "for_each":
                    backs.append(s2)
                elif meth == "fold":
                    s2.mem[RA] = y
                    backs.append(s2)
                elif meth in ("any", "all", "find"):
                    s3 = s2.copy()
                    if E.assume(s3, y, meth != "all"):
                        ends.append((s3, SOME(x) if meth == "find" else BOOL(meth == "any")))
                    if E.assume(s2, y, meth == "all"):
                        backs.append(s2)
                elif meth == "find_map":
                    for s3, v in E.split(s2, y, 2):
                        if v == 1:
                            ends.append((s3, SOME(E.payload(s3, y, 1))))
                        else:
                            backs.append(s3)
                else:
                    for s3, v in E.split(s2, y, 2):
                        if v == good:
                            if f is None:
                                s3.mem[RA] = mk("push", s3.mem[RA], E.payload(s3, y, good))
                            elif init is not None:
                                s3.mem[RA] = E.payload(s3, y, good)
                            backs.append(s3)
                        else:
                            ends.append((s3, NONE if good else ERR(E.payload(s3, y, 1))))
        return backs, ends

    def leave(ends):
        done = [(s, v, v is not None and RA in s.mem and v is s.mem[RA]) for s, v in ends]
        for s, v, q in done:
            s.mem.pop(RI, None)
            s.mem.pop(RA, None)
        return done if meth == "collect?" else ends

    start = st.copy()
    store(start, it)
    if init is not None:
        start.mem[RA] = init
    if concrete_iter(it):
        work, out = [start], []
        n = 0
        while work:
            n += 1
            if n > 600:
                raise Budget("unrolling")
            backs, ends = turn(work.pop())
            work += backs
            out += ends
        return leave(out)
    g = start
    for rnd in range(7):
        s0 = g.copy()
        rec = Ev("loop", tag, (), None, site(E, c), iters=[])
        s0.event(rec)
        mark, pcm = s0.ev, s0.pc
        backs, ends = turn(s0)
        for b in backs:
            for r, v in list(b.mem.items()):
                if v.op == "mutmap":
                    b.mem[r] = E.snap(b, v)
        new = g
        for b in backs:
            new = E.join(NoFrame, new, b, tag, rnd >= 4)
        if new is g:
            break
        g = new
    rec.x["iters"] = [(b.events(mark), b.conds(pcm), b) for b in backs]
    rec.x["phis"], rec.x["gvecs"] = {}, {}
    for r, v in g.mem.items():
        w = start.mem.get(r)
        if w is None:
            w = E.init_of(r) if r[0] != "L" else None
        if w is not v:
            E.loopvar(rec, v, w, [(b.mem.get(r, v), b.conds(pcm)) for b in backs])
    return leave(ends)


@plainmode
def fold(E, st, it, init, f, c, tr):
    """acc generalised: fold(init, acc -> step)"""
    if concrete_iter(it):
        work = [(st, it, init)]
        out = []
        while work:
            s, i, acc = work.pop()
            for s2, x, ni in gen(E, s, i, c, "fold"):
                if ni is None:
                    out.append((s2, None))
                elif x is None:
                    out.append((s2, OK(acc) if tr else acc))
                else:
                    for s3, y in call_value(E, s2, f, [acc, x], c, "fold"):
                        if y is None:
                            out.append((s3, None))
                        elif tr:
                            d = ty_of(E, c.dest)
                            good = 1 if d.get("n") == OPTION else 0
                            for s4, v in E.split(s3, y, 2):
                                if v == good:
                                    work.append((s4, ni, E.payload(s4, y, good)))
                                else:
                                    out.append((s4, NONE if good else ERR(E.payload(s4, y, 1))))
                        else:
                            work.append((s3, ni, y))
        if tr:
            d = ty_of(E, c.dest)
            if d.get("n") == OPTION:
                out = [(s, SOME(v.a[2]) if v is not None and v.op == "adt" and v.a[0] == RESULT and v.a[1] == 0 else v) for s, v in out]
        return out
    acc = mkt(init.ty, "acc", "fold:%s" % (c.site,), init)
    s0 = st.copy()
    mark, pm = s0.ev, s0.pc
    paths = []
    out = []
    d = ty_of(E, c.dest)
    good = 1 if d.get("n") == OPTION else 0
    for s, x, ni in gen(E, s0, it, c, "fold"):
        if ni is None or x is None:
            continue
        for s2, y in call_value(E, s, f, [acc, x], c, "fold"):
            if y is None:
                continue
            if tr:
                for s3, v in E.split(s2, y, 2):
                    if v == good:
                        paths.append((s3.events(mark), s3.conds(pm), s3, E.payload(s3, y, good)))
                    else:
                        out.append((s3, NONE if good else ERR(E.payload(s3, y, 1))))
            else:
                paths.append((s2.events(mark), s2.conds(pm), s2, y))
    if busy(paths) or out:
        return closure_loop(E, st, it, f, c, "try_fold" if tr else "fold", init)
    if any(p[0] for p in paths):
        st.event(Ev("maybe", c.name, (), None, E.esite(c), paths=paths))
    r = mk("fold", init, tuple(p[3] for p in paths), E.snap(st, it))
    if r.ty is None:
        r.ty = init.ty
    if tr:
        out.append((st, SOME(r) if good else OK(r)))
    else:
        out.append((st, r))
    return out


@m("RangeInclusive::contains", "Range::contains", "RangeBounds.contains", "RangeFrom::contains", "RangeTo::contains")
def rcontains(E, st, c):
    r = E.load(st, c.args[0])
    x = E.load(st, c.args[1])
    if r.op == "adt":
        nm = r.a[0].split("::")[-1]
        f = r.a[2:]
        ty = "usize" if x.op == "len" or True else "i64"
        t = E.tyrange(x)
        for n, rr in RANGES.items():
            if t == rr and n not in ("u64",):
                ty = n
                break
        lo = f[0] if nm in ("Range", "RangeInclusive", "RangeFrom") else None
        hi = f[1] if nm in ("Range", "RangeInclusive") else (f[0] if nm in ("RangeTo", "RangeToInclusive") else None)
        if nm == "RangeFull":
            return TRUE
        cs = []
        if lo is not None:
            cs.append(E.cmp(st, "Ge", ty, x, E.load(st, lo)))
        if hi is not None:
            cs.append(E.cmp(st, "Le" if nm.endswith("Inclusive") else "Lt", ty, x, E.load(st, hi)))
        if len(cs) == 1:
            return cs[0]
        a, b = cs
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE or b is FALSE:
            return FALSE
        return mk("and", a, b)
    return NotImplemented


# ------------------------------------------------------------- processes &c
@m("Lazy::get")
def lazyget(E, st, c):
    return mk("lazy", E.snap(st, c.args[0]))


@m("Command::new")
def cmdnew(E, st, c):
    return mk("cmd", E.snap(st, E.load(st, c.args[0])), ())


@m("Command::arg", "Command::args", "Command::current_dir", "Command::envs", "Command::env", "Command::stdin", "Command::stdout",
   "Command::stderr", "Command::env_clear", "Command::env_remove")
def cmdset(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    meth = c.name.split("::")[1]
    base, opts = (v.a[0], v.a[1]) if v.op == "cmd" else (v, ())
    args = []
    sts = [st]
    res = []
    a = c.args[1:]
    if meth in ("args", "envs") and a:
        it = E.load(st, a[0]) if a[0].op == "ref" else a[0]
        it = to_iter(E, st, it, c.argtys[1]) if not is_iter(it) else it
        for s, x in collect_vec(E, st, it, c, meth):
            if x is None:
                res.append((s, None))
                continue
            E.store(s, r, mk("cmd", base, opts + ((meth, E.snap(s, x)),)))
            res.append((s, c.args[0]))
        return res
    E.store(st, r, mk("cmd", base, opts + ((meth,) + tuple(E.snap(st, E.load(st, x)) for x in a),)))
    return c.args[0]


@m("OpenOptions::new", "File::options")
def oonew(E, st, c):
    return mk("oopts", ())


@m("OpenOptions::append", "OpenOptions::write", "OpenOptions::read", "OpenOptions::create", "OpenOptions::truncate", "OpenOptions::create_new")
def ooset(E, st, c):
    r = E.deep(st, c.args[0])
    v = E.load(st, r)
    o = v.a[0] if v.op == "oopts" else (("?", v),)
    E.store(st, r, mk("oopts", o + ((c.name.split("::")[1], c.args[1]),)))
    return c.args[0]
