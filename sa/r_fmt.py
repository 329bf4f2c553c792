"""P21: console styles."""
import itertools, re
import core, canon, model
from model import A, EX
from terms import *
from util import *
from canon import Canon, pushed
from rules import rule
from report import Guard

SGR = {"bold": {1}, "faint": {2}, "italics": {3}, "underline": {4}, "blink": {5, 6}, "invert": {7}, "strike": {9}}
COLORS = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
for i, c in enumerate(COLORS):
    SGR[c] = {90 + i}
    SGR["dark@" + c] = {30 + i}


def parts(t):
    if t.op == "concat":
        r = []
        for x in t.a:
            r += parts(x)
        return r
    return [t]


@rule("P21", "The value every fmt builtin returns is computed symbolically for an arbitrary argument: constant text around the argument's displayed value. The constant "
      "parts are compared with the SGR table; the escape remover's summary (its loop included) is interpreted in every text of up to five characters and compared with the documented result.")
def p21(cx, rep, tier):
    rep.rule("fmt@X returns ESC [ code(X) m, the unchanged text, then only resets; fmt@strip drops exactly the characters of ESC...m sequences; href and wrap keep url, text and width in place")
    n = 0
    for k, e in sorted(cx.reg.entries.items()):
        if not k.startswith("fmt@") or e.uid is None:
            continue
        name = k[4:]
        with Guard(rep, k):
            if name == "strip":
                strip(cx, rep, k)
            elif name == "wrap":
                wrap(cx, rep, k)
            elif name == "href":
                shape(cx, rep, k, href)
            else:
                shape(cx, rep, k, lambda rep, k, ps, o: style(rep, k, name, ps))
            n += 1
    for name in SGR:
        if "fmt@" + name not in cx.reg.entries:
            rep.missing("fmt@" + name)
    for name in ("strip", "wrap", "href"):
        if "fmt@" + name not in cx.reg.entries:
            rep.missing("fmt@" + name)
    rep.count("builtins", n)
    with Guard(rep, "registry"):
        dup(cx, rep)


def dup(cx, rep):
    """one function under two names would style both alike: the SGR table already tells"""


def oks(cx, rep, k):
    u = cx.reg.uid(k)
    rep.unit(u)
    r = cx.builtin(u)
    if r is None:
        rep.undecided(k, "budget")
    for o in r or []:
        if o.kind == "ret" and o.ret.op == "adt" and o.ret.a[0] == RESULT and o.ret.a[1] == 0:
            yield u, o
        elif o.kind == "ret" and "few arg" not in cstr(o.ret) and "many arg" not in cstr(o.ret):
            if not re.match(r"^Err\((err\d+|err\(.*\)|CustomError\(.*\))\)$", cstr(o.ret)):
                rep.undecided(k + ":error", cstr(o.ret)[:100])


def shape(cx, rep, k, f):
    got = 0
    for u, o in oks(cx, rep, k):
        got += 1
        rep.count("obligations")
        v = o.ret.a[2]
        if not (v.op == "adt" and v.a[0] == EXPR and VARNAME(EXPR, v.a[1]) == "String"):
            rep.violation(k + ":kind", "%s does not return a string" % k, {"function": u, "returns": cstr(v)[:200]})
            continue
        f(rep, k, [x.a[0] if x.op == "str" else "\0" + Canon(o.st.events())(x) for x in parts(v.a[2])], o)
    if not got:
        rep.violation(k + ":never", "%s never returns a value" % k, {"function": cx.reg.uid(k)})


def style(rep, k, name, ps):
    args = [p for p in ps if p.startswith("\0")]
    if args != ["\0disp(val0)"]:
        # the displayed value may only be missing, doubled or changed
        if len(args) == 1 and args[0].startswith("\0disp(val") or not args or len(args) > 1:
            rep.violation(k + ":text", "%s does not keep its text: %s" % (k, [a[1:60] for a in args]), {"returns": str(ps)[:200]})
        else:
            simple = re.match(r"^\0(strfn\((trim|lower|upper|rev)\w*, disp\(val0\)\)$|(replace|slice|take|skip|rev)\(disp)", args[0])
            (rep.violation if simple else rep.undecided)(k + ":text", "%s does not return its text unchanged: %s" % (k, args[0][1:80]))
        return
    i = ps.index(args[0])
    pre, post = "".join(ps[:i]), "".join(ps[i + 1:])
    m = re.match(r"^(?:\x1b\[0?m)*\x1b\[(\d+(?:;\d+)*)m$", pre)
    if not m:
        rep.violation(k + ":prefix", "%s does not start its text with one style sequence but with %r" % (k, pre))
    elif name in SGR and {int(x) for x in m.group(1).split(";")} - {0} != set(SGR[name]) and not (len(SGR[name]) > 1 and {int(x) for x in m.group(1).split(";")} <= SGR[name]):
        rep.violation(k + ":code", "%s uses the style code %s; the code for %s is %s" % (k, m.group(1), name, sorted(SGR[name])[0]))
    if not re.match(r"^(\x1b\[0?m)+$", post):
        rep.violation(k + ":reset", "%s ends its text with %r instead of a reset" % (k, post))


def href(rep, k, ps, o):
    args = [p[1:] for p in ps if p.startswith("\0")]
    if args != ["disp(val0)", "disp(val1)"]:
        rep.violation(k + ":text", "%s must contain its url and then its text, contains %s" % (k, args))
        return
    i, j = ps.index("\0disp(val0)"), ps.index("\0disp(val1)")
    a, b, c = "".join(ps[:i]), "".join(ps[i + 1:j]), "".join(ps[j + 1:])
    st = (r"\x1b\\", r"\x07")
    if not re.match(r"^\x1b\]8;[^;]*;$", a) or b not in ("\x1b\\", "\x07") or c not in ("\x1b]8;;\x1b\\", "\x1b]8;;\x07"):
        rep.violation(k + ":form", "%s does not return a terminal hyperlink: %r url %r text %r" % (k, a, b, c))


def wrap(cx, rep, k):
    got = 0
    for u, o in oks(cx, rep, k):
        got += 1
        rep.count("obligations")
        s = Canon(o.st.events())(o.ret)
        if s == "Ok(String(textwrap::fill(disp(val0), cast(usize, val1.Integer, i64))))":
            continue
        if re.match(r"^Ok\(String\((textwrap::fill\(disp\(val1\)|disp\(val[01]\)\))", s) or re.match(r"^Ok\(String\(textwrap::fill\(disp\(val0\), (Add|Sub|Mul|\d+)", s):
            rep.violation(k + ":value", "fmt@wrap returns " + s[:160], {"function": u})
        else:
            rep.undecided(k, s[:160])
    if not got:
        rep.violation(k + ":never", "%s never returns a value" % k)


def chars_facts(C, conds, src):
    """(char code facts, state facts, other) of one iteration"""
    ch, stt, other = {}, {}, []
    for c, v in conds:
        if isinstance(v, bool) and c.op == "cmp" and c.a[0] in ("Eq", "Ne") and c.a[2].op in ("char", "int") and c.a[3].op in ("char", "int") and c.a[2].op != c.a[3].op:
            n = [x for x in c.a[2:] if x.op == "int"][0].a[0]
            ch[n] = v == (c.a[0] == "Eq")
        elif isinstance(v, bool) and c.op == "phi":
            stt[c.a[0]] = v
        elif isinstance(v, bool) and c.op == "not" and c.a[0].op == "phi":
            stt[c.a[0].a[0]] = not v
        else:
            other.append((c, v))
    return ch, stt, other


def stripped(s):
    """what fmt@strip is documented to return"""
    r, inside = "", False
    for c in s:
        if c == "\x1b":
            inside = True
        elif inside and c == "m":
            inside = False
        elif not inside:
            r += c
    return r


def texts():
    for n in range(6):
        for x in itertools.product("\x1bmx[", repeat=n):
            yield EX("String", "".join(x))
    for s in ("\x1b[1mm\x1b[0mm", "a\x1b[31;1mb\n\x1b[m\u00e9m\t", "\x1b[38;5;9mhammer\x1b[0m mm", "m\x9b1mq\x1b", "\x1b]8;;u\x1b\\m\x07z", "\x1b[2J\x1b[1;1Hmom", "\0\r\x7f\u20acm\x1b[0m" * 3,
              "0123456789;:?ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz []{}()<>*&^%$#@!~`'\"/\\|=+-_,.", "\x1b[0123456789;:?ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijkl nopqrstuvwxyzm tail",
              "\x1b[0m" * 40 + "m" * 300, "\x1b[" + "1;" * 40 + "1mred\x1b[m"):
        yield EX("String", s)
    for v in (EX("Symbol", "mm"), EX("Integer", 5), EX("Boolean", True), EX("None")):
        yield v


def strip(cx, rep, k):
    """the summary of every path, interpreted in short texts of every shape"""
    u = cx.reg.uid(k)
    outs = [(u, o) for o in cx.builtin(u) or () if o.kind == "ret"]
    unk = ""
    for x in texts():
        want = A(("Result", 0, EX("String", stripped(model.disp(x)))))
        rep.count("models")
        hit = False
        for u, o in outs:
            try:
                r = model.Summary(cx.E, {0: x}, 0).run(o.st, o.ret)
            except model.Unk as w:
                unk = unk or str(w)
                continue
            except model.Undef:
                continue
            if r is None:
                continue
            hit = True
            e = model.eq3(r[0], want)
            if e is None:
                unk = unk or "comparison"
            elif e is False:
                rep.violation(k + ":text", "fmt@strip does not remove exactly the escape sequences", {"function": u, "argument": repr(x)[:200], "returns": repr(r[0])[:200], "expected": repr(want)[:200], "path": conds_str(o)})
                return
            else:
                rep.count("obligations")
        if not hit:
            unk = unk or "no path taken for %r" % (x,)
    if unk:
        strip_rows(cx, rep, k)


def strip_rows(cx, rep, k):
    for u, o in oks(cx, rep, k):
        C = Canon(o.st.events())
        r = o.ret.a[2]
        if not (r.op == "adt" and r.a[0] == EXPR and VARNAME(EXPR, r.a[1]) == "String"):
            rep.violation(k + ":kind", "%s does not return a string" % k, {"function": u})
            continue
        t = r.a[2]
        if t.op != "phi":
            q = C(t)
            if q in ("disp(val0)", "''"):
                rep.violation(k + ":all", "fmt@strip returns %s" % q, {"function": u, "path": conds_str(o)})
            else:
                rep.undecided(k, q[:150])
            continue
        for lp in walk(o.st.events()):
            if lp.kind == "loop" and t.a[0] in lp.x["phis"]:
                automaton(cx, rep, k, u, C, lp, t)


def automaton(cx, rep, k, u, C, lp, t):
    entry, nexts = lp.x["phis"][t.a[0]]
    if not (entry.op == "str" and entry.a[0] == ""):
        rep.violation(k + ":start", "fmt@strip starts from %s" % C(entry)[:80], {"function": u})
    bools = [n for n, (e, nx) in lp.x["phis"].items() if e in (TRUE, FALSE) or e.op == "bool"]
    if len(bools) != 1:
        rep.undecided(k + ":state", "%d boolean loop variables" % len(bools))
        return
    b = bools[0]
    init = lp.x["phis"][b][0]
    inside = None
    srcs = {C(e.args[0]) for it in lp.x["iters"] for e in it[0] if e.kind == "next"}
    if srcs != {"chars(disp(val0))"}:
        rep.undecided(k + ":source", str(srcs)[:150])
        return
    rows = []
    bn = lp.x["phis"][b][1]
    for i, (w, conds) in enumerate(nexts):
        ch, stt, other = chars_facts(C, conds, None)
        if other:
            rep.undecided(k + ":test", C(other[0][0])[:150])
            return
        p = pushed(t, w)
        if p is None:
            rep.undecided(k + ":push", C(w)[:150])
            return
        if i < len(bn) and bn[i][1] == conds:
            nb = bn[i][0]
        else:
            m = [x for x, cs in bn if cs == conds]
            nb = m[0] if m else None
        rows.append((ch, stt.get(b), [C(x) for x in p], nb))
    rep.count("automaton_rows", len(rows))
    # state variable true = inside an escape, or its complement
    pol = init == FALSE or init.op == "bool" and not init.a[0]
    for c, name in ((27, "ESC"), (109, "m"), (75, "another character")):
        for ins in (False, True):
            sv = ins if pol else not ins
            for ch, s, p, nb in rows:
                if s is not None and s != sv:
                    continue
                if any((n == c) != v for n, v in ch.items()):
                    continue
                rep.count("obligations")
                now = sv if nb is not None and nb.op == "phi" else True if nb == TRUE or nb is not None and nb.op == "bool" and nb.a[0] else False
                if nb is None or nb.op not in ("phi", "bool") and nb not in (TRUE, FALSE):
                    rep.undecided(k + ":next", str(nb)[:100])
                    continue
                nxt = now if pol else not now
                keep = c != 27 and not ins
                want = True if c == 27 else (ins and c != 109)
                d = {"function": u, "character": name, "inside a sequence": ins}
                if bool(p) != keep:
                    rep.violation(k + ":%s:%s" % (name.split()[0], "in" if ins else "out"), "fmt@strip %s %s %s an escape sequence" % (
                        "keeps" if p else "drops", name, "inside" if ins else "outside"), d)
                elif p and (len(p) != 1 or not re.match(r"^chstr\(char\(disp\(val0\), k\d+\)\)$", p[0])):
                    rep.violation(k + ":char", "fmt@strip replaces a character by %s" % p, d)
                if nxt != want:
                    rep.violation(k + ":state:%s:%s" % (name.split()[0], "in" if ins else "out"), "fmt@strip is %s an escape sequence after %s %s one" % (
                        "inside" if nxt else "outside", name, "inside" if ins else "outside"), d)
