"""Hash-consed value terms (global value numbering) used by the dataflow engine."""

_tab = {}


class T(object):
    __slots__ = ("op", "a", "id", "ty")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.ty = None
        _tab[k] = t
    return t


def mkt(ty, op, *a):
    t = mk(op, *a)
    if t.ty is None:
        t.ty = ty
    return t


UNIT = mk("tuple")


def INT(v, ty="i64"):
    return mk("int", v, ty)


def BOOL(b):
    return mk("int", 1 if b else 0, "bool")


TRUE = BOOL(True)
FALSE = BOOL(False)


def STR(s):
    return mk("str", s)


RESULT = "core::result::Result"
OPTION = "core::option::Option"
CFLOW = "core::ops::control_flow::ControlFlow"
EXPR = "dune::expr::Expression"


def OK(x):
    return mk("adt", RESULT, 0, x)


def ERR(x):
    return mk("adt", RESULT, 1, x)


def SOME(x):
    return mk("adt", OPTION, 1, x)


NONE = mk("adt", OPTION, 0)


def is_true(t):
    return t is TRUE


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(w for w in z if isinstance(w, T))


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


_memo = {}


def show(t, d=7):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "int":
        return ("true" if a[0] else "false") if a[1] == "bool" else str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "adt":
        n = a[0].split("::")[-1]
        if n == "Result":
            n = ["Ok", "Err"][a[1]]
        elif n == "Option":
            n = ["None", "Some"][a[1]]
        else:
            n = VARNAME(a[0], a[1]) or "%s@%s" % (n, a[1])
        return n + ("(" + ", ".join(s(x) for x in a[2:]) + ")" if len(a) > 2 else "")
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "sym":
        return a[0]
    if o == "field":
        return "%s.%s%s" % (s(a[0]), "" if a[1] is None else "@%s." % a[1], a[2])
    if o == "elem":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o in ("bin", "wrap", "ovf", "cmp"):
        return "%s%s(%s, %s)" % ("" if o in ("bin", "cmp") else o + ":", a[0], s(a[2]), s(a[3]))
    if o == "ref":
        return "&%s%s" % (a[0], "".join("." + show(x, d - 1) for x in a[1]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


ADTS = {}


def VARNAME(adt, v):
    d = ADTS.get(adt)
    if d and v is not None and v < len(d["v"]):
        return d["v"][v]["n"] if d["enum"] else adt.split("::")[-1]
    return None


def VIDX(adt, name):
    for i, v in enumerate(ADTS[adt]["v"]):
        if v["n"] == name:
            return i
    raise KeyError("variant %s of %s" % (name, adt))
