"""Reference definitions of the list and dictionary builtins on values; calls with literal arguments are judged next to those with effects."""
import itertools
import model
from m_call import *

BAD = object()      # an error


def pure(n, f):
    def g(L, vs, e):
        r = f(*vs)
        return (FAILED if r is BAD else Ok(r)), e
    return exactly(n, evaluated(g, *itertools.permutations(range(n))))


def isa(x, k):
    return KINDS[x[1]] == k


def lists_(n):
    """the arguments at these positions are lists"""
    def d(f):
        return lambda *xs: f(*xs) if all(isa(xs[i], "List") for i in n) else BAD
    return d


def withint(f):
    return lambda a, l: f(a[2], l[2]) if isa(a, "Integer") and isa(l, "List") else BAD


def nth(n, l):
    return l[n] if -len(l) <= n < len(l) else BAD


def chunk(n, l):
    if n < 1:
        raise Unk("chunks of no elements")
    return LIST(*[LIST(*l[i:i + n]) for i in range(0, len(l), n)])


def nonneg(f):
    def g(n, l):
        if n < 0:
            raise Unk("negative count")
        return f(n, l)
    return g


def unzip(l):
    if not all(isa(x, "List") and len(x[2]) == 2 for x in l[2]):
        return BAD
    return LIST(LIST(*[x[2][0] for x in l[2]]), LIST(*[x[2][1] for x in l[2]]))


def lenof(x):
    k = KINDS[x[1]]
    return INT(len(x[2].encode()) if k == "String" else len(x[2].d) if k == "Map" else len(x[2])) if k in ("List", "String", "Bytes", "Map") else BAD


def rev(x):
    k = KINDS[x[1]]
    return EX(k, x[2][::-1] if isinstance(x[2], str) else V(x[2][::-1])) if k in ("List", "String", "Symbol", "Bytes") else BAD


def mapd(d):
    return EX("Map", Mp(d))


def key(x):
    if not isa(x, "String") and not isa(x, "Symbol") and not isa(x, "Integer") and not isa(x, "Boolean"):
        raise Unk("key")
    return x[2] if isinstance(x[2], str) else model.disp(x)


def flat(x):
    if isa(x, "List") or isa(x, "Map"):
        return [y for q in (x[2] if isa(x, "List") else [x[2].d[k] for k in sorted(x[2].d, key=lambda k: k.encode())]) for y in flat(q)]
    return [x]


ks = lambda d: sorted(d, key=lambda k: k.encode())
EL = [INT(0), INT(3), NONEX, STR(""), STR("a b"), BOOL(False), LIST(), LIST(INT(1), INT(2)), MAP(a=INT(1)), EX("Float", 0.5), EX("Bytes", V((65, 0)))]
LS = [LIST(), LIST(NONEX), LIST(LIST()), LIST(INT(1)), LIST(INT(1), INT(1)), LIST(INT(1), INT(2)), LIST(INT(2), INT(1), INT(2)), LIST(INT(1), INT(1), INT(2), INT(2)), LIST(*EL), LIST(*EL[::-1]), LIST(*[INT(i) for i in range(7)]), LIST(*[INT(i % 3) for i in range(40)]),
      LIST(NONEX, INT(1)), LIST(STR("b"), STR("a"), STR("B")), LIST(LIST(INT(1)), LIST(INT(1)), LIST(INT(2)))]
NOL = [INT(3), STR("abc"), NONEX, MAP(a=INT(1)), BOOL(True)]
NS = [INT(i) for i in (0, 1, 2, 3, 5, 7, 11, 12, 40, 41, 300)]
PAIR = [LIST(), LIST(LIST(INT(1), STR("a"))), LIST(LIST(INT(1), INT(2)), LIST(INT(1), INT(2))), LIST(LIST(INT(1), INT(2)), LIST(INT(3), NONEX), LIST(LIST(), STR(""))), LIST(LIST(INT(1), INT(2), INT(3))), LIST(LIST(INT(1), INT(2)), LIST(INT(3))), LIST(LIST(INT(1), INT(2)), INT(5)), LIST(LIST()),
        LIST(LIST(INT(1), INT(2)), LIST()), LIST(STR("ab")), LIST(*[LIST(INT(i), INT(i % 2)) for i in range(20)])]
DS = [MAP(), MAP(a=INT(1)), MAP(a=INT(2)), MAP(a=NONEX, b=INT(2)), MAP(b=LIST(INT(1)), c=MAP(x=INT(1))), mapd({"": INT(1), " ": INT(2), "a ": INT(3), "A": INT(4), "\u00e9": INT(5), "1": INT(6), "True": INT(7), "a b": INT(8)}), mapd({"k%02d" % i: INT(i % 4) for i in range(24)}),
      mapd({"a": INT(1), "A": INT(1), "k03": INT(9)}), MAP(a=INT(1), b=INT(1), c=INT(1)), mapd({"Z": NONEX, "a": BOOL(False), "_": STR("")})]
KEYS = [STR(x) for x in ("a", "b", "A", "", " ", "a ", "1", "new", "k03", "\u00e9", "True", "z")] + [INT(1), SYM("v")]


def args(*pools):
    return [V(x) for x in itertools.product(*pools)]


L1 = lists_([0])
PURE = {"P27": {
    "list@head": (pure(1, L1(lambda l: l[2][0] if l[2] else NONEX)), args(LS + NOL)),
    "list@tail": (pure(1, L1(lambda l: LIST(*l[2][1:]))), args(LS + NOL)),
    "list@chunk": (pure(2, withint(chunk)), args(NS[1:], LS) + args(NS[:1] + NS[2:3], NOL) + args(NOL[1:], LS[:3])),
    "list@cons": (pure(2, lists_([1])(lambda x, l: LIST(x, *l[2]))), args(EL, LS) + args(EL[:2], NOL)),
    "list@append": (pure(2, L1(lambda l, x: LIST(*(tuple(l[2]) + (x,))))), args(LS, EL) + args(NOL, EL[:2])),
    "list@len": (pure(1, lenof), args(LS + [STR(""), STR("a b"), STR("\u00e9t"), MAP(a=INT(1)), EX("Bytes", V((1, 2))), INT(3), NONEX])),
    "list@rev": (pure(1, rev), args(LS + [STR(""), STR("ab c\n"), STR("\u00e9t\u00e9s"), EX("Bytes", V((1, 2, 3))), INT(3), NONEX])),
    "list@range": (pure(2, lambda a, b: LIST(*[INT(i) for i in range(a[2], b[2] + 1)]) if isa(a, "Integer") and isa(b, "Integer") else BAD), args([INT(i) for i in (-3, 0, 1, 2, 5)], [INT(i) for i in (-4, -3, -2, 0, 1, 2, 6, 90)]) + args(NOL[1:], NS[:2]) + args(NS[:2], NOL[1:])),
    "list@zip": (pure(2, lists_([0, 1])(lambda a, b: LIST(*[LIST(x, y) for x, y in zip(a[2], b[2])]))), args(LS, LS) + args(LS[:3], NOL) + args(NOL, LS[:3])),
    "list@unzip": (pure(1, L1(unzip)), args(PAIR + NOL)),
    "list@take": None, "list@drop": None,
    "list@split-at": (pure(2, withint(nonneg(lambda n, l: LIST(LIST(*l[:n]), LIST(*l[n:]))))), args(NS, LS) + args(NS[:2], NOL) + args(NOL[1:], LS[:2])),
    "list@nth": (pure(2, withint(nth)), args(NS + [INT(i) for i in (-1, -2, -7, -8, -40, -41, -(1 << 63), (1 << 63) - 1)], LS) + args(NS[:2], NOL) + args(NOL[1:], LS[:2])),
}, "P29": {
    "dict@items": (pure(1, lambda m: LIST(*[LIST(STR(k), m[2].d[k]) for k in ks(m[2].d)]) if isa(m, "Map") else LIST(*[LIST(INT(i), x) for i, x in enumerate(m[2])])), args(DS + LS)),
    "dict@keys": (pure(1, lambda m: LIST(*[STR(k) for k in ks(m[2].d)])), args(DS)),
    "dict@values": (pure(1, lambda m: LIST(*[m[2].d[k] for k in ks(m[2].d)])), args(DS)),
    "dict@insert": (pure(3, lambda m, k, v: mapd(dict(m[2].d, **{key(k): v}))), args(DS, KEYS[:12], [NONEX, INT(1), LIST()])),
    "dict@remove": (pure(2, lambda m, k: mapd({q: v for q, v in m[2].d.items() if q != key(k)})), args(DS, KEYS[:12])),
    "dict@has?": (pure(2, lambda m, k: BOOL(key(k) in m[2].d)), args(DS, KEYS[:12])),
    "dict@len": (pure(1, lenof), args(DS + LS + [STR("a b"), STR("\u00e9")])),
    "dict@from-items": (pure(1, lambda l: mapd({key(x[2][0]): x[2][1] for x in l[2]})), args([LIST(*[LIST(STR(k), v) for k, v in q]) for q in ([], [("a", INT(1))], [("a", INT(1)), ("a", INT(2))], [("b", NONEX), ("a", INT(2)), ("", LIST())], [(" a", INT(1)), ("a", INT(2)), ("A", INT(3)), ("a ", INT(4))], [("x", LIST(INT(1), INT(2))), ("y", NONEX), ("x", NONEX)])])),
    "dict@union": (pure(2, lambda a, b: mapd(dict(a[2].d, **b[2].d))), args(DS, DS)),
    "dict@intersect": (pure(2, lambda a, b: mapd({k: v for k, v in a[2].d.items() if k in b[2].d})), args(DS, DS)),
    "dict@difference": (pure(2, lambda a, b: mapd({k: v for k, v in a[2].d.items() if k not in b[2].d})), args(DS, DS)),
}}
