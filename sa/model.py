"""Comparison of summaries in finite models.  A summary is the set of paths the dataflow engine derives for a function:
path condition, loop transfer relations, result term.  Two terms that differ as normal forms may still denote the same
function; before a difference is reported, both are interpreted over a finite family of argument values (every kind the
contract case admits, short sequences, boundary integers).  Interpretation is three-valued: an operation without an
interpretation yields `Unk`, and a difference counts only when both sides are known.  The program itself is never run:
what is interpreted are the terms of its summary and of the contract."""
import math, re, struct
import canon
from terms import *
from engine import RANGES

KINDS = ["Group", "Symbol", "Integer", "Float", "Bytes", "String", "Boolean", "List", "Map", "None", "Assign", "For", "If",
         "Apply", "Lambda", "Macro", "Do", "Builtin", "Quote"]
KI = {k: i for i, k in enumerate(KINDS)}


class Unk(Exception):
    """no interpretation"""


class Undef(Exception):
    """the operation has no result (the model does not reach this point)"""


class Ch(int):
    pass


class V(tuple):
    """a sequence"""


class U(tuple):
    """uninterpreted"""


class Mp(object):
    def __init__(self, d):
        self.d = dict(d)

    def key(self):
        return tuple(sorted(self.d.items(), key=lambda e: e[0]))

    def __repr__(self):
        return "Mp%r" % (self.key(),)


class A(tuple):
    """(adt, variant index, fields...)"""


def EX(kind, *f):
    return A(("Expression", KI[kind]) + f)


NONEX = EX("None")


class Apx(float):
    """a float computed by a function whose last bits depend on the library: only clearly different values differ"""

    def near(self, o):
        x, y = float(self), float(o)
        if struct.pack("<d", x) == struct.pack("<d", y):
            return False
        return x == y or x == x and y == y and not math.isinf(x) and not math.isinf(y) and abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))

    def __hash__(self):
        return float.__hash__(self)


def _apx(n, cmp):
    f = getattr(float, n)

    def g(self, *o):
        if cmp and isinstance(o[0], (int, float)) and self.near(o[0]):
            raise Unk("rounding")
        r = f(self, *o)
        return r if cmp or r is NotImplemented else Apx(r)
    setattr(Apx, n, g)


for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
    _apx(_n, True)
for _n in ("__neg__", "__abs__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
    _apx(_n, False)


def steady(x):
    """the value of a float whose integral part is about to be taken"""
    if isinstance(x, Apx):
        x = float(x)
        if x == x and not math.isinf(x) and (abs(x) > 1e6 or abs(x - math.floor(x + 0.5)) < 1e-9):
            raise Unk("rounding")
    return x


def eq3(a, b):
    """True, False or None"""
    if isinstance(a, U) or isinstance(b, U):
        if isinstance(a, U) and isinstance(b, U) and len(a) == len(b) and a[0] == b[0]:
            r = True
            for x, y in zip(a[1:], b[1:]):
                e = eq3(x, y)
                if e is not True:
                    r = None
            return r
        return None
    if isinstance(a, Mp) or isinstance(b, Mp):
        if not (isinstance(a, Mp) and isinstance(b, Mp)):
            return False
        a, b = a.key(), b.key()
    if isinstance(a, tuple) or isinstance(b, tuple):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = eq3(x, y)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, float) and isinstance(b, float)):
            return False
        if isinstance(a, Apx) and a.near(b) or isinstance(b, Apx) and b.near(a):
            return None
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, Ch) != isinstance(b, Ch):
        return False
    return type(a) in (int, str, bool, Ch) and a == b


def peq(a, b):
    """PartialEq of the program's values: floats compare as numbers"""
    if isinstance(a, U) or isinstance(b, U):
        return eq3(a, b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b
    if isinstance(a, A) and isinstance(b, A) and a[0] == "Expression" and b[0] == "Expression":
        return exeq(a, b)
    if isinstance(a, Mp) and isinstance(b, Mp):
        a, b = a.key(), b.key()
    if isinstance(a, tuple) and isinstance(b, tuple) and type(a) is type(b):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            e = peq(x, y)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    return eq3(a, b)


def exeq(a, b):
    if a[1] == b[1]:
        if KINDS[a[1]] in ("Lambda", "Macro", "Builtin"):
            return None
        for x, y in zip(a[2:], b[2:]):
            e = peq(x, y)
            if e is not True:
                return e
        return True
    return False


def pcmp(a, b):
    """partial order of the program's values: -1, 0, 1, or None where there is none"""
    if isinstance(a, A) and isinstance(b, A) and a[0] == b[0] == "Expression":
        if a[1] != b[1] or KINDS[a[1]] not in ("Integer", "Float", "String", "Bytes", "List", "Map"):
            return None
        return pcmp(a[2], b[2])
    if isinstance(a, Mp) and isinstance(b, Mp):
        return pcmp(V(V(x) for x in a.key()), V(V(x) for x in b.key()))
    if isinstance(a, V) and isinstance(b, V):
        for x, y in zip(a, b):
            c = pcmp(x, y)
            if c != 0:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if isinstance(a, str) and isinstance(b, str):
        a, b = a.encode(), b.encode()
    elif isinstance(a, U) or isinstance(b, U) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        raise Unk("comparison")
    return 0 if a == b else -1 if a < b else 1 if a > b else None


def ordering(c):
    return A(("Ordering", c + 1))


def s3(x):
    if x is None:
        raise Unk("equality")
    return x


WS = "".join(chr(c) for c in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000))


def disp(v):
    if isinstance(v, str):
        return v
    if isinstance(v, Ch):
        return chr(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, A) and v[0] == "Expression":
        k = KINDS[v[1]]
        if k in ("String", "Symbol"):
            return v[2]
        if k in ("Integer", "Float"):
            return disp(v[2])
        if k == "Boolean":
            return "True" if v[2] else "False"
        if k == "None":
            return "None"
    return "\u27e8%r\u27e9" % (v,)      # some string that depends on the value only


def wrapint(x, ty):
    r = RANGES.get(ty)
    if r is None:
        raise Unk("type " + str(ty))
    m = r[1] - r[0] + 1
    return (x - r[0]) % m + r[0]


def exact(op, x, y, ty):
    """the mathematical result; None when there is none"""
    op = op.replace("Unchecked", "")
    if op == "Add":
        return x + y
    if op == "Sub":
        return x - y
    if op == "Mul":
        return x * y
    if op in ("Div", "Rem", "DivE", "RemE"):
        if y == 0:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = x - q * y
        if op in ("DivE", "RemE") and r < 0:
            r += abs(y)
            q = (x - r) // y
        return q if op[0] == "D" else r
    if op == "Pow":
        if y < 0:
            return None
        if y > 4096:
            return x if x in (0, 1) else (1 if x == -1 and y % 2 == 0 else -1 if x == -1 else 1 << 200)
        return x ** y
    if op == "Neg":
        return -x
    if op in ("Abs", "UAbs"):
        return abs(x)
    if op == "BitAnd":
        return x & y
    if op == "BitOr":
        return x | y
    if op == "BitXor":
        return x ^ y
    raise Unk(op)


def bits(ty):
    r = RANGES[ty]
    return (r[1] - r[0] + 1).bit_length() - 1


def ovf(op, x, y, ty):
    if op in ("Shl", "Shr"):
        return not 0 <= y < bits(ty)
    v = exact(op, x, y, ty)
    if op in ("Div", "Rem", "DivE", "RemE"):
        if v is None:
            return True
        return x == RANGES[ty][0] and y == -1 and RANGES[ty][0] < 0
    lo, hi = RANGES[ty]
    return v is None or not lo <= v <= hi


def arith(op, x, y, ty):
    if isinstance(x, bool) or isinstance(y, bool):
        if op in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[op]
    if isinstance(x, float) and isinstance(y, float):
        try:
            if op == "Add":
                return x + y
            if op == "Sub":
                return x - y
            if op == "Mul":
                return x * y
            if op == "Div":
                return x / y if y else (math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y))
            if op == "Rem":
                if isinstance(x, Apx) or isinstance(y, Apx):
                    raise Unk("rounding")
                return math.fmod(x, y) if y and not math.isinf(x) else math.nan
        except OverflowError:
            return math.inf
        raise Unk(op)
    if not isinstance(x, int) or not isinstance(y, int):
        raise Unk("operands")
    if ty not in RANGES:
        raise Unk("type")
    if op in ("Shl", "Shr"):
        if not 0 <= y < bits(ty):
            raise Undef()
        return wrapint(x << y, ty) if op == "Shl" else x >> y
    v = exact(op, x, y, ty)
    lo, hi = RANGES[ty]
    if v is None or not lo <= v <= hi:
        raise Undef()
    return v


def fcast(to, v, fr):
    if to == "f64":
        return float(v)
    if to == "f32":
        try:
            return struct.unpack("<f", struct.pack("<f", float(v)))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    if isinstance(v, float):
        v = steady(v)
        lo, hi = RANGES[to]
        if v != v:
            return 0
        if math.isinf(v):
            return hi if v > 0 else lo
        return max(lo, min(hi, int(v)))
    raise Unk("cast")


def cast(to, v):
    if to == "char":
        return Ch(v)
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, int):
        raise Unk("cast")
    return wrapint(int(v), to)


def need(x, *tys):
    if isinstance(x, U):
        raise Unk("uninterpreted")
    if not isinstance(x, tys):
        raise Unk("value of another shape")
    return x


def boundary(s, i):
    b = s.encode()
    return 0 <= i <= len(b) and (i == len(b) or b[i] & 0xC0 != 0x80)


def seqlen(v):
    if isinstance(v, str):
        return len(v.encode())
    if isinstance(v, V):
        return len(v)
    if isinstance(v, Mp):
        return len(v.d)
    raise Unk("length")


def subseq(v, lo, hi):
    n = seqlen(v)
    if not 0 <= lo <= hi <= n:
        raise Undef()
    if isinstance(v, str):
        if not boundary(v, lo) or not boundary(v, hi):
            raise Undef()
        return v.encode()[lo:hi].decode()
    return V(v[lo:hi])


def index(v, i):
    need(v, V)
    if not 0 <= i < len(v):
        raise Undef()
    return v[i]


def chars(s):
    return V(Ch(ord(c)) for c in s)


def strof(v):
    out = ""
    for x in need(v, V):
        if isinstance(x, Ch):
            out += chr(x)
        elif isinstance(x, str):
            out += x
        else:
            raise Unk("string of")
    return out


def lossy(v):
    if isinstance(v, str):
        return v
    return bytes(need(x, int) for x in need(v, V)).decode("utf-8", "replace")


def lines(s):
    p = s.split("\n")
    if p and p[-1] == "":
        p.pop()
    return V(x[:-1] if x.endswith("\r") else x for x in p)


def split(s, p):
    if isinstance(p, Ch):
        p = chr(p)
    need(p, str)
    if p == "":
        return V([""] + list(s) + [""])
    return V(s.split(p))


def splitn(n, s, p):
    if p == "":
        raise Unk("splitn")
    return V(s.split(p, n - 1)) if n > 0 else V()


def strfn(f, a):
    s = need(a[0], str)
    if f == "trim":
        return s.strip(WS)
    if f in ("trim_start", "trim_left"):
        return s.lstrip(WS)
    if f in ("trim_end", "trim_right"):
        return s.rstrip(WS)
    if f == "to_lowercase" and all(c.isascii() or c in NONASCII for c in s):
        return s.lower()
    if f == "to_uppercase" and all(c.isascii() or c in NONASCII for c in s):
        return s.upper()
    if f == "to_ascii_lowercase":
        return "".join(c.lower() if c.isascii() else c for c in s)
    if f == "to_ascii_uppercase":
        return "".join(c.upper() if c.isascii() else c for c in s)
    if f in ("trim_matches", "trim_start_matches", "trim_end_matches"):
        if isinstance(a[1], V) and all(isinstance(c, Ch) for c in a[1]):
            q = "".join(map(chr, a[1]))
            return {"trim_matches": s.strip, "trim_start_matches": s.lstrip, "trim_end_matches": s.rstrip}[f](q) if q else s
        q = pat(a[1])
        if not q or f == "trim_matches" and len(q) != 1:
            raise Unk(f)
        while f != "trim_end_matches" and s.startswith(q):
            s = s[len(q):]
        while f != "trim_start_matches" and s.endswith(q):
            s = s[:-len(q)]
        return s
    if f in ("replace", "replacen"):
        p, q = a[1], a[2]
        p = chr(p) if isinstance(p, Ch) else p
        if not isinstance(p, str) or not isinstance(q, str):
            raise Unk("replace")
        if f == "replacen":
            return s.replace(p, q, a[3])
        return s.replace(p, q)
    if f in ("to_lowercase", "to_uppercase"):
        return "\u27e8%s %s\u27e9" % (f, s)
    raise Unk(f)


def pat(p):
    return chr(p) if isinstance(p, Ch) else need(p, str)


def strpred(f, a):
    s = need(a[0], str)
    if f == "contains":
        return pat(a[1]) in s
    if f == "starts_with":
        return s.startswith(pat(a[1]))
    if f == "ends_with":
        return s.endswith(pat(a[1]))
    if f == "is_ascii":
        return s.isascii()
    if f == "eq_ignore_ascii_case":
        return strfn("to_ascii_lowercase", [s]) == strfn("to_ascii_lowercase", [a[1]])
    raise Unk(f)


NONASCII = "\u00df\u00e9\u00c9\u00bd\u00b2\u0663\u4e2d"


def charfn(f, c):
    ch = chr(c)
    if f == "is_whitespace":
        return ch in WS
    if f in ("is_alphabetic", "is_alphanumeric", "is_numeric", "is_lowercase", "is_uppercase"):
        if not ch.isascii() and ch not in NONASCII:
            raise Unk(f)
        return {"is_alphabetic": ch.isalpha(), "is_alphanumeric": ch.isalnum(), "is_numeric": ch.isnumeric(),
                "is_lowercase": ch.islower(), "is_uppercase": ch.isupper()}[f]
    if f == "is_ascii":
        return ch.isascii()
    if f == "is_control":
        return ord(ch) < 32 or 127 <= ord(ch) < 160
    if f.startswith("is_ascii_"):
        if not ch.isascii():
            return False
        r = {"is_ascii_digit": ch.isdigit(), "is_ascii_lowercase": ch.islower(), "is_ascii_uppercase": ch.isupper(), "is_ascii_alphabetic": ch.isalpha(),
             "is_ascii_alphanumeric": ch.isalnum(), "is_ascii_whitespace": ch in "\t\n\x0c\r ", "is_ascii_punctuation": ch.isprintable() and not ch.isalnum() and ch != " ",
             "is_ascii_control": ord(ch) < 32 or ord(ch) == 127, "is_ascii_graphic": 33 <= ord(ch) <= 126}.get(f)
        if r is None:
            raise Unk(f)
        return r
    if f == "to_lowercase":
        return chars(ch.lower())
    if f == "to_uppercase":
        return chars(ch.upper())
    if f == "to_ascii_lowercase":
        return Ch(ord(ch.lower())) if ch.isascii() else c
    if f == "to_ascii_uppercase":
        return Ch(ord(ch.upper())) if ch.isascii() else c
    raise Unk("char::" + f)


def into(x):
    if isinstance(x, A) and x[0] == "Expression":
        return x
    if isinstance(x, bool):
        return EX("Boolean", x)
    if isinstance(x, Ch):
        raise Unk("into")
    if isinstance(x, int):
        return EX("Integer", x)
    if isinstance(x, float):
        return EX("Float", x)
    if isinstance(x, str):
        return EX("String", x)
    if isinstance(x, V):
        return EX("List", V(into(y) for y in x))
    if isinstance(x, Mp):
        return EX("Map", Mp({k: into(y) for k, y in x.d.items()}))
    raise Unk("into")


POOL = [EX("Boolean", True), EX("Boolean", False), EX("Integer", 7), EX("Integer", 0), NONEX, EX("String", "r"), EX("Float", 0.5)]


def free(name, args, seed=0, n=len(POOL)):
    """the value of an uninterpreted function at these arguments: some value, the same for equal arguments"""
    import zlib
    return POOL[zlib.crc32(repr((name, args, seed)).encode()) % n]


def truthy(x):
    k = KINDS[x[1]]
    if k == "Integer":
        return x[2] != 0
    if k == "Boolean":
        return x[2]
    if k == "String":
        return x[2] != ""
    if k == "None":
        return False
    raise Unk("truth")


def evaluate(x, seed):
    """the value of evaluating an expression, arbitrary but fixed"""
    if isinstance(x, A) and x[0] == "Expression" and KINDS[x[1]] in ("Integer", "Float", "Boolean", "String", "None", "Bytes", "Macro", "Builtin"):
        return x
    if isinstance(x, A) and x[0] == "Expression" and KINDS[x[1]] == "List":
        return EX("List", V(evaluate(y, seed) for y in x[2]))
    if isinstance(x, A) and x[0] == "Expression" and KINDS[x[1]] == "Map":
        return EX("Map", Mp({k: evaluate(y, seed) for k, y in x[2].d.items()}))
    if isinstance(x, A) and x[0] == "Expression" and KINDS[x[1]] == "Lambda":
        return x
    return free("eval", x, seed)


def rangeseq(lo, hi):
    if hi - lo > 400:
        raise Unk("long range")
    return range(lo, hi)


def take(v, n):
    return V(need(v, V)[:n])


def skip(v, n):
    return V(need(v, V)[n:])


def vins(v, i, x):
    if not 0 <= i <= len(need(v, V)):
        raise Undef()
    return V(v[:i] + (x,) + v[i:])


def _pow(x, y):
    if x < 0 and y != math.floor(y):
        return math.nan
    if x == 0 and y < 0:
        return math.copysign(math.inf, x) if y % 2 == 1 else math.inf
    return math.pow(x, y)


def _cbrt(x):
    return math.copysign(math.exp(math.log(abs(x)) / 3), x) if x else x


LIBM = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "atan": math.atan, "asinh": math.asinh, "exp": math.exp,
        "asin": lambda x: math.asin(x) if abs(x) <= 1 else math.nan, "acos": lambda x: math.acos(x) if abs(x) <= 1 else math.nan,
        "acosh": lambda x: math.acosh(x) if x >= 1 else math.nan, "atanh": lambda x: math.atanh(x) if abs(x) < 1 else math.nan if abs(x) > 1 else math.copysign(math.inf, x),
        "ln": lambda x: math.log(x) if x > 0 else -math.inf if x == 0 else math.nan, "log2": lambda x: math.log2(x) if x > 0 else -math.inf if x == 0 else math.nan,
        "log10": lambda x: math.log10(x) if x > 0 else -math.inf if x == 0 else math.nan, "exp2": lambda x: math.pow(2, x), "cbrt": _cbrt,
        "powf": _pow, "powi": lambda x, y: _pow(x, float(y)), "hypot": math.hypot, "atan2": math.atan2, "exp_m1": math.expm1, "ln_1p": lambda x: math.log1p(x) if x > -1 else math.nan,
        "to_radians": math.radians, "to_degrees": math.degrees}


def f64fn(f, a):
    if f == "log" and len(a) == 2:
        x, b = f64fn("ln", a[:1]), f64fn("ln", a[1:])
        return arith("Div", x, b, "f64")
    if f in LIBM and all(type(x) in (float, int, Apx) for x in a):
        try:
            return Apx(LIBM[f](*[float(x) for x in a]))
        except (ValueError, OverflowError):
            raise Unk("f64::" + f)
    if f == "abs":
        return abs(a[0])
    if f in ("floor", "ceil", "trunc", "round"):
        x = steady(a[0])
        if x != x or math.isinf(x) or abs(x) > 1e15:
            return x
        r = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda q: (math.floor(abs(q)) + (abs(q) - math.floor(abs(q)) >= 0.5)) * (1 if q > 0 else -1)}[f](x)
        return math.copysign(float(r), x)
    if f == "sqrt":
        r = math.sqrt(a[0]) if a[0] >= 0 else math.nan
        return Apx(r) if isinstance(a[0], Apx) else r
    if f == "is_nan":
        return a[0] != a[0]
    if f == "fract":
        return math.nan if a[0] != a[0] or math.isinf(a[0]) else math.fmod(a[0], 1.0)
    if f == "signum":
        return a[0] if a[0] != a[0] else math.copysign(1.0, a[0])
    if f in ("is_sign_negative", "is_sign_positive"):
        return (math.copysign(1.0, a[0]) < 0) == (f == "is_sign_negative")
    if f == "copysign" and len(a) == 2:
        return math.copysign(a[0], a[1])
    if f == "is_infinite":
        return math.isinf(a[0])
    if f == "is_finite":
        return not math.isinf(a[0]) and a[0] == a[0]
    if f in ("max", "min"):
        x, y = a
        if x != x:
            return y
        if y != y:
            return x
        return max(x, y) if f == "max" else min(x, y)
    return U(("f64::" + f,) + tuple(a))


# ---------------------------------------------------------------- contract forms
class FormParser(object):
    TOK = re.compile(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w:?~]*|[()\[\].,;|*+]")

    def __init__(self, s):
        self.t = self.TOK.findall(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def term(self):
        t = self.next()
        if t[0] in "'\"":
            import ast
            r = ("str", ast.literal_eval(t))
        elif re.match(r"-?\d+\.\d", t):
            r = ("num", float(t))
        elif re.match(r"-?\d+$", t):
            r = ("num", int(t))
        elif t == "(":
            r = ("tuple",) + tuple(self.args())
        elif t in ("*", "+", ")", "]", "|", ";", ","):
            raise Unk("form")
        elif self.peek() == "(":
            self.next()
            r = (t,) + tuple(self.args())
        else:
            r = ("name", t)
        while self.peek() in (".", "["):
            if self.next() == ".":
                r = ("pay", r, self.next())
            else:
                r = ("idx", r, self.term())
                if self.next() != "]":
                    raise Unk("form")
        return r

    def args(self):
        out = []
        if self.peek() == ")":
            self.next()
            return out
        while True:
            if self.peek() in ("|", ",", ";"):
                out.append(("empty",))
            else:
                out.append(self.term())
            t = self.next()
            if t == ")":
                return out
            if t == "|":
                out.append(("alt",))
                if self.peek() == ")":
                    self.next()
                    out.append(("empty",))
                    return out


_forms = {}


def form(s):
    if s not in _forms:
        try:
            p = FormParser(s)
            _forms[s] = p.term()
            if p.i != len(p.t):
                _forms[s] = None
        except (Unk, IndexError):
            _forms[s] = None
    return _forms[s]


class Forms(object):
    """interpretation of a contract form"""

    def __init__(self, vals, seed):
        self.vals, self.seed = vals, seed

    def ev(self, f, env):
        h = f[0]
        g = lambda i: self.ev(f[i], env)
        if h == "str" or h == "num":
            return f[1]
        if h == "name":
            n = f[1]
            if re.match(r"val\d+$", n):
                i = int(n[3:])
                if i not in self.vals:
                    raise Undef()
                return self.vals[i]
            if n in env:
                return env[n]
            if n in ("true", "false"):
                return n == "true"
            if n == "None":
                return NONEX
            if n == "env":
                return U(("env",))
            raise Unk(n)
        if h == "pay":
            b = g(1)
            k = f[2]
            if isinstance(b, A) and k in KI and b[0] == "Expression":
                if b[1] != KI[k]:
                    raise Undef()
                return b[2]
            if isinstance(b, A) and k in ("Ok", "Some") and len(b) > 2:
                return b[2]
            raise Unk("payload")
        if h == "idx":
            b = need(g(1), V)
            i = f[2]
            if i[0] == "name" and i[1].endswith("~r"):
                q = env.get(i[1])
                if q is None:
                    raise Unk("index")
                return index(b, len(b) - 1 - q)
            return index(b, need(g(2), int))
        if h in ("each", "fold"):
            if any(x in (("alt",), ("empty",)) for x in f) or len(f) != 3:
                raise Unk("alternatives")
            acc = g(1)
            ks = set()
            n = self.count(f[2], env, ks)
            me = "acc%d" % len([k for k in env if k.startswith("acc")])
            for i in range(n):
                e2 = dict(env)
                for k in ks:
                    e2[k] = i
                if h == "fold":
                    e2[me] = acc
                    acc = self.ev(f[2], e2)
                else:
                    x = self.ev(f[2], e2)
                    if isinstance(acc, Mp):
                        d = dict(acc.d)
                        d[need(x[0], str)] = x[1]
                        acc = Mp(d)
                    elif isinstance(acc, str):
                        acc += strof(V([x]))
                    else:
                        acc = V(acc + (x,))
            return acc
        if h == "quant":
            body = f[3]
            if body[0] == "tuple":
                body = body[1]
            ks = set()
            n = self.count(body, env, ks)
            rs = [need(self.ev(body, dict(env, **{k: i for k in ks})), bool) for i in range(n)]
            return all(rs) if f[1] == ("name", "all") else any(rs)
        if h in ("rk",):
            lo = g(1)
            if f[3][1] not in env:
                raise Unk("range")
            return lo + env[f[3][1]]
        if h in ("strfn", "strpred"):
            return (strfn if h == "strfn" else strpred)(f[1][1], [self.ev(x, env) for x in f[2:]])
        if h == "cast":
            return cast(f[1][1], g(2))
        if h == "fcast":
            return fcast(f[1][1], g(2), f[3][1])
        if h == "un":
            return arith1(f[1][1], g(3), f[2][1])
        if h == "eval":
            return A(("Result", 0, evaluate(g(1), self.seed)))
        if h == "upd":
            k = f[2][2][1]
            return EX(KINDS[k], g(3))
        if h == "val":
            return evaluate(g(1), self.seed)
        if h == "map":
            return Mp({})
        if h == "vec" and len(f) == 2 and f[1] == ("empty",):
            return V()
        if h.startswith("char::"):
            return charfn(h[6:], need(g(1), int))
        a = [self.ev(x, env) for x in f[1:]]
        if h == "mkey":
            return list(sorted(need(a[0], Mp).d))[a[1]]
        if h == "mval":
            return a[0].d[list(sorted(need(a[0], Mp).d))[a[1]]]
        if h == "char":
            return chars(need(a[0], str))[a[1]]
        if h in KI:
            return EX(h, *a)
        if h in ("Ok", "Err"):
            return A(("Result", 0 if h == "Ok" else 1) + tuple(a))
        if h == "tuple":
            return tuple(a)
        if h in ("Add", "Sub", "Mul", "Div", "Rem", "RemE", "Shl", "Shr", "Pow", "BitAnd", "BitOr", "BitXor"):
            ty = "i64"
            if h in ("Shl", "Shr") and isinstance(a[0], int) and a[0] > RANGES["i64"][1] or f[1][0] == "cast" and f[1][1] == ("name", "u64"):
                ty = "u64"
            return arith(h, a[0], a[1], ty)
        return common(h, a)

    def count(self, f, env, ks):
        """number of turns: the shortest sequence the body runs over"""
        ns = []

        def go(x):
            if not isinstance(x, tuple):
                return
            if x[0] == "idx" and x[2][0] == "name" and x[2][1][:1] == "k":
                ks.add(x[2][1])
                ns.append(len(need(self.ev(x[1], env), V)))
            if x[0] == "rk":
                ks.add(x[3][1])
                hi = x[2]
                one = 0
                if hi[0] == "incl":
                    hi, one = hi[1], 1
                ns.append(max(0, self.ev(hi, env) + one - self.ev(x[1], env)))
            if x[0] in ("mkey", "mval", "char") and x[2][0] == "name":
                ks.add(x[2][1])
                b = self.ev(x[1], env)
                ns.append(len(chars(b)) if x[0] == "char" else len(need(b, Mp).d))
            for y in x[1:]:
                go(y)
        go(f)
        if not ns or min(ns) > 400:
            raise Unk("turns")
        return min(ns)


def arith1(op, x, ty):
    if isinstance(x, float) and op == "Neg":
        return -x
    if op == "Not":
        if isinstance(x, bool):
            return not x
        return wrapint(~x, ty)
    x = need(x, int)
    if op == "UAbs":
        return abs(x)
    v = exact(op, x, 0, ty)
    lo, hi = RANGES[ty]
    if not lo <= v <= hi:
        raise Undef()
    return v


def chunks(v, n):
    if n <= 0:
        raise Undef()
    return V(V(v[i:i + n]) for i in range(0, len(v), n))


def common(h, a):
    """operations that mean the same in forms and in summaries"""
    if h == "vec" or h == "array":
        return V(a)
    if h == "push":
        return V(need(a[0], V) + (a[1],))
    if h == "vcat":
        return V(need(a[0], V) + need(a[1], V))
    if h == "vins":
        return vins(*a)
    if h == "vswap":
        v = list(need(a[0], V))
        i, j = need(a[1], int), need(a[2], int)
        if not (0 <= i < len(v) and 0 <= j < len(v)):
            raise Undef()
        v[i], v[j] = v[j], v[i]
        return V(v)
    if h == "vdel":
        return V(a[0][:a[1]] + a[0][a[1] + 1:])
    if h == "take":
        return take(a[0], a[1])
    if h == "skip":
        return skip(a[0], a[1])
    if h == "slice":
        return subseq(a[0], a[1], a[2])
    if h == "rev":
        return V(reversed(need(a[0], V)))
    if h == "len":
        return seqlen(a[0])
    if h == "size":
        return len(need(a[0], V))
    if h == "charcount":
        return len(need(a[0], str))
    if h == "chars":
        return chars(need(a[0], str))
    if h == "strof":
        return strof(a[0])
    if h == "lossy":
        return lossy(a[0])
    if h == "chstr":
        return strof(V([a[0]]))
    if h == "concat":
        return "".join(strof(V([x])) for x in a)
    if h == "disp":
        if isinstance(a[0], U):
            raise Unk("display")
        return disp(a[0])
    if h == "lines":
        return lines(need(a[0], str))
    if h == "split":
        return split(need(a[0], str), a[1])
    if h == "split_whitespace":
        return V(x for x in re.split("[%s]+" % WS, need(a[0], str)) if x)
    if h == "sins":
        if not boundary(a[0], a[1]):
            raise Undef()
        b = a[0].encode()
        return (b[:a[1]] + a[2].encode() + b[a[1]:]).decode()
    if h == "join":
        if all(isinstance(x, str) for x in a[0]):
            return (a[1] if len(a) > 1 else "").join(a[0])
        raise Unk("join")
    if h == "repeatstr":
        if len(a[0]) * a[1] > 10000:
            raise Unk("repeat")
        return a[0] * a[1]
    if h == "repeat":
        if a[1] > 1000:
            raise Unk("repeat")
        return V([a[0]] * a[1])
    if h == "chunks":
        return chunks(need(a[0], V), a[1])
    if h == "mget":
        d = need(a[0], Mp).d
        k = a[1]
        return A(("Option", 1, d[k])) if k in d else A(("Option", 0))
    if h == "mapins":
        d = dict(need(a[0], Mp).d)
        d[need(a[1], str)] = a[2]
        return Mp(d)
    if h == "mapdel":
        d = dict(need(a[0], Mp).d)
        d.pop(a[1], None)
        return Mp(d)
    if h == "mapof":
        return Mp({need(k, str): v for k, v in a[0]})
    if h == "mapmerge":
        return Mp(dict(need(a[0], Mp).d, **need(a[1], Mp).d))
    if h == "eq":
        return s3(peq(a[0], a[1]))
    if h == "isvar":
        return need(a[0], A)[1] == a[1]
    if h == "not":
        return not need(a[0], bool)
    if h == "Eq":
        return s3(peq(a[0], a[1]))
    if h == "Lt":
        return a[0] < a[1]
    if h == "Le":
        return a[0] <= a[1]
    if h == "into":
        return into(a[0])
    if h in ("Ord.cmp", "PartialOrd.partial_cmp"):
        c = pcmp(a[0], a[1])
        if h == "Ord.cmp":
            return ordering(c)
        return A(("Option", 0)) if c is None else A(("Option", 1, ordering(c)))
    if h in ("Ordering::reverse", "Ordering.reverse"):
        return ordering(1 - need(a[0], A)[1])
    if h.startswith("f64::"):
        return f64fn(h[5:], a)
    if h in ("binary::init::dict_module::flatten",):
        x = a[0]
        if isinstance(x, A) and KINDS[x[1]] in ("List", "Map"):
            raise Unk("flatten")
        return V([x])
    raise Unk(h)


# ---------------------------------------------------------------- summaries
MAXTURN = 70


def ends(ks, st):
    """did the loop over these iterators run out on this path?"""
    return any(k in st.ends or k[0] is None and any(x[1] == k[1] for x in st.ends) for k in ks)


def own(t):
    """the subterms outside nested collected sequences"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, T) and x.id not in seen and x.op != "gvec":
            seen.add(x.id)
            out.append(x)
            todo += list(x.a)
    return out


def addends(t):
    return addends(t.a[2]) + addends(t.a[3]) if t.op in ("bin", "wrap") and t.a[0] in ("Add", "AddUnchecked", "AddWithOverflow") else [t]


def variant(conds):
    """one way round a loop"""
    return frozenset((t.id, v) for t, v in conds)


class Summary(object):
    """interpretation of one path of a summary in one model"""

    def __init__(self, E, vals, seed, raw=None, syms=None):
        self.E, self.vals, self.seed = E, vals, seed
        self.raw, self.syms = raw or {}, syms or {}      # arguments known before evaluation; other parameters
        self.fuel = 60000
        self.memo = {}
        self.piped = set()      # adapted iterators whose adapters are interpreted

    adapted = False
    ndrawn = 0
    cover = None    # the ways round each loop that some model takes
    call = None     # interpretation of further functions
    bind = {}       # terms whose value is given

    def run(self, st, ret):
        """value of the path's result, or None when the model does not take this path"""
        env = self.endenv = {}
        if not self.holds(st.events(), st.conds(), st, env):
            return None
        if ret.op == "adt" and ret.a[0].endswith("::Result") and ret.a[1] == 1:
            try:
                return (self.ev(ret, env),)
            except Unk:
                return (A(("Result", 1, U(("an error",)))),)      # which message is not compared
        return (self.ev(ret, env),)

    # -- loops
    def recs(self, evs):
        return [e for e in evs if e.kind == "loop" and e.x.get("iters") is not None]

    def holds(self, evs, conds, st, env):
        """does the model take this path?  binds the values its loops end with"""
        for e in evs:
            if e.kind == "filt" and e.site not in self.piped:
                raise Unk("filtered iterator")
            if e.kind == "ended" and self.drawn(e.args[0], env, e.x.get("like", ())):
                return False
        unk = None
        for e in evs:
            if e.kind == "acc":
                try:
                    if not self.gathered(e, env):
                        return False
                except Unk as u:
                    unk = unk or u
            elif e.kind == "loop" and e.x.get("iters") is not None:
                try:
                    done, ks = self.loop(e, env)
                except Unk as u:
                    unk = unk or u
                    continue
                if ks:
                    ended = ends(ks, st)
                    if ended != done:
                        return False
        inner = self.inner(evs)
        for t, v in conds:
            if (t.id, v) in inner:
                continue        # a condition on the elements a collect draws, applied to each of them
            try:
                if isinstance(v, frozenset):
                    x = self.ev(t, env)
                    if isinstance(x, U):
                        raise Unk("variant")
                    if not isinstance(x, A):
                        raise Unk("variant")
                    if x[1] not in v:
                        return False
                else:
                    if need(self.ev(t, env), bool) != v:
                        return False
            except Undef:
                return False
            except Unk as u:
                unk = unk or u
        if unk is not None:
            raise unk
        return True

    def inner(self, evs):
        """the conditions on the elements a collect draws, applied to each of them"""
        return {(t.id, v) for e in evs if e.kind == "acc" for cs in [cs for q in e.x.get("gvecs", {}).values() for cs in q[2]] + [e.x.get("all", ())] for t, v in cs}

    def eager(self, e):
        """does drawing the elements have effects?"""
        return False

    def step(self, evs, env):
        """what drawing one element does"""

    def gathered(self, e, env):
        """a collect: its value, and whether this path's conditions on all (or the failing) elements hold"""
        if e.x.get("forms", 1) > 1:
            raise Unk("collect of elements of several forms")
        for g, q in e.x.get("gvecs", {}).items():
            env[("acc", g)] = tuple(q[:4]) + (e.x.get("adapt", ()), e.x.get("all"), e.x.get("evs", ()))
            if e.x.get("all") is not None or self.eager(e):
                try:
                    self.ndrawn = 0
                    env[g] = self.collected(None, env[("acc", g)], env)
                    if e.x.get("all") is not None and not self.ndrawn:
                        return False        # nothing drawn is another path
                except Undef:
                    return False
        if e.x.get("first") is not None:
            x, cs = e.x["first"]
            rest = [c for c in cs]
            for env2 in self.elements([x] + [c for c, v in cs], e.x.get("adapt", ()), env, evs=e.x.get("evs", ())):
                self.step(e.x.get("evs", ()), env2)
                if all(self.cond(c, v, env2) for c, v in rest):
                    env.update(env2)
                    return True
            return False
        return True

    def cond(self, c, v, env):
        return need(self.ev(c, env), A)[1] in v if isinstance(v, frozenset) else need(self.ev(c, env), bool) == v

    def drawn(self, it, env, like=()):
        """does the iterator yield anything?"""
        if like:
            for q in like:
                if q[2]:
                    break
            else:
                like = ()
        if like:
            for x, cs, filt, adapt, evs in like:
                if not any(q.kind == "adapt" for q in adapt):
                    raise Unk("adapted iterator")
                if all(q[0] in ("filter", "filtermap", "rev") for q in self.stages(adapt)):
                    for env2 in self.elements([x] + [c for c, v in cs], adapt, env, False, ("filter", "filtermap", "rev"), evs):
                        self.step(evs, env2)
                        if all(self.cond(c, v, env2) for c, v in cs):
                            return True
                    continue
                for env2 in self.elements([x] + [c for c, v in cs], adapt, env, evs=evs):
                    return True
            return False
        while it.op in ("imap", "ienum", "irev", "icloned", "ipeek", "iinspect"):
            it = it.a[0]
        if it.op != "iter" or it.a[1].op != "p":
            raise Unk("adapted iterator")
        v = self.ev(it.a[0], env)
        if isinstance(v, str):
            return v != "" if it.a[2] == "chars" else self.bad()
        return len(v.d if isinstance(v, Mp) else need(v, V)) > 0

    def bad(self):
        raise Unk("iterator")

    def kvars(self, evs):
        """(index term, source term or bounds) of the elements drawn in these events"""
        out = []
        for e in evs:
            if e.kind != "next" or e.res is None:
                continue
            x = e.res
            if e.name == "range":
                out.append((x, e.args, "range"))
                continue
            k = None
            if x.op == "tuple" and x.a and x.a[0].op == "mkey":
                k = x.a[0].a[1]
            elif x.op in ("elem", "char", "mkey", "mval"):
                k = x.a[1]
            if k is not None and k.op == "k" and len(k.a[0]) > 2 and str(k.a[0][2]).startswith("col") and k.a[0][1] == e.site:
                continue        # drawn by a collect
            if k is None or k.op not in ("k",):
                if k is not None and k.op != "k":
                    inner = [y for y in addends(k) if y.op == "k"]
                    if k.op in ("bin", "wrap") and len(inner) == 1 and e.args and e.args[0].op in ("slice", "skip", "take"):
                        out.append((inner[0], e.args, e.name))      # a position in a part of the sequence
                    continue        # a known position
                raise Unk("element")
            out.append((k, e.args, e.name))
        return out

    def klen(self, k, args, name, env):
        if name == "range":
            if k.op != "rk":
                raise Unk("range")
            lo = need(self.ev(args[0], env), int)
            hi = args[1]
            if hi.op == "infinity":
                return 1 << 60
            if hi.op == "incl":
                return self.ev(hi.a[0], env) + 1 - lo
            return self.ev(hi, env) - lo
        if k.a[2] not in ("", "r") and not (self.adapted and set(k.a[2]) <= set("stwp")):
            raise Unk("adapted iterator")
        src = args[0]
        v = self.ev(src, env)
        if name == "chars" and isinstance(v, str):
            v = chars(v)
        return len(v.d) if isinstance(v, Mp) else len(need(v, V))

    def loop(self, e, env):
        """-> (did the iterator run out, identities of the iterators); final values are bound in env"""
        key = ("loop", e.name, id(e))
        phis, gv = e.x.get("phis", {}), e.x.get("gvecs", {})
        names = list(phis) + list(gv)
        cur = {}
        for n, q in list(phis.items()) + list(gv.items()):
            if q[0] is None:
                env[n] = None
                continue
            try:
                cur[n] = self.ev(q[0], env)
            except Unk:
                cur[n] = None
        iters = e.x["iters"]
        ks = {}
        for evs, cs, st in iters:
            for k, args, name in self.kvars(evs):
                ks[k.id] = (k, args, name)
        ids = set()
        for k, args, name in ks.values():
            kk = k.a[2] if k.op == "rk" else k
            ids.add(kk.a[0][:2])
        for evs, cs, st in iters:
            for q in evs:
                if q.kind == "next" and q.res is not None and q.res.op == "elem" and q.res.a[1].op == "k" and q.res.a[1].a[0][1] != q.site:
                    ids.add((None, q.site))         # the elements of a collected sequence
        drops = e.name.startswith("collect:") and self.drops(iters)
        pipes = {} if drops else self.pipelines(iters, ks)
        count = {i: [0] * len(p) for i, p in pipes.items()}
        at = {i: -1 for i in ks}
        for step in range(MAXTURN + 5100):
            self.fuel -= 1
            if self.fuel < 0:
                raise Unk("turns")
            env2 = dict(env)
            env2.update(cur)
            end = False
            for i, (k, args, name) in ks.items():
                pipe = pipes.get(i, ())
                was, self.adapted = self.adapted, bool(pipe)
                try:
                    n = self.klen(k, args, name, env2)
                finally:
                    self.adapted = was
                w = "skip"
                while w == "skip":
                    at[i] += 1
                    if at[i] >= n:
                        w = "stop"
                        break
                    env3 = dict(env2)
                    env3[i] = at[i]
                    w = self.passes(pipe, count.get(i), env3, env2)
                    if w == "stop":
                        env[i] = at[i]
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Unk("turns")
                end = end or w == "stop"
            env2.update(at)
            if end:
                env.update(cur)
                return True, ids
            took = None
            unk = None
            for j, (evs, cs, st) in enumerate(iters):
                env3 = dict(env2)
                try:
                    if self.holds(evs, cs, st, env3):
                        took = j, env3
                        break
                except Unk as u:
                    unk = u
            if took is None:
                if unk is not None:
                    raise unk
                if drops:
                    continue
                env.update(cur)
                env.update(at)
                return False, ids
            if unk is not None:
                raise unk
            j, env3 = took
            if self.cover is not None:
                self.cover.add((e.name, variant(iters[j][1])))
            new = {}
            for n in names:
                q = phis.get(n) or gv.get(n)
                if q[0] is None:
                    continue
                try:
                    new[n] = self.ev(q[1][j] if not isinstance(q[1][j], tuple) else q[1][j][0], env3)
                except Unk:
                    new[n] = None
            cur = new
        raise Unk("turns")

    def stages(self, evs):
        """the adapters an element passes -> [(name, term)]"""
        p = []
        for q in evs:
            if q.kind == "adapt":
                if q.name not in ("filter", "take", "skip", "step", "takewhile", "filtermap", "rev"):
                    raise Unk("adapted iterator")
                if q.args and q.args[0].op == "int" and q.args[0].a[1] == "bool":
                    raise Unk("adapter of several paths")
                p.append((q.name,) + tuple(q.args))
        return p

    def drops(self, iters):
        """is this the loop of a collect behind filters that branch?  an element that takes no turn is dropped"""
        q = [x for evs, cs, st in iters for x in evs]
        ad = [x for x in q if x.kind == "adapt"]
        if not ad or any(x.name not in ("filter", "filtermap") for x in ad) or not any(x.args and x.args[0].op == "int" for x in ad):
            return False
        if len({x.site for x in ad}) > 1 or any(x.kind == "loop" for x in q):
            return False
        self.piped |= {x.site for x in q if x.kind == "filt"}
        return True

    def pipelines(self, iters, ks):
        """the adapters between each iterator and the loop, by the iterator's index term"""
        seen, src, site = {}, {}, {}
        for evs, cs, st in iters:
            for q in evs:
                if q.kind == "next" and q.res is not None:
                    for x in (q.res, q.res.a[0] if q.res.op == "tuple" and q.res.a else None):
                        k = x.a[1] if isinstance(x, T) and x.op in ("elem", "char", "mkey", "mval") and x.a[1].op == "k" else x if isinstance(x, T) and x.op == "rk" else None
                        if k is not None and k.id in ks:
                            src[k.id] = k.op == "rk" or q.site == k.a[0][1]
                            site.setdefault(q.site, set()).add(k.id)
            ad = {}
            for q in evs:
                if q.kind == "adapt":
                    ad.setdefault(q.site, []).append(q)
            for w, es in ad.items():
                seen.setdefault(w, []).append(self.stages(es))
        out = {}
        for w, ps in seen.items():
            if any([tuple(z.id if isinstance(z, T) else z for z in y) for y in p] != [tuple(z.id if isinstance(z, T) else z for z in y) for y in ps[0]] for p in ps):
                raise Unk("adapters differ")
            p = ps[0]
            if not p:
                continue
            i = site.get(w, ())
            if len(i) != 1:
                raise Unk("adapted iterators")
            i = list(i)[0]
            if any(x[0] == "rev" for x in p):
                if not src[i] or any(x[0] not in ("rev", "filter", "filtermap") for x in p) or len([x for x in p if x[0] == "rev"]) > 1:
                    raise Unk("reversed iterator")
                p = [x for x in p if x[0] != "rev"]
            if p:
                out[i] = p
                for evs, cs, st in iters:
                    f = [q for q in evs if q.kind == "filt" and q.site == w]
                    if len(f) > 1:
                        raise Unk("filtered iterators")
                self.piped.add(w)
        return out

    def passes(self, pipe, count, env, env0):
        """does the element at this position get through the adapters?  "skip", "stop" or "" """
        for i, x in enumerate(pipe):
            v = self.ev(x[1], env0 if x[0] in ("take", "skip", "step") else env)
            if x[0] == "filter":
                if not need(v, bool):
                    return "skip"
            elif x[0] == "filtermap":
                if need(v, A)[1] != 1:
                    return "skip"
            elif x[0] == "takewhile":
                if not need(v, bool):
                    return "stop"
            else:
                n, c = need(v, int), count[i]
                count[i] += 1
                if x[0] == "take" and c >= n:
                    return "stop"
                if x[0] == "skip" and c < n or x[0] == "step" and c % max(n, 1):
                    return "skip"
        return ""

    def nested(self, ts, pipe, env, evs):
        """the elements of a flat_map: the parts of each element"""
        at = {"f": {}, "g": {}}
        for nx in ts:
            for x in own(nx):
                if x.op in ("elem", "char", "mkey", "mval", "rk") and x.op != "rk" and x.a[1].op == "k" and (x.a[1].id not in env or str(x.a[1].a[0][2]).startswith("col")):
                    if x.a[1].a[2] not in at or x.op in ("mkey", "mval"):
                        raise Unk("adapted iterator")
                    at[x.a[1].a[2]][x.a[1].id] = x
                elif x.op == "rk":
                    raise Unk("adapted range")
        if len(at["f"]) != 1 or len(at["g"]) != 1 or pipe:
            raise Unk("adapted iterators")
        (kf, f), (kg, g) = list(at["f"].items())[0], list(at["g"].items())[0]
        before = []
        for q in evs:
            if q.kind == "next" and q.res is not None and q.res.op in ("elem", "char") and q.res.a[1].id == kg:
                break
            before.append(q)
        else:
            raise Unk("adapted iterator")
        if any(q.kind == "adapt" for q in before):
            raise Unk("adapted iterator")
        v = need(self.ev(f.a[0], env), V)
        for i in range(len(v)):
            env2 = dict(env)
            env2[kf] = i
            self.step(before, env2)
            w = self.ev(g.a[0], env2)
            w = chars(w) if g.op == "char" else need(w, V)
            for j in range(len(w)):
                env3 = dict(env2)
                env3[kg] = j
                yield env3

    def elements(self, ts, adapt, env, filt=False, drop=(), evs=()):
        """the elements a collect draws -> environments in which their index is known"""
        pipe = self.stages(adapt)
        if any(x[0] == "rev" for x in pipe):
            if any(x[0] not in drop for x in pipe):
                raise Unk("reversed iterator")
        if all(x[0] in drop for x in pipe):
            pipe = []
        if any(x.op in ("elem", "char") and x.a[1].op == "k" and x.a[1].a[2] == "g" for nx in ts for x in own(nx)):
            for env2 in self.nested(ts, pipe, env, evs):
                yield env2
            return
        count = [0] * len(pipe)
        ks = {}
        lens = []
        for nx in ts:
            for x in own(nx):
                if x.op == "rk":
                    if x.id in ks:
                        continue
                    ks[x.id] = x
                    if x.a[2].a[2] not in ("", "r"):
                        raise Unk("adapted range")
                    lens.append(max(0, self.klen(x, (x.a[0], x.a[1]), "range", env)))
                elif x.op in ("elem", "char", "mkey", "mval") and x.a[1].op == "k" and (x.a[1].id not in env or str(x.a[1].a[0][2]).startswith("col")):
                    ks[x.a[1].id] = x.a[1]
                    v = self.ev(x.a[0], env)
                    if x.op == "char":
                        v = chars(v)
                    if x.a[1].a[2] not in ("", "r") and not (pipe and set(x.a[1].a[2]) <= set("stwp")):
                        raise Unk("adapted iterator")
                    lens.append(len(v.d) if isinstance(v, Mp) else len(need(v, V)))
        if not lens:
            raise Unk("collect")
        for step in range(min(lens)):
            env2 = dict(env)
            for i in ks:
                env2[i] = step
            if pipe:
                if len(ks) != 1:
                    raise Unk("adapted iterators")
                w = self.passes(pipe, count, env2, env)
                if w == "skip":
                    continue
                if w == "stop":
                    break
            yield env2

    def collected(self, t, q, env):
        entry, nexts, cs, filt = q[:4]
        every = q[5] if len(q) > 5 else None
        base = self.ev(entry, env)
        if len(nexts) != 1:
            raise Unk("collect")
        for env2 in self.elements(nexts, q[4] if len(q) > 4 else (), env, filt, ("filter", "filtermap", "rev") if every is None else (), q[6] if len(q) > 6 else ()):
            self.ndrawn += 1
            if isinstance(base, V) and len(base) > 4000:
                raise Unk("size")
            self.step(q[6] if len(q) > 6 else (), env2)
            ok = True
            for c, v in cs[0]:
                ok = ok and self.cond(c, v, env2)
            for c, v in every or ():
                if not self.cond(c, v, env2):
                    raise Undef()
            if not ok:
                if not filt:
                    raise Unk("collect")
                continue
            nx = nexts[0]
            if nx.op != "push":
                raise Unk("collect")
            x = self.ev(nx.a[1], env2)
            if isinstance(base, Mp):
                d = dict(base.d)
                d[need(x[0], str)] = x[1]
                base = Mp(d)
            else:
                base = V(need(base, V) + (x,))
        return base

    # -- terms
    def ev(self, t, env):
        if env or t.op not in ("bin", "wrap", "call", "field", "adt"):
            return self.ev0(t, env)
        v = self.memo.get(t.id)
        if v is None:
            v = self.memo[t.id] = self.ev0(t, env)
        return v

    def ev0(self, t, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unk("size")
        if t.id in self.bind:
            return self.bind[t.id]
        o, a = t.op, t.a
        ev = lambda x: self.ev(x, env)
        if o == "int":
            if a[1] == "bool":
                return bool(a[0])
            if a[1] == "char":
                return Ch(a[0])
            return a[0]
        if o == "str":
            return a[0]
        if o == "float":
            return struct.unpack("<d", struct.pack("<Q", a[0]))[0]
        if o == "k" or o == "rk":
            if t.id in env:
                i = env[t.id]
                if o == "rk":
                    lo = ev(a[0])
                    if a[2].a[2] == "r":
                        hi = self.ev(a[1].a[0], env) + 1 if a[1].op == "incl" else ev(a[1])
                        return hi - 1 - i
                    if set(a[2].a[2]) - set("stwp"):
                        raise Unk("range")
                    return lo + i
                return i
            raise Unk("index")
        if o == "phi":
            v = env.get(a[0])
            if v is None:
                raise Unk("loop value")
            return v
        if o == "gvec":
            v = env.get(t.id)
            if v is None:
                q = env.get(("acc", t.id))
                if q is None:
                    inner = mk("gvec", mk("vec"), t.a[1])
                    if inner is not t and ("acc", inner.id) in env:
                        b, x = ev(t.a[0]), ev(inner)
                        if isinstance(b, Mp):
                            d = dict(b.d)
                            d.update(x.d if isinstance(x, Mp) else {need(q[0], str): q[1] for q in need(x, V)})
                            return Mp(d)
                        return V(need(b, V) + need(x, V))
                    raise Unk("collected value")
                v = self.collected(t, q, env)
            return v
        if o == "adt":
            n = a[0].split("::")[-1]
            return A((n, a[1]) + tuple(ev(x) for x in a[2:]))
        if o == "tuple":
            return tuple(ev(x) for x in a)
        if o == "sym":
            if a[0] == "args":
                return V(self.raw.get(i, U(("arg", i))) for i in range(len(self.vals)))
            return self.syms.get(a[0], U((a[0],)))
        if o == "call" and canon.is_eval(t):
            x = ev(a[1])
            if isinstance(x, U) and x[0] == "arg":
                return A(("Result", 0, self.vals[x[1]]))
            if isinstance(x, U):
                raise Unk("eval")
            return A(("Result", 0, evaluate(x, self.seed)))
        if o == "field":
            b = ev(a[0])
            var, i = a[1], a[2]
            if isinstance(b, U):
                raise Unk("field")
            if var is None:
                if isinstance(b, A):
                    raise Unk("field")
                if isinstance(b, tuple) and isinstance(i, int) and i < len(b):
                    return b[i]
                raise Unk("field")
            if not isinstance(b, A):
                raise Unk("field")
            if b[1] != var:
                raise Undef()
            if i + 2 >= len(b):
                raise Unk("field")
            return b[i + 2]
        if o in ("elem", "char", "mkey", "mval"):
            v = ev(a[0])
            if isinstance(v, U):
                raise Unk("element")
            if o == "char":
                v = chars(need(v, str)) if isinstance(v, str) else v
            if isinstance(v, Mp):
                v = V(sorted(v.d)) if o == "mkey" else V(v.d[k] for k in sorted(v.d))
            v = need(v, V)
            i = need(ev(a[1]), int)
            if a[1].op == "k" and a[1].a[2] == "r":
                i = len(v) - 1 - i
            return index(v, i)
        if o == "upd":
            b = ev(a[0])
            st = a[1]
            if st[0] == "f" and isinstance(b, A) and b[1] == st[1]:
                return A(b[:2 + st[2]] + (ev(a[2]),) + b[3 + st[2]:])
            if st[0] == "f" and st[1] is None and type(b) is tuple and isinstance(st[2], int) and st[2] < len(b):
                return b[:st[2]] + (ev(a[2]),) + b[st[2] + 1:]
            if st[0] == "i" and isinstance(b, V):
                i = ev(st[1])
                if not 0 <= i < len(b):
                    raise Undef()
                return V(b[:i] + (ev(a[2]),) + b[i + 1:])
            raise Unk("update")
        if o in ("bin", "wrap", "ovf", "cmp"):
            op, ty = a[0], a[1]
            x, y = ev(a[2]), ev(a[3])
            if isinstance(x, U) or isinstance(y, U):
                raise Unk("operand")
            if o == "bin":
                return arith(op, x, y, ty)
            if o == "ovf":
                return ovf(op, x, y, ty)
            if o == "wrap":
                if op.startswith("Sat"):
                    v = exact(op[3:], x, y, ty)
                    lo, hi = RANGES[ty]
                    return max(lo, min(hi, v))
                if op in ("Shl", "Shr"):
                    return arith(op, x, y % bits(ty), ty)
                v = exact(op, x, y, ty)
                if v is None:
                    raise Undef()
                return wrapint(v, ty)
            if op == "Eq":
                return x == y
            return x < y
        if o == "fcmp":
            op, ty, x, y = a[0], a[1], ev(a[2]), ev(a[3])
            if isinstance(x, str) and isinstance(y, str):
                x, y = x.encode(), y.encode()
            elif not (isinstance(x, (int, float)) and isinstance(y, (int, float))):
                if op == "Eq":
                    return s3(peq(x, y))
                c = pcmp(x, y)
                return {"Lt": c == -1, "Le": c in (-1, 0), "Gt": c == 1, "Ge": c in (0, 1)}[op]
            return {"Eq": x == y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
        if o == "un":
            return arith1(a[0], ev(a[2]), a[1])
        if o == "cast":
            return cast(a[0], need(ev(a[1]), int))
        if o == "fcast":
            if a[0] not in RANGES and a[0] not in ("f64", "f32"):
                raise Unk("cast")
            return fcast(a[0], ev(a[1]), a[2])
        if o in ("and", "or"):
            xs = []
            unk = None
            for q in a:
                try:
                    v = need(ev(q), bool)
                except Unk as u:
                    unk = u
                    continue
                except Undef:
                    if unk is None:
                        raise
                    continue
                if v == (o == "or"):
                    return v
            if unk is not None:
                raise unk
            return o == "and"
        if o == "isvar":
            return need(ev(a[0]), A)[1] == a[1]
        if o == "isvars":
            return need(ev(a[0]), A)[1] in a[1]
        if o == "charb":
            return boundary(need(ev(a[0]), str), ev(a[1]))
        if o == "map":
            return Mp({ev(e[0]): ev(e[1]) for e in a[0]})
        if o == "strfn":
            return strfn(a[0], [ev(x) for x in a[1:]])
        if o == "strpred":
            return strpred(a[0], [ev(x) for x in a[1:]])
        if o in ("splitn",):
            return splitn(ev(a[1]), ev(a[0]), ev(a[2]))
        if o == "quant":
            return self.quant(a[0], a[1], a[2], env)
        if o == "pick" and a[0] == "position":
            raise Unk("position")
        if o == "fold":
            raise Unk("fold")
        if o == "iter":
            src, pos = a[0], a[1]
            if pos.op == "p":
                v = ev(src)
                return chars(v) if a[2] == "chars" and isinstance(v, str) else v
            raise Unk("iterator")
        if o in ("min", "max"):
            x, y = ev(a[0]), ev(a[1])
            return min(x, y) if o == "min" else max(x, y)
        if o == "call":
            n = a[0]
            if any(isinstance(x, T) and x.op == "at" for x in a[1:]):
                if self.call is not None:
                    return self.call(n, [ev(x) for x in a[1:] if not (isinstance(x, T) and x.op == "at")])
                raise Unk(n)
            xs = [ev(x) for x in a[1:]]
            if n.startswith("From::from:dune::expr::Expression") and len(xs) == 1:
                return into(xs[0])
            if n.startswith("char::"):
                return charfn(n[6:], need(xs[0], int))
            if n in ("cmp::min", "cmp::max", "Ord.min", "Ord.max") and all(isinstance(x, int) for x in xs):
                return min(xs) if n.endswith("min") else max(xs)
            if self.call is not None:
                try:
                    return self.call(n, xs)
                except Unk:
                    pass
            return common(n, xs)
        if o in ("vec", "array", "push", "vcat", "vins", "vdel", "take", "skip", "slice", "rev", "len", "size", "charcount", "chars", "strof", "lossy", "chstr", "concat", "disp", "lines",
                 "split", "split_whitespace", "sins", "join", "repeatstr", "repeat", "chunks", "mget", "mapins", "mapdel", "mapof", "mapmerge", "eq", "not"):
            return common(o, [ev(x) if isinstance(x, T) else x for x in a])
        raise Unk(o)

    def quant(self, meth, it, ys, env):
        if len(ys) != 1 or it.op != "iter":
            raise Unk("quantifier")
        v = self.ev(it, env)
        if isinstance(v, Mp):
            raise Unk("quantifier")
        ks = [x for x in subterms(ys[0]) if x.op == "k" and x.id not in env]
        if len(ks) > 1 or ks and ks[0].a[2] not in ("", "r"):
            raise Unk("quantifier")
        rs = [need(self.ev(ys[0], dict(env, **{}) if not ks else {**env, ks[0].id: i}), bool) for i in range(len(v))]
        return all(rs) if meth == "all" else any(rs)


# ---------------------------------------------------------------- models
INTS = [0, 1, -1, 2, 3, 5, -2, 7, 25, 26, 27, 63, 64, -64, 65, -27, RANGES["i64"][0], RANGES["i64"][1], 1 << 32, 16777217]
FLOATS = [0.0, 1.0, -1.5, 2.5, 0.1, 0.5, -0.0, math.inf, math.nan, 1e300, 3.0, -2.0, -math.inf]
STRS = ["", "a", "A", " a b ", "Hello World", "zZ9", "\u00df", "\u00e9b", "a\n\nb\nc", "12", "aXbXc", "1a", "\n", "Ab", "yz", " ", "7\u00bd", "\u0663\u00b2", "ab\nabc\n", "abc\r\na", "A\tb", "Ab  Cd\u00a0E", "\u00e9\u00c9\u4e2d", "\r", "abc\na\nb", "a\nbcd", "-a -B", "\u00e9t\u00e9 ", "a\tB\n", "\ta ", "\u00a0\tb\x0c", "a\0b", "x\x1b[0m y", "__a", "_", " \n", "a\u3000b"]
ELS = [EX("Integer", 4), EX("String", "q"), NONEX, EX("Boolean", False), EX("Float", 1.5)]
MAPS = [{}, {"a": EX("Integer", 1)}, {"a": EX("Integer", 2), "b": NONEX}, {"b": EX("String", "x"), "c": EX("Boolean", True), "q": EX("Integer", 0)}]


def lists():
    out = [V(), V(ELS[:1]), V([ELS[0], ELS[4]]), V(ELS[1:3]), V(ELS[:3]), V(ELS[:5]), V([ELS[0], ELS[0]]), V([NONEX]), V([EX("Boolean", False), EX("Boolean", True)])]
    out.append(V([EX("List", V([EX("String", "a"), EX("Integer", 1)])), EX("List", V([EX("String", "b"), EX("Integer", 2)]))]))
    out.append(V([EX("List", V([EX("String", "a"), EX("Integer", 1)])), EX("List", V([EX("String", "a"), EX("Integer", 2)]))]))
    return out


def pool(kind, consts=()):
    if kind == "Integer":
        c = sorted({x + d for x in consts if isinstance(x, int) and not isinstance(x, bool) for d in (-1, 0, 1)})
        return [EX("Integer", x) for x in INTS + [x for x in c if x not in INTS and RANGES["i64"][0] <= x <= RANGES["i64"][1]][:12]]
    if kind == "Float":
        return [EX("Float", x) for x in FLOATS]
    lens = sorted({n + d for n in consts if type(n) is int and 4 <= n <= 70000 for d in (-1, 0, 1, 2)})[:8]
    if kind in ("String", "Symbol"):
        return [EX(kind, x) for x in STRS + [x for x in consts if isinstance(x, str)][:6] + [y for n in lens for y in (("abc d" * n)[:n], "a" * n)]]
    if kind == "Boolean":
        return [EX(kind, True), EX(kind, False)]
    if kind == "List":
        return [EX(kind, x) for x in lists()] + [EX(kind, V(EX("Integer", i) for i in range(n))) for n in lens]
    if kind == "Map":
        return [EX(kind, Mp(x)) for x in MAPS]
    if kind == "None":
        return [NONEX]
    if kind == "Bytes":
        return [EX(kind, V(x)) for x in ((), (1,), (1, 2, 3), (0, 10), (255, 0, 255, 65))]
    return [EX(kind, *[U(("payload", kind, i)) for i in range(3)])]


def models(kinds, n, consts=(), limit=4000):
    """assignments of values to the first n arguments; kinds[i]: admitted kinds"""
    pools = []
    for i in range(n):
        ks = kinds.get(i)
        if ks is None or len(ks) > 6:
            p = [x for k in (ks or KINDS) if k in ("Integer", "String", "List", "Map", "Boolean", "None", "Float") for x in pool(k)[:3]]
        else:
            p = []
            ls = [pool(k, consts) for k in sorted(ks)]
            for j in range(max(len(x) for x in ls)):
                p += [x[j] for x in ls if j < len(x)]
        pools.append(p)
    total = 1
    for p in pools:
        total *= len(p)
    step = max(1, total // limit)
    while step > 1 and any(len(p) % step == 0 or math.gcd(step, len(p)) > 1 for p in pools):
        step += 1
    i = 0
    while i < total:
        j = i
        m = {}
        for q, p in enumerate(pools):
            m[q] = p[j % len(p)]
            j //= len(p)
        yield m
        i += step


def constants(E, st, ret):
    out = set()
    for t in [ret] + [c for c, _ in st.conds()]:
        for x in subterms(t):
            if x.op == "int" and x.a[1] not in ("bool", "char"):
                out.add(x.a[0])
            elif x.op == "int" and x.a[1] == "char":
                out.add(chr(x.a[0]))
            elif x.op == "str":
                out.add(x.a[0])
            elif x.op == "cast" and x.a[0] in ("i8", "u8", "i16", "u16", "i32", "u32"):
                out |= {RANGES[x.a[0]][1] + 1, (RANGES[x.a[0]][1] + 1) * 2}
    return sorted(out, key=lambda x: (str(type(x)), str(x)))


def judge(E, o, kinds, n, forms, oracle=None, limit=4000, ms=None, summary=None, taken=None, seeds=(0, 1)):
    """compare the path with the contract: ('differs', model) | 'same' | 'unknown' | 'untaken'"""
    trees = [form(f) for f in forms]
    good = unk = 0
    cs = constants(E, o.st, o.ret)
    for mi, m in enumerate(ms(cs) if ms else models(kinds, n, cs, limit)):
        if unk > 400 and not good:
            break
        for seed in seeds:
            try:
                r = (summary or Summary)(E, m, seed).run(o.st, o.ret)
            except Unk as u:
                unk += 1
                LAST[0] = str(u)
                if taken is not None:
                    taken.add(mi)
                break
            except Undef:
                break
            except RecursionError:
                unk += 1
                break
            if r is None:
                break
            if taken is not None:
                taken.add(mi)
            v = r[0]
            verdict = False
            if oracle is not None:
                try:
                    w = oracle(m, seed)
                    es = [x(v) if callable(x) else eq3(v, x) for x in w] if w is not None else [True]
                    verdict = True if True in es else None if None in es else False
                except (Unk, IndexError, TypeError):
                    verdict = None
                except Undef:
                    verdict = True
            else:
                und = 0
                for t in trees:
                    if t is None:
                        verdict = None
                        continue
                    try:
                        w = Forms(m, seed).ev(t, {})
                        e = eq3(v, w)
                    except Unk as u:
                        LAST[0] = "form: " + str(u)
                        e = None
                    except Undef:
                        und += 1
                        continue
                    except (KeyError, TypeError, IndexError) as u:
                        LAST[0] = "form: " + repr(u)
                        e = None
                    if e is True:
                        verdict = True
                        break
                    if e is None:
                        verdict = None
                if und == len(trees):
                    verdict = True      # the contract says nothing here
            if verdict is True:
                good += 1
            elif verdict is None:
                unk += 1
            else:
                return ("differs", m, v)
    if unk:
        return ("unknown",)
    return ("same",) if good else ("untaken",)


def is_error(v):
    """oracle result: any error"""
    return v[1] == 1 if isinstance(v, A) and v[0] == "Result" else None


LAST = [""]


def judge_err(E, o, kinds, n, guard, limit=4000):
    """does some model inside the guard take this path to an error?"""
    unk = 0
    for m in models(kinds, n, constants(E, o.st, o.ret), limit):
        if not guard(m):
            continue
        try:
            r = Summary(E, m, 0).holds(o.st.events(), o.st.conds(), o.st, {})
        except Unk as u:
            LAST[0] = str(u)
            unk += 1
            continue
        except (Undef, RecursionError):
            continue
        if r:
            return ("differs", m)
    return ("unknown",) if unk else ("untaken",)


def show_model(m):
    def s(v):
        if isinstance(v, A) and v[0] == "Expression":
            return KINDS[v[1]] + ("(" + ", ".join(s(x) for x in v[2:]) + ")" if len(v) > 2 else "")
        if isinstance(v, V):
            return "[" + ", ".join(s(x) for x in v) + "]"
        if isinstance(v, Mp):
            return "{" + ", ".join("%s: %s" % (k, s(x)) for k, x in v.key()) + "}"
        return repr(v)
    return ", ".join("args[%d] = %s" % (i, s(v)) for i, v in sorted(m.items()))
