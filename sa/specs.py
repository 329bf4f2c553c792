"""The contracts. $i is the payload of the value of args[i]; k0, k1.. are iteration indices of a loop over a whole sequence
(k0~r: from the back); each(b; x): b extended by x once per iteration; some(b; | x): by x or nothing."""
from contract import Spec, Case

S = "String|Symbol"
N = "Integer|Float"
ANY = "Group|Symbol|Integer|Float|Bytes|String|Boolean|List|Map|None|Assign|For|If|Apply|Lambda|Macro|Do|Builtin|Quote"
OTHERS = []


def s1(path, form, lo=1, hi=None, kinds=None):
    return Spec(path, lo, hi, [Case(kinds or {0: S}, form)])


LEN = [Case({0: "List"}, "Ok(Integer(cast(i64, len(val0.List), usize)))"), Case({0: "Map"}, "Ok(Integer(cast(i64, len(val0.Map), usize)))")]
LENSB = [Case({0: "String"}, ["Ok(Integer(cast(i64, len(val0.String), usize)))", "Ok(Integer(cast(i64, charcount(val0.String), usize)))"]),
         Case({0: "Bytes"}, "Ok(Integer(cast(i64, len(val0.Bytes), usize)))")]
REV = [Case({0: "List"}, "Ok(List(rev(val0.List)))"), Case({0: "Bytes"}, "Ok(Bytes(rev(val0.Bytes)))"),
       Case({0: "String"}, "Ok(String(strof(rev(chars(val0.String)))))"), Case({0: "Symbol"}, "Ok(Symbol(strof(rev(chars(val0.Symbol)))))")]
RANGE_IN = "Ok(List(each(vec(); Integer(rk(val0.Integer, incl(val1.Integer), k0)))))"
RANGE_EX = "Ok(List(each(vec(); Integer(rk(val0.Integer, val1.Integer, k0)))))"

LIST = [
    Spec("list@append", 2, 2, [Case({0: "List"}, "Ok(List(push(val0.List, val1)))")]),
    Spec("list@cons", 2, 2, [Case({1: "List"}, "Ok(List(vins(val1.List, 0, val0)))")]),
    Spec("list@head", 1, 1, [Case({0: "List"}, ["Ok(val0.List[0])", "Ok(None)"])]),
    Spec("list@tail", 1, 1, [Case({0: "List"}, ["Ok(List(skip(val0.List, 1)))"])]),
    Spec("list@rev", 1, 1, REV),
    Spec("list@len", 1, 1, LEN + LENSB),
    Spec("list@take", 2, 2, [Case({0: "Integer", 1: "List"}, "Ok(List(take(val1.List, cast(usize, val0.Integer, i64))))")]),
    Spec("list@drop", 2, 2, [Case({0: "Integer", 1: "List"}, "Ok(List(skip(val1.List, cast(usize, val0.Integer, i64))))")]),
    Spec("list@split-at", 2, 2, [Case({0: "Integer", 1: "List"}, "Ok(List(vec(List(take(val1.List, cast(usize, val0.Integer, i64))), List(skip(val1.List, cast(usize, val0.Integer, i64))))))",
                                      guard="split")]),
    Spec("list@nth", 2, 2, [Case({0: "Integer", 1: "List"}, ["Ok(val1.List[cast(usize, val0.Integer, i64)])",
                                                             "Ok(val1.List[Sub(len(val1.List), cast(usize, un(UAbs, i64, val0.Integer), u64))])"], guard="in-range")]),
    Spec("list@range", 2, 2, [Case({0: "Integer", 1: "Integer"}, RANGE_IN)]),
    Spec("list@zip", 2, 2, [Case({0: "List", 1: "List"}, "Ok(List(each(vec(); List(vec(val0.List[k0], val1.List[k1])))))")]),
    Spec("list@unzip", 1, 1, [Case({0: "List"}, "Ok(List(vec(List(each(vec(); val0.List[k0].List[0])), List(each(vec(); val0.List[k0].List[1])))))", partial=True)]),
    Spec("list@foldl", 3, 3, [Case({2: "List"}, "Ok(fold(val1; val(Apply(val0, vec(acc0, val2.List[k0])))))")]),
    Spec("list@foldr", 3, 3, [Case({2: "List"}, "Ok(fold(val1; val(Apply(val0, vec(val2.List[k0~r], acc0)))))")]),
    Spec("list@chunk", 2, 2, [Case({0: "Integer", 1: "List"}, [
        "Ok(List(push(some(vec();  | List(push(fold(vec(); push(acc0, val1.List[k0]) | vec()), val1.List[k0]))), List(fold(vec(); push(acc0, val1.List[k0]) | vec())))))",
        "Ok(List(some(vec();  | List(push(fold(vec(); push(acc0, val1.List[k0]) | vec()), val1.List[k0])))))",
        "Ok(List(each(vec(); List(chunks(val1.List, cast(usize, val0.Integer, i64))[k0]))))"])]),
]

HOF = [
    Spec("fn@map", 1, 2, [Case({1: "List"}, "Ok(List(each(vec(); val(Apply(val0, vec(val1.List[k0]))))))")]),
    Spec("fn@filter", 1, 2, [Case({1: "List"}, "Ok(List(some(vec();  | val1.List[k0])))")]),
    Spec("fn@reduce", 1, 3, [Case({2: "List"}, "Ok(fold(val1; val(Apply(val0, vec(acc0, val2.List[k0])))))")]),
    Spec("fn@apply", 2, 2, [Case({1: "List"}, "eval(Apply(val0, val1.List), env)")]),
]

DICT = [
    Spec("dict@insert", 3, 3, [Case({0: "Map"}, "Ok(Map(mapins(val0.Map, disp(val1), val2)))")]),
    Spec("dict@remove", 2, 2, [Case({0: "Map"}, ["Ok(Map(mapdel(val0.Map, disp(val1))))", "Ok(Map(val0.Map))"])]),
    Spec("dict@has?", 2, 2, [Case({0: "Map"}, "Ok(Boolean(isvar(mget(val0.Map, disp(val1)), 1, 2)))")]),
    Spec("dict@keys", 1, 1, [Case({0: "Map"}, "Ok(List(each(vec(); String(mkey(val0.Map, k0)))))")]),
    Spec("dict@values", 1, 1, [Case({0: "Map"}, "Ok(List(each(vec(); mval(val0.Map, k0))))")]),
    Spec("dict@items", 1, 1, [Case({0: "Map"}, "Ok(List(each(vec(); List(vec(String(mkey(val0.Map, k0)), mval(val0.Map, k0))))))"),
                              Case({0: "List"}, "Ok(List(each(vec(); List(vec(Integer(cast(i64, k0, usize)), val0.List[k0])))))")]),
    Spec("dict@len", 1, 1, LEN + LENSB),
    Spec("dict@from-items", 1, 1, [Case({0: "List"}, ["Ok(Map(some(map(());  | (disp(val0.List[k0].List[0]), val0.List[k0].List[1]))))",
                                                      "Ok(Map(each(map(()); (disp(val0.List[k0].List[0]), val0.List[k0].List[1]))))"], partial=True)]),
    Spec("dict@union", 2, 2, [Case({0: "Map", 1: "Map"}, "Ok(Map(each(val0.Map; (mkey(val1.Map, k0), mval(val1.Map, k0)))))")]),
    Spec("dict@intersect", 2, 2, [Case({0: "Map", 1: "Map"}, "Ok(Map(some(map(());  | (mkey(val0.Map, k0), mval(val0.Map, k0)))))")]),
    Spec("dict@difference", 2, 2, [Case({0: "Map", 1: "Map"}, ["Ok(Map(fold(val0.Map; acc0 | mapdel(acc0, mkey(val1.Map, k0)))))",
                                                               "Ok(Map(fold(val0.Map; mapdel(acc0, mkey(val1.Map, k0)))))"])]),
    Spec("dict@flatten", 1, 1, [Case({0: "List"}, ["Ok(List(fold(vec(); vcat(acc0, binary::init::dict_module::flatten(val0.List[k0])))))"]),
                                Case({0: "Map"}, ["Ok(List(fold(vec(); vcat(acc0, binary::init::dict_module::flatten(mval(val0.Map, k0))))))"]),
                                Case({0: "Integer|Float|String|Boolean|Symbol|Bytes|None|Lambda|Macro|Builtin|Quote"}, "Ok(List(vec(val0)))")]),
    Spec("insert", 3, 3, [Case({0: "Map", 1: "String"}, "Ok(upd(val0, (f, 8, 0), mapins(val0.Map, val1.String, val2)))"),
                          Case({0: "List", 1: "Integer"}, "Ok(upd(val0, (f, 7, 0), vins(val0.List, cast(usize, val1.Integer, i64), val2)))", guard="insert-list"),
                          Case({0: "String", 1: "Integer"}, "Ok(upd(val0, (f, 5, 0), sins(val0.String, cast(usize, val1.Integer, i64), disp(val2))))", partial=True)]),
    Spec("keys", 1, None, [Case({0: "Map"}, "Ok(into(each(vec(); mkey(val0.Map, k0))))", "Ok(List(each(vec(); String(mkey(val0.Map, k0)))))")]),
    Spec("vals", 1, None, [Case({0: "Map"}, "Ok(List(each(vec(); mval(val0.Map, k0))))")]),
    Spec("len", 1, None, LEN + [Case({0: S}, "Ok(Integer(cast(i64, charcount($0), usize)))")]),
]


def strfn(path, f, lo=1, hi=None):
    return s1(path, "Ok(String(strfn(%s, $0)))" % f, lo, hi)


def allc(path, f):
    return s1(path, "Ok(Boolean(quant(all, iter(chars($0), p(), chars), (char::%s(char($0, k0))))))" % f)


STRING = [
    s1("string@to-string", "Ok(String(disp(val0)))", 1, 1, {0: ANY}),
    s1("str", "Ok(String(disp(val0)))", 1, None, {0: ANY}),
    allc("string@is-whitespace?", "is_whitespace"), allc("string@is-alpha?", "is_alphabetic"), allc("string@is-alphanumeric?", "is_alphanumeric"),
    allc("string@is-numeric?", "is_numeric"), allc("string@is-lower", "is_lowercase"), allc("string@is-upper", "is_uppercase"),
    strfn("string@to-lower", "to_lowercase"), strfn("string@to-upper", "to_uppercase"), strfn("string@trim", "trim"),
    strfn("string@trim-start", "trim_start"), strfn("string@trim-end", "trim_end"),
    s1("string@to-title", "Ok(String(each(''; chstr(char::to_lowercase(char($0, k0))[0]) | chstr(char::to_uppercase(char($0, k0))[0]))))"),
    s1("string@is-title", "Ok(Boolean(eq($0, each(''; chstr(char::to_lowercase(char($0, k0))[0]) | chstr(char::to_uppercase(char($0, k0))[0])))))"),
    s1("string@chars", "Ok(List(each(vec(); String(disp(char($0, k0))))))", 1, 1),
    s1("string@lines", "Ok(List(each(vec(); String(lines($0)[k0]))))", 1, 1),
    s1("lines", "Ok(List(each(vec(); String(lines(val0.String)[k0]))))", 1, None, {0: "String"}),
    s1("string@words", "Ok(List(each(vec(); String(split_whitespace($0)[k0]))))", 1, 1),
    s1("string@paragraphs", "Ok(List(each(vec(); String(split($0, '\\n\\n')[k0]))))", 1, 1),
    s1("string@contains?", "Ok(Boolean(strpred(contains, $0, disp(val1))))", 2, 2),
    s1("string@starts-with?", "Ok(Boolean(strpred(starts_with, $0, disp(val1))))", 2, 2),
    s1("string@ends-with?", "Ok(Boolean(strpred(ends_with, $0, disp(val1))))", 2, 2),
    s1("string@replace", "Ok(String(strfn(replace, $0, disp(val1), disp(val2))))", 3, 3),
    Spec("string@split-at", 2, 2, [Case({0: S, 1: "Integer"}, "Ok(List(vec(String(slice($0, 0, cast(usize, val1.Integer, i64))), String(slice($0, cast(usize, val1.Integer, i64), len($0))))))", partial=True)]),
    Spec("string@join", 2, 2, [Case({0: "List"}, "Ok(String(some(''; disp(val0.List[k0]) | disp(val1), disp(val0.List[k0]))))")]),
    Spec("string@caesar", 1, 2, [Case({0: S, 1: "Integer"}, [
        "Ok(String(each(''; chstr(cast(char, Add(65, Rem(Add(Sub(cast(u8, char($0, k0), char), 65), cast(u8, RemE(%s, 26), i64)), 26)), u8)) | chstr(cast(char, Add(97, Rem(Add(Sub(cast(u8, char($0, k0), char), 97), cast(u8, RemE(%s, 26), i64)), 26)), u8)) | chstr(char($0, k0)))))" % (n, n) for n in ("13", "val1.Integer")])]),
    Spec("string@len", 1, 1, LEN + LENSB),
    Spec("string@rev", 1, 1, REV),
    Spec("fn:string_module::split", 2, 2, [Case({0: S, 1: S}, "Ok(List(each(vec(); String(split($1, $0)[k0]))))")]),
    Spec("string@get-width", 1, 1, [Case({0: S}, ["Ok(Integer(fold(0; acc0 | fold(0; 0 | Add(1, acc1)))))", "Ok(Integer(fold(0; 0 | Add(1, acc0))))"])]),
]


def m1(name, fl, it=None):
    return Spec("math@" + name, 1, 1, [Case({0: "Float"}, "Ok(Float(%s))" % fl.replace("X", "val0.Float")),
                                       Case({0: "Integer"}, it or "Ok(Float(%s))" % fl.replace("X", "fcast(f64, val0.Integer, i64)"))])


def m2(name, fl):
    f = lambda i: {"Float": "val%d.Float" % i, "Integer": "fcast(f64, val%d.Integer, i64)" % i}
    return [Case({0: a, 1: b}, "Ok(Float(%s))" % fl.replace("X", f(0)[a]).replace("Y", f(1)[b])) for a in ("Float", "Integer") for b in ("Float", "Integer")]


PI = "3.141592653589793"
MATH = [m1(n, "f64::%s(X)" % n) for n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "ln", "sqrt", "cbrt")] + [
    m1(n, "f64::%s(X)" % n, "Ok(Integer(val0.Integer))") for n in ("floor", "ceil", "round", "trunc")] + [
    Spec("math@" + n + "pi", 1, 1, [Case({0: "Float"}, ["Ok(Float(f64::%s(Mul(val0.Float, %s))))" % (n, PI), "Ok(Float(f64::%s(Mul(%s, val0.Float))))" % (n, PI)]),
                                    Case({0: "Integer"}, ["Ok(Float(f64::%s(Mul(fcast(f64, val0.Integer, i64), %s))))" % (n, PI), "Ok(Float(f64::%s(Mul(%s, fcast(f64, val0.Integer, i64)))))" % (n, PI)])])
    for n in ("sin", "cos", "tan")] + [
    Spec("math@log2", 1, 1, [Case({0: "Float"}, ["Ok(Float(f64::log(val0.Float, 2.0)))", "Ok(Float(f64::log2(val0.Float)))"]),
                             Case({0: "Integer"}, ["Ok(Float(f64::log(fcast(f64, val0.Integer, i64), 2.0)))", "Ok(Float(f64::log2(fcast(f64, val0.Integer, i64))))"])]),
    Spec("math@log10", 1, 1, [Case({0: "Float"}, ["Ok(Float(f64::log(val0.Float, 10.0)))", "Ok(Float(f64::log10(val0.Float)))"]),
                              Case({0: "Integer"}, ["Ok(Float(f64::log(fcast(f64, val0.Integer, i64), 10.0)))", "Ok(Float(f64::log10(fcast(f64, val0.Integer, i64))))"])]),
    Spec("math@log", 2, 2, m2("log", "f64::log(Y, X)")),
    Spec("math@pow", 2, 2, [c for c in m2("pow", "f64::powf(X, Y)") if c.kinds != {0: {"Integer"}, 1: {"Integer"}}] + [
        Case({0: "Integer", 1: "Integer"}, "Ok(Integer(Pow(val0.Integer, cast(u32, val1.Integer, i64))))", partial=True)]),
    Spec("math@abs", 1, 1, [Case({0: "Float"}, "Ok(Float(f64::abs(val0.Float)))"), Case({0: "Integer"}, "Ok(Integer(un(Abs, i64, val0.Integer)))", guard="overflow")]),
    Spec("math@lsh", 2, 2, [Case({0: "Integer", 1: "Integer"}, "Ok(Integer(Shl(val0.Integer, cast(u32, val1.Integer, i64))))", guard="shift")]),
    Spec("math@rsh", 2, 2, [Case({0: "Integer", 1: "Integer"}, "Ok(Integer(Shr(val0.Integer, cast(u32, val1.Integer, i64))))", guard="shift")]),
    Spec("math@a-rsh", 2, 2, [Case({0: "Integer", 1: "Integer"}, "Ok(Integer(Shr(val0.Integer, cast(u32, val1.Integer, i64))))", guard="shift")]),
    Spec("math@l-rsh", 2, 2, [Case({0: "Integer", 1: "Integer"}, "Ok(Integer(cast(i64, Shr(cast(u64, val0.Integer, i64), cast(u32, val1.Integer, i64)), u64)))", guard="shift")]),
    Spec("math@iseven", 1, 1, [Case({0: "Integer"}, ["Ok(Boolean(Eq(0, Rem(val0.Integer, 2))))", "Ok(Boolean(Eq(0, RemE(val0.Integer, 2))))"]),
                               Case({0: "Float"}, "Ok(Boolean(Eq(0, Rem(fcast(i64, val0.Float, f64), 2))))")]),
    Spec("math@isodd", 1, 1, [Case({0: "Integer"}, ["Ok(Boolean(not(Eq(0, Rem(val0.Integer, 2)))))", "Ok(Boolean(Eq(1, RemE(val0.Integer, 2))))", "Ok(Boolean(not(Eq(0, RemE(val0.Integer, 2)))))"]),
                              Case({0: "Float"}, "Ok(Boolean(not(Eq(0, Rem(fcast(i64, val0.Float, f64), 2)))))")]),
    Spec("math@fact", 1, 1, [Case({0: "Integer"}, "Ok(Integer(fold(1; Mul(acc0, rk(1, incl(val0.Integer), k0)))))", partial=True)]),
]
ADDUP = "fold(%s; %s)"
for _n, _o, _u in (("sum", "Add", ("0", "0.0")), ("product", "Mul", ("1", "1.0"))):
    _i = "fold(%s; %s(acc0, val(args[k0]).Integer) | acc0 | fold(acc0; %s(acc1, val(val(args[k0]).List[k1]).Integer) | acc1))" % (_u[0], _o, _o)
    _f = "fold(%s; %s(acc0, val(args[k0]).Float) | acc0 | fold(acc0; %s(acc1, val(val(args[k0]).List[k1]).Float) | acc1))" % (_u[1], _o, _o)
    MATH.append(Spec("math@" + _n, 0, None, [Case({}, ["Ok(Integer(%s))" % _i, "Ok(Float(%s(fcast(f64, %s, i64), %s)))" % (_o, _i, _f), "Ok(Float(%s(%s, fcast(f64, %s, i64))))" % (_o, _f, _i)], partial=True)]))

CONV = [
    Spec("int", 1, None, [Case({0: "Integer"}, "Ok(Integer(val0.Integer))"), Case({0: "Float"}, "Ok(Integer(fcast(i64, val0.Float, f64)))"),
                          Case({0: "String"}, "Ok(Integer(str::parse(val0.String).Ok))", partial=True)]),
    Spec("to", 2, 2, [Case({0: "Integer", 1: "Integer"}, RANGE_EX)]),
]
