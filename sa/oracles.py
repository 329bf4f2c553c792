"""Contracts of builtins whose result depends on conditions inside a loop, as functions over model values.
Each returns the admissible results, or None where the contract says nothing."""
import math
import model
from model import A, V, Mp, EX, KINDS, evaluate, truthy, disp, charfn, chars, Ch


def ok(x):
    return [A(("Result", 0, x))]


def kind(x):
    return KINDS[x[1]]


def chunk(m, seed):
    n, l = m[0][2], m[1][2]
    if n <= 0:
        return None
    return ok(EX("List", V(EX("List", V(l[i:i + n])) for i in range(0, len(l), n))))


def filt(m, seed):
    f, l = m[0], m[1][2]
    return ok(EX("List", V(x for x in l if truthy(evaluate(EX("Apply", f, V([x])), seed)))))


def from_items(m, seed):
    d = {}
    for x in m[0][2]:
        if kind(x) != "List" or len(x[2]) != 2:
            return None
        d[disp(x[2][0])] = x[2][1]
    return ok(EX("Map", Mp(d)))


def intersect(m, seed):
    a, b = m[0][2].d, m[1][2].d
    return ok(EX("Map", Mp({k: v for k, v in a.items() if k in b})))


def difference(m, seed):
    a, b = m[0][2].d, m[1][2].d
    return ok(EX("Map", Mp({k: v for k, v in a.items() if k not in b})))


def title(s):
    cap, out = True, ""
    for c in chars(s):
        out += chr(charfn("to_uppercase" if cap else "to_lowercase", c)[0])
        cap = charfn("is_whitespace", c)
    return out


def to_title(m, seed):
    return ok(EX("String", title(m[0][2])))


def is_title(m, seed):
    return ok(EX("Boolean", title(m[0][2]) == m[0][2]))


def join(m, seed):
    return ok(EX("String", disp(m[1]).join(disp(x) for x in m[0][2])))


def caesar(m, seed):
    n = m[1][2] if 1 in m else 13
    out = ""
    for c in m[0][2]:
        if c.isascii() and c.isalpha():
            b = 97 if c.islower() else 65
            out += chr(b + (ord(c) - b + n) % 26)
        else:
            out += c
    return ok(EX("String", out))


def width(m, seed):
    return ok(EX("Integer", max(len(l) for l in m[0][2].split("\n"))))


def total(m, mul):
    n, f, fl = (1 if mul else 0), (1.0 if mul else 0.0), False
    for i in range(len(m)):
        for x in (m[i][2] if kind(m[i]) == "List" else [m[i]]):
            if kind(x) == "Integer":
                n = n * x[2] if mul else n + x[2]
            elif kind(x) == "Float":
                if abs(x[2]) > 1e6 or x[2] != x[2]:
                    return None
                f = f * x[2] if mul else f + x[2]
                fl = True
            else:
                return None
    if abs(n) > 1 << 40:
        return None
    r = []
    if f == (1.0 if mul else 0.0):
        r += ok(EX("Integer", n))
    v = n * f if mul else n + f
    r += ok(EX("Float", float(v)))
    if v == 0:
        r += ok(EX("Float", -0.0)) + ok(EX("Float", 0.0))
    return r


def sum_(m, seed):
    return total(m, False)


def product(m, seed):
    return total(m, True)


ORACLES = {"list@chunk": chunk, "fn@filter": filt, "dict@from-items": from_items, "dict@intersect": intersect, "dict@difference": difference, "string@to-title": to_title,
           "string@is-title": is_title, "string@join": join, "string@caesar": caesar, "string@get-width": width, "math@sum": sum_, "math@product": product}
