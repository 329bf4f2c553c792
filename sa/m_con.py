"""The console and the printing builtins: what they are documented to print."""
import re
from model import V, A, U, disp
from m_eval import *
import m_call
from m_call import *


def values(f, n):
    """the arguments' values, evaluated in order, then f on them"""
    def g(L, args, e):
        if len(args) != n:
            return FAILED, e
        vs = []
        for a in args:
            r, e = L.run(a, e)
            if r[1]:
                return r, e
            vs.append(r[2])
        r = f(L, *vs)
        return (Ok(NONEX) if r is None else r), e
    return [g]


def isint(*xs):
    return all(KINDS[x[1]] == "Integer" for x in xs)


def moves(s):
    def f(L, x):
        if not isint(x):
            return FAILED
        L.out("\x1b[%d%s" % (x[2], s))
    return values(f, 1)


def move(L, x, y):
    if not isint(x, y):
        return FAILED
    L.out("\x1b[%d;%dH" % (y[2], x[2]))


def write(L, x, y, t):
    if not isint(x, y):
        return FAILED
    for i, l in enumerate(model.lines(disp(t))):
        L.out("\x1b[s\x1b[%d;%dH%s\x1b[u" % (min(y[2] + i, (1 << 63) - 1), x[2], l))


def prints(s):
    return [lambda L, args, e: (L.out(s), (Ok(NONEX), e))[1]]


def maybe(what, ok):
    """what the terminal is asked, and its answer; level 1: the terminal cannot"""
    def g(L, args, e):
        if what:
            L.trace.append(what)
        if L.level == 1:
            return (Ok(NONEX) if ok[0] == "size" else FAILED), e
        return Ok(ok[1]), e
    return [g]


def p_print(end, disp=disp):
    def g(L, args, e):
        for i, a in enumerate(args):
            r, e = L.run(a, e)
            if r[1]:
                return r, e
            L.out(disp(r[2]) + (" " if i < len(args) - 1 else end))
        return Ok(NONEX), e
    return [g]


def report(L, args, e):
    if not args:
        return FAILED, e
    r, e = L.run(args[0], e)
    if r[1]:
        return r, e
    if KINDS[r[2][1]] != "None":
        L.out(disp(r[2]) + "\n")
    return Ok(NONEX), e


def seen(p):
    """the same on the screen: two spellings of a move, the same move twice"""
    o = re.sub("(\x1b\\[[0-9;-]*)f", r"\1H", p[0])
    return re.sub("(\x1b\\[[0-9;-]*H)(?:\\1)+", r"\1", o), p[1]


C = "console@"
REFS = {C + "cursor@move-to": values(move, 2), C + "write": values(write, 3), C + "title": values(lambda L, x: L.out("\x1b]2;%s\x1b[0m" % disp(x)), 1), C + "clear": exactly(1, lambda L, a, e: (L.out("\x1b[2J\x1b[H"), (Ok(NONEX), e))[1]),
        C + "flush": maybe(("flush",), ("", NONEX)), C + "mode@raw": maybe(("terminal", "enable"), ("", NONEX)), C + "mode@cooked": maybe(("terminal", "disable"), ("", NONEX)),
        C + "width": maybe(None, ("size", INT(97))), C + "height": maybe(None, ("size", INT(31))), C + "keyboard@read-line": maybe(None, ("", STR("typed text\n"))),
        "print": p_print(""), "println": p_print("\n"), "echo": p_print("\n"), "report": [report], "debug": p_print("\n", debug)}
for k, s in (("up", "A"), ("down", "B"), ("left", "D"), ("right", "C")):
    REFS[C + "cursor@move-" + k] = moves(s)
for k, s in (("mode@alternate", "?1049h"), ("mode@normal", "?1049l"), ("cursor@save-position", "s"), ("cursor@restore-position", "u"), ("cursor@hide", "?25l"), ("cursor@show", "?25h")):
    REFS[C + k] = prints("\x1b[" + s)


def conmodels(n):
    T = [STR(x) for x in ("", "a", "two words", "a\nb", "a\n", "\n\nx", "a\r\nb\r\n", "\x1b[1mb")] + [INT(0), INT(7), INT(-3), INT((1 << 63) - 1), NONEX, MAP(k=INT(1)), BOOL(False), N(INT(4)), LET("v", INT(5)), SYM("s"), FAIL, QUOTE(SYM("q"))]
    if n.startswith(("console@mode", "console@width", "console@height", "console@flush", "console@keyboard")):
        yield V([]), E0, 0
        yield V([]), E0, 1
        return
    if n == C + "clear":
        for k in range(4):
            yield V([INT(1)] * k), E0, 0
        return
    yield V([]), E0, 0
    for x in T:
        yield V([x]), E0, 0
        yield V([x, INT(1), INT(2), INT(3)]), E0, 0
        yield V([x, INT(1), INT(2)]), E0, 0
        for y in T:
            yield V([x, y]), E0, 0
        if n == C + "write":
            for a in (INT(0), INT(3), INT((1 << 63) - 1)):
                yield V([a, INT(2), x]), E0, 0
                yield V([INT(5), a, x]), E0, 0
                yield V([x, a, STR("t\nu")]), E0, 0
                yield V([a, x, STR("t\nu")]), E0, 0
        elif n in ("print", "println", "echo", "debug"):
            yield V([x, STR("m"), x]), E0, 0
            yield V([STR("a"), x, x, STR("b")]), E0, 0


KEYS = dict(zip("backspace enter left right up down home end page-up page-down tab back-tab delete insert".split(), range(14)), null=16, esc=17)


def key(code, *x):
    return Ok(A(("Event", 2, (A(("KeyCode", code) + x), U(("modifiers",)), A(("KeyEventKind", 0)), U(("state",))))))


def keymodels(table):
    """table: what console@keyboard@keys lists -> (event, wanted result)"""
    for k, c in KEYS.items():
        yield k, key(c), Ok(STR(table[k]))
    for i in range(1, 13):
        yield "f%d" % i, key(14, i), Ok(STR(table["f%d" % i]))
    for ch in "azZ0 ~é":
        yield ch, key(15, model.Ch(ord(ch))), Ok(STR(ch))
    yield "no terminal", ERR(U(("io", "Other"))), FAILED
    for i, k in ((0, "focus"), (3, "mouse"), (5, "resize")):
        yield k, Ok(A(("Event", i, U((k,)), U((k,))))), Ok(NONEX)


# ending the shell
def b_exit(L, args, e):
    if not args:
        return Ok(U(("exit", 0))), e
    r, e = L.run(args[0], e)
    if r[1]:
        return r, e
    if KINDS[r[2][1]] != "Integer":
        return FAILED, e
    n = r[2][2] & 0xffffffff
    return Ok(U(("exit", n - (1 << 32) if n >> 31 else n))), e


def exitmodels():
    yield V([]), E0
    for x in [INT(i) for i in (0, 1, 2, 7, 127, 255, 256, -1, (1 << 31) - 1)] + [N(INT(3)), SYM("v"), STR("1"), NONEX, BOOL(True), FAIL, LET("v", INT(4)), LIST(), EX("Float", 1.0)]:
        yield V([x]), E0
        yield V([x, INT(9)]), E0
