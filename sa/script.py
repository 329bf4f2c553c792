"""The few constant Dune scripts the library defines: parsed and normalised as lambda terms."""
import re


class Bad(Exception):
    pass


TOK = re.compile(r"\s*(->|==|!=|>=|<=|&&|\|\||[A-Za-z_$][\w@\-?]*|\d+(?:\.\d+)?|\"[^\"]*\"|[-+*/%<>=!@(){}\[\];,|'])")
BIN = {"+", "-", "*", "/", "%", "<", ">", "==", "!=", ">=", "<=", "&&", "||"}
KEY = {"let", "for", "in", "if", "else"}


class P(object):
    def __init__(self, s):
        self.t, self.i = [], 0
        p = 0
        s = s.rstrip()
        while p < len(s):
            m = TOK.match(s, p)
            if not m:
                raise Bad(s[p:p + 20])
            self.t.append(m.group(1))
            p = m.end()

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else None

    def eat(self, x=None):
        t = self.peek()
        if t is None or x is not None and t != x:
            raise Bad("expected %s, got %s" % (x, t))
        self.i += 1
        return t

    def seq(self, end):
        out = []
        while self.peek() != end:
            if self.peek() == ";":
                self.eat()
                continue
            out.append(self.expr())
        if end:
            self.eat(end)
        return ("do", tuple(out)) if len(out) != 1 else out[0]

    def expr(self):
        t = self.peek()
        if t is None:
            raise Bad("end")
        if re.match(r"^[A-Za-z_]", t) and t not in KEY and self.peek(1) == "->":
            self.eat()
            self.eat()
            return ("lam", t, self.expr())
        if t == "let":
            self.eat()
            n = self.eat()
            self.eat("=")
            return ("let", n, self.expr())
        if t == "for":
            self.eat()
            n = self.eat()
            self.eat("in")
            l = self.app(stop=("{",))
            self.eat("{")
            return ("for", n, l, self.seq("}"))
        if t == "if":
            self.eat()
            c = self.binary(stop=("{",))
            self.eat("{")
            a = self.seq("}")
            b = ("none",)
            if self.peek() == "else":
                self.eat()
                if self.peek() == "if":
                    b = self.expr()
                else:
                    self.eat("{")
                    b = self.seq("}")
            return ("if", c, a, b)
        return self.binary()

    def binary(self, stop=()):
        a = self.app(stop)
        while self.peek() in BIN:
            o = self.eat()
            a = ("bin", o, a, self.app(stop))
        return a

    def app(self, stop=()):
        f = self.atom(stop)
        args = []
        while True:
            t = self.peek()
            if t is None or t in BIN or t in stop or t in (")", "}", "]", ";", ",", "=", "|") or t in KEY:
                break
            args.append(self.atom(stop))
        return ("app", f, tuple(args)) if args else f

    def atom(self, stop=()):
        t = self.peek()
        if t == "(":
            self.eat()
            x = self.expr()
            self.eat(")")
            return x
        if t == "{":
            self.eat()
            return self.seq("}")
        if t == "[":
            self.eat()
            xs = []
            while self.peek() != "]":
                xs.append(self.expr())
                if self.peek() == ",":
                    self.eat()
            self.eat("]")
            return ("list", tuple(xs))
        if t is not None and re.match(r"^[\w\"$]", t) and t not in KEY:
            self.eat()
            return ("sym", t)
        raise Bad(str(t))


def parse(s):
    p = P(s)
    x = p.seq(None)
    return x


def curry(f, args):
    for a in args:
        f = ("ap", f, a)
    return f


def norm(x, env=None, case=None):
    """beta-normal form; comparisons of distinct free symbols are decided by `case` (a function op, a, b -> bool or None)"""
    env = env or {}
    o = x[0]
    if o == "sym":
        return env.get(x[1], x)
    if o == "lam":
        return ("clo", x, dict(env))
    if o == "app":
        f = norm(x[1], env, case)
        for a in x[2]:
            f = apply(f, norm(a, env, case), case)
        return f
    if o == "if":
        c = x[1]
        if c[0] == "bin" and case:
            r = case(c[1], norm(c[2], env, case), norm(c[3], env, case))
            if r is not None:
                return norm(x[2] if r else x[3], env, case)
        return ("ifn", norm(x[1], env, case), norm(x[2], env, case), norm(x[3], env, case))
    if o == "bin":
        return ("binn", x[1], norm(x[2], env, case), norm(x[3], env, case))
    if o == "none":
        return x
    raise Bad(o)


def apply(f, a, case=None):
    if f[0] == "clo":
        e = dict(f[2])
        e[f[1][1]] = a
        return norm(f[1][2], e, case)
    return ("ap", f, a)


def show(x):
    if x[0] == "sym":
        return x[1]
    if x[0] == "ap":
        return "(%s %s)" % (show(x[1]), show(x[2]))
    if x[0] == "clo":
        return "<function>"
    return str(x)


def alpha(x, env=None, n=None):
    """rename bound variables by position"""
    env = dict(env or {})
    n = n if n is not None else [0]

    def fresh(v):
        env[v] = "v%d" % n[0]
        n[0] += 1
        return env[v]
    o = x[0]
    if o == "sym":
        return ("sym", env.get(x[1], x[1]))
    if o == "lam":
        v = fresh(x[1])
        return ("lam", v, alpha(x[2], env, n))
    if o == "for":
        l = alpha(x[2], env, n)
        v = fresh(x[1])
        return ("for", v, l, alpha(x[3], env, n))
    if o == "do":
        out = []
        for s in x[1]:
            if s[0] == "let":
                w = alpha(s[2], env, n)
                v = env[s[1]] if s[1] in env else fresh(s[1])
                out.append(("let", v, w))
            else:
                out.append(alpha(s, env, n))
        return ("do", tuple(out))
    if o == "let":
        w = alpha(x[2], env, n)
        v = env[x[1]] if x[1] in env else fresh(x[1])
        return ("let", v, w)
    if o in ("app",):
        return ("app", alpha(x[1], env, n), tuple(alpha(a, env, n) for a in x[2]))
    if o == "list":
        return ("list", tuple(alpha(a, env, n) for a in x[1]))
    if o == "bin":
        return ("bin", x[1], alpha(x[2], env, n), alpha(x[3], env, n))
    if o == "if":
        return ("if", alpha(x[1], env, n), alpha(x[2], env, n), alpha(x[3], env, n))
    return x


def skeleton(x):
    """the shape of a script without its leaves"""
    if isinstance(x, tuple):
        if x and x[0] == "sym":
            return "."
        if x and x[0] in ("lam", "for", "let"):
            return (x[0],) + tuple(skeleton(y) for y in x[2:])
        if x and x[0] == "bin":
            return ("bin",) + tuple(skeleton(y) for y in x[2:])
        return tuple(skeleton(y) for y in x)
    return x
