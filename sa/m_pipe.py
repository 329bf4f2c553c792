"""Pipelines: the summary of the pipe builtin interpreted in models of its stages."""
import copy, itertools
import canon, model, r_fs
from model import A, V, U, Mp, EX, NONEX, Unk, Undef, disp, eq3, need
from r_fs import Ok, Some, NO, UNIT, utf8
from r_eval import mods_of

ERR = lambda *w: A(("Result", 1, U(w)))
PIPED = {"Stdio::piped()": "pipe", "Stdio::inherit()": "inherit", "Stdio::null()": "null"}
STREAM = U(("stdin",))


class World(object):
    """stages: ("p", output, fault) for a program, ("f", result) for a function"""

    def __init__(self, stages):
        self.stages = stages
        self.trace = []
        self.cmd = self.child = None

    def copy(self):
        x = copy.copy(self)
        x.trace = list(self.trace)
        return x


class PipeSummary(r_fs.FsSummary):
    def __init__(self, cx, w, e2c, syms=None):
        r_fs.FsSummary.__init__(self, cx, {i: None for i in range(len(w.stages))}, w)
        self.raw = {i: U(("stage", i)) for i in range(len(w.stages))}
        self.e2c = e2c

    def stage(self, x):
        if isinstance(x, U) and x[0] == "stage":
            return x[1]
        raise Unk("stage")

    def ev0(self, t, env):
        if t.id not in self.bind and canon.is_eval(t):
            return self.value(self.ev(t.a[1], env))
        return r_fs.FsSummary.ev0(self, t, env)

    def value(self, x):
        """what evaluating an expression of the pipeline yields"""
        if isinstance(x, U) and x[0] == "stage":
            return self.fs.stages[x[1]][1] if self.fs.stages[x[1]][0] == "f" else ERR("nostage")
        if isinstance(x, A) and x[0] == "Expression" and model.KINDS[x[1]] == "Apply":
            return self.value(x[2])
        if isinstance(x, A) and x[0] == "Expression" and model.KINDS[x[1]] in ("String", "Integer", "Bytes", "None", "Boolean", "Float"):
            return Ok(x)
        raise Unk("evaluation")

    def apply(self, e, env):
        w, n = self.fs, e.name
        if e.x.get("uid") in self.e2c:
            i = self.stage(([x for x in (self.tryev(a, env) for a in e.args) if isinstance(x, U) and x[0] == "stage"] or [None])[0])
            s = w.stages[i]
            w.cmd = i if s[0] == "p" else None
            if s[0] == "f":
                return Ok(NO)
            return ERR("notcommand", i) if s[2] == "e2c" else Ok(Some(U(("cmd", i))))
        if e.kind == "prim" and e.res is not None and canon.is_eval(e.res):
            x = self.ev(e.args[0], env)
            if isinstance(x, U):
                w.trace.append(("evaluate", self.stage(x)))
            elif isinstance(x, A) and x[0] == "Expression" and model.KINDS[x[1]] == "Apply":
                w.trace.append(("apply", self.stage(x[2]), x[3]))
            return self.value(x)
        if n in ("Command::spawn", "Command::output", "Command::status"):
            cmd = e.args[0]
            if cmd.op != "cmd" or w.cmd is None:
                raise Unk("command")
            i, s = w.cmd, w.stages[w.cmd]
            C = canon.Canon(())
            mods = mods_of(C, cmd)
            io = {}
            for k in ("stdin", "stdout", "stderr"):
                v = [C(x) for x in mods.get(k, ())][-1:]
                if v and v[0] not in PIPED:
                    raise Unk("redirection")
                io[k] = PIPED[v[0]] if v else {"stdin": "null", "stdout": "pipe", "stderr": "pipe"}[k] if n == "Command::output" else "inherit"
            for k in mods:
                if k not in io:
                    w.trace.append(("setting", i, k))
            w.trace.append(("start", i, io["stdin"], io["stdout"], io["stderr"]))
            if s[2] == "spawn":
                return ERR("spawn", i)
            w.child = i
            if n == "Command::output":
                w.trace.append(("wait", i))
                return Ok(self.output(i, io))
            if n == "Command::status":
                w.trace.append(("wait", i))
                return Ok(U(("status",)))
            self.io = io
            st = lambda k: Some(U((k, i))) if io[k] == "pipe" else NO
            return Ok((U(("child", i)), st("stdin"), st("stdout"), st("stderr")))
        if n in ("Write.write_all", "Write.write"):
            x = self.ev(e.args[1], env)
            w.trace.append(("write" if n == "Write.write_all" else "partial", w.child, r_fs.data(x)))
            return Ok(UNIT) if n == "Write.write_all" else Ok(len(r_fs.data(x)))
        if n == "Write.flush":
            return Ok(UNIT)
        if n in ("Child::wait", "Child::wait_with_output"):
            if w.child is None:
                raise Unk("child")
            w.trace.append(("wait", w.child))
            return Ok(U(("status",))) if n == "Child::wait" else Ok(self.output(w.child, self.io))
        if n == "Child::try_wait":
            return Ok(NO)
        if n == "Read.read_to_end" or n == "Read.read_to_string" or n.startswith("Child::"):
            raise Unk(n)
        if n.startswith("Stdio::"):
            return U((n,))
        f = r_fs.PURE.get(n)
        if f is not None:
            return f(w, *[self.ev(a, env) for a in e.args])
        u = e.x.get("uid")
        raise Unk(n)

    def tryev(self, a, env):
        try:
            return self.ev(a, env)
        except Unk:
            return None

    def output(self, i, io):
        out = self.fs.stages[i][1]
        return (U(("status",)), V(out) if io["stdout"] == "pipe" else V(), V())


def expected(stages):
    """-> (result, trace) of a pipeline"""
    tr = []
    val, buf = NONEX, V()
    for i, s in enumerate(stages):
        first, last = i == 0, i == len(stages) - 1
        if s[0] == "p":
            if s[2] == "e2c":
                return ERR("notcommand", i), tr
            tr.append(("start", i, "inherit" if first else "pipe", "inherit" if last else "pipe", "inherit"))
            if s[2] == "spawn":
                return ERR("any"), tr
            if not first and buf:
                tr.append(("write", i, buf))
            tr.append(("wait", i))
            if last:
                val, buf = NONEX, V()
            else:
                buf = V(s[1])
                t = r_fs.text(buf)
                val = EX("String", t) if t is not None else EX("Bytes", buf)
        else:
            tr.append(("evaluate", i) if first else ("apply", i, V([val])))
            if s[1][1] == 1:
                return s[1], tr
            val = s[1][2]
            buf = val[2] if val[1] == model.KI["Bytes"] else r_fs.data(disp(val))
    return Ok(val), tr


def norm(tr):
    """joined writes, none of nothing"""
    out = []
    for e in tr:
        if e[0] == "write" and not e[2]:
            continue
        if e[0] == "write" and out and out[-1][:2] == e[:2]:
            out[-1] = e[:2] + (V(out[-1][2] + e[2]),)
        else:
            out.append(e)
    return out


P = lambda out, fault="": ("p", out, fault)
STAGES = [P(b"abc\n"), P(b""), P(b"\xff\n"), P(b"", "spawn"), P(b"", "e2c"), ("f", Ok(EX("String", "s\u00e9\n"))), ("f", Ok(EX("Bytes", V((254, 0))))), ("f", Ok(EX("Integer", 7))), ("f", Ok(NONEX)),
          ("f", Ok(EX("String", ""))), ("f", ERR("evaluation"))]
FEW = [STAGES[i] for i in (0, 1, 2, 5, 6)]


def pipelines():
    for n in (2, 3):
        for s in itertools.product(STAGES, repeat=n):
            yield s
    for s in itertools.product(FEW, repeat=4):
        yield s
    for k in (5, 6, 9):
        yield tuple(FEW[(j * 3) % 5] for j in range(k))
        yield tuple(FEW[j % 2] for j in range(k))
        yield tuple(FEW[3 + j % 2] for j in range(k))


def what(kind):
    return {"start": "starts or redirects a stage differently", "write": "gives a stage something else than the previous stage's output", "wait": "does not wait for each stage in turn",
            "evaluate": "evaluates another stage", "apply": "applies a function stage to something else than the value so far", "partial": "writes a stage's input with a single `write`",
            "setting": "starts a stage with another setting"}[kind]


def judge(cx, outs, e2c, limit=None):
    """-> (finding or None, counters, why)"""
    cnt = {"pipelines": 0, "judged": 0, "unknown": 0}
    why = ""
    for n, stages in enumerate(pipelines()):
        cnt["pipelines"] += 1
        want, wtr = expected(stages)
        unk = hit = None
        for o in outs:
            S = PipeSummary(cx, World(stages), e2c)
            try:
                r = S.run(o.st, o.ret)
            except (Unk, RecursionError) as u:
                unk = str(u)
                continue
            except Undef:
                continue
            if r is None:
                continue
            if S.soft is not None:
                unk = str(S.soft)
                continue
            hit = (r[0], norm(S.fs.trace), o)
            break
        if hit is None:
            cnt["unknown"] += 1
            why = why or unk or "no path taken for %r" % (stages,)
            if cnt["unknown"] > 200 and not cnt["judged"]:
                break
            continue
        cnt["judged"] += 1
        got, tr, o = hit
        wtr = norm(wtr)
        det = {"stages": repr(stages), "returns": repr(got)[:200], "expected": repr(want)[:200], "does": repr(tr)[:600], "expected steps": repr(wtr)[:600]}
        if tr != wtr:
            j = next((j for j in range(max(len(tr), len(wtr))) if tr[j:j + 1] != wtr[j:j + 1]))
            k = (tr[j:j + 1] or wtr[j:j + 1])[0][0]
            return ("steps:" + k, "a pipeline " + what(k), det, o), cnt, why
        if want[1] == 1 and want[2][0] == "any":
            if not (isinstance(got, A) and got[1] == 1):
                return ("started", "a stage that cannot be started is not an error", det, o), cnt, why
        elif isinstance(got, A) and got[:2] != want[:2] or eq3(got, want) is False:
            return ("result", "a pipeline does not return its last stage's value or the failing stage's error", det, o), cnt, why
    return None, cnt, why


# ---------------------------------------------------------------- which program a stage is
def SYM(x):
    return EX("Symbol", x)


def APP(f, *xs):
    return EX("Apply", f, V(xs))


STR = lambda x: EX("String", x)
INT = lambda x: EX("Integer", x)
QUOTE = lambda x: EX("Quote", x)
GROUP = lambda x: EX("Group", x)
FAIL = APP(SYM("fails"), INT(1))
BOUND = {"CWD": STR("/w"), "alias": SYM("prog"), "five": INT(5), "text": STR("abc"), "none": NONEX, "fun": EX("Lambda", "x", SYM("x"), U(("captured",))), "list": EX("List", V([INT(1), STR("b c")]))}


class CmdSummary(r_fs.FsSummary):
    def __init__(self, cx, expr, e2c, names, depth=0):
        r_fs.FsSummary.__init__(self, cx, {}, World(()), {names[0]: U(("target",)), names[1]: expr, names[2]: r_fs.ENV} if names else {}, depth)
        self.e2c, self.names = e2c, names

    def evaluate(self, x):
        k = model.KINDS[x[1]] if isinstance(x, A) and x[0] == "Expression" else ""
        if k == "Symbol":
            return Ok(BOUND.get(x[2], x))
        if k in ("Integer", "String", "None", "Boolean", "Bytes", "Float"):
            return Ok(x)
        if k == "List":
            rs = [self.evaluate(y) for y in x[2]]
            return next((r for r in rs if r[1] == 1), Ok(EX("List", V(r[2] for r in rs))))
        if k == "Quote":
            return Ok(x[2])
        if k == "Group":
            return self.evaluate(x[2])
        if x == FAIL:
            return ERR("fails")
        raise Unk("evaluation")

    def ev0(self, t, env):
        if t.id in self.bind:
            return self.bind[t.id]
        if canon.is_eval(t):
            return self.evaluate(self.ev(t.a[1], env))
        if t.op == "field" and t.a[1] is None and self.tryenv(t.a[0], env):
            return Mp(BOUND) if t.a[2] == 0 else U(("parent",))
        if t.op == "cmd":
            mods = {}
            for k, v in mods_of(canon.Canon(()), t).items():
                mods.setdefault(k, [])
            for m in t.a[1:]:
                for x in m if isinstance(m, tuple) else m.a:
                    x = x.a if hasattr(x, "op") else x
                    mods[x[0]].append(tuple(self.ev(y, env) for y in x[1:]))
            return A(("Command", 0, self.ev(t.a[0], env), Mp({k: V(v) for k, v in mods.items()})))
        return r_fs.FsSummary.ev0(self, t, env)

    def tryenv(self, t, env):
        try:
            return self.ev(t, env) == r_fs.ENV
        except Unk:
            return False

    def apply(self, e, env):
        n = e.name
        if e.x.get("uid") in self.e2c:
            xs = []
            for a in e.args:
                try:
                    xs.append(self.ev(a, env))
                except Unk:
                    pass
            xs = [x for x in xs if isinstance(x, A) and x[0] == "Expression"]
            if len(xs) != 1 or self.depth > 6:
                raise Unk("recursion")
            r, _ = interpret(self.cx, self.recs_, xs[0], self.e2c, self.names, self.depth + 1)
            if r is None:
                raise Unk("recursion")
            return r
        if n.startswith("Environment::"):
            xs = [self.ev(a, env) for a in e.args]
            if not xs or xs[0] != r_fs.ENV:
                raise Unk("environment")
            m = n.split("::")[-1]
            if m == "get_cwd":
                return BOUND["CWD"][2]
            if m == "get":
                return Some(BOUND[xs[1]]) if xs[1] in BOUND else NO
            if m == "is_defined":
                return xs[1] in BOUND
            raise Unk(n)
        if e.kind == "prim" and e.res is not None and canon.is_eval(e.res):
            return self.evaluate(self.ev(e.args[0], env))
        f = r_fs.PURE.get(n)
        if f is not None:
            return f(self.fs, *[self.ev(a, env) for a in e.args])
        raise Unk(n)


def interpret(cx, outs, x, e2c, names, depth=0):
    """-> (result of turning the stage into a command or None, why)"""
    unk = "no path taken"
    for o in outs:
        S = CmdSummary(cx, x, e2c, names, depth)
        S.recs_ = outs
        try:
            r = S.run(o.st, cx.E.snap(o.st, o.ret))
        except (Unk, RecursionError) as u:
            unk = str(u)
            continue
        except Undef:
            continue
        if r is None:
            continue
        if S.soft is not None:
            unk = str(S.soft)
            continue
        return r[0], o
    return None, unk


def program(x):
    """the program a stage stands for -> ("none",), ("err", e) or (name, arguments)"""
    k = model.KINDS[x[1]]

    def named(n):
        v = BOUND.get(n)
        return n if v is None else v[2] if model.KINDS[v[1]] == "Symbol" else None
    if k in ("Quote", "Group"):
        return program(x[2])
    if k == "Symbol":
        n = named(x[2])
        return (n, []) if n is not None else ("none",)
    if k != "Apply":
        return ("none",)
    f = x[2]
    fk = model.KINDS[f[1]]
    if fk in ("Symbol", "String"):
        n = named(f[2])
    elif fk == "Quote" and model.KINDS[f[2][1]] in ("Symbol", "String"):
        n = f[2][2]
    else:
        n = None
    if n is None:
        return ("none",)
    E = CmdSummary.evaluate
    args = []
    for a in x[3]:
        if a == NONEX:
            continue
        r = E(None, a) if model.KINDS[a[1]] not in ("List", "Group") else CmdSummary.evaluate(_EV, a)
        if r[1] == 1:
            return ("err", r)
        args.append(disp(r[2]))
    return (n, args)


class _Ev(object):
    def evaluate(self, x):
        return CmdSummary.evaluate(self, x)


_EV = _Ev()


def targets():
    fs = [SYM("ls"), STR("ls"), SYM("alias"), SYM("five"), SYM("text"), STR("alias"), QUOTE(SYM("ls")), QUOTE(STR("ls")), QUOTE(SYM("alias")), QUOTE(SYM("five")), QUOTE(INT(1)), SYM("fun"), INT(3),
          EX("Lambda", "x", SYM("x"), U(("captured",))), SYM("none"), STR(""), QUOTE(QUOTE(SYM("ls")))]
    args = [(), (STR("-l"),), (STR("a b"), SYM("text")), (INT(5), SYM("unbound"), STR("")), (NONEX, STR("x")), (STR("x"), NONEX, SYM("none"), STR("x")), (SYM("list"),), (STR("1"), STR("1"), STR("1")),
            (STR("x"), FAIL, STR("y")), (FAIL,), (EX("Boolean", True), EX("Bytes", V((65, 10)))), (QUOTE(SYM("five")), SYM("five")), tuple(INT(i) for i in range(12))]
    for f in fs:
        for a in args:
            yield APP(f, *a)
    for a in (APP(SYM("ls"), STR("-l")), SYM("ls"), SYM("alias"), SYM("five"), SYM("text"), SYM("fun"), STR("ls"), INT(1), NONEX, EX("Lambda", "x", SYM("x"), U(("captured",))), EX("List", V([SYM("ls")])), EX("Boolean", True)):
        yield a
        yield QUOTE(a)
        yield GROUP(a)
        yield QUOTE(GROUP(a))


def kindname(x):
    return model.KINDS[x[1]]


def commands(cx, u, outs, names):
    """-> (finding or None, counters, why)"""
    cnt = {"stage_expressions": 0, "commands_judged": 0, "commands_unknown": 0}
    why = ""
    for x in targets():
        cnt["stage_expressions"] += 1
        got, o = interpret(cx, outs, x, {u}, names)
        want = program(x)
        bad = None
        if got is None:
            cnt["commands_unknown"] += 1
            why = why or "%s for %r" % (o, x)
            continue
        cnt["commands_judged"] += 1
        det = {"stage": repr(x)[:200], "becomes": repr(got)[:400], "expected": repr(want)[:200], "path": None}
        if not (isinstance(got, A) and got[0] == "Result"):
            cnt["commands_judged"] -= 1
            cnt["commands_unknown"] += 1
            continue
        if want[0] == "err":
            if got != want[1]:
                bad = ("error", "a stage whose argument fails does not end the pipeline with that error")
        elif got[1] == 1:
            bad = ("refused", "a pipeline stage is refused with an error")
        elif want[0] == "none":
            if got[2][1] != 0:
                bad = ("bound", "a stage that is not a program is run as one")
        elif got[2][1] == 0:
            bad = ("name", "a pipeline stage that names a program is not run as one")
        else:
            c = got[2][2]
            if not (isinstance(c, A) and c[0] == "Command"):
                cnt["commands_judged"] -= 1
                cnt["commands_unknown"] += 1
                why = why or "command"
                continue
            name, mods = c[2], c[3].d
            if name != want[0]:
                bad = ("name", "a pipeline stage runs another program than the one it names")
            al = []
            for k, f in (("args", lambda v: list(v[0])), ("arg", lambda v: [v[0]])):
                for v in mods.get(k, ()):
                    al += f(v)
            if "args" in mods and "arg" in mods:
                al = None
            envs = {}
            for v in mods.get("envs", ()):
                envs.update(v[0].d if isinstance(v[0], Mp) else dict(v[0]))
            for v in mods.get("env", ()):
                envs[v[0]] = v[1]
            if bad:
                pass
            elif al is not None and al != want[1]:
                bad = ("args", "a pipeline stage does not get exactly its own evaluated arguments")
            elif [v[0] for v in mods.get("current_dir", ())][-1:] != ["/w"]:
                bad = ("cwd", "a pipeline stage does not run in the shell's working directory")
            elif {k: envs.get(k) for k in BOUND if k != "fun"} != {k: disp(v) for k, v in BOUND.items() if k != "fun"}:
                bad = ("env", "a pipeline stage does not get the shell's bindings")
            elif set(mods) - {"args", "arg", "envs", "env", "current_dir"}:
                bad = ("setting", "a pipeline stage is started with another setting")
            elif al is None:
                cnt["commands_judged"] -= 1
                cnt["commands_unknown"] += 1
        if bad:
            det["path"] = o
            return bad + (det, o), cnt, why
    return None, cnt, why
