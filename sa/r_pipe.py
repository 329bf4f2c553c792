"""P12: pipelines."""
import re
import core, canon, m_pipe
from terms import *
from util import *
from canon import Canon
from rules import rule
from report import Guard
from r_eval import mods_of


def pipe_fn(cx):
    return cx.reg.uid("ops@|") if "ops@|" in cx.reg.entries else cx.fn(r"operator_module::pipe_builtin$")


@rule("P12", "The pipe builtin's loop over its stages is summarised symbolically (any number of stages); the summary - conditions, process calls in order with their argument terms, "
      "carried values - is interpreted in every pipeline of up to three (some of up to nine) program and function stages of all outcomes, and the starts, redirections, writes, waits, "
      "applications and the result are compared with what a pipeline must do; the function that turns a stage into a command is checked for name, arguments, directory and environment.")
def p12(cx, rep, tier):
    rep.rule("stage i>0 gets stdin=pipe and exactly the carried output written to it; the last stage writes to the shell's stdout and is waited for; other stages' stdout "
             "is collected and carried on; a function stage is applied to the carried value; a stage that cannot be started is an error")
    u = pipe_fn(cx)
    rep.unit(u)
    e2c = [x for x in cx.p.bodies if x.endswith("::expr_to_command")]
    old = cx.E.prims
    cx.E.prims = set(old) | set(e2c)
    try:
        outs = cx.outs(u, cx.builtin_args(u), "pipe")
    finally:
        cx.E.prims = old
    with Guard(rep, "stages"):
        f, cnt, why = m_pipe.judge(cx, [o for o in outs if o.kind == "ret"], e2c)
        for k, v in cnt.items():
            rep.count(k, v)
        if f:
            rep.violation("pipe:" + f[0], f[1], dict(f[2], path=conds_str(f[3])))
        elif cnt["unknown"]:
            rep.undecided("pipe:models", "%d of %d pipelines: %s" % (cnt["unknown"], cnt["pipelines"], why[:300]))
            stages(cx, rep, outs)
    for x in e2c:
        with Guard(rep, "expr_to_command"):
            to_command(cx, rep, x)


def stages(cx, rep, outs):
    """where the interpretation does not decide: the shape of one arbitrary stage"""
    carried = set()
    loops = {}
    for o in outs:
        for e in o.st.events():
            if e.kind == "loop":
                loops[id(e)] = (o, e)
    done = set()
    for o, e in loops.values():
        C = Canon(o.st.events())
        key = (e.name, len(e.x["iters"]))
        if key in done:
            continue
        done.add(key)
        phis = {n: q for n, q in e.x["phis"].items()}
        for it in e.x["iters"]:
            stage(cx, rep, C, e, it, phis, carried)
    if not rep.counts.get("stage_paths"):
        rep.undecided("pipe: no loop over the stages found")
    for o in outs:
        if o.kind != "ret":
            continue
        rep.count("obligations")
        r = o.ret
        if r.op == "adt" and r.a[0] == RESULT and r.a[1] == 0:
            v = r.a[2]
            if v.op == "phi":
                if carried and v.a[0] not in carried:
                    rep.violation("pipe:result", "a pipeline does not return the value of its last stage", {"returns": cstr(r)[:200]})
            elif not any(e.kind == "loop" for e in o.st.events()):
                rep.violation("pipe:nothing", "a pipeline returns without running its stages", {"returns": cstr(r)[:200], "path": conds_str(o)})
        # a stage that could not be spawned must not be reported as success
        for c, v in o.st.conds():
            if c.op == "call" and c.a[0] == "Command::spawn" and isinstance(v, frozenset) and v == {1} and r.op == "adt" and r.a[1] == 0:
                rep.violation("pipe:spawn-failure", "a stage that cannot be started is reported as success", {"path": conds_str(o)})


def stage(cx, rep, C, lp, it, phis, carried):
    evs, conds, st = it[0], it[1], it[2]
    rep.count("stage_paths")
    nx = [e for e in evs if e.kind == "next"]
    for e in nx[:1]:
        s = C(e.args[0])
        if s.startswith("slice(args"):
            rep.violation("pipe:range", "a pipeline runs only some of its stages", {"iterates": s})
    first = last = spawned = None
    why = []
    for c, v in conds:
        q = C(c)
        if isinstance(v, bool):
            m = re.match(r"^Eq\(0, k\d+\)$", q)
            if m:
                first = v
            if re.match(r"^Lt\(0, k\d+\)$", q):
                first = not v
            if re.match(r"^(Eq\(Sub\(len\(args\), 1\), k\d+\)|Eq\(k\d+, Sub\(len\(args\), 1\)\)|Eq\(Add\(1, k\d+\), len\(args\)\)|Eq\(len\(args\), Add\(1, k\d+\)\))$", q):
                last = v
            if re.match(r"^Lt\((Add\(1, k\d+\), len\(args\)|k\d+, Sub\(len\(args\), 1\))\)$", q):
                last = not v
        if c.op == "call" and c.a[0] == "Command::spawn" and isinstance(v, frozenset):
            spawned = v == {0}
        why.append(q[:60] + " is " + str(v if not isinstance(v, frozenset) else sorted(v))[:30])
    if first is True and last is None:
        last = False     # there are at least two stages
    det = {"stage path": why}
    sp = [e for e in evs if e.kind == "ext" and re.match(r"Command::(spawn|output|status)$", e.name)]
    nxt = {}
    for n, (entry, nexts) in phis.items():
        for w, cs in nexts:
            if cs is conds or cs == conds:
                nxt[n] = w
    viol = lambda k, m: rep.violation("pipe:" + k, m, det)
    if sp:
        cmd = sp[0].args[0]
        if cmd.op != "cmd":
            rep.undecided("pipe:cmd", C(cmd)[:120])
            return
        mods = mods_of(C, cmd)
        for k in mods:
            if k not in ("stdin", "stdout") and not contains(cmd.a[0], lambda x: x.op == "cmd"):
                viol("setting:" + k, "a pipeline stage is started with an extra setting `%s`" % k)
        sin = [C(x) for x in mods.get("stdin", [])][-1:]
        sout = [C(x) for x in mods.get("stdout", [])][-1:]
        if first is None or last is None:
            rep.undecided("pipe:position", "; ".join(why)[:200])
        if first is True and sin not in ([], ["Stdio::inherit()"]):
            viol("first-stdin", "the first stage of a pipeline does not read the shell's input (%s)" % sin)
        if first is False and sin != ["Stdio::piped()"]:
            viol("stdin", "a later stage's input is not the pipe (%s)" % sin)
        if last is True and sout not in ([], ["Stdio::inherit()"]):
            viol("last-stdout", "the last stage's output does not go to the shell's output (%s)" % sout)
        if last is False and sout != ["Stdio::piped()"]:
            viol("stdout", "an inner stage's output is not collected (%s)" % sout)
        if spawned is False:
            viol("spawn-failure", "a pipeline goes on after a stage that could not be started")
            return
        wr = [e for e in evs if e.kind == "ext" and e.name in ("Write.write_all", "Write.write")]
        if first is False:
            if not wr:
                viol("no-input", "a later stage is not given the previous stage's output")
            for w in wr:
                if w.name == "Write.write":
                    viol("partial-write", "a stage's input is written with a single `write`, which may write only part of it")
                if w.args[1].op != "phi":
                    viol("input", "what is written to a stage is not the previous stage's output: " + C(w.args[1])[:100])
                else:
                    carried.add(("buf", w.args[1].a[0]))
            if len(wr) > 1:
                viol("twice", "the previous stage's output is written %d times" % len(wr))
        waits = [e for e in evs if e.kind == "ext" and e.name in ("Child::wait_with_output", "Child::wait")]
        if not waits:
            viol("no-wait", "a stage is not waited for")
        if last is False:
            if not any(e.name == "Child::wait_with_output" for e in waits):
                viol("not-collected", "an inner stage's output is not read")
            else:
                got = [w for n, w in nxt.items() if w.op != "phi" and contains(w, lambda x: x.op == "call" and x.a[0] == "Child::wait_with_output")]
                if not got:
                    viol("lost", "the output of an inner stage is not carried to the next one")
                for w in got:
                    for x in subterms(w):
                        if x.op == "field" and x.a[0].op == "field" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "Child::wait_with_output" and x.a[1] is None and x.a[2] not in (1,):
                            viol("stream", "what is carried to the next stage is not the standard output of the previous one (field %s of Output)" % x.a[2])
                bufs = [n for k, n in [c for c in carried if isinstance(c, tuple)]]
                for n in bufs:
                    if n in nxt and nxt[n] not in got:
                        viol("buf", "the buffer for the next stage is not the output just read: " + C(nxt[n])[:100])
        return
    ev = [e for e in evs if e.kind == "prim" and e.name in ("Expression::eval", "Expression::eval_mut")]
    if len(ev) != 1:
        if not ev:
            viol("skipped", "a stage is neither run nor evaluated")
        else:
            rep.undecided("pipe:evals", str([C(e.args[0])[:60] for e in ev]))
        return
    x = ev[0].args[0]
    q = C(x)
    if first is True:
        if not re.match(r"^args\[k\d+\]$", q):
            viol("first-value", "the first stage evaluates %s instead of the stage" % q[:100])
    elif first is False:
        ok = x.op == "adt" and x.a[0] == EXPR and VARNAME(EXPR, x.a[1]) == "Apply" and re.match(r"^args\[k\d+\]$", C(x.a[2])) \
            and x.a[3].op == "vec" and len(x.a[3].a) == 1 and x.a[3].a[0].op == "phi"
        if not ok:
            viol("apply", "a function stage must be applied to the value carried so far, evaluates " + q[:120])
        else:
            carried.add(x.a[3].a[0].a[0])
    else:
        rep.undecided("pipe:position", "; ".join(why)[:200])
    # the carried value becomes the result, the buffer its bytes
    res = [n for n, w in nxt.items() if w.op == "field" and w.a[0].op == "call" and w.a[0].a[0].startswith("Expression::eval") and w.a[1] == 0]
    if not res:
        viol("value-lost", "the value of a function stage is not carried on")
    b = [w for n, w in nxt.items() if n not in res and w.op != "phi" and contains(w, lambda y: y.op == "call" and y.a[0].startswith("Expression::eval"))
         and re.match(r"^(disp\(val\(|val\(.*\.(Bytes|String)$)", C(w))]
    if not b:
        viol("bytes-lost", "the value of a function stage is not what the next program reads")


def to_command(cx, rep, u):
    rep.unit(u)
    old = cx.E.prims
    cx.E.prims = set(old) | {u}
    try:
        outs = cx.outs(u, None, "rec")
    finally:
        cx.E.prims = old
    b = cx.p.bodies[u]
    outs = [o for o in outs if o.kind == "ret"]
    rep.count("command_forms", len([o for o in outs if cx.E.snap(o.st, o.ret).op == "adt" and "cmd(" in str(cx.E.snap(o.st, o.ret))]))
    f, cnt, why = m_pipe.commands(cx, u, outs, [x[1] for x in b["locals"][1:1 + b["argc"]]])
    rep.count("stage_expressions", cnt["stage_expressions"])
    rep.count("commands_judged", cnt["commands_judged"])
    rep.count("obligations", cnt["commands_judged"])
    if f:
        k, msg, det, o = f
        det["path"] = conds_str(o) if o is not None else None
        rep.violation("command:" + k, msg, det)
        return
    if not cnt["commands_unknown"]:
        return
    rep.count("commands_unknown", cnt["commands_unknown"])
    # what the models do not decide is compared with the known forms
    n = 0
    for o in outs:
        if o.kind != "ret" or o.ret.op != "adt" or o.ret.a[1] != 0:
            continue
        C = Canon(o.st.events())
        x = o.ret.a[2]
        x = cx.E.snap(o.st, x)
        if not (x.op == "adt" and x.a[1] == 1):
            continue
        cmd = x.a[2]
        rep.count("obligations")
        if cmd.op != "cmd":
            if "expr_to_command" not in C(cmd):
                rep.undecided("expr_to_command", C(cmd)[:150])
            continue
        n += 1
        name = C(cmd.a[0])
        det = {"path": conds_str(o), "command": C(cmd)[:400]}
        if not re.match(r"^(expr\.(Symbol|Apply\.(Symbol|String|Quote\.(Symbol|String)))|Environment::get\(env, expr\.(Symbol|Apply\.(Symbol|String))\)\.Some\.Symbol)$", name):
            rep.violation("command:name", "a pipeline stage runs %s instead of the named program" % name[:120], det)
        base = re.sub(r"^Environment::get\(env, (.*)\)\.Some\.Symbol$", r"\1", name)
        for c, v in o.st.conds():
            q = C(c)
            if q == "Environment::get(env, %s)" % base and isinstance(v, frozenset):
                if v == {1} and name == base:
                    rep.violation("command:bound", "a pipeline stage whose name is bound in the shell runs the program of that name", det)
        mods = mods_of(C, cmd)
        cd = [C(q) for q in mods.get("current_dir", [])]
        if cd[-1:] != ["Environment::get_cwd(env)"]:
            rep.violation("command:cwd", "a pipeline stage does not run in the shell's working directory", det)
        if not mods.get("envs") and not mods.get("env"):
            rep.violation("command:env", "a pipeline stage does not get the shell's bindings", det)
        for k in mods:
            if k not in ("current_dir", "args", "arg", "envs", "env"):
                rep.violation("command:setting:" + k, "a pipeline stage is started with %s" % k, det)
        app = name.startswith("expr.Apply") or "expr.Apply" in name
        if app:
            a = mods.get("args") or mods.get("arg")
            if not a:
                rep.violation("command:args", "a pipeline stage does not get its arguments", det)
            else:
                q = C(a[-1])
                if q == "vec()":
                    pass
                elif re.match(r"^(each|some)\??\(vec\(\); ( \| )?disp\(val\(expr\.Apply\.1\[k\d+\]\)\)\)$", q):
                    for e in walk(o.st.events()):
                        if e.kind == "next" and C(e.args[0]).startswith("slice(expr.Apply.1"):
                            rep.violation("command:arg-range", "a pipeline stage gets only some of its arguments", det)
                    for c, v in o.st.conds():
                        s = C(c)
                        if re.search(r"expr\.Apply\.1\[k\d+\]", s) and not re.match(r"^(not\()?eq\(|^eval\(", s) and "ne(" not in s:
                            rep.undecided("command:filter", s[:100])
                        if v is True and re.match(r"^eq\(expr\.Apply\.1\[k\d+\], (?!None)", s) is None and v is True and re.match(r"^eq\(expr\.Apply\.1\[k\d+\], None\)$", s):
                            rep.violation("command:filter", "a pipeline stage gets only its None arguments", det)
                elif re.match(r"^(each|some)\??\(vec\(\); ( \| )?disp\(expr\.Apply\.1\[k\d+\]\)\)$", q):
                    rep.violation("command:arg-eval", "a pipeline stage gets its arguments unevaluated", det)
                elif re.match(r"^(each|some)\??\(vec\(\); ( \| )?disp\(val\(expr\.Apply\.1\[k\d+~[a-z]+\]\)\)\)$", q):
                    rep.violation("command:arg-order", "a pipeline stage does not get its arguments as written: " + q[:100], det)
                else:
                    rep.undecided("command:args", q[:200])
