"""Structured text, random draws, the console and leaving the shell: builtins interpreted in finite models."""
import re
import m_call, m_con, m_data, m_eval
from m_call import *
from util import *
from report import Guard
from rules import rule
from r_call import judged


def paths(cx, rep, n):
    u = cx.reg.uid(n)
    rep.unit(u)
    rep.count("builtins")
    outs = cx.builtin(u)
    if outs is None:
        rep.undecided(n, "budget")
        return u, None
    return u, outs


def tell(rep, n, u, r, text, total, judged, unk, sub="result"):
    f, cnt, why = r
    for k, v in cnt.items():
        rep.count(k, v)
    rep.count("obligations", cnt[judged])
    if f is not None:
        det, o = f
        rep.violation("%s:%s" % (n, sub), "%s %s" % (n, text), dict(det, function=u, path=conds_str(o)))
    elif cnt[unk] > cnt[total] // 20:
        rep.undecided(n, "%d of %d: %s" % (cnt[unk], cnt[total], why))


@rule("P24", "The path-sensitive summary of parse@json and parse@toml, with the recursive conversion it calls, is interpreted on documents of every value kind, nested; the resulting value "
             "is compared with the document's.")
def p24(cx, rep, tier):
    rep.rule("value of the parsed document == the document's value, kind by kind, for every model")
    for fmt in ("json", "toml"):
        n = "parse@" + fmt
        with Guard(rep, n):
            u, outs = paths(cx, rep, n)
            if outs is not None:
                tell(rep, n, u, m_data.judge(cx, outs, fmt), "does not return the value the document denotes", "documents", "documents_judged", "documents_unknown")


@rule("P32", "The path-sensitive summary of every random builtin is interpreted with the generator's outcome as a parameter of the model; what it draws, from which range and how often, is compared "
             "with what was asked for.")
def p32(cx, rep, tier):
    rep.rule("for every outcome of the generator the result is in the documented set, and every member of that set has an outcome")
    for f in ("int", "choose", "shuffle"):
        n = "rand@" + f
        with Guard(rep, n):
            u, outs = paths(cx, rep, n)
            if outs is not None:
                f, cnt, why = m_data.judge_draws(cx, outs, n)
                det = dict(f[0]) if f else {}
                tell(rep, n, u, (f, cnt, why), det.pop("what", None) or "does not draw what was asked for", "draws", "draws_judged", "draws_unknown")


def const(t):
    """text of a registered string"""
    if t.op == "adt" and t.a[0].endswith("Expression"):
        t = t.a[2]
    return t.a[0] if t.op == "str" else None


@rule("P36", "The path-sensitive summary of every console and printing builtin is interpreted on argument expressions, a terminal that works or does not, and every key event; the text written, "
             "the terminal calls made, the result and the environment are compared with the documented ones.")
def p36(cx, rep, tier):
    rep.rule("text written, terminal calls, result and final environment == those of the reference, for every model; read-key's result == the sequence listed under console@keyboard@keys")
    for n in sorted(m_con.REFS):
        rep.count("builtins")
        judged(cx, rep, n, m_con.REFS[n], m_con.conmodels(n), text="does not do what it is documented to do", seen=m_con.seen)
    n = "console@keyboard@read-key"
    with Guard(rep, n):
        pre = "console@keyboard@keys@"
        table = {}
        for k in list(m_con.KEYS) + ["f%d" % i for i in range(1, 13)]:
            e = cx.reg.entries.get(pre + k)
            v = const(e.term) if e else None
            if v is None:
                rep.undecided(pre + k, "not a constant text")
            else:
                table[k] = v
        rep.count("keys", len(table))
        seen = {}
        for k, v in sorted(table.items()):
            rep.count("obligations")
            if v in seen:
                rep.violation("keys:" + k, "console@keyboard@keys lists one sequence for two keys", {"keys": [seen[v], k], "sequence": repr(v)})
            seen[v] = k
        u, outs = paths(cx, rep, n)
        if outs is None:
            return
        for k, ev, want in m_con.keymodels(table):
            def setup(S, args):
                S.event = ev
            f, cnt, why, full = m_call.judge_builtin(cx, outs, [lambda L, a, e: (want, e)], [(V([INT(1)]), E0)], setup=setup)
            for c, x in cnt.items():
                rep.count(c, x)
            rep.count("obligations", cnt["calls_judged"])
            if f:
                (w, msg), det, o = f
                rep.violation(n + ":" + w, "read-key does not return what console@keyboard@keys lists for the key: it " + msg, dict(det, key=k, function=u, path=conds_str(o)))
                break
            if cnt["calls_unknown"]:
                rep.undecided(n, "%s: %s" % (k, why))


@rule("P37", "The path-sensitive summary of every way to leave the shell is interpreted on argument expressions; the status given to the operating system is compared with the argument. No other function the "
             "builtins reach may end the process.")
def p37(cx, rep, tier):
    rep.rule("exit status == the integer given (0 without one); any other argument and every error in it leave the shell running; process::exit and abort are called by no other builtin (functions that read lines from the user end the shell at the end of its input)")
    for n in ("os@exit", "exit", "quit"):
        rep.count("builtins")
        judged(cx, rep, n, [m_con.b_exit], m_con.exitmodels(), text="does not end the shell as documented")
    near = {}

    def reached(u, via):
        if u not in near:
            near[u] = callees(cx, u) if u in cx.p.bodies else set()
            if any("rustyline" in v and v.endswith("::readline") for v in near[u]):
                near[u] = set()
        for v in near[u]:
            if v not in via:
                via[v] = u
                reached(v, via)
        return via

    for n, e in sorted(cx.reg.entries.items()):
        if e.kind != "builtin" or n.split("@")[-1] in ("exit", "quit"):
            continue
        with Guard(rep, n):
            u = cx.reg.uid(n)
            via = reached(u, {u: None})
            rep.count("builtins_without_exit")
            rep.count("functions_reached", len(via))
            rep.count("obligations")
            x = next((v for v in sorted(via) if re.search("process::(exit|abort)$", v)), None)
            if x:
                way = [x]
                while way[-1] != u:
                    way.append(via[way[-1]])
                rep.violation(n + ":exit", "%s ends the shell" % n, {"call path": " <- ".join(way)})
