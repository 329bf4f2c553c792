"""P05: error codes. P06: errors propagate. P30: argument counts."""
import re
import core, canon
from terms import *
from util import *
from canon import Canon
from rules import rule
from report import Guard
from r_log import value, const

# err@codes name -> variant of the error type
CODES = {"cannot-apply": "CannotApply", "symbol-not-defined": "SymbolNotDefined", "command-failed": "CommandFailed", "for-non-list": "ForNonList",
         "recursion-depth": "RecursionDepth", "permission-denied": "PermissionDenied", "program-not-found": "ProgramNotFound", "syntax-error": "SyntaxError",
         "custom-error": "CustomError"}
ERR = "dune::error::Error"


def errmethod(cx, m, tr=None):
    return cx.method("Error", m, tr) if tr else [u for u, b in cx.p.bodies.items() if b.get("m") == m and b.get("im") is not None and "tr" not in b
                                                and cx.p.tystr(b["im"]).split("::")[-1] == "Error"][0]


@rule("P05", "The published code table, the function that turns an error into its code (every variant is a path) and the path of err@try on which its expression failed are "
      "computed symbolically and compared variant by variant.")
def p05(cx, rep, tier):
    rep.rule("err@codes maps every kind of error to its own code; the code of an error is the published one; err@try applies the handler to {message, code, expression} of the error "
             "of its first argument and returns a successful value unchanged")
    pub = {}
    for k, e in cx.reg.entries.items():
        if k.startswith("err@codes@"):
            pub[k[len("err@codes@"):]] = const(e)
    rep.count("published_codes", len(pub))
    for n in CODES:
        if n not in pub:
            rep.missing("err@codes@" + n)
    if len(set(pub.values())) != len(pub):
        rep.violation("codes:distinct", "two kinds of error have the same published code", {"codes": pub})
    variants = cx.p.adt(ERR)["variants"] if hasattr(cx.p, "adt") else None
    with Guard(rep, "code"):
        codes(cx, rep, pub)
    with Guard(rep, "err@try"):
        import r_call
        if not r_call.tries(cx, rep, pub):
            tries(cx, rep, pub)


def kebab(s):
    return re.sub(r"(?<!^)([A-Z])", r"-\1", s).lower()


def verdicts(rep, key, where, variant, c, pub):
    """c: code term given to an error of this variant"""
    name = kebab(variant)
    if c.op != "int":
        rep.undecided(key + ":" + variant, cstr(c)[:100])
        return
    rep.count("obligations")
    if name not in pub:
        rep.violation(key + ":unpublished:" + variant, "the kind of error %s has no published code" % variant, {"where": where})
    elif pub[name] is not None and pub[name] != c.a[0]:
        rep.violation(key + ":" + variant, "an error of kind %s has code %s; the published code is %s" % (name, c.a[0], pub[name]), {"where": where})


def codes(cx, rep, pub):
    try:
        u = errmethod(cx, "code")
    except IndexError:
        return
    rep.unit(u)
    for o in cx.outs(u):
        if o.kind != "ret":
            continue
        for t, v in o.st.conds():
            if isinstance(v, frozenset) and (canon.tyname(t) or "").endswith("Error"):
                for x in v:
                    verdicts(rep, "code", u, canon.vname(canon.tyname(t), x), o.ret, pub)


def tries(cx, rep, pub):
    u = cx.reg.uid("err@try")
    rep.unit(u)
    ok = False
    seen = set()
    for o in cx.builtin(u):
        if o.kind != "ret":
            continue
        C = Canon(o.st.events())
        s = C(o.ret)
        ev = [e for e in o.st.events() if e.kind == "prim" and e.name.startswith("Expression::eval")]
        det = {"function": u, "path": conds_str(o), "returns": s[:300]}
        first = None
        errs = set()
        for t, v in o.st.conds():
            if isinstance(v, frozenset) and canon.ev_arg(t) == 0:
                first = v
            if isinstance(v, frozenset) and C(t) == "err0":
                errs = v
        if first is None:
            if ev and not s.startswith("Err("):
                if s == "eval0":
                    rep.violation("try:nocatch", "err@try does not catch an error", det)
                else:
                    rep.undecided("try:first", s[:100])
            continue
        rep.count("obligations")
        if first == frozenset((0,)):
            ok = True
            if s not in ("eval0", "Ok(val0)"):
                rep.violation("try:value", "err@try does not return the value of its first argument", det)
            for e in ev[1:]:
                rep.violation("try:extra", "err@try evaluates %s although its first argument succeeded" % C(e.args[0])[:80], det)
        elif first == frozenset((1,)):
            r = o.ret
            a = r.a[1] if canon.is_eval(r) else None
            if a is None or not (a.op == "adt" and VARNAME(EXPR, a.a[1]) == "Apply"):
                if s.startswith(("Ok(", "Err(")):
                    rep.violation("try:nohandler", "err@try does not apply the handler to an error of its first argument: " + s[:120], det)
                else:
                    rep.undecided("try:handler", s[:150])
                continue
            h = C(a.a[2])
            if h not in ("args[1]", "val1"):
                rep.violation("try:handler", "err@try applies %s instead of the handler" % h[:80], det)
            if not (a.a[3].op == "vec" and len(a.a[3].a) == 1):
                rep.undecided("try:args", C(a.a[3])[:120])
                continue
            m = core.unmap(a.a[3].a[0])
            if m is None:
                rep.undecided("try:map", C(a.a[3].a[0])[:120])
                continue
            for key in ("message", "code", "expression"):
                if key not in m:
                    rep.violation("try:no-" + key, "the handler of err@try does not get the %s of the error" % key, det)
            if "message" in m and C(m["message"]) != "String(disp(err0))":
                q = C(m["message"])
                if re.match(r"^String\((fmt1\(debug, err0|'|disp\(args|disp\(err0\.)", q):
                    rep.violation("try:message", "the message given to the handler is %s" % q[:100], det)
                else:
                    rep.undecided("try:message", q[:100])
            if "expression" in m:
                q = C(m["expression"])
                if q != "Quote(args[0])":
                    rep.violation("try:expression", "the expression given to the handler is %s" % q[:100], det)
            if "code" in m:
                c = m["code"]
                if c.op == "adt" and VARNAME(EXPR, c.a[1]) == "Integer":
                    for x in errs:
                        seen.add(x)
                        verdicts(rep, "try:code", u, canon.vname(ERR, x), c.a[2], pub)
                    if not errs:
                        rep.undecided("try:code", C(c)[:100])
                else:
                    rep.violation("try:code-kind", "the code given to the handler is %s" % C(c)[:100], det)
    if not ok:
        rep.undecided("try:ok", "no path on which the first argument succeeds")


# builtins whose purpose is to look at a failure
CATCH = {"err@try"}


def evalfail(t, v):
    return isinstance(v, frozenset) and v == frozenset((1,)) and canon.is_eval(t)


@rule("P06", "Every path of every registered builtin (one arbitrary turn of each loop included) on which an evaluation failed is examined: the path must end there and return that "
      "evaluation's own error. Evaluator and pipeline paths are included.")
def p06(cx, rep, tier):
    rep.rule("a path on which an evaluation failed returns Err of exactly that error; no failed evaluation is discarded; only err@try catches")
    for u, k in sorted(builtins(cx).items(), key=lambda q: q[1]):
        names = {p for p, e in cx.reg.entries.items() if e.uid == u}
        if names & CATCH:
            rep.count("catching_builtins")
            continue
        with Guard(rep, k):
            outs = cx.builtin(u)
            rep.unit(u)
            if outs is None:
                rep.undecided(k, "budget")
                continue
            rep.count("builtins")
            for o in outs:
                propagate(cx, rep, k, u, o)
    import r_eval, m_eval
    with Guard(rep, "eval_mut"):
        u, ts = r_eval.traces(cx, rep)
        r_eval.modelled(cx, rep, ts, lambda k, h, d: False)
        for (k, h, d), (msg, det, o) in sorted(m_eval.judge.failing.items()):
            rep.violation("eval:%s:%s:%s" % (k, h, d), "where a part fails, evaluating %s %s" % (k if not h else "an application of a " + h, msg), det)


def propagate(cx, rep, k, u, o):
    C = Canon(o.st.events())
    det = None
    for t, v in o.st.conds():
        if not evalfail(t, v):
            continue
        rep.count("failing_evaluations")
        if o.kind != "ret":
            continue
        r = o.ret
        want = mk("field", t, 1, 0)
        if r.op == "adt" and r.a[0] == RESULT and r.a[1] == 1 and same(C, r.a[2], want):
            continue
        if r is t:
            continue
        s = C(r)
        what = C(t.a[1])[:80]
        det = {"function": u, "path": conds_str(o), "returns": s[:200]}
        if r.op == "adt" and r.a[0] == RESULT and r.a[1] == 1:
            rep.violation(k + ":changed", "%s replaces the error of evaluating %s by %s" % (k, what, s[:100]), det)
        else:
            rep.violation(k + ":swallowed", "%s goes on after evaluating %s failed and returns %s" % (k, what, s[:100]), det)
    for e in walk(o.st.events()):
        if e.kind == "drop_err":
            for x in e.args:
                if isinstance(x, T) and canon.is_eval(x):
                    rep.violation(k + ":discarded", "%s discards the error of evaluating %s" % (k, C(x.a[1])[:80]), {"function": u, "path": conds_str(o)})
        if e.kind == "loop":
            for it in e.x["iters"]:
                for t, v in it[1]:
                    if evalfail(t, v):
                        rep.violation(k + ":loop", "%s goes on with its loop after evaluating %s failed" % (k, C(t.a[1])[:80]), {"function": u})
        if e.kind == "prim" and e.name.startswith("Expression::eval") and e.res is not None:
            rep.count("evaluations")
    # an evaluation whose result is never looked at
    if o.kind == "ret" and o.ret.op == "adt" and o.ret.a[0] == RESULT and o.ret.a[1] == 0:
        known = {t.id for t, v in o.st.conds() if isinstance(v, frozenset) and canon.is_eval(t)}
        for it in walk(o.st.events()):
            if it.kind == "loop":
                for i in it.x["iters"]:
                    known |= {t.id for t, v in i[1] if isinstance(v, frozenset) and canon.is_eval(t)}
        known |= {x.id for t, v in o.st.conds() for x in subterms(t) if canon.is_eval(x)}
        known |= {x.id for x in subterms(o.ret) if canon.is_eval(x)}
        for e in o.st.events():
            if e.kind == "prim" and e.name.startswith("Expression::eval") and e.res is not None and e.res.id not in known \
                    and (cx.E.varset(o.st, e.res) or {0, 1}) != {0}:
                rep.violation(k + ":ignored", "%s ignores whether evaluating %s failed" % (k, C(e.args[0])[:80]), {"function": u, "path": conds_str(o)})


def same(C, a, b):
    return a is b or C(a) == C(b)


ARITY = {}
for spec in """
1 1: cd console@clear console@cursor@move-down console@cursor@move-left console@cursor@move-right console@cursor@move-up console@title dict@flatten dict@from-items dict@items dict@keys dict@len dict@values fmt@strip fs@canon fs@exists? fs@glob fs@is-dir? fs@is-file? fs@ls fs@mkdir fs@read fs@rm fs@rmdir list@head list@len list@rev list@tail list@unzip log@enabled? log@set-level math@abs math@acos math@acosh math@asin math@asinh math@atan math@atanh math@cbrt math@ceil math@cos math@cosh math@cospi math@fact math@floor math@iseven math@isodd math@ln math@log10 math@log2 math@round math@sin math@sinh math@sinpi math@sqrt math@tan math@tanh math@tanpi math@trunc parse@expr parse@json parse@toml rand@choose rand@shuffle string@chars string@get-width string@lines string@paragraphs string@to-string string@words sys@cd sys@defined? sys@import sys@include sys@parse sys@quote sys@unset time@sleep unbind
1 -: eval exec fmt@black fmt@blink fmt@blue fmt@bold fmt@cyan fmt@dark@black fmt@dark@blue fmt@dark@cyan fmt@dark@green fmt@dark@magenta fmt@dark@red fmt@dark@white fmt@dark@yellow fmt@faint fmt@green fmt@invert fmt@italics fmt@magenta fmt@red fmt@strike fmt@underline fmt@white fmt@yellow int keys len lines ops@% ops@* ops@+ ops@- ops@// ops@@ report str string@is-alpha? string@is-alphanumeric? string@is-lower string@is-numeric? string@is-title string@is-upper string@is-whitespace? string@to-lower string@to-title string@to-upper string@trim string@trim-end string@trim-start sys@eval sys@exec vals
2 2: console@cursor@move-to dict@difference dict@has? dict@intersect dict@remove dict@union err@try fmt@href fmt@wrap fn@apply fs@append fs@cp fs@head fs@mv fs@tail fs@write list@append list@chunk list@cons list@drop list@nth list@range list@split-at list@take list@zip math@a-rsh math@l-rsh math@log math@lsh math@pow math@rsh rand@int string@contains? string@ends-with? string@join string@split-at string@starts-with? sys@set to
3 3: console@write dict@insert fn@? insert list@foldl list@foldr string@replace
2 -: fn@curry ops@!= ops@< ops@<= ops@== ops@> ops@>= ops@| widget@joinx widget@joiny
4 4: widget@create
0 0: log@disable log@get-level
1 2: fn@filter fn@map string@caesar
1 3: fn@reduce
0 2: fs@tree""".strip().split("\n"):
    h, _, ks = spec.partition(":")
    lo, hi = h.split()
    for k in ks.split():
        ARITY[k] = (int(lo), None if hi == "-" else int(hi))
ARITY.pop("fs@tree")


def lens(o):
    return {x for t, v in o.st.conds() for x in subterms(t) if x.op == "len" and cstr(x) == "len(args)"}


EFFECT = re.compile(r"^(fs::|File::|Command::|Child::|Environment::(define|undefine|set_cwd|set_parent)|OpenOptions::open|Write\.|env::set|process::)")


@rule("P30", "For every registered builtin and every number of arguments 0..8 the feasible paths are determined from the conditions on the number of arguments; they must be "
      "errors without effects when the count is not a documented one, and must include a path that does not blame the count otherwise. Curried builtins: parameter order.")
def p30(cx, rep, tier):
    rep.rule("wrong argument count: an error, before anything is evaluated, printed or changed; documented count: accepted; curried builtins pass their parameters on in order")
    for k, (lo, hi) in sorted(ARITY.items()):
        e = cx.reg.entries.get(k)
        if e is None:
            rep.missing(k)
            continue
        if e.kind == "curried":
            rep.count("curried")
            if e.params and e.order and None not in e.params and None not in e.order:
                want = [p for p in e.params]
                if e.order != want:
                    rep.violation(k + ":curried", "the curried %s passes its parameters %s on as %s" % (k, e.params, e.order), {"name": e.name})
                if len(e.params) != len(set(e.params)):
                    rep.violation(k + ":curried-names", "the curried %s has two parameters of the same name" % k)
                if hi is not None and len(e.params) != hi:
                    rep.violation(k + ":curried-count", "the curried %s takes %d parameters; its function takes %d" % (k, len(e.params), hi))
            else:
                rep.undecided(k + ":curried", str((e.params, e.order)))
        if e.uid is None or e.uid not in cx.p.bodies:
            rep.undecided(k, "no analysable body")
            continue
        with Guard(rep, k):
            one(cx, rep, k, e.uid, lo, hi)


def one(cx, rep, k, u, lo, hi):
    outs = cx.builtin(u)
    rep.unit(u)
    if outs is None:
        rep.undecided(k, "budget")
        return
    top = 9 if hi is None else max(hi + 3, 6)
    for n in range(0, top):
        rep.count("obligations")
        good = False
        bad = None
        for o in outs:
            env = {x: n for x in lens(o)}
            vs = [value(t, env) for t, v in o.st.conds() if isinstance(v, bool)]
            if not all(value(t, env) in (None, v) for t, v in o.st.conds() if isinstance(v, bool)):
                continue
            s = cstr(o.ret) if o.ret is not None else o.kind
            about = re.search(r"(too (few|many) arguments|requires|expects? |argument)", s) and s.startswith("Err(CustomError(") and not any(
                e.kind == "prim" and e.name.startswith("Expression::eval") for e in o.st.events())
            inside = n >= lo and (hi is None or n <= hi)
            if inside:
                if not about:
                    good = True
                continue
            # decided by the count alone?
            sure = any(x.op == "len" and cstr(x) == "len(args)" for t, v in o.st.conds() if isinstance(v, bool) for x in subterms(t)) or not o.st.conds()
            eff = [e for e in walk(o.st.events()) if e.kind in ("print",) or e.kind == "prim" and e.name.startswith(("Expression::eval", "Environment::define", "Environment::undefine"))
                   or e.kind == "ext" and EFFECT.match(e.name)]
            iserr = o.kind == "ret" and o.ret.op == "adt" and o.ret.a[0] == RESULT and o.ret.a[1] == 1
            unknown = any(isinstance(v, bool) and value(t, env) is None and any(x in env for x in subterms(t)) for t, v in o.st.conds())
            if unknown:
                rep.undecided("%s:%d" % (k, n), conds_str(o)[:200])
                continue
            if o.kind == "ret" and not iserr and not any(isinstance(v, frozenset) and v == frozenset((1,)) for t, v in o.st.conds()):
                bad = (o, "is accepted")
            elif eff:
                bad = (o, "is reported only after %s" % eff[0].name)
        if bad:
            rep.violation("%s:%s" % (k, "few" if n < lo else "many"), "%s with %d arguments %s (documented: %s)" % (k, n, bad[1], lo if lo == hi else "%d or more" % lo if hi is None else "%d to %d" % (lo, hi)),
                          {"function": u, "path": conds_str(bad[0])})
        if n >= lo and (hi is None or n <= hi) and not good:
            rep.violation("%s:rejects" % k, "%s rejects %d arguments" % (k, n), {"function": u})
