#!/usr/bin/env python3
"""Regenerates DESIGN.md from dev/design_head.md, dev/props.py, known-findings.txt and the planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dev"))
import props
DET = {
 "P01": "Obligations are MIR assertions (index, overflow, division), `unwrap`/`expect`, slicing, `RefCell` borrows and documented panics of std (`Vec::split_at`, `Duration` arithmetic, `gen_range`). An obligation that concerns a text of the user (or a piece of one) at a constant position, without a fact that bounds the length, is reported: texts may be as short as they like.",
 "P02": "Every function reachable from the parser, tokenizer and error display.",
 "P20": "The log functions' summaries are interpreted for every level and several argument lists, including the reads and writes of the level (a cached or shared level is seen).",
 "P24": "The builtin's summary is interpreted on documents (nested tables, arrays, all scalar kinds, empty ones); the conversion functions are entered recursively. The reference converts the document directly.",
 "P31": "Reference implementations of each builtin run on models of environments with parents, aliases and shadowed names, next to the interpreted summary; arguments include values, names, failing and effectful expressions.",
 "P32": "A draw is an opaque value with its range; the reference demands the same range (choose: the same list; shuffle: a permutation of exactly the list).",
 "P36": "Written text is kept as pieces in order; the reference gives the documented text, cursor moves are compared as moves. The key table of `read-key` is compared with `console@keyboard@keys`.",
 "P37": "`exit` is interpreted for statuses around the 8- and 32-bit limits; the effect part says that no function reachable from another builtin, the evaluator or the parser ends the process.",
 "P13": "Besides the rules on `Environment`'s methods, about 4300 programs are evaluated by the interpreted summary of one turn of `eval_mut` next to a reference evaluator: calls whose bodies change the directory, shadow, capture many bindings, are macros, are curried, fail.",
 "P14": "`get_used_symbols` is interpreted on 470 expressions (all kinds nested, long ones, odd names): its result must contain every free name. What a closure captures is compared with the reference on the programs of P13.",
 "P15": "Every nested evaluation gets `depth + 1`, every further turn of the loop raises it, the limit is tested before anything is evaluated and is a constant. Builtins that restart at depth 0 are a known finding. The bound on the *native* stack is a quantity of the build: at the limit of 800 levels the dev build needs more than 8 MB for some shapes (`f f`) while the release build does not; the property is stated and decided on the depth, not on the size of frames.",
 "P06": "In addition, the programs of P13 on which the reference evaluator fails must fail with that error in the interpreted turn of the evaluator.",
 "P34": "Reference implementations on models of lists with closures, builtins and macros as functions, functions that fail, and scripts.",
}
out = [open(os.path.join(V, "dev", "design_head.md")).read().rstrip() + "\n"]
out.append("## Properties\n")
na = []
notes = {}
for p in props.PROPS:
    if p.get("na"):
        na.append("- **%s %s.** %s" % (p["id"], p["title"], p["na"]))
        continue
    out.append("### %s %s\n\n%s\n\n*Decided by* %s. %s%s\n\n*Why tests cannot settle it:* %s\n" % (
        p["id"], p["title"], p["statement"], p["tech"], p["note"], " " + DET[p["id"]] if p["id"] in DET else "", p["why"]))
out.append("### Not applicable\n\n" + "\n".join(na) + "\n")
out.append("## Defects of the pinned tree\n")
for l in open(os.path.join(V, "known-findings.txt")):
    if l.startswith("fixed:"):
        q = l.split(None, 3)
        out.append("- %s, commit `%s`: %s" % (q[1][9:], q[2], q[3].strip()))
    elif l.startswith("finding:"):
        q = l.split(None, 3)
        out.append("- %s, **not repaired** (`%s`): %s. Passing the depth through all builtins changes every builtin's signature; not a small repair." % (q[1][9:], q[2], q[3].strip()))
out.append("\n## Planted bugs\n\nEach is caught by the check of its property (`dev/plant.py` builds, tests and demonstrates them).\n\n| plant | property | what it breaks |\n|---|---|---|")
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out.append("| `%s` | %s | %s |" % (d, m["property"], " ".join(str(m["what_it_breaks"]).split()).replace("|", "\\|")[:300]))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
