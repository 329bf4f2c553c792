"""Reporting: what a check found, what it covered, and the verdict."""
import json, os, sys, time, traceback
import core, canon, engine

KNOWN = os.path.join(core.VERIF, "known-findings.txt")


def known(pid):
    out = {}
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                d = l[len("finding:"):].strip()
                head, _, what = d.partition(" ")
                key, _, what = what.strip().partition(" ")
                if head == "property=" + pid and key.startswith("key="):
                    out[key[4:]] = what.strip()
    except IOError:
        pass
    return out


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.viol = {}
        self.und = {}
        self.counts = {}
        self.units = []
        self.rules = []
        self.samples = []
        self.t0 = time.time()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def unit(self, u):
        if u not in self.units:
            self.units.append(u)

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def violation(self, key, msg, detail=None):
        key = key.replace(" ", "_")
        if key not in self.viol:
            self.viol[key] = (msg, detail)

    def undecided(self, key, why=""):
        self.und.setdefault(key, why)

    def missing(self, what):
        self.violation("missing:" + what, "an anchor the rule needs is gone: " + what)


class Guard(object):
    """run one rule instance: a vanished public name is a violation, a failure of the analysis is 'undecided'"""

    def __init__(self, rep, what):
        self.rep, self.what = rep, what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, core.Missing):
            self.rep.missing(str(ev))
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit, core.BuildFailure)):
            return False
        if os.environ.get("SA_DEBUG"):
            traceback.print_exception(et, ev, tb)
        self.rep.undecided(self.what, "%s: %s" % (et.__name__, str(ev)[:200]))
        return True


def finish(cx, rep, level, tier, techn):
    fnd = known(rep.pid)
    replay = os.path.join(core.BUILD, "replay")
    os.makedirs(replay, exist_ok=True)
    bad, kn = [], []
    for k, (msg, det) in sorted(rep.viol.items()):
        if k in fnd:
            kn.append((k, msg))
        else:
            bad.append((k, msg, det))
    cov = {
        "explanation": techn,
        "rules": rep.rules,
        "functions_analysed": len(rep.units),
        "functions": sorted(u.replace("dunesh::binary::init::", "").replace("dune::", "dune::") for u in rep.units)[:120],
        "counts": rep.counts,
        "undecided": {k: v for k, v in sorted(rep.und.items())[:60]},
        "undecided_count": len(rep.und),
        "samples": rep.samples,
        "tree": os.path.basename(cx.dir),
        "bodies_in_dump": len(cx.p.bodies),
        "violations": [{"key": k, "what": m} for k, m, _ in bad],
        "known_findings": [{"key": k, "what": m} for k, m in kn],
    }
    if level == "proof":
        cov["obligations"] = rep.counts.get("obligations", 0)
        cov["discharged"] = rep.counts.get("discharged", 0)
    ev = {"property": rep.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - rep.t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=False)
        f.write("\n")
    for k, m in kn:
        print("KNOWN-FINDING: property=%s %s %s" % (rep.pid, k, fnd[k] or m))
    print("%s: %d functions, %s, %d undecided" % (rep.pid, len(rep.units), ", ".join("%d %s" % (v, k) for k, v in sorted(rep.counts.items())) or "nothing counted", len(rep.und)))
    for i, (k, m, det) in enumerate(bad):
        p = os.path.join(replay, "%s-%d.json" % (rep.pid, i))
        with open(p, "w") as f:
            json.dump({"property": rep.pid, "key": k, "what": m, "detail": det}, f, indent=1, ensure_ascii=False, default=str)
        print("  %s: %s" % (k, m))
        if det:
            print("      " + str(det)[:600].replace("\n", "\n      "))
        print("VIOLATION property=%s replay=%s" % (rep.pid, p))
    return 1 if bad else 0


ASSUME = [
    "the MIR rustc builds from /repo's working tree is what is analysed (cargo check --all-features, dev profile: overflow checks on)",
    "std and third-party functions behave as modelled in sa/models.py; functions without a model return an unknown value and may change what they can reach",
    "loops and recursion are generalised (every number of iterations); results an analysis cannot express in normal form are counted as undecided and never reported",
]
