#!/usr/bin/env python3
"""Development aid: behaviour-preserving edits; every check must stay quiet on them.
usage: quiet.py FILE [filter] [--each]  FILE defines R = [(name, [(file, old, new)...])]; edits are applied together unless --each"""
import json, os, subprocess, sys, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.environ.get("QUIETCOPY", "/tmp/quietcopy")
if not os.path.isdir(C):
    subprocess.run(["git", "clone", "-q", "/repo", C], check=True)
R = runpy.run_path(sys.argv[1])["R"]
a = [x for x in sys.argv[2:] if not x.startswith("--")]
flt = a[0] if a else ""
R = [r for r in R if flt in r[0]]
for x in sys.argv[2:]:
    if x.startswith("--from="):
        names = [r[0] for r in R]
        R = R[names.index(x[7:]):]
env = dict(os.environ, DUNE_REPO=C)
PIDS = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


if os.environ.get("PIDS"):
    PIDS = os.environ["PIDS"].split(",")


def reset():
    subprocess.run("git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq src", shell=True, cwd=C, check=True)


def apply(r):
    for f, old, new in r[1]:
        p = os.path.join(C, f)
        s = open(p).read()
        if s.count(old) < 1:
            print("NOMATCH", r[0], old[:60])
            return
        open(p, "w").write(s.replace(old, new, 1))


def one(p):
    r = subprocess.run(["timeout", "900", sys.executable, "check.py", p], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, r.returncode, r.stdout


def check(name):
    r = subprocess.run([sys.executable, "check.py", "setup"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("BUILD", name, r.stdout[-1500:])
        return
    bad = []
    with ThreadPoolExecutor(7) as ex:
        for p, rc, out in ex.map(one, PIDS):
            if os.environ.get("UNDECIDED"):
                import re
                print("  ", p, re.findall(r"\d+ undecided", out))
            if rc:
                bad.append(p)
                for l in out.split("\n"):
                    if l.startswith("  ") and not l.startswith("      "):
                        print("   ALARM", name, p, l.strip()[:260])
                if rc != 1:
                    print("   RC", rc, out[-300:])
    print("quiet" if not bad else "ALARMS", name, " ".join(bad))
    sys.stdout.flush()


if "--each" in sys.argv:
    for r in R:
        reset()
        apply(r)
        check(r[0])
else:
    reset()
    for r in R:
        apply(r)
    check("batch of %d" % len(R))
