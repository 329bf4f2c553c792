#!/usr/bin/env python3
"""Development aid: apply textual mutations to a scratch copy of /repo and run checks on it.
usage: mut.py FILE [filter]   FILE defines M = [(name, props, file, old, new, expect)], expect: 1 caught, 0 quiet"""
import os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "/tmp/mutcopy"
if not os.path.isdir(C):
    subprocess.run(["git", "clone", "-q", "/repo", C], check=True)
subprocess.run("git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq src", shell=True, cwd=C, check=True)
M = runpy.run_path(sys.argv[1])["M"]
flt = sys.argv[2] if len(sys.argv) > 2 else ""
env = dict(os.environ, DUNE_REPO=C)
bad = 0
for name, props, f, old, new, exp in M:
    if flt not in name and flt not in props:
        continue
    p = os.path.join(C, f)
    s = open(p).read()
    if s.count(old) < 1:
        print("NOMATCH", name)
        continue
    open(p, "w").write(s.replace(old, new, 1))
    for pid in props.split(","):
        r = subprocess.run(["timeout", "600", sys.executable, "check.py", pid], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.split("\n") if l.startswith("  ") and not l.startswith("      ")]
        ok = r.returncode == exp
        bad += not ok
        print("%s %s %s rc=%d %s" % ("ok  " if ok else "MISS", name, pid, r.returncode, (v[0].strip()[:200] if v else r.stdout.strip()[-300:] if not ok else "")))
        sys.stdout.flush()
    open(p, "w").write(s)
print("bad:", bad)
