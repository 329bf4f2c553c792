#!/usr/bin/env python3
"""Development aid: turn planted-bug definitions into /verif/seeded/<id>/ and confirm them in a scratch copy.
usage: plant.py FILE [filter]     FILE defines B = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=script)]"""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "/tmp/plantcopy"
if not os.path.isdir(C):
    subprocess.run(["cp", "-a", "/repo", C], check=True)
else:
    subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq src", shell=True, cwd=C, check=True)
env = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=C + "/target", RUSTUP_TOOLCHAIN="stable")
STABLE = json.load(open("/opt/vp/BASELINE.json"))
HEAD = """#!/bin/bash
# cwd: /repo after build.sh. Exit 0: the property holds on this input.
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
export HOME="$D" XDG_CONFIG_HOME="$D" XDG_DATA_HOME="$D"
R=$PWD
BIN=$R/target/debug/dunesh
dune() { ( cd "$D" && timeout 60 "$BIN" "$@" 2>&1 </dev/null ); }
# expect CODE WANTED: CODE's printed output must be WANTED
expect() { local got; printf '%s' "$1" > "$D/demo.ds"; got=$(dune "$D/demo.ds"); if [ "$got" != "$2" ]; then printf 'code:   %s\\nwanted: %s\\ngot:    %s\\n' "$1" "$2" "$got"; exit 1; fi; }
"""


def sh(cmd, cwd=C, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def build():
    r = sh("cargo test --workspace --all-targets --no-run --offline && cargo test --workspace --all-targets --all-features --no-run --offline")
    return r.returncode == 0, r.stdout


def stable():
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8")
    ok = {l.split()[1] for l in r.stdout.split("\n") if l.startswith("test ") and l.endswith("... ok")}
    names = STABLE.get("passed") or STABLE.get("stable") or STABLE
    return len(ok)


B = runpy.run_path(sys.argv[1])["B"]
flt = sys.argv[2] if len(sys.argv) > 2 else ""
ok, out = build()
assert ok, out[-2000:]
base = stable()
sel = [b for b in B if flt in b["id"]]
fresh = {}
for b in sel:
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write(HEAD + b["demo"].strip("\n") + "\nexit 0\n")
    os.chmod(d + "/demo.sh", 0o755)
    r = sh("bash %s/demo.sh" % d)
    fresh[b["id"]] = (r.returncode, r.stdout)
for b in sel:
    d = os.path.join(V, "seeded", b["id"])
    bad = None
    for f, old, new in b["edits"]:
        p = os.path.join(C, f)
        s = open(p).read()
        if s.count(old) != 1:
            bad = "%d matches of %r" % (s.count(old), old[:60])
            break
        open(p, "w").write(s.replace(old, new))
    if not bad:
        diff = sh("git diff -- src").stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok, out = build()
        if not ok:
            bad = "build: " + out[-1500:]
        elif stable() != base:
            bad = "tests"
        else:
            r = sh("bash %s/demo.sh" % d)
            if fresh[b["id"]][0] != 0:
                bad = "demo fails on the unchanged tree: " + fresh[b["id"]][1][-400:]
            elif r.returncode == 0:
                bad = "demo passes with the patch"
    if bad:
        print("BAD ", b["id"], bad)
        shutil.rmtree(d)
    else:
        e2 = dict(os.environ, DUNE_REPO=C)
        c = subprocess.run(["timeout", "900", sys.executable, "check.py", b["prop"]], cwd=V, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in c.stdout.split("\n") if l.startswith("  ") and not l.startswith("      ")]
        print("good" if c.returncode == 1 else "MISSED(%d)" % c.returncode, b["id"], (v[0].strip()[:170] if v else c.stdout[-200:] if c.returncode else ""))
    sys.stdout.flush()
    sh("git checkout -q -- src")
print("baseline tests ok:", base)
