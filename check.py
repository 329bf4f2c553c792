#!/usr/bin/env python3
"""check.py ID [quick|thorough] -- decide one property of /repo's current working tree by static analysis."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)


def main():
    import core, canon, report, rules
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if pid == "setup":
        core.ensure_dump()
        return 0
    r = rules.RULES[pid]
    rep = report.Report(pid)
    try:
        cx = core.Ctx()
    except core.BuildFailure as ex:
        print(ex)
        return 2
    canon.PROG = cx.p
    with report.Guard(rep, pid):
        r.fn(cx, rep, tier)
    return report.finish(cx, rep, r.level, tier, r.explain)


rc = [2]


def run():
    try:
        rc[0] = main()
    except BaseException:
        import traceback
        traceback.print_exc()


t = threading.Thread(target=run)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
