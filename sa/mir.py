"""Loading of the MIR dump written by /verif/driver."""
import json, os, re


class Program:
    def __init__(self, files):
        self.types = []      # list of dict
        self.bodies = {}     # uid -> body
        self.adts = {}
        self.crates = []
        for f in files:
            d = json.load(open(f))
            base = len(self.types)
            self.crates.append(d["crate"])
            self.types += [self._shift_ty(t, base) for t in d["types"]]
            for n, a in d["adts"].items():
                for v in a["v"]:
                    v["f"] = [(x[0], x[1] + base if x[1] >= 0 else -1) for x in v["f"]]
                if n not in self.adts or a["local"]:
                    self.adts[n] = a
            for u, b in d["bodies"].items():
                self._shift_body(b, base)
                b["uid"] = u
                b["crate"] = d["crate"]
                self.bodies[u] = b
        self._tystr = {}
        self.children = {}
        for u, b in self.bodies.items():
            self.children.setdefault(b["parent"], []).append(u)

    # -- index shifting -------------------------------------------------
    def _shift_callee(self, c, base):
        c["a"] = [x + base for x in c["a"]]
        if "im" in c:
            c["im"] += base

    def _shift_ty(self, t, base):
        if "t" in t:
            t["t"] += base
        if "a" in t:
            t["a"] = [x + base for x in t["a"]]
        if "up" in t:
            t["up"] = [x + base for x in t["up"]]
        if "c" in t:
            self._shift_callee(t["c"], base)
        return t

    def _shift_place(self, p, base):
        for e in p[1]:
            if e[0] == ".":
                e[2] += base

    def _shift_op(self, o, base):
        if o["k"] in "pm":
            self._shift_place(o["p"], base)
        if "t" in o:
            o["t"] += base
        if "c" in o:
            self._shift_callee(o["c"], base)

    def _shift_body(self, b, base):
        for l in b["locals"]:
            l[0] += base
        if "im" in b:
            b["im"] += base
        if "tra" in b:
            b["tra"] = [x + base for x in b["tra"]]
        for u in b["up"]:
            self._shift_place(u[1], base)
        for bb in b["bb"]:
            for s in bb["s"]:
                self._shift_place(s[0], base)
                r = s[1]
                k = r[0]
                if k in ("use", "repeat"):
                    self._shift_op(r[1], base)
                elif k == "ref":
                    self._shift_place(r[2], base)
                elif k in ("rawptr", "discr"):
                    self._shift_place(r[1], base)
                elif k == "cast":
                    self._shift_op(r[2], base)
                    r[3] += base
                elif k == "bin":
                    self._shift_op(r[2], base)
                    self._shift_op(r[3], base)
                elif k == "un":
                    self._shift_op(r[2], base)
                elif k == "agg":
                    if "t" in r[1]:
                        r[1]["t"] += base
                    for o in r[2]:
                        self._shift_op(o, base)
            t = bb["t"]
            if t[0] == "drop":
                self._shift_place(t[1], base)
            elif t[0] == "switch":
                self._shift_op(t[1], base)
                t[4] += base
            elif t[0] == "call":
                self._shift_op(t[1], base)
                for o in t[2]:
                    self._shift_op(o, base)
                self._shift_place(t[3], base)
            elif t[0] == "assert":
                self._shift_op(t[1], base)
                for x in t[3]:
                    if isinstance(x, dict):
                        self._shift_op(x, base)

    # -- types -----------------------------------------------------------
    def tystr(self, i):
        if i < 0:
            return "?"
        s = self._tystr.get(i)
        if s is None:
            self._tystr[i] = "..."
            s = self._tystr[i] = self._ty(self.types[i])
        return s

    def _ty(self, t):
        k = t["k"]
        if k in ("bool", "char", "str"):
            return k
        if k == "never":
            return "!"
        if k in ("int", "float", "param", "other", "fnptr", "dyn"):
            return t["n"]
        if k == "adt":
            n = t["n"]
            if t["a"]:
                n += "<" + ",".join(self.tystr(x) for x in t["a"]) + ">"
            return n
        if k == "ref":
            return ("&mut " if t["m"] else "&") + self.tystr(t["t"])
        if k == "ptr":
            return ("*mut " if t["m"] else "*const ") + self.tystr(t["t"])
        if k == "slice":
            return "[" + self.tystr(t["t"]) + "]"
        if k == "array":
            return "[%s;%s]" % (self.tystr(t["t"]), t["len"])
        if k == "tuple":
            return "(" + ",".join(self.tystr(x) for x in t["a"]) + ")"
        if k == "closure":
            return "closure:" + t["n"]
        if k == "fndef":
            return "fn:" + t["c"]["p"]
        return "?"

    # -- pretty printing ---------------------------------------------------
    def pp_place(self, p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e[0] == "*":
                s = "(*%s)" % s
            elif e[0] == ".":
                s += ".%d" % e[1]
            elif e[0] == "v":
                s += "@%d" % e[1]
            elif e[0] == "[]":
                s += "[_%d]" % e[1]
            else:
                s += str(e)
        return s

    def pp_op(self, o):
        if o["k"] in "pm":
            return ("move " if o["k"] == "m" else "") + self.pp_place(o["p"])
        if o["k"] == "fn":
            c = o["c"]
            return "fn[%s%s%s%s]<%s>" % (c["p"], " =>" + c["ru"] if "ru" in c else "",
                                   " L" if c.get("rl") else "", " ctor" if "ctor" in c else "",
                                   ",".join(self.tystr(x) for x in c["a"]))
        if o["k"] == "c":
            for k in ("v", "s", "bytes", "static", "def"):
                if k in o:
                    return "const %s %r: %s" % (k, o[k], self.tystr(o["t"]))
            return "const ?: " + self.tystr(o["t"])
        return str(o)

    def pp_rv(self, r):
        k = r[0]
        if k == "use":
            return self.pp_op(r[1])
        if k == "ref":
            return ("&mut " if r[1] else "&") + self.pp_place(r[2])
        if k == "discr":
            return "discr(%s)" % self.pp_place(r[1])
        if k == "cast":
            return "cast[%s] %s as %s" % (r[1], self.pp_op(r[2]), self.tystr(r[3]))
        if k == "bin":
            return "%s(%s, %s)" % (r[1], self.pp_op(r[2]), self.pp_op(r[3]))
        if k == "un":
            return "%s(%s)" % (r[1], self.pp_op(r[2]))
        if k == "agg":
            return "agg %s [%s]" % ({a: b for a, b in r[1].items()}, ", ".join(self.pp_op(o) for o in r[2]))
        return str(r)

    def pp(self, uid, cleanup=False):
        b = self.bodies[uid]
        out = ["fn %s (%s) argc=%d" % (uid, b["p"], b["argc"])]
        for i, l in enumerate(b["locals"]):
            out.append("  let _%d: %s %s" % (i, self.tystr(l[0]), l[1] if len(l) > 1 else ""))
        for n, p in b["up"]:
            out.append("  debug %s = %s" % (n, self.pp_place(p)))
        for i, bb in enumerate(b["bb"]):
            if bb["cu"] and not cleanup:
                continue
            out.append("bb%d:" % i)
            for s in bb["s"]:
                out.append("    %s = %s   // %d" % (self.pp_place(s[0]), self.pp_rv(s[1]), s[2][1]))
            t = bb["t"]
            if t[0] == "call":
                out.append("    %s = call %s(%s) -> %s  // %d" % (
                    self.pp_place(t[3]), self.pp_op(t[1]), ", ".join(self.pp_op(o) for o in t[2]), t[4], t[5][1]))
            elif t[0] == "switch":
                out.append("    switch %s %s else %d" % (self.pp_op(t[1]), t[2], t[3]))
            elif t[0] == "assert":
                out.append("    assert %s == %s %s -> %d" % (self.pp_op(t[1]), t[2], [self.pp_op(x) if isinstance(x, dict) else x for x in t[3]], t[4]))
            elif t[0] == "drop":
                out.append("    drop %s -> %d" % (self.pp_place(t[1]), t[2]))
            else:
                out.append("    " + str(t))
        return "\n".join(out)


def load(d):
    return Program([os.path.join(d, "dune.json"), os.path.join(d, "dunesh.json")])


if __name__ == "__main__":
    import sys
    p = load("/verif/build/mir")
    if len(sys.argv) == 1:
        for u, b in p.bodies.items():
            print(u, b["kind"], len(b["bb"]))
    else:
        for u in p.bodies:
            if re.search(sys.argv[1], u):
                print(p.pp(u))
