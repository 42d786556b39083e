"""P07: the view of changes is the view of everything without the places whose permissions do not change."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *


def nofile(x):
    """Without the file names, which are numbers given in order of use."""
    if isinstance(x, dict):
        return {k: nofile(v) for k, v in x.items() if k != "filename"}
    return [nofile(v) for v in x] if isinstance(x, list) else x


class P07(ACheck):
    pid = "P07"
    quick = 2400
    thorough = 100000
    rule = "random functions; non-trivial: the view of everything has both places that change and places that do not"

    def gen(self, src):
        p = gen_case(src, bad=[0, 0, 20][src.below(3)])
        p.default = src.below(4) == 0
        return p

    def judge(self, p):
        if self.rustc(p.code):
            self.count("rejected by the compiler")
        try:
            al = self.body(self.analyse(p.code, mode="All", should_fail=True), p.start)
            ch = self.body(self.analyse(p.code, mode="Changes", should_fail=True), p.start)
            de = self.body(self.analyse(p.code, should_fail=True), p.start) if p.default else None
        except Bad as e:
            return [e.v]

        def table(o, keep):
            out = {}
            for st in o["steps"]:
                for t in st["state"]:
                    for name, d in t["state"]:
                        changed = any(d["permissions"][k]["type"] != "None" for k in ("read", "write", "drop"))
                        self.count("changed" if changed else "unchanged")
                        if keep or changed:
                            out[(st["location"]["start"]["line"], st["location"]["start"]["column"], name)] = d
            return out
        a, c, d = table(al, False), table(ch, True), (table(de, True) if de else None)
        bad = []
        if a and len(a) < len(table(al, True)):
            self.nontrivial(fn_text(p))
        if d is not None and c != d:
            bad.append(V("default", "the view of changes is not the default"))
        for k in sorted(set(a) | set(c)):
            if a.get(k) != c.get(k):
                bad.append(V("views differ", f"{k}: {a.get(k)} {c.get(k)}"))
        for k in ("boundaries", "loan_points", "loan_regions", "body_range"):
            if nofile(al[k]) != nofile(ch[k]):
                bad.append(V(k, ""))
        return bad


if __name__ == "__main__":
    main(P07)
