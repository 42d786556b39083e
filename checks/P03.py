"""P03: every use of a place in an accepted program gets exactly one expectation, at its place, of its kind."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *


class P03(ACheck):
    pid = "P03"
    quick = 5600
    thorough = 200000
    rule = ("random functions as for P01; the generator records for every place it writes where the expectation belongs and which "
            "permissions the use needs; non-trivial: accepted, and at least 3 different (kind, permissions) pairs among its uses")

    def gen(self, src):
        return gen_case(src)

    def judge(self, p):
        if self.rustc(p.code):
            self.count("rejected by the compiler")
            return []
        try:
            got_b = self.body(self.analyse(p.code), p.start)["boundaries"]
        except Bad as e:
            return [e.v]
        lines = p.code.splitlines()
        got, want = collections.defaultdict(list), collections.defaultdict(list)
        for b in got_b:
            got[loc(b)].append(ps(b["expected"]))
        kinds = set()
        for u in p.uses():
            if u.exp:
                want[(u.line, u.col)].append(u.exp)
                kinds.add((u.kind, u.exp))
                self.count(f"{u.kind} {u.exp}")
        if len(kinds) >= 3:
            self.nontrivial(fn_text(p))
        bad = []
        for k in sorted(set(got) | set(want)):
            g, w = sorted(got.get(k, [])), sorted(want.get(k, []))
            if g != w:
                bad.append(V(f"expected {w} shown {g}", f"at line {k[0]} column {k[1]}: {lines[k[0]]!r}: the use needs {w}, the output shows {g}"))
        return bad


if __name__ == "__main__":
    main(P03)
