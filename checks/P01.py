"""P01: a program the compiler accepts is never shown with a missing permission."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *


class P01(ACheck):
    pid = "P01"
    quick = 5600
    thorough = 200000
    rule = ("random functions over owned, borrowed, boxed, nested and Drop data, with branches, loops and matches; a case is "
            "non-trivial when the compiler accepts the program and at least 4 permission expectations were shown for it")

    def gen(self, src):
        p = gen_case(src)
        p.flows = src.below(4) == 0
        return p

    def judge(self, p):
        if self.rustc(p.code):
            self.count("rejected by the compiler")
            return []
        self.count("accepted")
        try:
            out = self.analyse(p.code, flows=p.flows)
            self.body(out, p.start)
        except Bad as e:
            return [e.v]
        bad, n = [], 0
        for o in out:
            if "Ok" not in o:
                bad.append(V("no result", f"an error for an accepted program: {o}"))
                continue
            for b in o["Ok"]["boundaries"]:
                n += 1
                m = missing(b)
                if m:
                    bad.append(V(f"missing {''.join(m)}", f"line {loc(b)[0]} column {loc(b)[1]}: expected {ps(b['expected'])}, shown as present {ps(b['actual'])}: {p.code.splitlines()[loc(b)[0]]}"))
                if (b.get("expecting_flow") or {}).get("is_violation"):
                    bad.append(V("flow violation", f"at {loc(b)}"))
        self.count("expectations shown", n)
        if len(self.body(out, p.start)["boundaries"]) >= 4:
            self.nontrivial(fn_text(p))
        return bad


if __name__ == "__main__":
    main(P01)
