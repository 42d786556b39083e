"""P02: a rejected program shows the missing permission at its first error, and none before it."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *

CODES = {"E0381", "E0382", "E0499", "E0500", "E0501", "E0502", "E0503", "E0505", "E0506", "E0507", "E0509", "E0594", "E0596"}


def needed(code, msg):
    """The permission the error says is missing."""
    if code in ("E0381", "E0382", "E0503"):
        return "R"
    if code in ("E0499", "E0500", "E0594", "E0596", "E0506"):
        return "W"
    if code in ("E0505", "E0507", "E0509"):
        return "O"
    if code in ("E0501", "E0502"):
        return "W" if " as mutable because" in msg else "R"


class P02(ACheck):
    pid = "P02"
    quick = 9000
    thorough = 200000
    rule = ("random functions, a share of whose statements ignore the borrow rules; non-trivial: rejected, and the first error is a "
            "borrow-check error located at a displayed place")

    def gen(self, src):
        p = gen_case(src, **[{"bad": 15}, {"bad": 40}, {"conflict": 40}, {"conflict": 60}, {"x": 1, "loopmove": 1}][src.below(5)])
        p.should_fail = src.below(4) > 0
        return p

    def judge(self, p):
        errs = self.rustc(p.code)
        if not errs:
            self.count("accepted")
            return []
        errs.sort(key=lambda e: (e[1], e[2]))
        if any(e[0] not in CODES for e in errs):
            self.count("other errors: " + ",".join(sorted({str(e[0]) for e in errs} - CODES)))
            return []
        try:
            bs = self.body(self.analyse(p.code, should_fail=p.should_fail), p.start)["boundaries"]
        except Bad as e:
            return [e.v]
        lines = p.code.splitlines()
        e = errs[0]
        perm = needed(e[0], e[3])
        miss = [b for b in bs if missing(b)]
        bad = []
        # a pattern that moves some of the fields is displayed as a move of the whole place
        whole = {(u.line, u.col) for u in p.uses() if u.kind == "destructured"}
        for b in miss:
            if loc(b) in whole:
                continue
            # (of several uses of one moved value the compiler reports a single one)
            if loc(b)[0] < e[1] and not b["data"].get("path_moved") and not b["data"]["path_uninitialized"]:
                bad.append(V("missing before the first error", f"at {loc(b)} {lines[loc(b)[0]]!r} {missing(b)} is shown missing; the first error is {e}"))
        here = [u for u in p.uses() if u.exp and (u.line, u.col) >= (e[1], e[2]) and (u.line, u.col) <= (e[4], e[5])]
        if e[0] in ("E0506", "E0594") or e[3].startswith("assign to part"):
            here = [u for u in here if u.kind in ("opassign", "derefassign") and (u.line, u.col) == (e[1], e[2])]
        if perm == "O":
            # what a pattern moves is not displayed
            here = [u for u in here if u.kind != "match"]
        if here:
            self.nontrivial(fn_text(p))
            self.count("first error " + e[0])
            hit = [b for b in miss if (e[1], e[2]) <= loc(b) <= (e[4], e[5]) and perm in missing(b)]
            if not hit:
                bad.append(V(f"{e[0]} not shown {here[0].kind}", f"first error {e}: {lines[e[1]]!r}; shown there: {[(loc(b), ps(b['expected']), ps(b['actual'])) for b in bs if loc(b)[0] == e[1]]}"))
        else:
            self.count(f"first error elsewhere {e[0]}")
        return bad


if __name__ == "__main__":
    main(P02)
