"""P04: the permissions shown as present are those the compiler grants at that point."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *
from probe import Probes


def undisturbed(s):
    """The uses of the statement which see the state before it: nothing evaluated earlier changes a permission."""
    us = [t for t in s.toks if isinstance(t, Use)]
    # the assigned place is evaluated last
    us = [u for u in us if u.kind not in ("assign", "opassign", "derefassign")] + [u for u in us if u.kind in ("opassign", "derefassign")]
    out = []
    for u in us:
        out.append(u)
        # reading through a reference may be its last use, after which what it borrows is free again
        pure = (u.exp == "R" and u.kind in ("print", "match", "value", "recv") and "*" not in u.place.path
                and not progen.is_ref(u.place.ty) and not (u.kind == "recv" and s.kind == "let"))
        if not pure:
            break
    return out


class P04(ACheck):
    pid = "P04"
    quick = 2400
    thorough = 80000
    rule = ("random functions as for P01; for each use that sees the state before its statement, copies of the function with a "
            "read, write or move of the place inserted there are compiled, and their acceptance compared with the displayed "
            "presence of R, W, O; non-trivial: accepted program in which at least one asked permission is absent and one present")

    def gen(self, src):
        return gen_case(src)

    def judge(self, p):
        if self.rustc(p.code):
            self.count("rejected by the compiler")
            return []
        try:
            bs = self.body(self.analyse(p.code), p.start)["boundaries"]
        except Bad as e:
            return [e.v]
        at = collections.defaultdict(list)
        for b in bs:
            at[loc(b)].append(b)
        pr = Probes(p)
        asked = []
        for s in p.stmts():
            if s.kind == "while" or "letif" in s.feats:
                continue  # the condition is evaluated again after the body; the branches see other states
            for u in undisturbed(s):
                got = at.get((u.line, u.col), [])
                if not u.exp or len(got) != 1 or u.kind == "coerce":
                    continue
                for perm in "RWO":
                    if perm == "O" and (is_copy(u.place.ty) or self.outer(p, s, u)):
                        continue
                    asked.append((u, got[0], perm, pr.ask(s.sid, u.place.text(), perm)))
        res = pr.run(self.rustc)
        bad, vals = [], collections.Counter()
        for u, b, perm, q in asked:
            want, shown = res[q], perm in ps(b["actual"])
            vals[want] += 1
            self.count(f"{perm} {'granted' if want else 'refused'}")
            if want != shown:
                bad.append((u, perm, shown, q))
        if vals[True] and vals[False]:
            self.nontrivial(fn_text(p))
        if bad:
            pol = pr.run(self.rustc, "-Zpolonius")
            keep = [x for x in bad if pol[x[3]] != x[2]]
            self.count("skipped: NLL and Polonius disagree", len(bad) - len(keep))
            bad = keep
        lines = p.code.splitlines()
        return [V(f"{perm} {'shown but refused' if shown else 'granted but not shown'}: {u.kind} {shape(u.place)}",
                  f"line {u.line} column {u.col} {lines[u.line]!r}, place {u.place.text()}: {perm} is "
                  + ("shown as present, the compiler refuses it" if shown else "not shown, the compiler grants it"))
                for u, perm, shown, q in bad]

    def outer(self, p, s, u):
        """A move inside a loop of something declared outside it."""
        return s.loopdepth > p.gen.byuid[u.place.var].loopdepth


def shape(pl):
    return ".".join("*" if q == "*" else "f" for q in pl.path)


is_copy = progen.is_copy

if __name__ == "__main__":
    main(P04)
