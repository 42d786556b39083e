"""P06: the permission steps lead to the state the compiler grants before the next statement."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *
from probe import Probes
from live import liveness

KEYS = {"R": "read", "W": "write", "O": "drop"}


def decls(s):
    return s.decls or ([s.decl] if s.decl else [])


def value(step):
    """(before, after) of a permission's step."""
    return {"High": (False, True), "Low": (True, False), "None": (step.get("value"),) * 2}[step["type"]]


class P06(ACheck):
    pid = "P06"
    quick = 1600
    thorough = 60000
    rule = ("random functions as for P01, in the default view (changes); at up to four statements per program the change shown for every "
            "place in scope is compared with liveness computed from the source and with the compiler's verdict on a read, "
            "write or move inserted before and after the statement; non-trivial: some permission is gained or lost at a compared statement")

    def gen(self, src):
        p = gen_case(src)
        p.at = [src.below(64) for _ in range(4)]
        return p

    def judge(self, p):
        if self.rustc(p.code):
            self.count("rejected by the compiler")
            return []
        try:
            steps = self.body(self.analyse(p.code), p.start)["steps"]
        except Bad as e:
            return [e.v]
        shown = collections.defaultdict(list)
        for st in steps:
            for t in st["state"]:
                shown[st["location"]["end"]["line"]] += t["state"]
        live = liveness(p)
        # statement, the one before it and the one after it in its block
        cand = []

        def walk(b, top):
            for i, s in enumerate(b):
                nxt = b[i + 1] if i + 1 < len(b) else None
                if s.kind in ("let", "simple") and nxt is not None and nxt.kind not in ("while", "loop", "block", "for") and not s.feats & {"letif"}:
                    cand.append((s, s.line, nxt, i > 0 and s.kind in ("let", "simple") and b[i - 1].kind in ("let", "simple")))
                for j, bb in enumerate(s.blocks):
                    if bb and bb[0].kind in ("let", "simple", "if", "match", "iflet") and not bb[0].elseif and not bb[0].feats & {"letif"}:
                        cand.append((s, bb[0].line - 1, bb[0], s.kind == 'if' and j == 0 and i > 0 and b[i - 1].kind in ('let', 'simple')))  # entering the block
                    walk(bb, False)
        walk(p.body, True)
        pr = Probes(p)
        bad, asks, same = [], [], []
        lines = p.code.splitlines()
        for k in sorted({x % len(cand) for x in p.at} if cand else ()):
            s, line, nxt, has_before = cand[k]
            entries = collections.defaultdict(list)
            for name, d in shown.get(line, []):
                entries[name].append(d)
            vars = [p.gen.byuid[u] for u, *_ in nxt.scope]
            for v in vars:
                l0, l1 = v.uid in live[s.sid] and v not in decls(s), v.uid in live[nxt.sid]
                ps_ = []
                p.gen._expand(Place(v.uid, v.name, (), v.ty), ps_, True, 8)
                for pl in ps_:
                    if pl.auto:
                        continue
                    es = entries.pop(pl.shown(), [])
                    where = f"line {line} {lines[line].strip()!r}, place {pl.shown()}"
                    if len(es) > 1:
                        bad.append(V("shown twice", where))
                    if not es:
                        # nothing changes
                        if has_before and v not in decls(s):
                            for perm in "RWO":
                                if not (perm == "O" and (is_copy(pl.ty) or s.loopdepth > v.loopdepth)):
                                    same.append((where, perm, l0, l0 and pr.ask(s.sid, pl.text(), perm), l1, l1 and pr.ask(nxt.sid, pl.text(), perm)))
                        continue
                    d = es[0]
                    b, a = value(d["is_live"])
                    if (a or False) != l1:
                        bad.append(V(f"liveness after, {s.kind}", f"{where}: shown {'live' if a else 'dead'} after, but it is {'live' if l1 else 'dead'}"))
                        continue
                    if (b or False) != l0 and has_before:
                        bad.append(V(f"liveness before, {s.kind}", f"{where}: shown {'live' if b else 'dead'} before, but it is {'live' if l0 else 'dead'}"))
                        continue
                    for perm in "RWO":
                        if perm == "O" and (is_copy(pl.ty) or s.loopdepth > v.loopdepth):
                            continue
                        st = d["permissions"][KEYS[perm]]
                        sb, sa = value(st)
                        asks.append((where, perm, "after", sa, l1, pr.ask(nxt.sid, pl.text(), perm) if l1 else None, st["type"]))
                        if has_before and v not in decls(s):
                            asks.append((where, perm, "before", sb, l0, pr.ask(s.sid, pl.text(), perm) if l0 else None, st["type"]))
            clos = {v.name for v in vars if str(v.ty).startswith("closure")}
            # the contents of an enum, the captures of a closure
            entries = [n for n in entries if "@" not in n and not (n.lstrip("*(").split(".")[0] in clos and "." in n)]
            if entries:
                bad.append(V("unknown place", f"line {line} {lines[line].strip()!r}: {entries}"))
        res = pr.run(self.rustc)
        bad2, change = [], False
        for where, perm, when, got, lv, q, typ in asks:
            want = bool(lv and res[q])
            self.count(f"{perm} {'granted' if want else 'refused' if lv else 'dead'}")
            change = change or typ != "None"
            if bool(got) != want:
                bad2.append((where, perm, when, got, want, q))
        if change:
            self.nontrivial(fn_text(p))
        for where, perm, l0, q0, l1, q1 in same:
            b, a = bool(l0 and res[q0]), bool(l1 and res[q1])
            self.count("unchanged" if a == b else "change not shown")
            if a != b:
                bad2.append((where, perm, "after", b, a, q1 or None))
        if bad2:
            pol = pr.run(self.rustc, "-Zpolonius")
            keep = [x for x in bad2 if x[5] is None or pol[x[5]] == x[4]]
            self.count("skipped: NLL and Polonius disagree", len(bad2) - len(keep))
            bad += [V(f"{perm} {'shown' if got else 'not shown'} {when}", f"{where}: {perm} {when} the statement is shown as {got}, it is {want}")
                    for where, perm, when, got, want, q in keep]
        return bad


is_copy = progen.is_copy

if __name__ == "__main__":
    main(P06)
