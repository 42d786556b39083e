"""P05: the reasons given for a permission are consistent with it, and name the borrow the compiler names."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *


def pos(p):
    return (p["line"], p["column"])


def rng(r):
    return pos(r["start"]) + pos(r["end"])


LOANS = ("loan_read_refined", "loan_write_refined", "loan_drop_refined")


class P05(ACheck):
    pid = "P05"
    quick = 3200
    thorough = 200000
    rule = ("random functions, accepted ones and ones which access borrowed places; non-trivial: at least one displayed permission is "
            "refined by a loan")

    def gen(self, src):
        return gen_case(src, **[{}, {"conflict": 40}, {"conflict": 60}, {"bad": 30}, {"x": 1, "loopmove": 1, "depth": 3, "stmts": 16}][src.below(5)])

    def judge(self, p):
        errs = sorted(self.rustc(p.code), key=lambda e: (e[1], e[2]))
        try:
            outs = self.analyse(p.code, should_fail=True)
            o = self.body(outs, p.start)
        except Bad as e:
            if errs:
                raise Skip("no result for a rejected program")
            return [e.v]
        bad = []
        b0, b1 = pos(o["body_range"]["start"]), pos(o["body_range"]["end"])
        if (b0[0], b1[0]) != (p.start, p.end) or p.code.splitlines()[b1[0]] != "}":
            bad.append(V("body range", f"{b0}-{b1}, the function is at lines {p.start}-{p.end}"))

        def key(k, what):
            if str(k) not in o["loan_points"] or str(k) not in o["loan_regions"]:
                bad.append(V("loan key without point or region", f"loan {k} of {what}"))
                return
            self.count("loan keys")

        def inside(r, what):
            s, e = (r[0], r[1]), (r[2], r[3])
            if not (b0 <= s <= e <= b1):
                bad.append(V("outside of the body: " + what, f"{r} in {b0}-{b1}"))

        if set(o["loan_points"]) != set(o["loan_regions"]):
            bad.append(V("loan points and regions differ", f"{sorted(o['loan_points'])} {sorted(o['loan_regions'])}"))
        for k, r in o["loan_points"].items():
            inside(rng(r), "loan point")
        for k, r in o["loan_regions"].items():
            if r["refiner_point"] != {"Loan": int(k)}:
                bad.append(V("refiner", f"region of loan {k} has refiner {r['refiner_point']}"))
            rs = [rng(x) for x in r["refined_ranges"]]
            for x in rs:
                inside(x, "loan region")
                if k in o["loan_points"] and x[:2] < rng(o["loan_points"][k])[:2]:
                    bad.append(V("loan region before the loan", f"loan {k} at {rng(o['loan_points'][k])}: {rs}"))
            for x, y in zip(rs, rs[1:]):
                if not (x[2], x[3]) < (y[0], y[1]):
                    bad.append(V("loan region ranges overlap or are not in order", f"loan {k}: {rs}"))
        # Where control flows straight on, a region has every use after its loan or move that lacks something because of it, and no use that is permitted.
        straight = all(q.kind in ("simple", "let", "ret") and not q.blocks for q in p.stmts()) and not any(w in p.code for w in (" if ", "||", "match ", "loop ", "while ", "for ", "move |", "?"))
        if straight:
            self.count("straight")
            bad += self.regions(p, o)
        refined = 0
        for b in o["boundaries"]:
            d = b["data"]
            mv = d.get("path_moved")
            read = mv is None and not d["path_uninitialized"] and d.get(LOANS[0]) is None
            want = {"read": read, "write": d["type_writeable"] and read and d.get(LOANS[1]) is None,
                    "drop": d["type_droppable"] and read and d.get(LOANS[2]) is None}
            if want != b["actual"]:
                bad.append(V("reasons", f"at {loc(b)}: shown {ps(b['actual'])}, the reasons give {ps(want)}: {d}"))
            inside(loc(b) * 2, "expectation")
            for l in LOANS:
                if d.get(l) is not None:
                    refined += 1
                    key(d[l], f"{l} at {loc(b)}")
            if d.get(LOANS[0]) is not None and (d.get(LOANS[1]) is None or d.get(LOANS[2]) is None):
                bad.append(V("a loan that removes R but not W and O", f"at {loc(b)}: {d}"))
            if (d.get(LOANS[1]) is None) != (d.get(LOANS[2]) is None):
                bad.append(V("a loan that removes only one of W and O", f"at {loc(b)}: {d}"))
            if mv is not None and str(mv) not in o["move_points"]:
                bad.append(V("move key without point", f"move {mv} at {loc(b)}"))
        for k, r in o["move_points"].items():
            inside(rng(r), "move point")
        for k, r in o["move_regions"].items():
            if r["refiner_point"] != {"Move": int(k)} or k not in o["move_points"]:
                bad.append(V("move refiner", f"region of move {k} has refiner {r['refiner_point']}"))
                continue
            rs = [rng(x) for x in r["refined_ranges"]]
            for x in rs:
                inside(x, "move region")
                if x[:2] < rng(o["move_points"][k])[:2]:
                    bad.append(V("move region before the move", f"move {k} at {rng(o['move_points'][k])}: {rs}"))
            for x, y in zip(rs, rs[1:]):
                if not (x[2], x[3]) < (y[0], y[1]):
                    bad.append(V("move region ranges overlap or are not in order", f"move {k}: {rs}"))
        for st in o["steps"]:
            inside(rng(st["location"]), "step")
            for t in st["state"]:
                for name, d in t["state"]:
                    for l in LOANS:
                        if d[l].get("value") is not None:
                            key(d[l]["value"], f"step of {name} at {rng(st['location'])}")
                    mk = d["path_moved"].get("value")
                    if mk is not None:
                        self.count("move keys")
                        if str(mk) not in o["move_points"] or str(mk) not in o["move_regions"]:
                            bad.append(V("move key without point", f"step of {name} at {rng(st['location'])}"))
        if refined:
            self.nontrivial(fn_text(p))
        if errs and errs[0][0] == "E0382":
            e = errs[0]
            sp = [x for x in e[6] if x[4].startswith("value moved here")]
            bs = [b for b in o["boundaries"] if missing(b) and (e[1], e[2]) <= loc(b) <= (e[4], e[5])]
            if len(sp) == 1 and bs:
                got = {rng(o["move_points"][str(b["data"]["path_moved"])]) for b in bs if b["data"].get("path_moved") is not None}
                here = [u for u in p.uses() if (e[1], e[2]) <= (u.line, u.col) <= (e[4], e[5])]
                loops = {q.sid for q in p.stmts() if q.loopdepth}
                s_loop = lambda u: u.sid in loops
                self.count("compared with the move the compiler names" + (", in the previous iteration" if "previous" in sp[0][4] else ""))
                others = {u.line for u in p.uses() if u.exp == "RO" and s_loop(u)
                          for w in here if u.place.var == w.place.var}
                if any(u.kind in ("assign", "opassign", "derefassign") and u.place.path and u.place.var in {w.place.var for w in here} for u in p.uses()):
                    self.count("not compared: a part of the place is assigned")  # this ends the move, for the analysis
                elif "previous" in sp[0][4] and any(w in p.code.splitlines()[g[0]] for g in got for w in ("=>", "if let ")):
                    self.count("not compared: a pattern in the loop moves, too")
                elif not any(g == sp[0][:4] or g[0] in others for g in got):
                    bad.append(V("E0382 other move", f"{e}: the diagram blames {got}: {[p.code.splitlines()[g[0]] for g in got]}"))
        if errs and errs[0][0] in ("E0499", "E0502", "E0503", "E0505"):
            e = errs[0]
            sp = [x for x in e[6] if x[4].endswith(("borrow occurs here", "is borrowed here")) and (x[:2] != (e[1], e[2]))
                  or x[4].startswith("borrow of ")]
            bs = [b for b in o["boundaries"] if missing(b) and (e[1], e[2]) <= loc(b) <= (e[4], e[5])]
            if len(sp) == 1 and bs:
                got = {rng(o["loan_points"][str(b["data"][l])]) for b in bs for l in LOANS
                       if b["data"].get(l) is not None and str(b["data"][l]) in o["loan_points"]}
                self.count("compared with the borrow the compiler names")
                def root(r):
                    """The variable borrowed at a span."""
                    us = [u.place.var for u in p.uses() if u.line == r[0] and r[1] <= u.col <= r[3]]
                    return us[0] if us else None
                # several live borrows of one variable: any of them
                if not any(g == sp[0][:4] or (p.code.splitlines()[g[0]][g[1]:].startswith("||") and g[:2] == sp[0][:2]) or root(g) == root(sp[0]) for g in got):
                    bad.append(V(f"{e[0]} other borrow", f"{e}: the diagram blames {got}: {[p.code.splitlines()[g[0]] for g in got]}"))
        return bad

    def regions(self, p, o):
        bad, lines = [], p.code.splitlines()
        borrowed = {}
        for k, r in o["loan_points"].items():
            x = rng(r)
            us = [u for u in p.uses() if x[:2] <= (u.line, u.col) < x[2:]]
            if len(us) == 1 and lines[x[0]][x[1]:].startswith("&"):
                borrowed[k] = us[0].place
        def parts(kind, k, b):
            # the reason's position, and whether this place is in its region
            k = str(k)
            if k not in o[kind + "_points"] or k not in o[kind + "_regions"]:
                return None
            at = rng(o[kind + "_points"][k])
            rs = [rng(x) for x in o[kind + "_regions"][k]["refined_ranges"]]
            return at, rs, any(x[:2] <= loc(b) <= x[2:] for x in rs)
        for b in o["boundaries"]:
            if missing(b):
                for l in LOANS + ("path_moved",):
                    if b["data"].get(l) is not None:
                        t = parts("move" if l == "path_moved" else "loan", b["data"][l], b)
                        if t and loc(b) >= t[0][2:]:
                            self.count("use in a region")
                            if not t[2]:
                                bad.append(V("region without the use it explains", f"{l} {b['data'][l]}, at {t[0]}, takes {missing(b)} from the place at {loc(b)}, its region is {t[1]}"))
                continue
            us = [u for u in p.uses() if u.line == b["location"]["line"]]
            if len(us) == 1 and (us[0].line, us[0].col) == loc(b) and us[0].exp in ("RW", "RO"):
                for k, pl in borrowed.items():
                    if pl.var == us[0].place.var and pl.path == us[0].place.path:
                        t = parts("loan", k, b)
                        self.count("permitted use of a place borrowed elsewhere")
                        if t and t[2] and loc(b) > t[0][2:]:
                            bad.append(V("region with a permitted use", f"{ps(b['expected'])} at {loc(b)} is there although the region of loan {k}, at {t[0]}, is {t[1]}"))
        return bad


if __name__ == "__main__":
    main(P05)
