"""P24: pointing at a permission highlights the loan or the move that explains it, and nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from web import *


class C(WebCheck):
    pid = "P24"
    quick, thorough = 2400, 100000
    rule = "two permissions that highlight different parts of the code, and bodies with the same keys"

    def gen(self, src):
        g = G(src)
        code = g.code()
        ls = lines_of(code)
        a = g.answer(ls)
        other = None
        if g.b(3) == 0:
            # the server answers the same, or something else
            other = g.pick([a, None]) or g.answer(ls)
        return {"code": code, "answer": a, "other": other, "ann": g.annotations(ls) if g.b(3) == 0 else None}

    def expect(self, code, answer, ann):
        out = []
        ws = [(at, 0, "stack", w) for at, w in stacks(code, answer, ann)] + [(at, 1, "step", w) for at, w in tables(code, answer, ann)]
        for at, _, kind, w in sorted(ws, key=lambda x: x[:2]):
            if kind == "stack":
                for c, n, _ in w["letters"]:
                    d = w["b"]["data"]
                    k = {"R": "loan_read_refined", "W": "loan_write_refined", "O": "loan_drop_refined"}.get(c)
                    out.append((f"{c} at {at}", pointed(code, w["o"], d.get(k), d.get("path_moved"), n) if k else {}))
            else:
                val = lambda v: None if v["type"] == "Low" else v.get("value")
                for t in w["tables"]:
                    for row in t["rows"]:
                        for c, n, k in (("R", "read", "loan_read_refined"), ("W", "write", "loan_write_refined"), ("O", "own", "loan_drop_refined")):
                            out.append((f"{c} of {row['path']} at {at}", pointed(code, w["o"], val(row["d"][k]), val(row["d"]["path_moved"]), n)))
        return out

    def judge(self, c):
        cfg = {"stepper": "true", "boundaries": "true"}
        acts = [{"do": "snap"}, {"do": "hover", "limit": 80}]
        server = []
        if c["other"] is not None:
            server = [{"answer": {"success": True, "stdout": json.dumps(c["other"]), "stderr": ""}}]
            acts += [{"do": "click", "sel": ".fa-refresh"}, {"do": "snap"}, {"do": "hover", "limit": 80}]
        r = self.visit([block(c["code"], ["permissions"], {"permissions": c["answer"]}, cfg, c["ann"], c["other"] is not None)], acts, server=server)
        if r["errors"]:
            return [V("error", r["errors"][0][:1000])]
        rounds = [(c["answer"], c["ann"], r["out"][1])] + ([(c["other"], None, r["out"][4])] if c["other"] is not None else [])
        for k, (answer, ann, got) in enumerate(rounds):
            want = self.expect(c["code"], answer, ann)
            when = "after a refresh, " if k else ""
            if len(got) != min(80, len(want)):
                return [V("permissions" + " after a refresh" * k, f"{when}there are {len(got)} permissions to point at, not {len(want)}")]
            for (name, w), x in zip(want, got):
                self.count("pointed at")
                g = shown_units(x["on"], c["code"])
                if g != w:
                    f = lambda d: {q: "".join(c["code"].encode("utf-16-le")[2 * i:2 * i + 2].decode("utf-16-le", "replace") if i in v else "_" for i in range(u16(c["code"]))) for q, v in d.items()}
                    return [V("highlighted" + " after a refresh" * k, f"{when}{name} highlights\n{json.dumps(f(g), ensure_ascii=False, indent=1)}\nwhat explains it is\n{json.dumps(f(w), ensure_ascii=False, indent=1)}")]
                if any(x["left"].values()):
                    return [V("left", f"{when}{name} leaves {x['left']} highlighted")]
            parts = {json.dumps({q: sorted(v) for q, v in w.items()}) for _, w in want if w}
            if len(parts) > 1 and len([o for o in answer if "Ok" in o]) > 1:
                self.nontrivial(self.text(c))
        return []


if __name__ == "__main__":
    main(C)
