"""P26: the page draws the states of the program that the interpreter recorded: frames, values, pointers, heap, and where each state is."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from web import *
from diagram import *


class C(WebCheck):
    pid = "P26"
    quick, thorough = 4400, 120000
    rule = "a diagram with an arrow and with a value of values; more than one state, chosen by marks or after a failure"

    def gen(self, src):
        g = T(src)
        blocks = []
        for _ in range(1 + (g.b(4) == 0)):
            code = g.code(5)
            ls = lines_of(code)
            steps = [g.step(ls) for _ in range(1 + g.b(3))]
            marks = []
            if g.b(3) == 0:
                for _ in range(1 + g.b(4)):
                    m = g.b(len(code) + 1)
                    if m not in marks and chosen(code, steps, [m]):
                        marks.append(m)
                marks.sort()
            res = {"type": "Success"} if g.b(2) else {"type": "Error", "value": g.pick([{"type": "PointerUseAfterFree", "value": {"alloc_id": 1 + g.b(3)}}, {"type": "Other", "value": "é <b> & overflow"}])}
            cfg = {k: "true" for k in ("horizontal", "concreteTypes", "hideCode") if g.b(4) == 0}
            blocks.append({"code": code, "trace": {"steps": steps, "result": res}, "marks": marks, "config": cfg})
        return {"blocks": blocks, "toggle": g.b(4) == 0}

    def judge(self, c):
        acts = [{"do": "snap"}] + ([{"do": "click", "sel": "button.concrete-types"}, {"do": "snap"}] if c["toggle"] else [])
        bs = []
        for b in c["blocks"]:
            ann = {"hidden_lines": [], "interp": {"state_locations": b["marks"]}, "stepper": {"focused_lines": [], "focused_paths": {}}, "boundaries": {"focused_lines": []}}
            bs.append(block(b["code"], ["interpreter"], {"interpreter": {"Ok": b["trace"]}}, b["config"], ann))
        r = self.visit(bs, acts)
        if r["errors"] or any("Leader line" in x for x in r["said"]):
            return [V("error", (r["errors"] + r["said"])[0][:1000])]
        rich = False
        for k in range(1 + c["toggle"]):
            for i, b in enumerate(c["blocks"]):
                s = r["out"][2 * k][i]
                conc = ("concreteTypes" in b["config"]) != (k == 1 and i == 0)
                v = differs(b, s, conc)
                if v:
                    return [V(v[0] + " after a click" * k, ("after a click on the binoculars, " if k else "") + f"block {i}: " + v[1])]
                d = s["diagram"][0]["steps"]
                self.count("states", len(d))
                self.count("arrows", sum(x["arrows"] for x in d))
                rich |= len(d) > 1 and any(x["arrows"] for x in d) and any(t in json.dumps(x, ensure_ascii=False) for x in d for t in ('"table"',)) and (bool(b["marks"]) or b["trace"]["result"]["type"] == "Error")
        if rich:
            self.nontrivial(self.text(c))
        return []


if __name__ == "__main__":
    main(C)
