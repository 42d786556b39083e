"""P23: the page shows the steps of the analysis: one table per line, a row per path, what it gains and loses."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from web import *


class C(WebCheck):
    pid = "P23"
    quick, thorough = 5000, 200000
    rule = "a page with two or more tables, of which one has both a gain and a loss or rows that are not in focus"

    def gen(self, src):
        g = G(src)
        blocks = []
        for _ in range(1 + g.b(2)):
            code = g.code()
            ls = lines_of(code)
            cfg = {}
            if g.b(8):
                cfg["stepper"] = g.pick(["true", True, "true", "true", "false"])
            if g.b(2):
                cfg["boundaries"] = g.pick(["true", "false"])
            blocks.append({"code": code, "answer": g.answer(ls), "config": cfg, "ann": g.annotations(ls) if g.b(3) else None, "interact": g.b(4) == 0})
        return {"blocks": blocks, "toggle": g.b(6)}

    def show(self, ws):
        return [[w["at"], w["open"], [[[[r["path"], r["icon"], r["perms"], r["hid"]] for r in t["rows"]], t["more"]] for t in w["tables"]]] for w in ws]

    def judge(self, c):
        acts = [{"do": "snap"}]
        if c["toggle"] == 0:
            # close or open the first line, and once more
            acts += [{"do": "click", "sel": "span.step-widget-toggle"}, {"do": "snap"}, {"do": "click", "sel": "span.step-widget-toggle"}, {"do": "snap"}]
        elif c["toggle"] == 1:
            acts += [{"do": "click", "sel": ".step-table-dropdown"}, {"do": "snap"}, {"do": "click", "sel": ".step-table-dropdown"}, {"do": "snap"}]
        r = self.visit([block(b["code"], ["permissions"], {"permissions": b["answer"]}, b["config"], b["ann"], b["interact"]) for b in c["blocks"]], acts)
        if r["errors"]:
            return [V("error", r["errors"][0][:1000])]
        n, rich = 0, False
        for i, b in enumerate(c["blocks"]):
            s = r["out"][0][i]
            if s.get("code") != b["code"]:
                return [V("code", f"block {i} shows {s.get('code')!r} for {b['code']!r}")]
            model = tables(b["code"], b["answer"], b["ann"]) if on(b["config"], "stepper") else []
            want = self.show([{"at": at, **w} for at, w in model])
            ws = [w for w in s["widgets"] if w["kind"] == "step"]
            got = self.show(ws)
            self.count("tables", len(got))
            if got != want:
                return [V("tables", f"block {i} shows\n{json.dumps([g for g in got if g not in want], ensure_ascii=False)}\nthe answer says\n{json.dumps([w for w in want if w not in got], ensure_ascii=False)}")]
            if u16(b["code"]) == len(b["code"]):
                ls = lines_of(b["code"])
                ends = {len(ls[w["line"]]) + w["spaces"] for w in ws}
                if len(ends) > 1:
                    return [V("aligned", f"block {i}: the tables begin at {sorted(ends)}")]
            n += len(got)
            rich |= any(x[3] for w in got for t in w[2] for x in t[0]) or any({"+", "-"} <= {p[0] for x in t[0] for p in x[2]} for w in got for t in w[2])
            if i == 0 and c["toggle"] == 0 and ws:
                again = [self.show([w for w in r["out"][k][0]["widgets"] if w["kind"] == "step"]) for k in (2, 4)]
                flip = [[w[0], (not w[1]) if j == 0 else w[1], w[2]] for j, w in enumerate(want)]
                if again != [flip, want]:
                    return [V("toggle", f"after one and two clicks on the first arrow the page shows\n{json.dumps(again, ensure_ascii=False)}\nbefore:\n{json.dumps(want, ensure_ascii=False)}")]
            if i == 0 and c["toggle"] == 1 and any(t["more"] for w in ws for t in w["tables"]):
                before, done = json.loads(json.dumps(want)), False
                for w in want:
                    for t in w[2]:
                        if t[1] and not done:
                            done = True
                            for x in t[0]:
                                x[3] = False
                after = self.show([w for w in r["out"][2][0]["widgets"] if w["kind"] == "step"])
                if after != want:
                    return [V("dropdown", f"after a click on the first dots the page shows\n{json.dumps(after, ensure_ascii=False)}\nit has to show\n{json.dumps(want, ensure_ascii=False)}")]
                after = self.show([w for w in r["out"][4][0]["widgets"] if w["kind"] == "step"])
                if after != before:
                    return [V("dropdown", f"after two clicks on the first dots the page shows\n{json.dumps(after, ensure_ascii=False)}\nit has to show\n{json.dumps(before, ensure_ascii=False)}")]
        if n > 1 and rich:
            self.nontrivial(self.text(c))
        return []


if __name__ == "__main__":
    main(C)
