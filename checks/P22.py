"""P22: the page shows the expectations that the analysis found, each at its place in the code."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from web import *


class C(WebCheck):
    pid = "P22"
    quick, thorough = 5000, 200000
    rule = "a page with expectations of two or more blocks or bodies, at least one after a character outside of the basic plane or with an absent permission"

    def gen(self, src):
        g = G(src)
        blocks = []
        for _ in range(1 + g.b(2)):
            code = g.code()
            ls = lines_of(code)
            cfg = {}
            if g.b(6):
                cfg["boundaries"] = g.pick(["true", True, "true", "false", False])
            if g.b(2):
                cfg["stepper"] = g.pick(["true", "false"])
            blocks.append({"code": code, "answer": g.answer(ls), "config": cfg, "ann": g.annotations(ls) if g.b(2) else None, "interact": g.b(4) == 0})
        return {"blocks": blocks}

    def judge(self, c):
        r = self.visit([block(b["code"], ["permissions"], {"permissions": b["answer"]}, b["config"], b["ann"], b["interact"]) for b in c["blocks"]], [{"do": "snap"}])
        if r["errors"]:
            return [V("error", r["errors"][0][:1000])]
        n, rich = 0, False
        for i, b in enumerate(c["blocks"]):
            s = r["out"][0][i]
            if s.get("code") != b["code"]:
                return [V("code", f"block {i} shows {s.get('code')!r} for {b['code']!r}")]
            want = [[at, x["letters"], x["expanded"]] for at, x in stacks(b["code"], b["answer"], b["ann"])] if on(b["config"], "boundaries") else []
            got = [[w["at"], w["letters"], w["expanded"]] for w in s["widgets"] if w["kind"] == "stack"]
            self.count("stacks", len(got))
            if got != want:
                return [V("stacks", f"block {i} shows\n{json.dumps([g for g in got if g not in want])}\nthe answer says\n{json.dumps([w for w in want if w not in got])}\n(position, [letter, class, missing], expanded) of {len(got)} and {len(want)}")]
            n += (len(got) > 0) * sum("Ok" in o and len(o["Ok"]["boundaries"]) > 0 for o in b["answer"])
            rich |= any(m for w in got for _, _, m in w[1]) or u16(b["code"]) != len(b["code"]) and bool(got)
        if n > 1 and rich:
            self.nontrivial(self.text(c))
        return []


if __name__ == "__main__":
    main(C)
