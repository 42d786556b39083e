"""P14: annotations never reach the compiler, and point where the author put them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from book import *


class C(Check):
    pid = "P14"
    builds = ["mdb", "fake"]
    quick, thorough = 3000, 120000
    nbytes = 2048
    rule = "a block has an annotation of two kinds, or an annotation and a hidden line, or non-ASCII text before an annotation"

    def open(self):
        self.books = Books()

    def close(self):
        self.books.close()

    def gen(self, src):
        g = Gen(src)
        pages = []
        for _ in range(1 + src.below(3)):
            segs = []
            for _ in range(1 + src.below(3)):
                segs += [{"text": g.prose(0, 1)}, {"text": "\n"}, g.block(annot=3), {"text": "\n\n"}]
            pages.append({"segs": segs, "crlf": src.below(4) == 0})
        return pages

    def text(self, pages):
        return json.dumps([content(p["segs"], p["crlf"]) for p in pages], ensure_ascii=False)

    def judge(self, pages):
        self.books.reset()
        r = self.books.run([chapter("C", content(p["segs"], p["crlf"]), f"c{i}.md") for i, p in enumerate(pages)])
        if r.rc or r.book is None:
            return [V("fails", f"the build fails with {r.rc}: {r.err[-600:]}")]
        vs, hit = [], False
        ran = {(tuple(c["args"][-1 - (c["args"][-1] == "--show-flows"):][:1]), c["code"]) for c in r.calls}
        for i, p in enumerate(pages):
            out = r.book["sections"][i]["Chapter"]["content"]
            e, divs = match_page(p["segs"], out, 0, p["crlf"])
            if e:
                return [V("page: " + e[0], f"page {i}: {e[1]}")]
            for b, d in zip([s for s in p["segs"] if s.get("block")], divs):
                A = b["annotations"]
                kinds = [bool(A["hidden_lines"]), bool(A["interp"]["state_locations"]), bool(A["stepper"]["focused_lines"] or A["stepper"]["focused_paths"]), bool(A["boundaries"]["focused_lines"])]
                for k, n in zip(kinds, ("hidden lines", "interp", "stepper", "boundaries")):
                    self.count("blocks with " + n, k)
                self.count("blocks")
                if sum(kinds) > 1 or (any(kinds) and not b["code"].isascii()):
                    hit = True
                try:
                    code, ann = json.loads(d["data-code"]), json.loads(d["data-annotations"])
                except (KeyError, ValueError) as x:
                    vs.append(V("attribute", f"{x!r} in {d}"))
                    continue
                where = f"\nblock: {b['text']!r}"
                if code != b["code"]:
                    vs.append(V("code shown", f"{code!r}, not {b['code']!r}{where}"))
                for op in b["ops"]:
                    if ((op,), b["code"]) not in ran:
                        vs.append(V("code run", f"{op} ran on {[c for o, c in ran if o == (op,)]!r}, not on {b['code']!r}{where}"))
                for k in ("hidden_lines", "interp", "stepper", "boundaries"):
                    if ann.get(k) != A[k]:
                        vs.append(V("annotation: " + k, f"{ann.get(k)}, not {A[k]}{where}"))
        if hit:
            self.nontrivial(self.text(pages))
        return vs


main(C)
