"""P15: what the page embeds is exactly what the author wrote and what the analysis answered."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from book import *

STR = ["", "a", "\"quoted\"", "<div></div>", "&amp;", "&quot;", "'", "\\", "\\n", "line\nline", "\ttab", "é", "🦀", " ", "</div><script>", "--><!--", "{{#x}}", "`code`", "\u0001", "日本", "a=\"b\"", "data-code=\"x\"", "%s %d", "$1", "\\u0041", "&#34;"]
NUM = [0, 1, -1, 7, 65535, 2**31, 2**53 + 1, 2**63 - 1, -2**63, 2**64 - 1, 0.5, -1.25, 1e300, 1e-7]


class C(Check):
    pid = "P15"
    builds = ["mdb", "fake"]
    quick, thorough = 4000, 120000
    nbytes = 2048
    rule = "an answer has a nested value with a character that HTML or JSON must escape"

    def open(self):
        self.books = Books()

    def close(self):
        self.books.close()

    def value(self, g, d):
        k = g.b(8 if d else 5)
        if k == 0:
            return g.pick([None, True, False])
        if k == 1:
            return g.pick(NUM)
        if k < 5:
            return "".join(g.pick(STR) for _ in range(g.b(4)))
        if k < 7:
            return [self.value(g, d - 1) for _ in range(g.b(4))]
        return {g.pick(["type", "Ok", "value", "é", "a\"b", "<k>", "", "x", "y"]) + str(i): self.value(g, d - 1) for i in range(g.b(4))}

    def gen(self, src):
        g = Gen(src)
        n = [0]

        def key():
            n[0] += 1
            return f"k{n[0]}z"
        segs, plans = [], {}
        for _ in range(1 + src.below(3)):
            b = g.block(key(), annot=0)
            segs += [{"text": g.prose(0, 1) + "\n"}, b, {"text": "\n\n"}]
            for op in b["ops"]:
                v = self.value(g, 3)
                if src.below(2):
                    v = [{"Ok": v}]
                style = src.below(3)
                plans[f"{b['key']}.{op}"] = (v, style, src.below(3))
        return {"segs": segs, "plans": plans}

    def text(self, c):
        return json.dumps({"content": content(c["segs"]), "plans": c["plans"]}, ensure_ascii=False)

    def judge(self, c):
        self.books.reset()
        for k, (v, style, err) in c["plans"].items():
            t = json.dumps(v, ensure_ascii=style == 0, indent=1 if style == 2 else None) + "\n" * (style > 0)
            self.books.plan(k, out=t, err=["", "warning: unused\n", "some \"stderr\" {\"Err\": 1}\n"][err])
        secs = [chapter("C", content(c["segs"]), "c.md")]
        vs = []
        for turn in ("first", "cached"):
            r = self.books.run(secs)
            if r.rc or r.book is None:
                return [V("fails", f"the {turn} build fails with {r.rc}: {r.err[-600:]}")]
            if turn == "cached" and r.calls:
                vs.append(V("not cached", f"the second build ran {r.calls}"))
            out = r.book["sections"][0]["Chapter"]["content"]
            e, divs = match_page(c["segs"], out, 0)
            if e:
                return [V("page: " + e[0], e[1])]
            for b, d in zip([s for s in c["segs"] if s.get("block")], divs):
                try:
                    at = {k: json.loads(v) for k, v in d.items() if k.startswith("data-")}
                except ValueError as x:
                    return [V("attribute", f"not JSON: {x!r} in {d}")]
                want = {"data-code": b["code"], "data-operations": b["ops"], "data-config": b["config"],
                        "data-responses": {op: c["plans"][f"{b['key']}.{op}"][0] for op in b["ops"]}}
                for k, w in want.items():
                    if k not in at or not same(at[k], w):
                        vs.append(V(f"{k}, {turn} build", f"{at.get(k)!r}, not {w!r}\nblock: {b['text']!r}"))
                if d.get("class") != "aquascope-embed":
                    vs.append(V("class", str(d)))
                self.count("blocks compared")
        if any(len(json.dumps(v)) > 12 and set('"<&\\\n') & set(str(v)) for v, _, _ in c["plans"].values()):
            self.nontrivial(self.text(c))
        return vs


def same(a, b):
    """Equal as JSON; numbers with a fraction may differ in the last place."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (isinstance(b, float) and abs(a - b) <= 1e-12 * abs(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


main(C)
