"""P16: the cache never changes what a book shows, and spares what it has seen."""
import os, sys, zlib, gzip
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from book import *


def ident(b):
    return json.dumps([b["ops"], sorted(b["cfg"], key=str), b["code"]])


class C(Check):
    pid = "P16"
    builds = ["mdb", "fake"]
    quick, thorough = 1600, 60000
    nbytes = 4096
    rule = "at least three builds, in which a block is changed and another one is met again"

    def open(self):
        self.books = Books()

    def close(self):
        self.books.close()

    def gen(self, src):
        """A history of builds: each is the list of blocks of every chapter, and what happens to the cache before it."""
        g = Gen(src)

        def variant(b):
            b = dict(b)
            k = g.b(7)
            if k == 0:
                b["cfg"] = g.pick([[], [("shouldFail", None)], [("showFlows", None)], [("boundaries", None)], [("foo", "1")], [("foo", "2")], [("fo", "o1")]])
                if ("showFlows", None) in b["cfg"]:
                    b["ops"] = ["permissions"]
            elif k == 1:
                b["ops"] = g.pick([["permissions"], ["interpreter"], ["permissions", "interpreter"], ["interpreter", "permissions"]])
                if ("showFlows", None) in b["cfg"]:
                    b["ops"] = ["permissions"]
            elif k == 2:
                b["mark"] = (b["mark"] + 1) % 3  # only the annotations change
            else:
                b["code"] = g.pick(["let a = %d;", "let b = %d;", "fn main() { f(%d); }", "let a = %d;\nlet b = 2;", "let é = %d;"]) % g.b(3)
            return b

        def fresh():
            return variant({"ops": ["permissions"], "cfg": [], "code": "let a = 0;", "mark": g.b(3)})
        cur = [[fresh() for _ in range(1 + g.b(3))] for _ in range(1 + g.b(3))]
        hist = []
        for t in range(2 + g.b(4)):
            for _ in range(g.b(3) if t else 0):
                ch = g.pick(cur)
                k = g.b(6)
                if k == 0 and sum(map(len, cur)) < 8:
                    ch.append(fresh())
                elif k == 1 and sum(map(len, cur)) < 8:
                    ch.insert(0, dict(g.pick(g.pick(cur) or [fresh()])))
                elif k == 2 and ch:
                    ch.pop(g.b(len(ch)))
                elif k == 3 and hist:
                    cur = [[dict(b) for b in c] for c in g.pick(hist)["chs"]]
                elif ch:
                    i = g.b(len(ch))
                    ch[i] = variant(ch[i])
            hist.append({"chs": [[dict(b) for b in c] for c in cur],
                         "cache": g.pick([None] * 12 + ["remove", "empty", "truncate", "flip", "text", "notgz", "json", "zeros"]) if t else None,
                         "where": g.b(1000), "fail": g.b(10) == 0})
        return hist

    def text(self, hist):
        return json.dumps(hist, ensure_ascii=False)

    def disturb(self, how, where):
        p = self.books.cache
        if not os.path.exists(p):
            return
        data = open(p, "rb").read()
        n = len(data)
        if how == "remove":
            os.remove(p)
            return
        data = {"empty": b"", "truncate": data[:where % n] if n else b"", "flip": None, "text": b"hello, world", "notgz": b"\x1f\x8b\x08\x00" + b"\xff" * 30,
                "json": gzip.compress(b"[1, 2, \"x\"]"), "zeros": bytes(n)}[how]
        if how == "flip":
            data = bytearray(open(p, "rb").read())
            if data:
                data[where % n] ^= 1 << (where % 8)
        with open(p, "wb") as f:
            f.write(bytes(data))

    def judge(self, hist):
        bk = self.books
        bk.reset()
        have, met, changed, vs = set(), False, False, []
        bk.plan("bad", out="", err="error: no", rc=1)
        for t, h in enumerate(hist):
            intact = h["cache"] is None
            if not intact:
                self.disturb(h["cache"], h["where"])
                have = set()
                self.count("cache: " + h["cache"])
            secs, blocks = [], []
            for i, ch in enumerate(h["chs"]):
                text = f"# Chapter {i}\n\n"
                for b in ch:
                    lines = b["code"].split("\n")
                    lines[-1] += ["", "`[]`", "`(focus)`"][b["mark"]]
                    text += "```aquascope," + "+".join(b["ops"]) + "".join("," + k + ("" if v is None else "=" + v) for k, v in b["cfg"]) + "\n" + "\n".join(lines) + "\n```\n\n"
                    blocks.append(b)
                if h["fail"] and i == len(h["chs"]) - 1:
                    text += "```aquascope,permissions\nvf_bad\n```\n"
                secs.append(chapter("C", text, f"c{i}.md"))
            r = bk.run(secs)
            self.count("builds")
            ran = {}
            for c in r.calls:
                op = [a for a in c["args"][1:] if not a.startswith("-")]
                ran.setdefault((c["code"], tuple(c["args"])), 0)
                ran[c["code"], tuple(c["args"])] += 1
            want = {}
            for b in blocks:
                fl = [k for k, _ in b["cfg"]]
                for op in b["ops"]:
                    want[b["code"], tuple(["aquascope"] + ["--should-fail"] * ("shouldFail" in fl) + [op] + ["--show-flows"] * ("showFlows" in fl))] = ident(b)
            ctx = f"build {t} of {self.text(hist)}"
            if h["fail"]:
                self.count("failed builds")
                if r.rc == 0:
                    vs.append(V("a failing block does not fail the build", ctx))
                continue
            if r.rc or r.book is None:
                return [V("build fails", f"{r.rc}: {r.err[-500:]}\n{ctx}")]
            needed = set()
            for b in blocks:
                if not (intact and ident(b) in have):
                    needed.add(ident(b))
                else:
                    met = True
            if have and needed:
                changed = True
            if intact:
                spare = {}
                for b in blocks:
                    fl = [k for k, _ in b["cfg"]]
                    for op in b["ops"]:
                        k = b["code"], tuple(["aquascope"] + ["--should-fail"] * ("shouldFail" in fl) + [op] + ["--show-flows"] * ("showFlows" in fl))
                        spare[k] = spare.get(k, False) or ident(b) in needed
                for k in ran:
                    if not spare.get(k, False):
                        vs.append(V("run again", f"{k} ran although it was built before; {ctx}"))
            for i, ch in enumerate(h["chs"]):
                out = r.book["sections"][i]["Chapter"]["content"]
                pos = 0
                for b in ch:
                    j = out.find('<div class="aquascope-embed"', pos)
                    d = div(out, j) if j >= 0 else None
                    if d is None:
                        return [V("no embedding", f"{b} in {out!r}; {ctx}")]
                    pos = d[1]
                    try:
                        at = {k: json.loads(v) for k, v in d[0].items() if k.startswith("data-")}
                    except ValueError as x:
                        return [V("attribute", str(x))]
                    fl = [k for k, _ in b["cfg"]]
                    for op in b["ops"]:
                        e = (at.get("data-responses") or {}).get(op, {})
                        e = e.get("echo", {}) if isinstance(e, dict) else {}
                        args = ["aquascope"] + ["--should-fail"] * ("shouldFail" in fl) + [op] + ["--show-flows"] * ("showFlows" in fl)
                        if e.get("code") != b["code"] or e.get("args") != args:
                            vs.append(V("answer of another block", f"{op} of {b} shows the answer to {e.get('args')} on {e.get('code')!r}; {ctx}"))
                    if set(at.get("data-responses") or {}) != set(b["ops"]):
                        vs.append(V("operations", f"{b} shows {sorted(at.get('data-responses') or {})}; {ctx}"))
                    if at.get("data-code") != b["code"] or at.get("data-operations") != b["ops"] or at.get("data-config") != {k: v or "true" for k, v in b["cfg"]}:
                        vs.append(V("block shown", f"{b} is shown as {at}; {ctx}"))
                    ann = at["data-annotations"]
                    n = len(b["code"])
                    last = b["code"].count("\n") + 1
                    if (ann["interp"]["state_locations"], ann["stepper"]["focused_lines"]) != ([[], [n], []][b["mark"]], [[], [], [last]][b["mark"]]):
                        vs.append(V("annotations shown", f"{b} is shown with {ann}; {ctx}"))
            # a block of a disturbed cache may or may not have been kept: what was built now is there
            have |= {ident(b) for b in blocks}
        if len(hist) >= 3 and met and changed:
            self.nontrivial(self.text(hist))
        return vs


main(C)
