"""P13: a page keeps everything but its Aquascope blocks and inline permissions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from book import *

#: ends of pages that begin a block and do not end it
OPEN = ["```aquascope,permissions\nfn main() {", "```aquascope,interpreter,foo=bar", "```aquascope,permissions\n``", "```aquascope,", "```aquascope"]


class C(Check):
    pid = "P13"
    builds = ["mdb", "fake"]
    quick, thorough = 6000, 150000
    nbytes = 2048
    rule = "the book has at least two chapters, a block and an inline permission"

    def open(self):
        self.books = Books()

    def close(self):
        self.books.close()

    def gen(self, src):
        g = Gen(src)
        chs = []
        for i in range(1 + src.below(4)):
            crlf = src.below(6) == 0
            segs = g.page(3, 4)
            if src.below(8) == 0:
                segs.append({"text": "\n\n" + OPEN[src.below(len(OPEN))]})
            chs.append({"segs": segs, "crlf": crlf, "depth": src.below(4), "nest": src.below(3) == 0, "title": g.pick(["Intro", "é🦀", "A \"b\" <c>"]),
                        "before": g.pick([None, None, "Separator", "part", "draft"])})
        return chs

    def text(self, chs):
        return json.dumps([dict({k: v for k, v in c.items() if k != "segs"}, content=content(c["segs"], c["crlf"])) for c in chs], ensure_ascii=False)

    def judge(self, chs):
        self.books.reset()
        secs, made = [], []
        for i, c in enumerate(chs):
            if c["before"] == "Separator":
                secs.append("Separator")
            elif c["before"] == "part":
                secs.append({"PartTitle": "Part @Perm{read}"})
            elif c["before"] == "draft":
                secs.append(chapter("Draft", "", None))
            path = "/".join(["d%d" % k for k in range(c["depth"])] + [f"c{i}.md"])
            ch = chapter(c["title"], content(c["segs"], c["crlf"]), path)
            made.append(ch)
            if c["nest"] and i and made[i - 1]:
                made[i - 1]["Chapter"]["sub_items"].append(ch)
            else:
                secs.append(ch)
        want = json.loads(json.dumps(secs))
        r = self.books.run(secs)
        nb = sum(bool(s.get("block")) for c in chs for s in c["segs"])
        np = sum(bool(s.get("perm")) for c in chs for s in c["segs"])
        self.count("pages", len(chs))
        self.count("blocks", nb)
        self.count("inline permissions", np)
        if r.rc or r.book is None:
            return [V("fails", f"the build fails with {r.rc}: {r.err[-600:]}\n{r.out[-300:]}")]
        if len(chs) > 1 and nb and np:
            self.nontrivial(self.text(chs))
        got, outs = r.book["sections"], []

        def skim(items):
            for it in items:
                if isinstance(it, dict) and "Chapter" in it:
                    if it["Chapter"]["path"]:
                        outs.append((it["Chapter"]["path"], it["Chapter"]["content"]))
                        it["Chapter"]["content"] = ""
                    skim(it["Chapter"]["sub_items"])
        skim(got)
        outs_got, outs = outs, []
        skim(want)
        if got != want:
            return [V("book", "the structure of the book changed")]
        vs = []
        by = {int(path.rsplit("/", 1)[-1][1:-3]): out for path, out in outs_got}
        for i, c in enumerate(chs):
            out = by[i]
            e, _ = match_page(c["segs"], out, c["depth"], c["crlf"])
            if e:
                vs.append(V(e[0], f"page {i}: {e[1]}\ncontent: {content(c['segs'], c['crlf'])!r}\noutput: {out!r}"))
        if r.left:
            vs.append(V("leftover", f"scratch folders are left behind: {r.left}"))
        return vs


main(C)
