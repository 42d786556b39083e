"""P17: an inline permission is rendered as written, or the build fails and names it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from book import *

#: text that may stand directly before or after an inline permission, or be close to one
NEAR = ["", " ", "\n", "a", "é", "🦀", "(", ")", "[", "]", "{", "}", "@", "`", "*", "**", "_", "@Perm", "Perm", "{read}", "[lost]", "@perm{read}", "@Perm {read}", "@Perm[lost] ", "<b>", "</b>",
        "&amp;", "\\", "|", "$1", "\r\n", "\t", "@@", "email@Permission", "日本"]


class C(Check):
    pid = "P17"
    builds = ["mdb", "fake"]
    quick, thorough = 6000, 200000
    nbytes = 1024
    rule = "three inline permissions of different kinds next to other text, or an invalid one among valid ones"

    def open(self):
        self.books = Books()

    def close(self):
        self.books.close()

    def gen(self, src):
        g = Gen(src)
        pages = []
        nbad = src.below(4) == 0
        for _ in range(1 + src.below(3)):
            segs = []
            for _ in range(src.below(7)):
                k = g.b(5)
                if k < 2:
                    segs.append({"text": g.pick(NEAR)})
                elif k == 2:
                    # an inline permission within a block is code
                    b = g.block(annot=0)
                    p = g.perm()["text"]
                    i = b["text"].index("\n") + 1
                    b["text"] = b["text"][:i] + f"// {p} here\n" + b["text"][i:]
                    segs += [{"text": "\n\n"}, b, {"text": "\n\n"}]
                else:
                    segs.append(g.perm())
            pages.append(segs)
        if nbad:
            s = pages[g.b(len(pages))]
            i = g.b(len(s) + 1)
            s[i:i] = [{"text": " "}, g.perm(bad=True), {"text": " "}]
        return pages

    def text(self, pages):
        return json.dumps([content(p) for p in pages], ensure_ascii=False)

    def judge(self, pages):
        # joined pieces of text may look like an inline permission: such a page says nothing
        for p in pages:
            flat, n = "", 0
            for s in p:
                flat += "\0" * len(s["text"]) if s.get("block") or s.get("perm") or s.get("bad") else s["text"]
            if re.search(r"@Perm(\[[^\]]*\])?\{[^}]*\}", flat) or re.search(r"@Perm(\[[^\]]*)?(\])?(?=\0)", flat) or re.search(r"@Perm\[[^\]]*$", flat) or re.search(r"@Perm(\[[^\]]*\])?\{", flat):
                return []
        self.books.reset()
        r = self.books.run([chapter("C", content(p), f"c{i}.md") for i, p in enumerate(pages)])
        bad = [s for p in pages for s in p if s.get("bad")]
        kinds = {s["kind"] for p in pages for s in p if s.get("perm")}
        self.count("inline permissions", sum(bool(s.get("perm")) for p in pages for s in p))
        self.count("invalid inline permissions", len(bad))
        if len(kinds) > 2 or (bad and kinds):
            self.nontrivial(self.text(pages))
        if bad:
            if r.rc == 0:
                return [V("accepted", f"{bad[0]['text']!r} is accepted; output: {r.out[-400:]!r}")]
            if r.out.strip():
                return [V("output", f"a failed build printed {r.out[:300]!r}")]
            if r.rc != 1 or "panicked" in r.err:
                return [V("panic", f"{r.rc}: {r.err[-400:]}")]
            if bad[0]["names"] not in r.err:
                return [V("message", f"{bad[0]['text']!r} is not named: {r.err[-400:]!r}")]
            return []
        if r.rc or r.book is None:
            return [V("fails", f"the build fails with {r.rc}: {r.err[-600:]}")]
        for i, p in enumerate(pages):
            out = r.book["sections"][i]["Chapter"]["content"]
            e, _ = match_page(p, out, 0)
            if e:
                return [V("page: " + e[0], f"page {i}: {e[1]}\ncontent: {content(p)!r}\noutput: {out!r}")]
        return []


main(C)
