"""Drives the real mdbook-aquascope binary on generated books, with a stand-in for cargo (harness/fake)."""
import html, html.parser, json, os, re, shutil, subprocess, tempfile
from drive import Undecided, ROOT

BIN = os.path.join(ROOT, ".build/target/debug/mdbook-aquascope")
FAKE = os.path.join(ROOT, ".build/fake")
SHM = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
ASSETS = ("embed.iife.js", "style.css")


class Run:
    pass


class Books:
    """A scratch folder with a book, a stand-in for cargo, and what it was told to do."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="book-", dir=SHM)
        for d in ("root/src", "vf/plan", "tmp"):
            os.makedirs(os.path.join(self.dir, d))
        self.env = {"PATH": FAKE + ":/usr/bin:/bin", "VFAKE": self.dir + "/vf", "MIRI_SYSROOT": "/nonexistent/miri-sysroot",
                    "RUSTC_PATH": FAKE + "/rustc", "HOME": self.dir, "TMPDIR": self.dir + "/tmp", "RAYON_NUM_THREADS": "3"}

    def reset(self, cache=True):
        shutil.rmtree(self.dir + "/vf/plan")
        os.makedirs(self.dir + "/vf/plan")
        if cache:
            self.drop_cache()

    @property
    def cache(self):
        return self.dir + "/root/.aquascope-cache"

    def drop_cache(self):
        try:
            os.remove(self.cache)
        except FileNotFoundError:
            pass

    def plan(self, key, out=None, err=None, rc=0, ms=0, ro=1, re_=1):
        p = f"{self.dir}/vf/plan/{key}"
        with open(p, "w") as f:
            f.write(f"{rc} {ms} {ro} {re_}\n")
        for ext, data in (("out", out), ("err", err)):
            if os.path.exists(f"{p}.{ext}"):
                os.remove(f"{p}.{ext}")
            if data is not None:
                with open(f"{p}.{ext}", "wb") as f:
                    f.write(data if isinstance(data, bytes) else data.encode())

    def run(self, sections, timeout=60):
        log = self.dir + "/vf/log"
        if os.path.exists(log):
            os.remove(log)
        ctx = {"root": self.dir + "/root", "config": {"book": {"src": "src"}, "preprocessor": {"aquascope": {}}}, "renderer": "html", "mdbook_version": "0.4.45"}
        inp = json.dumps([ctx, {"sections": sections, "__non_exhaustive": None}], ensure_ascii=False)
        r = Run()
        try:
            p = subprocess.run([BIN], input=inp.encode(), capture_output=True, cwd=self.dir + "/root", env=self.env, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Undecided("mdbook-aquascope did not end")
        r.rc, r.err = p.returncode, p.stderr.decode("utf-8", "replace")
        r.out = p.stdout.decode("utf-8", "replace")
        r.book = None
        if r.rc == 0:
            try:
                r.book = json.loads(r.out)
            except ValueError:
                pass
        r.log = []
        if os.path.exists(log):
            with open(log, encoding="utf-8", errors="replace") as f:
                for l in f:
                    r.log.append(json.loads(l))
        r.calls = [e for e in r.log if "code" in e]
        r.left = os.listdir(self.dir + "/tmp")
        return r

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def chapter(name, content, path, subs=()):
    return {"Chapter": {"name": name, "content": content, "number": None, "sub_items": list(subs), "path": path, "source_path": path, "parent_names": []}}


DIV = re.compile(r'<div((?: [a-z-]+="[^"]*")*)></div>')
ATTR = re.compile(r' ([a-z-]+)="([^"]*)"')


def div(text, pos):
    """The attributes of the embedding <div> at this position, and where it ends; None if there is none."""
    m = DIV.match(text, pos)
    if not m:
        return None
    at = {}
    for k, v in ATTR.findall(m.group(1)):
        if k in at:
            return None
        at[k] = html.unescape(v)
    return at, m.end()


class Tree(html.parser.HTMLParser):
    """The inline HTML of a permission, without regard to the order of attributes or classes."""

    def __init__(self):
        super().__init__()
        self.out = []

    def handle_starttag(self, tag, attrs):
        self.out.append(("<" + tag, tuple(sorted((k, tuple(sorted((v or "").split())) if k == "class" else v) for k, v in attrs))))

    def handle_endtag(self, tag):
        self.out.append((">" + tag,))

    def handle_data(self, d):
        if self.out and self.out[-1][0] == "t":
            d = self.out.pop()[1] + d
        self.out.append(("t", d))


def tree(s):
    t = Tree()
    t.feed(s)
    t.close()
    return t.out


def perm_html(perm, opt=None):
    letter = perm[0].upper()
    if opt == "missing":
        return f'<span class="perm missing {perm}">{letter}</span>'
    core = f'<span class="perm {perm}">{letter}</span>'
    if opt == "gained":
        return f'<span><span class="perm-diff-add">+</span>{core}</span>'
    if opt == "lost":
        return f'<span class="perm-diff-sub-container"><div class="perm-diff-sub"></div>{core}</span>'
    return core


# ---------------------------------------------------------------- generation

PROSE = ["Some text.", "# A heading", "## Héading — ünïcode 🦀", "A `code span` and *emphasis*.", "- item one\n- item two", "> quoted\n> text",
         "```rust\nfn main() { let x = 1; }\n```", "```text\naquascope,permissions\n```", "~~~aquascope,permissions\nnot a block\n~~~",
         "Inline `[]` and `()` and `{}` markers.", "`[]`x`(focus)`y`{}`", "<b>html &amp; &quot;entities&quot;</b>", "@Perm without braces, @perm{read}, Perm{read}",
         "@Perm[lost] {read} is not one", "a\\`b $1 \\1 ${0}", "{{#include nothing}}", "| a | b |\n|---|---|\n| 1 | 2 |", "日本語のテキスト", "é", "​zero​width",
         "```aquascope\nfn main() {}\n```", "aquascope,permissions", "``` aquascope,permissions\nlet x = 1;\n```", "[link](x.md#a \"t\")", "\ttabbed", "trailing spaces  ",
         "`` `x` ``", "x ``aquascope,permissions``", "<div class=\"aquascope-embed\"></div>", "line one\nline two\n\n\nline five", "{read}", "[lost]{read}", "&lt;div&gt;", "'single' \"double\""]
OPS = ["permissions", "interpreter"]
FLAGS = ["boundaries", "stepper", "shouldFail", "showFlows", "concreteTypes", "hideCode", "horizontal"]
PAIRS = [("foo", "bar"), ("name", "two words"), ("x", "1"), ("title", "é🦀"), ("q", "\"<&>'"), ("empty", ""), ("path", "a/b.rs"), ("k-v", "a:b;c")]
CODE = ["fn main() {", "}", "let mut s = String::from(\"hello \");", "s.push_str(\"world\");", "println!(\"{s} {}\", 1 & 2);", "// a comment: é 🦀 日本", "let x: &'a str = \"<b>&amp;\";",
        "if a < b && c > d { e(); }", "", "  let y = vec![1, 2, 3];", "\tlet t = 'c';", "let v = r\"a\\nb\";", "let q = \"`\";", "a[0] = (1, 2).0;", "S { a, b: 2 }", "match x { _ => {} }",
        "// `code` in a comment", "let u = \"日本語\"; let w = 1;", "x # y", "let at = \"@Perm{read}\";", "use std::{io, fs};", "// see [a](b) {c}", "let e = \"\\u{1F980}\";"]
PATHS = ["x", "*x", "(*v)[0]", "s.0", "p.x", "e"]
LITS = ["x", "*x", "s.0", "p.x", "a::b", "&x", "v[0]", "x y"]
RXS = ["x", "^x$", "x.*", "[xy]", "a|b", "s\\.0", "x{2}", "a:b"]


class Gen:
    def __init__(self, src):
        self.s = src

    def b(self, n):
        return self.s.below(n)

    def pick(self, xs):
        return xs[self.b(len(xs))]

    def prose(self, lo=0, hi=3):
        n = lo + self.b(hi - lo + 1)
        return "".join(self.pick(PROSE) + self.pick(["\n\n", "\n", " ", "\n\n\n"]) for _ in range(n))

    def annotation(self):
        """-> (text, kind, what it asks for)"""
        k = self.b(3)
        if k == 0:
            return "`[" + self.pick(["", "", "", "a", "x:y", "1,2"]) + "]`", "interp", None
        if k == 1:
            return "`{" + self.pick(["", "", "focus", "a,b"]) + "}`", "boundaries", None
        parts, want = [], {}
        for kind in [self.b(4) for _ in range(self.b(4))]:
            if kind == 0:
                parts.append("focus")
                want["focus"] = True
            elif kind == 1:
                v = self.pick(LITS)
                parts.append("paths:" + v)
                want["paths"] = v
            elif kind == 2:
                v = self.pick(RXS)
                v = v.replace(",", "")
                parts.append("rxpaths:" + v)
                want["rxpaths"] = v
            else:
                parts.append(self.pick(["", "other", "k:v"]))
        return "`(" + ",".join(parts) + ")`", "stepper", want

    def code(self, key=None, annot=2, lines=None):
        """-> (raw lines, clean text, annotations as shown to the frontend)"""
        n = lines or 1 + self.b(7)
        raw, clean = [], []
        A = {"hidden_lines": [], "interp": {"state_locations": []}, "stepper": {"focused_lines": [], "focused_paths": {}}, "boundaries": {"focused_lines": []}}
        idx = 0
        for i in range(n):
            ln = i + 1
            text = self.pick(CODE)
            if i in (0, n - 1):
                text = text.strip() or "x;"
            if key is not None and i == 0:
                text = f"vf_{key}; " + text
            kind = self.b(8) if i or key is None or True else 0
            if kind == 0:
                raw.append("#" + text)
                A["hidden_lines"].append(ln)
            elif kind == 1:
                raw.append("\\#" + text)
                text = "#" + text
            else:
                # cut the text at random places and put annotations there
                m = self.b(annot + 1) if annot else 0
                cuts = sorted(self.b(len(text) + 1) for _ in range(m))
                if i == 0:
                    cuts = [max(1, c) if self.b(2) else c for c in cuts]
                cuts.sort()
                out, last = "", 0
                if m and text.startswith(("#", "\\#")):
                    m, cuts = 0, []
                for c in cuts:
                    if "`" in text:
                        break
                    out += text[last:c]
                    a, kd, want = self.annotation()
                    out += a
                    last = c
                    if kd == "interp":
                        A["interp"]["state_locations"].append(idx + c)
                    elif kd == "boundaries":
                        A["boundaries"]["focused_lines"].append(ln)
                    else:
                        if want.get("focus"):
                            A["stepper"]["focused_lines"].append(ln)
                        for k, ty in (("paths", "Literal"), ("rxpaths", "Regex")):
                            if k in want:
                                A["stepper"]["focused_paths"].setdefault(str(ln), []).append({"type": ty, "value": want[k]})
                out += text[last:]
                raw.append(out)
            clean.append(text)
            idx += len(text) + 1
        return raw, "\n".join(clean), A

    def block(self, key=None, annot=2, ops=None, config=None):
        ops = ops or ([self.pick(OPS)] if self.b(4) else OPS[:])
        if config is None:
            config = []
            for _ in range(self.b(4)):
                config.append((self.pick(FLAGS), None) if self.b(3) else self.pick(PAIRS))
        if any(k == "showFlows" for k, _ in config):
            ops = ["permissions"]  # the interpreter has no such option
        head = "```aquascope," + "+".join(ops) + "".join("," + k + ("" if v is None else "=" + v) for k, v in config)
        raw, clean, A = self.code(key, annot)
        pad0, pad1 = self.pick(["", "", "", "\n", "\n\n", "  \n"]), self.pick(["", "", "", "\n", "\n \n"])
        text = head + "\n" + pad0 + "\n".join(raw) + "\n" + pad1 + "```"
        return {"block": True, "text": text, "ops": ops, "config": {k: "true" if v is None else v for k, v in config}, "code": clean, "annotations": A, "key": key}

    def perm(self, bad=False):
        perm = self.pick(["read", "write", "own", "flow"])
        opt = self.pick([None, None, "gained", "lost", "missing"])
        text = "@Perm" + (f"[{opt}]" if opt else "") + "{" + perm + "}"
        if bad:
            if self.b(2):
                perm = self.pick(["", "Read", "READ", "r", "drop", "read ", "reads", "own,read"])
                text = "@Perm" + (f"[{opt}]" if opt else "") + "{" + perm + "}"
                return {"bad": True, "text": text, "names": perm}
            opt = self.pick(["", "Lost", "loses", "add", "lost ", "lost,gained"])
            return {"bad": True, "text": f"@Perm[{opt}]{{{perm}}}", "names": opt}
        return {"perm": True, "text": text, "html": perm_html(perm, opt), "kind": (perm, opt)}

    def page(self, blocks=3, perms=3, key=None, annot=2, **k):
        """A list of segments: text, blocks, inline permissions. The text between is chosen so that it cannot join them."""
        segs = []
        todo = ["b"] * self.b(blocks + 1) + ["p"] * self.b(perms + 1)
        while todo or not segs:
            segs.append({"text": self.prose()})
            if not todo:
                break
            what = todo.pop(self.b(len(todo)))
            if what == "b":
                segs.append({"text": self.pick(["\n", "\n\n", "\n- item\n\n  ", "\n\n"])})
                segs.append(self.block(key() if key else None, annot, **k))
                segs.append({"text": self.pick(["\n", "\n\n", "\n\nmore"])})
            else:
                segs.append({"text": self.pick(["", " ", "(", "\n", "é", "`", "a"])})
                segs.append(self.perm())
                segs.append({"text": self.pick(["", " ", ")", "\n", "🦀", ".", "{read}", "`"])})
        if self.b(2):
            segs.append({"text": self.prose()})
        return segs


def content(segs, crlf=False):
    t = "".join(s["text"] for s in segs)
    return t.replace("\n", "\r\n") if crlf else t


def match_page(segs, out, depth, crlf=False):
    """Walks the output along the segments. -> (error or None, attributes of each block)"""
    nl = lambda t: t.replace("\n", "\r\n") if crlf else t
    pos, divs, any_ = 0, [], False
    for s in segs:
        if s.get("block"):
            any_ = True
            d = div(out, pos)
            if d is None:
                return ("block", f"no embedding at offset {pos}: {out[pos:pos + 80]!r}, for the block {s['text']!r}"), divs
            divs.append(d[0])
            pos = d[1]
        elif s.get("perm"):
            any_ = True
            want = tree(s["html"])
            ok, end = None, pos
            for _ in range(3):
                end = out.find("</span>", end)
                if end < 0:
                    break
                end += 7
                if tree(out[pos:end]) == want:
                    ok = out[pos:end]
                    break
            if ok is None:
                return ("perm", f"{s['text']!r} at offset {pos} became {out[pos:pos + 120]!r}, not {s['html']!r}"), divs
            pos += len(ok)
        else:
            t = nl(s["text"])
            if not out.startswith(t, pos):
                i = 0
                while i < len(t) and out[pos + i:pos + i + 1] == t[i]:
                    i += 1
                return ("text", f"the text {t[i:i + 60]!r} at offset {pos + i} of the output is {out[pos + i:pos + i + 60]!r}"), divs
            pos += len(t)
    rest = out[pos:]
    if not any_:
        return (("footer", f"the page has nothing to replace, and got {rest!r} at its end") if rest else None), divs
    links = re.findall(r'(?:src|href)="([^"]*)"', rest)
    stripped = re.sub(r"<script[^>]*></script>|<link[^>]*>", "", rest).strip()
    want = sorted("/".join([".."] * depth + ["aquascope", a]) for a in ASSETS)
    if stripped or sorted(links) != want:
        return ("footer", f"the end of the page is {rest!r}, which should only load {want}"), divs
    return None, divs
