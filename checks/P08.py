"""P08: the result for a function does not depend on names, comments, layout or the rest of the crate."""
import os, sys, re, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *

#: unrelated items; {n} makes their names differ
ITEMS = [
    "fn other{n}(mut q: String) -> usize {{ let r = &mut q; r.push('x'); let n = q.len(); drop(q); n }}",
    "struct Unused{n} {{ a: String, b: Vec<u8> }}\nimpl Unused{n} {{\n  fn m(&mut self) -> &mut String {{ &mut self.a }}\n  fn t(self) -> Vec<u8> {{ self.b }}\n}}",
    "mod inner{n} {{\n  pub fn g(x: &i32) -> i32 {{ let c = |y: i32| y + *x; c(1) }}\n}}",
    "const K{n}: usize = {{ let a = 3; a + 1 }};\nstatic S{n}: &str = \"日本語\";",
    "/* ünrelated — comment\n   over lines */",
    "trait T{n} {{ fn d(&self) -> i32 {{ let z = 2; z }} }}\nimpl T{n} for i32 {{}}",
    "fn gen{n}<A: Clone>(a: &A) -> (A, A) {{ let b = a.clone(); (b.clone(), b) }}",
    "macro_rules! mac{n} {{ ($e:expr) => {{ {{ let t = $e; t }} }} }}",
]
COMMENTS = ["// note", "/* ßü */", "// 日本 { } ; let x = &mut y;", "", "#[allow(unused)]"]
INLINE = ["/* c */ ", "/*é*/", "  ", "/* 👍 & */ "]


def shift(o, lmap, cmap, names):
    """Rewrites the positions and place names of a result."""
    def pos(p):
        l = p["line"]
        return {"line": lmap[l], "column": p["column"] + cmap.get(l, 0)}

    def walk(x):
        if isinstance(x, dict):
            if set(x) == {"line", "column"}:
                return pos(x)
            return {k: walk(v) for k, v in x.items() if k != "filename"}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    o = walk(o)
    for st in o["steps"]:
        for t in st["state"]:
            for e in t["state"]:
                e[0] = re.sub(r"[^\W\d]\w*", lambda m: names.get(m.group(), m.group()), e[0])
    return o


def norm(o):
    o = shift(o, Same(), {}, {})
    o["steps"].sort(key=lambda s: json.dumps(s["location"], sort_keys=True))
    o["boundaries"].sort(key=lambda b: (b["location"]["line"], b["location"]["column"]))
    return o


class Same(dict):
    def __getitem__(self, k):
        return k


class P08(ACheck):
    pid = "P08"
    quick = 2000
    thorough = 120000
    rule = ("random functions, accepted and rejected; a variant renames the variables (also to names with multi-byte letters), adds "
            "comments before and within lines, and adds unrelated items around the function; the result must be the same up to "
            "those positions and names; non-trivial: at least two of the three kinds of change were made and the result has expectations")

    def gen(self, src):
        p = gen_case(src, bad=[0, 0, 25][src.below(3)])
        lines = p.code.splitlines()
        head, fn, tail = lines[:p.start], lines[p.start:p.end + 1], lines[p.end + 1:]
        kinds = 1 + src.below(7)
        ren = {}
        if kinds & 1:
            pool = ["é", "ü", "x", "k", "ж", "b", "zz", "名", "a_", "q", "_", "_"]
            alike = src.below(4) == 0
            for v in sorted(p.gen.byuid.values(), key=lambda v: v.uid):
                new = None
                while new is None or new in ren.values() or new in lines:
                    stem = "".join(pool[src.below(len(pool))] for _ in range(1 + src.below(3)))
                    new = f"{stem}{v.uid}" if not alike else "x" * (v.uid + 1)
                ren[v.name] = new
        # the renamed names have other lengths: columns move by what stands before them on the line
        out, lmap, cols = [], {}, {}
        n = 0
        if kinds & 4:
            for _ in range(src.below(3)):
                head += ITEMS[src.below(len(ITEMS))].format(n=n).splitlines()
                n += 1
            for _ in range(src.below(3)):
                tail += ITEMS[src.below(len(ITEMS))].format(n=n).splitlines()
                n += 1
        out = list(head)
        cmap = {}
        for i, l in enumerate(fn):
            if kinds & 2 and i > 0 and src.below(4) == 0:
                c = COMMENTS[src.below(4)]
                if not l.strip().startswith(("else", "}")) or not c.startswith("#"):
                    out.append(c)
            new, cols = [], []  # pieces; cols: for each old column its new one
            pre = ""
            if kinds & 2 and i > 0 and src.below(4) == 0:
                pre = INLINE[src.below(len(INLINE))]
            last, m2 = 0, [0] * (len(l) + 1)
            s = pre
            for m in re.finditer(r"\w+", l):
                for k in range(last, m.start()):
                    m2[k] = len(s) + k - last
                s += l[last:m.start()]
                w = ren.get(m.group(), m.group())
                for k in range(m.start(), m.end()):
                    m2[k] = len(s) + (max(0, len(w) - (m.end() - k)) if k > m.start() else 0)
                s += w
                last = m.end()
            for k in range(last, len(l) + 1):
                m2[k] = len(s) + k - last
            s += l[last:]
            lmap[p.start + i] = len(out)
            cmap[p.start + i] = m2
            out.append(s)
        p.variant = "\n".join(out + tail) + "\n"
        p.lmap, p.cmap, p.ren, p.kinds = lmap, cmap, ren, kinds
        return p

    def text(self, p):
        return p.code + "----- variant\n" + p.variant

    def judge(self, p):
        e1, e2 = self.rustc(p.code), self.rustc(p.variant)
        if sorted(x[0] or "" for x in e1) != sorted(x[0] or "" for x in e2):
            raise Skip("the compiler judges the variant differently")
        try:
            r1 = self.analyse(p.code, should_fail=True)
            r2 = self.analyse(p.variant, should_fail=True)
            if e1:
                try:
                    o1 = self.body(r1, p.start)
                except Bad:
                    raise Skip("no result for a rejected program")
            o1, o2 = self.body(r1, p.start), self.body(r2, p.lmap[p.start])
        except Bad as e:
            return [e.v]
        if o1["boundaries"] and bin(p.kinds).count("1") >= 2:
            self.nontrivial(p.variant)
        self.count("rejected" if e1 else "accepted")

        class C(dict):
            pass
        lm, cm = p.lmap, p.cmap

        def walk(x):
            if isinstance(x, dict):
                if set(x) == {"line", "column"}:
                    if x["line"] not in lm or x["column"] >= len(cm[x["line"]]):
                        return {"outside": x}
                    return {"line": lm[x["line"]], "column": cm[x["line"]][x["column"]]}
                return {k: walk(v) for k, v in x.items()}
            if isinstance(x, list):
                return [walk(v) for v in x]
            return x
        o1 = walk(o1)
        for st in o1["steps"]:
            for t in st["state"]:
                for e in t["state"]:
                    e[0] = re.sub(r"\w+", lambda m: p.ren.get(m.group(), m.group()), e[0])
        o1, o2 = norm(o1), norm(o2)
        for o in (o1, o2):
            o["body_range"] = None
            # the fields of a variable are in the order of their names, which change
            for st in o["steps"]:
                for t in st["state"]:
                    t["state"].sort(key=lambda e: e[0])
        bad = []
        for k in sorted(set(o1) | set(o2)):
            if o1.get(k) != o2.get(k):
                a, b = o1.get(k), o2.get(k)
                if isinstance(a, list):
                    d = [x for x in zip(a, b) if x[0] != x[1]][:1] or [(len(a), len(b))]
                else:
                    d = [(x, a.get(x), b.get(x)) for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][:1]
                bad.append(V("differs: " + k, json.dumps(d, ensure_ascii=False)[:1500]))
        return bad


if __name__ == "__main__":
    main(P08)
