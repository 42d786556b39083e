"""P09: the analysis ends with a well-formed result for every input."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *
from wild import wild

#: what the analysis says it cannot do
UNSUPPORTED = ("match arm guards are not yet supported", "no open collection dominates root location", "More than one collection open",
               "opening a branch missed a step", "the implicit branch at ", "inserting step", "no suitable collection", "Unsupported")
MIX = [(0, 0, 0), (0, 0, 0), (20, 0, 0), (5, 10, 0), (5, 5, 5)]
TOK = re.compile(r"\"[^\"\n]*\"|'\\?.'|\w+|\s+|.", re.S)
FN = re.compile(r"\bfn (\w+)[^;{]*?(?=[;{])", re.S)

JUMP = re.compile(r"\b(break|continue|return|loop)\b|panic!|\?;|\bif n\d+ > 3 =>|unreachable!|todo!")
COND = re.compile(r"\b(?:if|while|match)\b|assert(?:_eq|_ne)?!\(")


def plain(code):
    """No jumps and no branches within a condition: then everything is supported."""
    if JUMP.search(code):
        return False
    for m in COND.finditer(code):
        depth, i = 0, m.end()
        if m.group(0).endswith("("):
            depth = 1
        cond = depth
        while i < len(code):
            c = code[i]
            if c in "([":
                depth += 1
            elif c in ")]":
                depth -= 1
                if depth < cond:
                    break
            elif c == "{":
                if depth or COND.search(code[m.end():i]):
                    return False
                break
            elif c == ";":
                break
            i += 1
    return True


def mutate(src, code):
    """Deletes, repeats, swaps or replaces tokens."""
    head, body = code[:len("#![allow(warnings)]\nuse pre::*;\n")], code[len("#![allow(warnings)]\nuse pre::*;\n"):]
    t = TOK.findall(body)
    for _ in range(1 + src.below(4)):
        i, j = src.below(len(t)), src.below(len(t))
        k = src.below(5)
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, t[j])
        elif k == 2:
            t[i], t[j] = t[j], t[i]
        elif k == 3:
            t[i] = t[j]
        else:
            t.insert(i, ["&", "*", "mut", ";", "{", "}", "(", ")", "é", "move", "async", ".await", "?", "break", "continue", "return", "&mut ", "'a", "_", "..", "!", "::", "\r\n", "\t", "0"][src.below(25)])
        if not t:
            break
    return head + "".join(t)


class P09(ACheck):
    pid = "P09"
    quick = 3200
    thorough = 200000
    rule = ("random crates of many shapes (closures, async, unsafe, generics, traits, patterns, macros, loops with jumps, statics, nested items), "
            "correct, or with ownership, type, name or syntax errors, or with tokens deleted, moved or repeated; non-trivial: the analysis gave "
            "at least two results with expectations")

    def gen(self, src):
        k = src.below(8)
        class P:
            pass
        p = P()
        p.wild = k < 6
        if k < 6:
            p.code = wild(src, *MIX[k % 5])
            if k == 5 or (k == 4 and src.below(2)):
                p.code = mutate(src, p.code)
        else:
            p.code = gen_prog(src, {"x": 1, "jumps": 15, "bad": [0, 15][k - 6], "stmts": 16}).source()
        p.flags = src.below(4)
        p.mode = [None, "Changes", "All"][src.below(3)]
        return p

    def judge(self, p):
        errs = self.rustc(p.code)
        accepted = not errs
        try:
            out = self.analyse(p.code, should_fail=bool(p.flags & 1), flows=bool(p.flags & 2), mode=p.mode)
        except Bad as e:
            return [e.v]
        bad = []
        lines = p.code.split("\n")
        oks = [o["Ok"] for o in out if set(o) == {"Ok"}]
        er = [o["Err"] for o in out if set(o) == {"Err"}]
        if len(oks) + len(er) != len(out):
            bad.append(V("entry", f"an entry is neither Ok nor Err: {out}"[:800]))

        def ok_range(r, what):
            a, b = (r["start"]["line"], r["start"]["column"]), (r["end"]["line"], r["end"]["column"])
            if not ((0, 0) <= a <= b) or b[0] >= len(lines) or b[1] > len(lines[b[0]]) or a[1] > len(lines[a[0]]):
                bad.append(V("range outside of the file: " + what, f"{a}-{b}"))
        seen = set()
        for o in oks:
            ok_range(o["body_range"], "body")
            k = json.dumps(o["body_range"], sort_keys=True)
            if k in seen:
                bad.append(V("two results for one body", k))
            seen.add(k)
        for e in er:
            if e["type"] == "BuildError":
                if e["range"] is not None:
                    ok_range(e["range"], "build error")
                if accepted:
                    bad.append(V("build error for an accepted program", json.dumps(e)))
            elif e["type"] == "AnalysisError":
                self.count("unsupported: " + re.sub(r"bb\d.*|\d+.*", "#", e["msg"])[:50])
                if accepted and plain(p.code):
                    bad.append(V("unsupported without reason: " + re.sub(r"\d+", "#", e["msg"])[:60], e["msg"]))
                elif not any(u in e["msg"] for u in UNSUPPORTED):
                    bad.append(V("analysis error: " + re.sub(r"\d+", "#", e["msg"])[:60], e["msg"]))
            else:
                bad.append(V("error of unknown type", json.dumps(e)))
        if accepted:
            # every function has a result
            starts = {(o["body_range"]["start"]["line"]) for o in oks}
            fns = [p.code.count("\n", 0, m.start()) for m in FN.finditer(p.code) if p.code[m.end()] == "{"]
            lost = sum(f not in starts for f in set(fns))
            if lost > len(er):
                bad.append(V("a function without a result", f"{lost} of the functions on lines {sorted(set(fns))}, {len(er)} errors"))
            self.count("accepted")
            self.count("accepted, everything supported", plain(p.code))
        else:
            self.count("rejected" if out else "rejected, nothing analysed")
        if sum(bool(o["boundaries"]) for o in oks) >= 2:
            self.nontrivial(p.code)
        return bad


if __name__ == "__main__":
    main(P09)
