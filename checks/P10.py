"""P10: an error hides what follows it in its own function, and nothing else."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from ana import *

#: (lines, line of the error, codes); the variables are of their own
ERRS = [
    (["let z{n} = mk_s();", "drop(z{n});", "look(&z{n});"], 2, "E0382"),
    (["let z{n} = mk_s();", "z{n}.clear();"], 1, "E0596"),
    (["let mut z{n} = mk_s();", "let y{n} = &z{n};", "z{n}.clear();", "look(y{n});"], 2, "E0502"),
    (["let mut z{n} = mk_s();", "let y{n} = &mut z{n};", "look(&z{n});", "y{n}.clear();"], 2, "E0502"),
    (["let z{n}: i32;", "let y{n} = z{n};"], 1, "E0381"),
    (["let z{n} = &mk_nd();", "look(&z{n}.name);", "drop(z{n}.name);"], None, None),
    (["let z{n} = mk_nd();", "let y{n} = &z{n};", "drop(y{n}.name);"], 2, "E0507"),
    (["let z{n} = mk_nd();", "z{n}.val = 3;"], 1, "E0594"),
    (["let z{n} = mk_s();", "let y{n} = &z{n};", "drop(z{n});", "look(y{n});"], 2, "E0505"),
]
ERRS = [e for e in ERRS if e[2]]
TYPE = [(["let z{n}: i32 = mk_s();"], "E0308"), (["mk_s().no_such_method();"], "E0599"), (["look();"], "E0061"), (["let z{n} = mk_i() + mk_nd();"], "E0277")]


def clean(o, lmap, rename=None):
    """A result with mapped lines, ids replaced by what they stand for, as comparable lists of (line, text)."""
    def walk(x):
        if isinstance(x, dict):
            if set(x) == {"line", "column"}:
                return {"line": lmap(x["line"]), "column": x["column"]}
            return {k: walk(v) for k, v in x.items() if k != "filename"}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    lp = {int(k): rng(v) for k, v in o["loan_points"].items()}
    mp = {int(k): rng(v) for k, v in o["move_points"].items()}
    lp = {k: (lmap(v[0]), v[1], lmap(v[2]), v[3]) for k, v in lp.items()}
    mp = {k: (lmap(v[0]), v[1], lmap(v[2]), v[3]) for k, v in mp.items()}

    def ids(d):
        for k in list(d):
            v = d[k]
            t = lp if k.startswith("loan_") else mp if k == "path_moved" else None
            if t is None:
                continue
            if isinstance(v, dict):
                if "value" in v:
                    v["value"] = list(t.get(v["value"], ("?",)))
            elif v is not None:
                d[k] = list(t.get(v, ("?",)))
    bs, ss = [], []
    for b in walk(o["boundaries"]):
        ids(b["data"])
        bs.append((b["location"]["line"], json.dumps(b, sort_keys=True)))
    for st in walk(o["steps"]):
        for t in st["state"]:
            for e in t["state"]:
                ids(e[1])
            # the path of a table within its line depends on nothing of interest here
            t["state"].sort(key=lambda e: e[0])
            t["from"] = t["to"] = None  # the statement after may start there
        st["state"].sort(key=lambda t: json.dumps(t, sort_keys=True))
        ss.append((st["location"]["start"]["line"], json.dumps(st, sort_keys=True)))
    return sorted(bs), sorted(ss)


def rng(r):
    return (r["start"]["line"], r["start"]["column"], r["end"]["line"], r["end"]["column"])


def diff(a, b):
    x = [t for t in a if t not in b][:2]
    y = [t for t in b if t not in a][:2]
    return f"only without the error: {x}\nonly with it: {y}"


class P10(ACheck):
    pid = "P10"
    quick = 2000
    thorough = 120000
    rule = ("crates of one accepted random function, or two, with an ownership error on variables of its own inserted at a random statement (one or two, "
            "the first counts), or a type error; what is shown before the error and in the other function must be as without it; non-trivial: "
            "the error was inserted with displayed expectations and steps both before and after it")

    def gen(self, src):
        p = gen_case(src)
        lines = p.code.splitlines()
        sts = sorted({s.line for s in p.stmts() if not s.elseif and s.line > p.start and not lines[s.line].strip().startswith(("else", "}"))})
        p.kind = src.below(4)  # 0,1: an error within; 2: two errors; 3: a type error
        if not sts:
            p.at = p.start + 1
            sts = [p.at]
        i = src.below(len(sts))
        p.at = sts[i]
        p.at2 = sts[i + src.below(len(sts) - i)]
        p.err = ERRS[src.below(len(ERRS))] if p.kind < 3 else TYPE[src.below(len(TYPE))]
        p.err2 = ERRS[src.below(len(ERRS))]
        p.order = src.below(3)  # the second function: none, before, after
        ins = [x.format(n=901) for x in p.err[0]]
        ins2 = [x.format(n=902) for x in p.err2[0]] if p.kind == 2 else []
        fn = lines[p.start:p.end + 1]
        k, k2 = p.at - p.start, p.at2 - p.start
        base = fn
        if p.kind == 2:
            bad = fn[:k] + ins + fn[k:k2] + ins2 + fn[k2:]
        else:
            bad = fn[:k] + ins + fn[k:]
        p.nbad = len(ins)
        pre = lines[:p.start]
        other = []
        if p.order:
            q = gen_case(src, bad=[0, 0, 30][src.below(3)])
            other = q.code.splitlines()[q.start:q.end + 1]
            other[0] = re.sub(r"\bf0\b", "other", other[0], count=1)
            p.other_len = len(other)

        def crate(f, with_other=True):
            a = list(pre)
            if p.order == 1 and with_other:
                a += other
            s = len(a)
            a += f
            so = len(a) if p.order == 2 else len(pre)
            if p.order == 2 and with_other:
                a += other
            return "\n".join(a + ["fn main() {}"]) + "\n", s, so
        p.base, p.bs, p.bo = crate(base)
        p.bad, p.es, p.eo = crate(bad)
        p.code = p.bad
        if p.order:
            p.alone = "\n".join(pre + other + ["fn main() {}"]) + "\n"
            p.alone_start = len(pre)
        p.insline = p.es + k
        p.errline = p.insline + (p.err[1] if p.kind < 3 else 0)
        return p

    def judge(self, p):
        eb, ee = self.rustc(p.base), self.rustc(p.bad)
        mine = lambda es: [e for e in es if p.es <= e[1] < p.es + 10000 and not (p.order == 2 and e[1] >= p.eo) and not (p.order == 1 and e[1] < p.es)]
        if mine(eb):
            raise Skip("rejected before anything was inserted")
        bad = []
        want_code = p.err[2] if p.kind < 3 else p.err[1]
        es = sorted(mine(ee), key=lambda e: e[1:3])
        if not es or es[0][0] != want_code or es[0][1] != p.errline:
            raise Skip("the compiler reports something else first")
        try:
            rb = self.analyse(p.base, should_fail=True)
            re_ = self.analyse(p.bad, should_fail=True)
        except Bad as e:
            return [e.v]
        # the other function
        if p.order:
            ra = self.analyse(p.alone, should_fail=True)
            get = lambda r, s: [o["Ok"] for o in r if "Ok" in o and o["Ok"]["body_range"]["start"]["line"] == s]
            a, b = get(ra, p.alone_start), get(re_, p.eo)
            n = lambda r: (sum("Ok" in o for o in r), sum("Err" in o for o in r))
            if len(a) != len(b):
                bad.append(V("another function: no result", f"alone {len(a)} results, next to the function with the error {len(b)}: {[o for o in re_ if 'Err' in o]}"))
            elif a:
                ca, cb = clean(a[0], lambda l: l - p.alone_start), clean(b[0], lambda l: l - p.eo)
                for w, x, y in zip(("expectations", "steps"), ca, cb):
                    if x != y:
                        bad.append(V("another function: " + w, diff(x, y)))
                self.count("compared the other function")
        if p.kind == 3:
            errs = [o["Err"] for o in re_ if "Err" in o and o["Err"]["type"] == "BuildError"]
            errs = [e for e in errs if e["range"] and e["range"]["start"]["line"] == p.es]
            if len(errs) != 1:
                bad.append(V("ill-typed function", f"{len(errs)} build errors for the function on line {p.es}: {[o for o in re_ if 'Err' in o]}"))
            if any("Ok" in o and o["Ok"]["body_range"]["start"]["line"] == p.es for o in re_):
                bad.append(V("ill-typed function with a result", ""))
            self.count("ill-typed function")
            if p.order:
                self.nontrivial(p.bad)
            return bad
        try:
            ob, oe = self.body(rb, p.bs), self.body(re_, p.es)
        except Bad as e:
            if "not yet supported" in str(e.v.msg) or "branch" in e.v.msg:
                raise Skip("not supported")
            return [e.v] + bad
        rel = p.insline - p.es
        end = p.es + rel
        (b0, s0), (b1, s1) = clean(ob, lambda l: l - p.bs), clean(oe, lambda l: l - p.es)
        cut = lambda xs: [x for x in xs if x[0] < rel]
        for w, x, y in (("expectations", b0, b1), ("steps", s0, s1)):
            x, y = cut(x), cut(y)
            if x != y:
                bad.append(V("before the error: " + w, diff(x, y)))
        e = es[0]
        after = [b for b in oe["boundaries"] if loc(b) > (e[4], e[5])]
        if after:
            bad.append(V("after the error: expectations", f"the first error ends at {e[4:6]}, shown: {[loc(b) for b in after]}"))
        after = [s for s in oe["steps"] if s["location"]["start"]["line"] > e[4]]
        if after:
            bad.append(V("after the error: steps", f"the first error ends at {e[4:6]}, shown: {[rng(s['location']) for s in after]}"))
        here = [b for b in oe["boundaries"] if (e[1], 0) <= loc(b) <= (e[4], e[5]) and missing(b)]
        if len(here) != 1 and want_code != "E0594":
            bad.append(V("at the error", f"{len(here)} missing permissions at {e[1:3]}"))
        early = [b for b in oe["boundaries"] if loc(b) < (e[1], 0) and missing(b)]
        if early:
            bad.append(V("missing before the error", f"{[loc(b) for b in early]}"))
        self.count("two errors" if p.kind == 2 else "one error")
        if cut(b0) and cut(s0) and len(cut(b0)) < len(b0) and len(cut(s0)) < len(s0):
            self.nontrivial(p.bad)
        return bad


if __name__ == "__main__":
    main(P10)
