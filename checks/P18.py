"""P18: every block runs on its own, as its header says, and a failure of one fails the build and says why."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from book import *

#: how a run fails: (name, exit status, stdout, stderr, what the message has to contain)
FAIL = [("exit", 1, "", "error[E0308]: mismatched types é\n", "E0308"),
        ("exit with output", 101, "[]", "thread panicked\n", "thread panicked"),
        ("signal-like", 137, "", "killed", "killed"),
        ("Err", 0, "{\"Err\": {\"type\": \"BuildError\"}}", "error: expected one of\n", "expected one of"),
        ("an Err among Ok", 0, "[{\"Ok\": 1}, {\"Err\": {\"type\": \"AnalysisError\", \"msg\": \"x\"}}, {\"Ok\": 2}]", "a message\n", "a message"),
        ("BuildError", 0, "{\"type\": \"BuildError\", \"range\": null}", "", ""),
        ("not JSON", 0, "hello", "", None), ("no output", 0, "", "", None), ("two values", 0, "[] []", "", None), ("half", 0, "[{\"Ok\": ", "", None),
        ("not UTF-8", 0, b"[\"\xff\xfe\"]", "", None)]


class C(Check):
    pid = "P18"
    builds = ["mdb", "fake"]
    quick, thorough = 3600, 100000
    nbytes = 2048
    rule = "several blocks with different options, or a block that fails among others"

    def open(self):
        self.books = Books()

    def close(self):
        self.books.close()

    def fixed_cases(self):
        one = {"blocks": [{"ops": ["permissions"], "config": {}, "code": "vf_slow; fn main() {}", "fail": None, "big": 0, "slow": True, "key": "slow", "head": "```aquascope,permissions", "chapter": 0, "failop": 0}], "new": False}
        return [one]

    def gen(self, src):
        g = Gen(src)
        blocks = []
        for i in range(1 + src.below(6)):
            b = g.block(f"k{i}z", annot=0)
            b.pop("annotations")
            b["fail"] = src.below(len(FAIL)) if src.below(9) == 0 else None
            b["failop"] = src.below(len(b["ops"]))
            b["big"] = [0, 0, 0, 0, 0, 1, 2, 3][src.below(8)]
            b["chapter"] = src.below(3)
            b["ms"] = [0, 0, 0, 5, 30][src.below(5)]
            blocks.append(b)
        return {"blocks": blocks, "new": src.below(40) == 0}

    def text(self, c):
        return json.dumps(c, ensure_ascii=False)

    def judge(self, c):
        bk = self.books
        bk.reset()
        chs = ["", "", ""]
        answers, fails = {}, []
        for i, b in enumerate(c["blocks"]):
            chs[b["chapter"]] += "text\n\n" + (b.get("text") or b["head"] + "\n" + b["code"] + "\n```") + "\n\n"
            for j, op in enumerate(b["ops"]):
                k = f"{b['key']}.{op}"
                if b.get("slow"):
                    bk.plan(k, out="[]", ms=60000)
                elif b["fail"] is not None and j == b["failop"]:
                    n, rc, out, err, _ = FAIL[b["fail"]]
                    bk.plan(k, out=out, err=err, rc=rc, ms=b["ms"])
                    if b not in fails:
                        fails.append(b)
                else:
                    a = [{"Ok": f"{i}.{op}.{b['key']}"}]
                    out = json.dumps(a)
                    if b["big"] & 1:
                        a = [{"Ok": "x" * 200000 + str(i)}]
                        out = json.dumps(a)
                    answers[i, op] = a
                    bk.plan(k, out=out, err="warning: é\n" * (20000 if b["big"] & 2 else 1), ms=b["ms"])
        if c["new"]:
            bk.plan("new-fails", "")
        slow = any(b.get("slow") for b in c["blocks"])
        import time
        t0 = time.time()
        r = bk.run([chapter("C", t, f"c{i}.md") for i, t in enumerate(chs)])
        vs = []
        self.count("blocks", len(c["blocks"]))
        self.count("failing blocks", len(fails))
        if (len(c["blocks"]) > 2 and len({json.dumps([b["ops"], b["config"]]) for b in c["blocks"]}) > 2) or (fails and len(c["blocks"]) > 1):
            self.nontrivial(self.text(c))
        if r.left:
            vs.append(V("left behind", f"scratch folders are left behind: {r.left}"))
        for n in r.log:
            if n["me"] == "cargo" and n["args"][:1] == ["new"] and not n["cwd"].startswith(bk.dir + "/tmp/"):
                vs.append(V("project", f"cargo new in {n['cwd']}"))
        if fails or c["new"] or slow:
            if r.rc == 0:
                return vs + [V("accepted", f"a run that fails ({[FAIL[b['fail']][0] for b in fails]}) does not fail the build; output {r.out[-300:]!r}")]
            if r.rc != 1 or "panicked" in r.err.replace("thread panicked", ""):
                return vs + [V("panic", f"{r.rc}: {r.err[-500:]}")]
            if r.out.strip():
                vs.append(V("output", f"a failed build printed {r.out[:300]!r}"))
            if c["new"]:
                return vs
            if slow:
                if time.time() - t0 > 40:
                    vs.append(V("time", f"a program that does not end stopped the build after {time.time() - t0:.0f} s"))
                if "vf_slow" not in r.err:
                    vs.append(V("message", f"the program that took too long is not shown: {r.err[-300:]!r}"))
                return vs
            said = any(FAIL[b["fail"]][4] is None or (b["code"] in r.err and FAIL[b["fail"]][4] in r.err) for b in fails)
            if not said:
                vs.append(V("message", f"the message shows neither the program nor the error of {[(b['code'], FAIL[b['fail']][0]) for b in fails]}: {r.err[-600:]!r}"))
            return vs
        if r.rc or r.book is None:
            return vs + [V("fails", f"the build fails with {r.rc}: {r.err[-600:]}")]
        cwds = {}
        runs = {}
        for e in r.calls:
            a = e["args"]
            key = re.search(r"vf_(\w+?z|slow)", e["code"])
            key = key and key.group(1)
            op = [x for x in a[1:] if not x.startswith("-")]
            runs.setdefault((key, op[0] if op else None), []).append(e)
            cwds.setdefault(e["cwd"], set()).add(key)
            if e["SYSROOT"] != "/nonexistent/miri-sysroot" or e["MIRI_SYSROOT"] != "/nonexistent/miri-sysroot":
                vs.append(V("environment", f"the sysroots are {e['SYSROOT']} and {e['MIRI_SYSROOT']}"))
            if e["LD_LIBRARY_PATH"] != bk.dir + "/vf/libdir":
                vs.append(V("environment", f"LD_LIBRARY_PATH is {e['LD_LIBRARY_PATH']}"))
        for d, ks in cwds.items():
            if len(ks) > 1:
                vs.append(V("shared folder", f"{ks} ran in one folder"))
        for i, b in enumerate(c["blocks"]):
            for op in b["ops"]:
                es = runs.pop((b["key"], op), [])
                if len(es) != 1:
                    vs.append(V("number of runs", f"{op} of {b['text']!r} ran {len(es)} times"))
                    continue
                want = ["aquascope"] + ["--should-fail"] * ("shouldFail" in b["config"]) + [op] + ["--show-flows"] * ("showFlows" in b["config"])
                if es[0]["args"] != want:
                    vs.append(V("arguments", f"{es[0]['args']}, not {want}, for {b['text']!r}"))
                if es[0]["code"] != b["code"]:
                    vs.append(V("code", f"{es[0]['code']!r}, not {b['code']!r}"))
        if runs:
            vs.append(V("extra runs", str(list(runs))))
        per = [[], [], []]
        for i, b in enumerate(c["blocks"]):
            per[b["chapter"]].append((i, b))
        for k, bs in enumerate(per):
            out, pos = r.book["sections"][k]["Chapter"]["content"], 0
            for i, b in bs:
                j = out.find('<div class="aquascope-embed"', pos)
                d = div(out, j) if j >= 0 else None
                if d is None:
                    return vs + [V("no embedding", out[pos:pos + 300])]
                pos = d[1]
                got = json.loads(d[0].get("data-responses", "null"))
                want = {op: answers[i, op] for op in b["ops"]}
                if got != want:
                    vs.append(V("answer", f"{b['text']!r} shows {str(got)[:200]}, not {str(want)[:200]}"))
        return vs


main(C)
