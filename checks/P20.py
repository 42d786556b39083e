"""P20: requests that are handled at the same time neither see nor change each other."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from serve import *


class C(Check):
    pid = "P20"
    builds = ["serve", "fake"]
    quick, thorough = 6000, 80000
    nbytes = 1024
    rule = "at least three requests that overlap, with different programs and of both kinds"
    assumptions = ["which of the overlapping steps come first is up to the scheduler: a schedule is drawn as start offsets and running times"]

    def open(self):
        self.s = Server()

    def close(self):
        self.s.close()

    def gen(self, src):
        g = G(src)
        new = g.pick([0, 0, 0, 4, 12])
        reqs = []
        for i in range(2 + g.b(11)):
            same = reqs and g.b(5) == 0
            if same:
                # the same program once more, maybe with another config or as the other operation
                q = dict(reqs[-1], op=g.pick(["permissions", "interpreter"]))
            else:
                q = {"op": g.pick(["permissions", "interpreter"]), "key": f"k{i}z", "planned": g.b(3) > 0, "ms": g.pick([0, 1, 3, 8, 20, 40]), "rc": g.pick([0, 0, 1, 1009])}
                q["code"] = g.code(f"k{i}z").replace("\0", "0")
                q["ro"] = g.pick([1, 1, 1, 4000])
            q["config"] = g.pick([None, {}, {"shouldFail": True}])
            q["at"] = g.pick([0, 0, 0, 1, 4, 10, 25])
            q["conn"] = g.b(4)
            reqs.append(q)
        return {"reqs": reqs, "new": new, "keep": g.b(3) == 0}

    def judge(self, c):
        s = self.s
        s.reset()
        if c["new"]:
            s.plan("new", ms=c["new"])
        for q in c["reqs"]:
            if q["planned"]:
                s.plan(q["key"], f"out of {q['key']} é\n", f"err of {q['key']}\n", q["rc"], q["ms"], q["ro"])
        got = [None] * len(c["reqs"])
        bad = []
        # with keep: four connections, each of which sends its requests one after the other
        groups = {}
        for i, q in enumerate(c["reqs"]):
            groups.setdefault(q["conn"] if c["keep"] else i, []).append(i)

        def run(ids):
            conn = s.conn()
            try:
                for i in ids:
                    q = c["reqs"][i]
                    if q["at"]:
                        time.sleep(q["at"] / 1000)
                    body = json.dumps({"code": q["code"], "config": q["config"]})
                    got[i] = s.ask("POST", "/" + q["op"], body, {"Content-Type": "application/json"}, conn=conn)
            except Undecided as e:
                bad.append(e)
            finally:
                conn.close()
        ts = [threading.Thread(target=run, args=(ids,)) for ids in groups.values()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if bad:
            raise bad[0]
        self.count("requests", len(got))
        self.count("groups", len(groups))
        if len(groups) > 2 and len({q["op"] for q in c["reqs"]}) > 1:
            self.nontrivial(self.text(c))
        for i, (q, r) in enumerate(zip(c["reqs"], got)):
            where = f"request {i} of {len(got)} concurrent ones: POST /{q['op']} {q['code'][:200]!r}"
            if r is None:
                return [V("dropped", f"{where} got no answer; the server says: {s.stderr()}")]
            if r[0] != 200:
                return [V("status", f"{where}: {r[0]} {r[2][:300]!r}")]
            j = answer(r)
            if q["planned"]:
                want = {"success": True, "stdout": f"out of {q['key']} é\n" * q["ro"], "stderr": f"err of {q['key']}\n"}
                if j != want:
                    return [V("answer", f"{where}: the answer is {str(j)[:600]}, expected {str(want)[:300]}")]
            else:
                try:
                    e = json.loads(j["stdout"])["echo"]
                except (ValueError, KeyError, TypeError):
                    return [V("stdout", f"{where}: {r[2][:300]!r}")]
                if e.get("code") != q["code"]:
                    return [V("code", f"{where}: the answer is for {e.get('code')!r}")]
                sf = q["op"] == "interpreter" and q["config"] == {"shouldFail": True}
                if ("--should-fail" in e["args"]) != sf or q["op"] not in e["args"]:
                    return [V("args", f"{where} with {q['config']}: cargo {e['args']}")]
        calls = sorted((e["code"], [a for a in e["args"] if a in ("permissions", "interpreter")]) for e in s.log() if "code" in e)
        want = sorted((q["code"], [q["op"]]) for q in c["reqs"])
        if calls != want:
            return [V("runs", f"{len(calls)} runs for {len(want)} requests: " + str([w for w in want if w not in calls] + [w for w in calls if w not in want])[:800])]
        for pid, st in s.ends():
            if st != "same":
                return [V("changed", f"the program that process {pid} analyses changed while it ran")]
        return []


main(C)
