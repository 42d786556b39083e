"""P19: the server analyses exactly the posted code, as its config says, and answers exactly what was printed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from serve import *


class C(Check):
    pid = "P19"
    builds = ["serve", "fake"]
    quick, thorough = 9000, 150000
    nbytes = 1024
    rule = "non-ASCII or escaped code together with a config, or output that is not plain ASCII, or a run that fails"

    def open(self):
        self.s = Server()

    def close(self):
        self.s.close()

    def gen(self, src):
        g = G(src)
        reqs = []
        for i in range(1 + g.b(3)):
            q = {"op": g.pick(["permissions", "interpreter"]), "key": f"k{i}z", "planned": g.b(4) > 0, "new": g.pick([0] * 19 + [1]), "config": g.config()}
            q["code"] = g.code(q["key"] if q["planned"] else None)
            q["body"] = g.body(q["code"], q["config"]).decode("latin1")
            q["ctype"] = g.pick(["application/json", "application/json", "application/json; charset=utf-8", "application/problem+json"])
            q["origin"] = g.pick([None, "http://localhost:8000", "https://example.org", "null"])
            q["out"], q["err"] = g.out().decode("latin1"), g.out().decode("latin1")
            big = g.b(12) == 0
            q["ro"], q["re"] = (g.pick([1, 3000, 70000, 300000]), g.pick([1, 3000, 70000, 300000])) if big else (1, 1)
            q["rc"] = g.pick([0, 0, 0, 1, 101, 255, 1006, 1009])
            q["newerr"] = g.pick(["error: é no space left\n", "", "warning: something", "  \n"])
            q["newrc"] = g.pick([101, 0, 1]) if q["newerr"].strip() else 101
            reqs.append(q)
        return {"reqs": reqs, "keep": g.b(2)}

    def judge(self, c):
        s = self.s
        s.reset()
        conn = s.conn() if c["keep"] else None
        try:
            for i, q in enumerate(c["reqs"]):
                v = self.one(s, q, conn, i)
                if v:
                    return [v]
        finally:
            if conn:
                conn.close()
        return []

    def one(self, s, q, conn, i):
        code, config = q["code"], q["config"]
        out, err = q["out"].encode("latin1") * q["ro"], q["err"].encode("latin1") * q["re"]
        if q["planned"]:
            s.plan(q["key"], q["out"].encode("latin1"), q["err"].encode("latin1"), q["rc"], 0, q["ro"], q["re"])
        if q["new"]:
            s.plan("new", err=q["newerr"], rc=q["newrc"])
        h = {"Content-Type": q["ctype"]}
        if q["origin"]:
            h["Origin"] = q["origin"]
        n0 = len(s.log())
        r = s.ask("POST", "/" + q["op"], q["body"].encode("latin1"), h, conn=conn)
        if q["new"]:
            s.unplan("new")
        self.count("requests")
        where = f"request {i}: POST /{q['op']} {q['body'][:300]!r}"
        if r is None:
            return V("dropped", f"{where} got no answer; the server says: {s.stderr()}")
        st, hd, body = r
        if q["origin"] and hd.get("access-control-allow-origin") != "*":
            return V("cors", f"{where} from {q['origin']}: access-control-allow-origin is {hd.get('access-control-allow-origin')!r}")
        if q["new"]:
            self.count("no project")
            self.nontrivial(self.text(q))
            if st != 500:
                return V("no project", f"{where}: cargo new fails, but the answer is {st} {body[:300]!r}")
            if q["newerr"].strip() and q["newerr"].strip().encode() not in body:
                return V("no project: reason", f"{where}: cargo new printed {q['newerr']!r}, the answer is {body[:300]!r}")
            if any("code" in e for e in s.log()[n0:]):
                return V("no project: run", f"{where}: cargo new fails, yet the program is analysed")
            return None
        if st != 200:
            return V("status", f"{where}: {st} {body[:300]!r}; the server says: {s.stderr()}")
        j = answer(r)
        if not isinstance(j, dict) or set(j) != {"success", "stdout", "stderr"} or not hd.get("content-type", "").startswith("application/json"):
            return V("shape", f"{where}: {hd.get('content-type')} {body[:300]!r}")
        calls = [e for e in s.log()[n0:] if "code" in e]
        if len(calls) != 1:
            return V("runs", f"{where}: {len(calls)} runs")
        e = calls[0]
        want = code.encode("utf-8", "surrogatepass").decode("utf-8", "surrogateescape")
        if e["code"] != want:
            return V("code", f"{where}: analysed was\n{e['code'][:1500]!r}\nposted was\n{want[:1500]!r}")
        args = [a for a in e["args"] if a not in ("--quiet", "-q")]
        wargs = ["aquascope"] + (["--should-fail"] if q["op"] == "interpreter" and isinstance(config, dict) and not any(config.get("shouldFail") is x for x in (None, False)) else []) + [q["op"]]
        if args != wargs:
            return V("args", f"{where}: cargo {e['args']}, expected {wargs}")
        if e["MIRI_SYSROOT"] != "/nonexistent/miri-sysroot":
            return V("sysroot", f"{where}: MIRI_SYSROOT is {e['MIRI_SYSROOT']!r}")
        if not q["planned"]:
            try:
                echo = json.loads(j["stdout"])["echo"]
            except (ValueError, KeyError, TypeError):
                return V("stdout", f"{where}: {j['stdout'][:300]!r} is not what the run printed")
            if echo.get("code") != code or j["stderr"] != "" or j["success"] is not True:
                return V("echo", f"{where}: {body[:600]!r}")
            if len(code.encode("utf-8", "surrogatepass")) != len(code) and config is not None:
                self.nontrivial(self.text(q))
            return None
        for k, d in (("stdout", out), ("stderr", err)):
            if j[k] != lossy(d):
                return V(k, f"{where}: the run printed {d[:300]!r} ({len(d)} bytes) to {k}, the answer has {j[k][:300]!r} ({len(j[k])})")
        if j["success"] != bool(lossy(out).strip(WS)):
            return V("success", f"{where}: success is {j['success']}, printed was {out[:300]!r}, exit {q['rc']}")
        if q["rc"] or any(b > 127 for b in out[:100] + err[:100]) or q["ro"] > 1:
            self.nontrivial(self.text(q))
        return None


main(C)
