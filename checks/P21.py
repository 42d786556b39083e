"""P21: whatever a client sends or however a request ends, nothing is left behind and the server goes on."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, Check, V
from serve import *

#: bodies that are not a request
MALFORMED = [b"", b"{", b"[]", b"null", b"3", b"\"x\"", b"{}", b"{\"code\":1}", b"{\"code\":null}", b"{\"config\":{}}", b"{\"code\":\"a\",}", b"{\"code\":\"\\ud800\"}", b"{\"code\":\"\xff\"}", b"\xff\xfe", b"{\"code\":\"a\"} x",
             b"{\"code\":\"a\",\"code\":\"b\"}", b"{\"Code\":\"a\"}", b"[" * 200, b"{\"code\":[\"a\"]}", b"{\"code\":\"a\nb\"}", b"{'code':'a'}", b"\x00", b"{\"code\":\"\\x\"}", b"{\"code\":{}}"]
CTYPES = [None, "text/plain", "application/x-www-form-urlencoded", "", "application", "text/json", "multipart/form-data"]
PATHS = ["/", "/permission", "/Permissions", "/interpreter/x", "/..", "/permissions%2f", "/%00", "/a?b=permissions", "//permissions", "/x/é"]
#: not HTTP at all
GARBAGE = [b"\r\n\r\n", b"GET\r\n\r\n", b"POST /permissions HTTP/9.9\r\n\r\n", b"\x16\x03\x01\x02\x00\x01\x00", b"POST /permissions HTTP/1.1\r\nContent-Length: x\r\n\r\n",
           b"POST /permissions HTTP/1.1\r\nHost: a\r\nContent-Type: application/json\r\nContent-Length: 5\r\n\r\n{",
           b"POST /permissions HTTP/1.1\r\nHost: a\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", b"POST /interpreter HTTP/1.1\r\nHost: a\r\n", b"P", b""]
SETTLE_S = 8


class C(Check):
    pid = "P21"
    builds = ["serve", "fake"]
    quick, thorough = 6000, 120000
    nbytes = 1024
    rule = "a history in which a client goes away during a run, together with a run that fails or a malformed request"
    assumptions = ["left behind is what is still there 8 s after the last answer or the end of the connection"]

    def open(self):
        self.s = Server()

    def close(self):
        self.s.close()

    def fixed_cases(self):
        slow = [{"kind": "slow", "op": o, "key": f"s{i}z", "ms": 60000, "out": "", "after": 0, "fork": i == 1} for i, o in enumerate(["permissions", "interpreter", "permissions"])]
        return [{"steps": slow + [{"kind": "run", "op": "permissions", "key": "qz", "ms": 100, "rc": 0, "new": 0, "out": "x"}], "together": 1}]

    def gen(self, src):
        g = G(src)
        steps = []
        for i in range(1 + g.b(6)):
            k = g.pick(["run", "run", "gone", "gone", "malformed", "ctype", "path", "method", "garbage", "split"])
            st = {"kind": k, "op": g.pick(["permissions", "interpreter"]), "key": f"k{i}z"}
            st["fork"] = g.b(2)
            if k in ("run", "split"):
                st.update(ms=g.pick([0, 0, 5, 20]), rc=g.pick([0, 1, 101, 1009, 1006]), new=g.pick([0, 0, 0, 0, 1, 2]), out=g.pick(["", "[]", "\xff"]))
            if k == "gone":
                st.update(ms=g.pick([300, 5000, 60000]), at=g.pick([0, 1, 2, 5, 10, 30, 100]), newms=g.pick([0, 0, 0, 300, 60000]), reset=g.b(2))
            elif k == "malformed":
                st["body"] = g.pick(MALFORMED).decode("latin1")
            elif k == "ctype":
                st["ctype"] = g.pick(CTYPES)
            elif k == "path":
                st["path"], st["method"] = g.pick(PATHS), g.pick(["GET", "POST"])
            elif k == "method":
                st["path"], st["method"] = g.pick([("/permissions", "GET"), ("/interpreter", "PUT"), ("/hi", "POST"), ("/permissions", "DELETE"), ("/interpreter", "HEAD")])
            elif k == "garbage":
                st["data"] = g.pick(GARBAGE).decode("latin1")
            elif k == "split":
                st["cut"] = g.b(200)
            steps.append(st)
        return {"steps": steps, "together": g.b(3) == 0}

    def judge(self, c):
        s = self.s
        s.reset()
        news = [st for st in c["steps"] if st.get("new") or st.get("newms")]
        together = c["together"] and not news
        for st in c["steps"]:
            self.count(st["kind"])
            if "ms" in st:
                s.plan(st["key"], st.get("out", "x").encode("latin1"), "e", st.get("rc", 0), st["ms"], forks=st.get("fork", 0))
        kinds = {st["kind"] for st in c["steps"]}
        if "gone" in kinds and (kinds & {"malformed", "garbage", "ctype"} or any(st.get("rc") or st.get("new") for st in c["steps"])):
            self.nontrivial(self.text(c))
        vs, und = [], []

        def run(i, st):
            try:
                v = self.step(s, st)
                if v:
                    v.msg = f"step {i}, {st}: " + v.msg
                    vs.append(v)
            except (Undecided, OSError) as e:
                und.append(f"step {i}, {st}: {e!r}")
        if together:
            ts = [threading.Thread(target=run, args=(i, st)) for i, st in enumerate(c["steps"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            for i, st in enumerate(c["steps"]):
                run(i, st)
                if vs or und:
                    break
        if not s.alive:
            e = s.stderr()
            s.start()
            return [V("dead", f"the server ended: {e}")]
        if vs:
            self.settle(s)
            return vs[:1]
        if und:
            raise Undecided(und[0])
        r = s.ask("GET", "/hi", timeout=20)
        if r is None or r[0] != 200 or r[2] != b"HELLO!":
            return [V("hi", f"after this, GET /hi is answered with {r and (r[0], r[2][:100])}")]
        dirs, pids = self.settle(s)
        if pids:
            for p in pids:
                os.kill(p, signal.SIGKILL)
            return [V("process", f"{len(pids)} commands still run {SETTLE_S} s after the end of their requests")]
        if dirs:
            for d in dirs:
                shutil.rmtree(os.path.join(s.tmp, d), ignore_errors=True)
            return [V("folder", f"left in the temporary folder {SETTLE_S} s after the end of the requests: {dirs}")]
        if any(st.get("ms") == 60000 and st["kind"] == "slow" for st in c["steps"]):
            self.count("timeouts", sum(st["kind"] == "slow" for st in c["steps"]))
        return []

    def settle(self, s):
        t = time.time() + SETTLE_S
        w = 0.002
        while True:
            dirs, pids = os.listdir(s.tmp), s.pids()
            if not dirs and not pids or time.time() > t:
                return dirs, pids
            time.sleep(w)
            w = min(0.3, w * 2)

    def step(self, s, st):
        k, J = st["kind"], {"Content-Type": "application/json"}
        body = json.dumps({"code": f"fn main() {{ vf_{st['key']}; }}"}).encode()
        if st.get("new") or st.get("newms"):
            s.plan("new", err="error: no é\n" if st.get("new") == 2 else "", rc=101 if st.get("new") else 0, ms=st.get("newms", 0))
        try:
            if k in ("run", "split"):
                if k == "run":
                    r = s.ask("POST", "/" + st["op"], body, J)
                else:
                    # the same in two pieces, with a pause
                    data = f"POST /{st['op']} HTTP/1.1\r\nHost: a\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: {len(body)}\r\n\r\n".encode() + body
                    cut = min(st["cut"], len(data))
                    with s.raw(data[:cut]) as sock:
                        time.sleep(0.003)
                        sock.sendall(data[cut:])
                        sock.settimeout(70)
                        resp = http.client.HTTPResponse(sock)
                        try:
                            resp.begin()
                            r = resp.status, {a.lower(): b for a, b in resp.getheaders()}, resp.read()
                        except (http.client.HTTPException, ConnectionResetError):
                            r = None
                if r is None:
                    return V("dropped", f"no answer; the server says: {s.stderr()}")
                if st["new"]:
                    return None if r[0] == 500 else V("status", f"cargo new fails, the answer is {r[0]} {r[2][:200]!r}")
                want = {"success": bool(st["out"]), "stdout": lossy(st["out"].encode("latin1")), "stderr": "e"}
                return None if r[0] == 200 and answer(r) == want else V("answer", f"{r[0]} {r[2][:300]!r}, expected {want}")
            if k == "slow":
                t = time.time()
                r = s.ask("POST", "/" + st["op"], body, J, timeout=55)
                t = time.time() - t
                if r is None:
                    return V("dropped", f"no answer; the server says: {s.stderr()}")
                if r[0] != 500 or not 10 < t < 50:
                    return V("timeout", f"a command that takes a minute: answered after {t:.0f} s with {r[0]} {r[2][:200]!r}")
                return None
            if k == "gone":
                sock = s.raw(f"POST /{st['op']} HTTP/1.1\r\nHost: a\r\nContent-Type: application/json\r\nContent-Length: {len(body)}\r\n\r\n".encode() + body)
                time.sleep(st["at"] / 1000)
                if st["reset"]:
                    import struct
                    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                sock.close()
                return None
            if k == "malformed":
                r = s.ask("POST", "/" + st["op"], st["body"].encode("latin1"), J)
                return self.refused(s, r)
            if k == "ctype":
                r = s.ask("POST", "/" + st["op"], body, {} if st["ctype"] is None else {"Content-Type": st["ctype"]})
                return self.refused(s, r)
            if k == "path":
                import urllib.parse
                r = s.ask(st["method"], urllib.parse.quote(st["path"], safe="/?=%."), body if st["method"] == "POST" else None, J)
                if r is None or r[0] != 404:
                    return V("path", f"answered with {r and (r[0], r[2][:200])}, expected 404")
                return None
            if k == "method":
                r = s.ask(st["method"], st["path"], None, J)
                if r is None or r[0] != 405:
                    return V("method", f"answered with {r and (r[0], r[2][:200])}, expected 405")
                return None
            if k == "garbage":
                with s.raw(st["data"].encode("latin1")) as sock:
                    sock.shutdown(socket.SHUT_WR)
                    sock.settimeout(5)
                    try:
                        while sock.recv(65536):
                            pass
                    except (TimeoutError, socket.timeout, ConnectionError):
                        pass
                return None
        finally:
            if st.get("new") or st.get("newms"):
                if k == "gone":
                    # whoever came too late for the slow `cargo new` meets the slow run instead
                    time.sleep(0.01)
                s.unplan("new")

    def refused(self, s, r):
        n = len([e for e in s.log() if e.get("code") and "vf_" not in e["code"]])
        if r is None:
            return V("dropped", f"no answer; the server says: {s.stderr()}")
        j = answer(r)
        if not (isinstance(j, dict) and isinstance(j.get("error"), str) and j["error"].strip() and "success" not in j):
            return V("refused", f"not a request, yet answered with {r[0]} {r[2][:300]!r}, not with an error")
        if n:
            return V("refused: run", "not a request, yet something is analysed")
        return None


main(C)
