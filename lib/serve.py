"""Drives the real aquascope_serve binary over HTTP, with a stand-in for cargo (harness/fake)."""
import http.client, json, os, re, shutil, signal, socket, subprocess, tempfile, threading, time
from drive import Undecided, ROOT

BIN = os.path.join(ROOT, ".build/target/debug/aquascope_serve")
FAKE = os.path.join(ROOT, ".build/fake")
SHM = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
#: what Rust's str::trim takes away
WS = "".join(chr(c) for c in [9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000])


class Server:
    """A server of its own, with scratch folders of its own."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="serve-", dir=SHM)
        self.tmp = self.dir + "/tmp"
        for d in ("vf/plan", "tmp"):
            os.makedirs(os.path.join(self.dir, d))
        self.env = {"PATH": FAKE + ":/usr/bin:/bin", "VFAKE": self.dir + "/vf", "VFAKE_ENDS": "1", "MIRI_SYSROOT": "/nonexistent/miri-sysroot",
                    "RUSTC_PATH": FAKE + "/rustc", "HOME": self.dir, "TMPDIR": self.tmp, "RUST_LOG": "off", "AQUASCOPE_SERVER_ADDRESS": "127.0.0.1"}
        self.proc = None
        self.start()

    def start(self):
        for _ in range(20):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.errlog = open(self.dir + "/stderr", "w")
            self.proc = subprocess.Popen([BIN], stdin=subprocess.DEVNULL, stdout=self.errlog, stderr=self.errlog, cwd=self.dir,
                                         env=dict(self.env, AQUASCOPE_SERVER_PORT=str(self.port)))
            for _ in range(200):
                time.sleep(0.03)
                if self.proc.poll() is not None:
                    break
                try:
                    r = self.ask("GET", "/hi", timeout=5)
                except OSError:
                    continue
                if r and r[0] == 200 and self.proc.poll() is None and self.mine():
                    return
            self.kill()
        raise Undecided("aquascope_serve does not start")

    def mine(self):
        """Does this process, not one of another shard, listen on the port?"""
        inode = None
        for l in open("/proc/net/tcp"):
            f = l.split()
            if len(f) > 9 and f[3] == "0A" and f[1].endswith(":%04X" % self.port):
                inode = f[9]
        for fd in os.listdir(f"/proc/{self.proc.pid}/fd"):
            try:
                if os.readlink(f"/proc/{self.proc.pid}/fd/{fd}") == f"socket:[{inode}]":
                    return True
            except OSError:
                pass
        return False

    @property
    def alive(self):
        return self.proc.poll() is None

    def stderr(self):
        return open(self.dir + "/stderr", errors="replace").read()[-1500:]

    def reset(self):
        if not self.alive:
            self.start()
        shutil.rmtree(self.dir + "/vf/plan")
        os.makedirs(self.dir + "/vf/plan")
        for f in ("log", "ends"):
            if os.path.exists(f"{self.dir}/vf/{f}"):
                os.remove(f"{self.dir}/vf/{f}")

    def plan(self, key, out=None, err=None, rc=0, ms=0, ro=1, re_=1, forks=0):
        p = f"{self.dir}/vf/plan/{key}"
        for ext, data in (("out", out), ("err", err)):
            if os.path.exists(f"{p}.{ext}"):
                os.remove(f"{p}.{ext}")
            if data is not None:
                with open(f"{p}.{ext}", "wb") as f:
                    f.write(data if isinstance(data, bytes) else data.encode())
        with open(p, "w") as f:
            f.write(f"{rc} {ms} {ro} {re_} {int(forks)}\n")

    def unplan(self, key):
        os.remove(f"{self.dir}/vf/plan/{key}")

    def log(self):
        p = self.dir + "/vf/log"
        return [json.loads(l) for l in open(p, encoding="utf-8", errors="surrogateescape", newline="\n")] if os.path.exists(p) else []

    def ends(self):
        p = self.dir + "/vf/ends"
        return [l.split() for l in open(p)] if os.path.exists(p) else []

    def ask(self, method, path, body=None, headers=None, timeout=70, conn=None):
        """-> (status, headers, body), or None: the connection was closed without an answer"""
        c = conn or http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        try:
            c.request(method, path, body=body, headers=headers or {})
            r = c.getresponse()
            return r.status, {k.lower(): v for k, v in r.getheaders()}, r.read()
        except (http.client.HTTPException, ConnectionResetError, BrokenPipeError):
            c.close()
            return None
        except (TimeoutError, socket.timeout):
            raise Undecided("no answer within the time limit")
        finally:
            if conn is None:
                c.close()

    def conn(self):
        return http.client.HTTPConnection("127.0.0.1", self.port, timeout=70)

    def raw(self, data):
        s = socket.create_connection(("127.0.0.1", self.port), timeout=20)
        s.sendall(data)
        return s

    def pids(self):
        """The commands that the server started, and what these started, that still run."""
        out = []
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open(f"/proc/{d}/stat") as f:
                        st = f.read().rsplit(")", 1)[1].split()
                except OSError:
                    continue
                if st[0] != "Z" and int(d) != self.proc.pid:
                    try:
                        if os.readlink(f"/proc/{d}/exe") == os.path.realpath(FAKE + "/cargo") and os.readlink(f"/proc/{d}/cwd").startswith(os.path.realpath(self.dir)):
                            out.append(int(d))
                    except OSError:
                        pass
        return out

    def kill(self):
        if self.proc and self.proc.poll() is None:
            for p in self.pids():
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            self.proc.kill()
            self.proc.wait()

    def close(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def answer(r):
    """The JSON of an answer, or None."""
    try:
        return json.loads(r[2])
    except ValueError:
        return None


def lossy(data):
    return data.decode("utf-8", "replace")


# generators -----------------------------------------------------------------------------------------------------
WORDS = ["fn main() {}", "let s = String::from(\"x\");", "println!(\"{}\", s);", "// é 日本 🦀", "\n", "\r\n", "\t", " ", "'a", "\"", "\\", "\\n", "\\u0041", "\u2028", "\ufeff", "\x00", "\x1b[31m",
         "`", "$(id)", "{{}}", "%s", "</script>", "&amp;", "\x7f", "e\u0301", "\U0010ffff", "\ue000", "#!/bin/sh\n", "//! doc\n", "/*", "*/"]
OUTS = [b"", b"[]", b"[{\"Ok\":1}]", b" ", b"\n", b"\n\n\t", "\u00a0\u3000".encode(), b"\x1c", b"{\"Err\":{\"type\":\"BuildError\"}}\n", b"\xff", b"a\xe2\x82", b"\xf0\x9f\xa6\x80", b"\xed\xa0\x80", b"\x00",
        b"\xc3\x28", b"error[E0382]: use of moved value\n", "é🦀\u2028".encode(), b"\\\"", b"\xef\xbb\xbf", b"warning: unused\r\n", b"\xf4\x90\x80\x80"]
CONFIGS = [{}, {"shouldFail": True}, {"shouldFail": False}, {"shouldFail": None}, {"shouldfail": True}, {"steps": True}, {"a": {"shouldFail": True}}, {"shouldFail": "", "boundaries": True}, [], ["shouldFail"],
           "shouldFail", 3, True, False, None, {"ShouldFail": 1}, {"": 0}, {"should-fail": True}, {"boundaries": True, "stepper": True, "shouldFail": [1]}]


class G:
    def __init__(self, src):
        self.b = src.below

    def pick(self, l):
        return l[self.b(len(l))]

    def code(self, key):
        ps = [self.pick(WORDS) if self.b(3) else "".join(chr(self.pick([97, 48, 32, 10, 233, 0x65e5, 0x1f980, 92, 34, 13])) for _ in range(self.b(9))) for _ in range(self.b(8))]
        if self.b(25) == 0:
            ps.append("x = 1; // é\n" * self.pick([10, 500, 8000]))
        t = "".join(ps)
        if key is None:
            return t
        i = 0 if "\0" in t else self.b(len(t) + 1)
        return t[:i] + f"\nvf_{key};\n" + t[i:]

    def out(self):
        return b"".join(self.pick(OUTS) for _ in range(self.b(4)))

    def config(self):
        return self.pick(CONFIGS)

    def body(self, code, config):
        """One of many ways to write a request."""
        items = [("code", code)]
        if config is not None or self.b(2):
            items.append(("config", config))
        if self.b(4) == 0:
            items.append(self.pick([("extra", 1), ("Code", "no"), ("shouldFail", True), ("codes", [1])]))
        if self.b(2):
            items.reverse()
        style = self.b(3)
        t = json.dumps(dict(items), ensure_ascii=style == 0, indent=1 if style == 2 else None)
        return t.encode("utf-8", "surrogatepass")
