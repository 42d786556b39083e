"""Client of the fork server."""
import json, os, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, ".build/target")


def sysroot():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2024-12-15")
    return subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True, check=True).stdout.strip()


class VH:
    def __init__(self, sysroot_):
        self.dir = tempfile.mkdtemp(prefix="vh-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("RUST", "CARGO"))}
        env.update(VH_SYSROOT=sysroot_, VH_DIR=self.dir, LD_LIBRARY_PATH=sysroot_ + "/lib")
        self.p = subprocess.Popen([os.path.join(TARGET, "debug/vh")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  text=True, env=env, encoding="utf-8")
        from progen import LIB
        src, lib = os.path.join(self.dir, "pre.rs"), os.path.join(self.dir, "libpre.rmeta")
        with open(src, "w") as f:
            f.write(LIB)
        subprocess.run([sysroot_ + "/bin/rustc", "--edition=2021", "--crate-name=pre", "--crate-type=rlib", "--emit=metadata", "-o", lib, src],
                       env=env, check=True, capture_output=True)
        self.ext = ["--extern", "pre=" + lib]

    def req(self, **k):
        self.p.stdin.write(json.dumps(k) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the harness process died")
        return json.loads(line)

    def rustc(self, code, *args):
        """Errors of the compiler: [(code, line, col, message)], sorted as reported; None on an internal error."""
        r = self.req(cmd="rustc", code=code, rustc_args=self.ext + list(args))
        errs = []
        for l in r["stderr"].splitlines():
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("level") != "error" or not d["spans"]:
                continue
            sp = [s for s in d["spans"] if s["is_primary"]][0]
            errs.append(((d["code"] or {}).get("code"), sp["line_start"] - 1, sp["column_start"] - 1, d["message"], sp["line_end"] - 1, sp["column_end"] - 1,
                         [(x["line_start"] - 1, x["column_start"] - 1, x["line_end"] - 1, x["column_end"] - 1, x["label"] or "") for x in d["spans"]]))
        ok = r["status"] == 0
        if ok != (not errs) or r["status"] not in (0, 1):
            return None
        return errs

    def perms(self, code, mode=None, flows=False, should_fail=False):
        args = (["--should-fail"] if should_fail else []) + ["permissions"]
        if mode:
            args += ["--steps-include-mode", mode]
        if flows:
            args += ["--show-flows"]
        return self.req(cmd="plugin", code=code, args=args, rustc_args=self.ext)

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
