"""P12: `cargo aquascope permissions` prints the analysis of the package as it is now, with the options it was given."""
import os, re, sys, shutil, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, ROOT
from ana import *
from wild import wild
from progen import LIB

BIN = os.path.join(ROOT, ".build/target/debug")
NAMES = ["x", "aquascope_tmp_proj", "example", "a-b", "main2", "core2", "test-fn"]
DIRS = ["d", "with space", "é日本", "a'b", "x.y"]
MODES = [None, None, "Changes", "All"]
WRONG = [["--nope"], ["permissions", "--steps-include-mode", "all"], ["permission"], [], ["permissions", "x"], ["permissions", "--should-fail"], ["permissions", "--steps-include-mode"]]
SMALL = ["fn main() {}\n", "fn main() {\n    let s = String::new();\n    let t = s;\n    println!(\"{t}\");\n}\n", "// é\n", "fn main() { 1 }\n", "fn main() {\n", "", "pub fn f<'a, 'b>(x: &'a i32, y: &'b i32) -> &'a i32 { y }\nfn main() {}\n",
         "#![allow(warnings)]\nfn main() {\n    let mut v = vec![1];\n    let r = &v;\n    v.push(2);\n    println!(\"{r:?}\");\n}\nfn g() { let x = 1; }\n",
         "fn main() {\n    let mut x = 1;\n    let r = &mut x;\n    *r += 1;\n    println!(\"{x}\");\n}\n"]
MOD = ["pub fn g(s: &mut String) {\n    let r = &mut *s;\n    r.push('é');\n}\n", "pub fn h() -> String {\n    let a = String::new();\n    let b = a;\n    b\n}\n\npub struct Z;\nimpl Z {\n    pub fn z(&self) {}\n}\n",
       "pub fn g() {\n    let s = String::new();\n    drop(s);\n    drop(s);\n}\n"]




def crate(t):
    """Messages name the crate, which has another name in the harness."""
    return re.sub(r"~ \w+\[\w+\]", "~ crate", t)


def view(out, changes):
    """What of a full answer is to be seen with the given options: without the numbers of files, and the rows of the tables where no permission changes."""
    res = []
    for o in out:
        if "Ok" not in o:
            res.append(o)
            continue
        o = nofile(o["Ok"])
        steps = sorted({json.dumps([st["location"]["start"], *r], sort_keys=True) for st in o["steps"] for t in st["state"] for r in t["state"]
                        if not changes or any(r[1]["permissions"][k]["type"] != "None" for k in ("read", "write", "drop"))})
        res.append(dict(o, steps=steps))
    return res


def hide_flows(full, got):
    """Takes the flows out of the boundaries. A boundary beyond the first error is only there for its flow."""
    res = []
    for o, g in zip(full, got):
        if "boundaries" in o and "boundaries" in g:
            at = lambda b: (b["location"]["line"], b["location"]["column"])
            plain = [{k: v for k, v in b.items() if k != "expecting_flow"} for b in o["boundaries"]]
            gone = [at(b) for b in plain if b not in g["boundaries"]]
            bs = [p for p, b in zip(plain, o["boundaries"]) if not b.get("expecting_flow") or not gone or at(b) < min(gone)]
            o = dict(o, boundaries=bs)
        res.append(o)
    return res + full[len(res):]


def nofile(x):
    if isinstance(x, dict):
        return {k: nofile(v) for k, v in x.items() if k != "filename"}
    return [nofile(v) for v in x] if isinstance(x, list) else x


class P12(ACheck):
    pid = "P12"
    builds = ["vh", "cli"]
    quick = 240
    thorough = 16000
    rule = "a history with at least two runs between which the program or the options change, at least one of them of a program with expectations"
    assumptions = ["the expected answer is that of the same analysis in the process of the harness (AquascopePlugin::run), whose content P01 to P11 decide"]

    canary = None

    def open(self):
        super().open()
        self.dir = tempfile.mkdtemp(prefix="cli-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        os.makedirs(self.dir + "/pre/src")
        with open(self.dir + "/pre/src/lib.rs", "w") as f:
            f.write(LIB)
        with open(self.dir + "/pre/Cargo.toml", "w") as f:
            f.write('[package]\nname = "pre"\nversion = "0.1.0"\nedition = "2021"\n')
        for mode in MODES:
            for should_fail in (False, True):
                r = self.vh.perms(SMALL[6], flows=True, mode=mode, should_fail=should_fail)
                if not any(b.get("expecting_flow") for o in json.loads(r["stdout"]) for b in o["Ok"]["boundaries"]):
                    self.canary = f"flows are not shown with --show-flows, {mode} and should_fail {should_fail} in\n{SMALL[6]}"
        self.env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
        self.env.update(RUSTUP_TOOLCHAIN="nightly-2024-12-15", CARGO_NET_OFFLINE="true", PATH=BIN + ":/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        super().close()

    def gen(self, src):
        b = src.below
        steps = []
        progs = []
        for i in range(2 + b(3)):
            k = b(8)
            if k == 0 and progs:
                code = progs[b(len(progs))]
            elif k < 3:
                code = {"main": SMALL[b(len(SMALL))]}
            elif k < 6:
                code = {"main": wild(src, *[(0, 0, 0), (20, 0, 0), (5, 10, 0), (0, 0, 8)][b(4)])}
            elif k == 6:
                code = {"main": gen_prog(src, {"x": 1, "bad": [0, 15][b(2)], "stmts": 10}).source()}
            else:
                ms = [b(len(MOD)) for _ in range(1 + b(2))]
                code = {"main": "".join(f"mod m{j};\n" for j in range(len(ms))) + SMALL[b(2)]}
                code.update({f"m{j}": MOD[m] for j, m in enumerate(ms)})
            progs.append(code)
            flags = {"should_fail": b(4) == 0, "flows": b(3) == 0, "mode": MODES[b(4)]}
            steps.append({"code": code, "flags": flags})
            if b(4) == 0:
                # once more, maybe with other options
                steps.append({"code": code, "flags": dict(flags, flows=b(2) == 1, mode=MODES[b(4)])})
            if b(8) == 0:
                steps.append({"code": code, "cmd": ["preload", "rustc-version", "wrong"][b(3)], "wrong": b(len(WRONG))})
        return {"name": NAMES[b(len(NAMES))], "dir": DIRS[b(len(DIRS))], "sub": b(6) == 0, "old": b(3) == 0, "steps": steps}

    def text(self, c):
        return "\n".join(f"--- {st.get('cmd') or st['flags']}\n" + "".join(f"// {k}.rs\n{v}" for k, v in st["code"].items()) for st in c["steps"]) + f"\n--- {c['name']} {c['dir']}"

    def cargo(self, where, *args):
        try:
            return subprocess.run(["cargo", "--quiet", "aquascope", *args], cwd=where, env=self.env, capture_output=True, stdin=subprocess.DEVNULL, timeout=100)
        except subprocess.TimeoutExpired:
            raise Undecided("cargo aquascope did not end")

    def judge(self, c):
        if self.canary:
            return [V("flows", self.canary)]
        d = os.path.join(self.dir, c["dir"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/src")
        try:
            return self.run(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, c, d):
        with open(d + "/Cargo.toml", "w") as f:
            f.write(f'[package]\nname = "{c["name"]}"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\npre = {{ path = "../pre" }}\n[workspace]\n')
        runs, rich = set(), False
        for i, st in enumerate(c["steps"]):
            for f in os.listdir(d + "/src"):
                os.remove(f"{d}/src/{f}")
            for f in os.listdir(self.vh.dir + "/src") if os.path.isdir(self.vh.dir + "/src") else []:
                os.remove(f"{self.vh.dir}/src/{f}")
            for k, v in st["code"].items():
                with open(f"{d}/src/{k}.rs", "w", newline="") as f:
                    f.write(v)
                if c["old"]:
                    # as restored from an archive: older than what was built before
                    os.utime(f"{d}/src/{k}.rs", (1600000000, 1600000000))
                if k != "main":
                    os.makedirs(self.vh.dir + "/src", exist_ok=True)
                    with open(f"{self.vh.dir}/src/{k}.rs", "w", newline="") as f:
                        f.write(v)
            where = d + "/src" if c["sub"] else d
            if st.get("cmd") == "preload":
                self.count("preload")
                p = self.cargo(where, "preload")
                if p.stdout.strip():
                    return [V("preload", f"step {i}: preload prints {p.stdout[:300]!r}")]
                continue
            if st.get("cmd") == "rustc-version":
                self.count("rustc-version")
                p = self.cargo(where, "rustc-version")
                want = subprocess.run(["rustc", "--version"], env=self.env, capture_output=True, text=True).stdout
                got = p.stdout.decode("utf-8", "replace").strip()
                if p.returncode or not got or got not in want:
                    return [V("rustc-version", f"step {i}: prints {got!r} with {p.returncode}, the compiler is {want!r}")]
                continue
            if st.get("cmd") == "wrong":
                self.count("wrong arguments")
                p = self.cargo(where, *WRONG[st["wrong"]])
                if p.returncode == 0 or p.stdout.strip() or not p.stderr.strip():
                    return [V("wrong arguments", f"step {i}: cargo aquascope {WRONG[st['wrong']]} ends with {p.returncode} and prints {p.stdout[:300]!r}")]
                continue
            fl = st["flags"]
            r = self.vh.perms(st["code"]["main"], **fl)
            if r["signal"] or r["status"] not in (0, 1):
                raise Skip("the analysis itself fails")   # P09
            want = r["stdout"]
            full = self.vh.perms(st["code"]["main"], flows=True, mode="All")["stdout"]
            args = (["--should-fail"] if fl["should_fail"] else []) + ["permissions"] + (["--steps-include-mode", fl["mode"]] if fl["mode"] else []) + (["--show-flows"] if fl["flows"] else [])
            p = self.cargo(where, *args)
            self.count("runs")
            got = p.stdout.decode("utf-8", "replace")
            what = f"step {i}: cargo aquascope {' '.join(args)}"
            try:
                w = json.loads(crate(want))
            except ValueError:
                raise Skip("the analysis itself fails")
            try:
                g = json.loads(crate(got))
            except ValueError:
                return [V("output", f"{what} ends with {p.returncode} and prints {got[:500]!r}, the analysis of the program is {want[:500]!r}; stderr: {p.stderr[-800:]!r}")]
            if p.returncode:
                return [V("status", f"{what} ends with {p.returncode}")]
            if got.count("\n") != 1:
                return [V("lines", f"{what} prints {got[:500]!r}")]
            if g != w:
                return [V("answer", f"{what} prints\n{got[:1500]}\nthe analysis of the program is\n{want[:1500]}")]
            try:
                full = json.loads(full)
            except ValueError:
                raise Skip("the analysis itself fails")
            a, b = view(w, False), view(json.loads(crate(json.dumps(full))), fl["mode"] != "All")
            if not fl["flows"]:
                b = hide_flows(b, a)
            if a != b:
                i, x, y = next(((i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y), (len(a), len(b), ""))
                for k in x if isinstance(x, dict) and isinstance(y, dict) else []:
                    if x[k] != y.get(k):
                        x, y = [k, [e for e in x[k] if e not in y[k]] or x[k]], [k, [e for e in y[k] if e not in x[k]] or y[k]]
                        break
                return [V("options", f"{what} prints for body {i}\n{json.dumps(x)[:1500]}\nof the view of everything it is\n{json.dumps(y)[:1500]}")]
            runs.add(json.dumps([st["code"], fl], sort_keys=True))
            rich |= any(o.get("Ok", {}).get("boundaries") for o in g)
        if len(runs) > 1 and rich:
            self.nontrivial(self.text(c))
        return []


if __name__ == "__main__":
    main(P12)
