"""Runs one property: shards of Hypothesis-generated cases, shrinking, confirmation in a fresh process, evidence.

A check is a module with a class derived from Check. Every random choice of a case is drawn through Hypothesis
(`src.below(n)`), and recorded, so that a failing case is replayed from its list of choices without Hypothesis.

Exits: 0 the property held; 1 with a VIOLATION line; 3 the check could not decide (build failure, hang, unconfirmed
failure...)."""
import collections, hashlib, json, os, subprocess, sys, time, traceback, shutil, signal

LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
sys.path.insert(0, LIB)
PY = "python3-vt" if shutil.which("python3-vt") else sys.executable
SHRINK_S = 45


class Undecided(Exception):
    """Neither a pass nor a violation: the check ends with exit 3."""


class Skip(Exception):
    """The case says nothing (outside the domain of the property)."""


class ListSrc:
    """Replays recorded choices; past the end, zeros."""
    def __init__(self, choices):
        self.c, self.i = choices, 0

    def below(self, n):
        v = self.c[self.i] if self.i < len(self.c) else 0
        self.i += 1
        return min(v, n - 1)


class BytesSrc:
    """Decodes the bytes drawn by Hypothesis into choices, and records them."""
    def __init__(self, data):
        self.data, self.i, self.rec = data, 0, []

    def below(self, n):
        v = 0
        if n > 1:
            k = 1 if n <= 64 else 2 if n <= 16384 else 4
            c = self.data[self.i:self.i + k]
            self.i += k
            v = int.from_bytes(c, "big") % n if len(c) == k else 0
        self.rec.append(v)
        return v


class V:
    """A violation: sig identifies the kind (matched against the known findings), msg explains."""
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Check:
    pid = "?"
    builds = ["vh"]
    quick = 2000
    thorough = 30000
    shards = 8
    nbytes = 1024
    rule = ""
    assumptions = []

    def __init__(self):
        self.stats = collections.Counter()
        self.seen = set()
        self.samples = []
        self.known = collections.Counter()
        self.kf = load_known(self.pid)

    # to override
    def open(self):
        pass

    def close(self):
        pass

    def gen(self, src):
        raise NotImplementedError

    def text(self, case):
        return case if isinstance(case, str) else json.dumps(case, ensure_ascii=False, default=str)

    def judge(self, case):
        """-> list of V. Calls self.count / self.nontrivial."""
        raise NotImplementedError

    # helpers
    def count(self, k, n=1):
        self.stats[k] += n

    def nontrivial(self, text):
        h = hashlib.sha1(text.encode()).digest()[:8]
        if h not in self.seen:
            self.seen.add(h)
            if len(self.samples) < 2 and len(self.seen) in (3, 40):
                self.samples.append(text[-4000:])

    def fixed_cases(self):
        """Lists of choices (or ready cases) always run first by shard 0."""
        return []

    def run_case(self, case):
        """-> the first unlisted violation, or None"""
        self.count("cases")
        try:
            vs = self.judge(case)
        except Skip as e:
            self.count(f"skipped: {e}")
            return None
        for v in vs:
            hit = [k for k in self.kf if k in v.sig]
            if hit:
                self.known[hit[0]] += 1
            else:
                return v
        return None


def load_known(pid):
    out = {}
    p = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d["kind"] == "known" and d["property"] == pid:
                    out[d["signature"]] = d["what"]
    return out


def shrink(check, rec, v, t_end):
    """Delta debugging on the list of choices: shorter first, then smaller values."""
    def attempt(c):
        try:
            case = check.gen(ListSrc(c))
            w = check.run_case(case)
        except Undecided:
            return None
        return (w, len(check.text(case))) if w is not None and w.sig == v.sig else None

    first = attempt(rec)
    if first is None:
        return rec, v
    size = first[1]
    v = first[0]
    progress = True
    while progress and time.time() < t_end:
        progress = False
        k = max(1, len(rec) // 2)
        while k >= 1 and time.time() < t_end:
            i = 0
            while i < len(rec) and time.time() < t_end:
                for c in (rec[:i] + rec[i + k:], rec[:i] + [0] * len(rec[i:i + k]) + rec[i + k:]):
                    if c == rec:
                        continue
                    r = attempt(c)
                    if r and (r[1], len(c), sum(c)) < (size, len(rec), sum(rec)):
                        rec, v, size, progress = c, r[0], r[1], True
                        break
                else:
                    i += k
            k //= 2
        while rec and rec[-1] == 0:
            rec = rec[:-1]
    return rec, v


def run_shard(check, shard, n, seed):
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, strategies as st
    from hypothesis.errors import HypothesisException
    best = {"len": None, "rec": None, "msg": None, "sig": None}
    und = []

    class Fail(Exception):
        pass

    def one(data):
        if und or best["rec"] is not None:
            return
        src = BytesSrc(data)
        case = check.gen(src)
        try:
            v = check.run_case(case)
        except Undecided as e:
            und.append(str(e))
            return
        if v is not None:
            best.update(len=(len(check.text(case)), len(src.rec)), rec=list(src.rec), msg=v.msg, sig=v.sig)
            raise Fail(v.sig)

    f = given(st.binary(min_size=check.nbytes, max_size=check.nbytes))(one)
    f = settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate,),
                 suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)(f)
    f = hseed(seed)(f)
    err = None
    if shard == 0:
        for case in check.fixed_cases():
            v = check.run_case(case)
            check.count("regression cases")
            if v is not None and best["rec"] is None:
                best.update(rec={"case": case}, msg=v.msg, sig=v.sig, len=(len(check.text(case)), 0))
    if best["rec"] is None:
        try:
            f()
        except Fail:
            pass
        except HypothesisException as e:
            if best["rec"] is None:
                err = f"{type(e).__name__}: {e}"
        if isinstance(best["rec"], list):
            v0 = V(best["sig"], best["msg"])
            rec, v = shrink(check, best["rec"], v0, time.time() + SHRINK_S)
            best.update(rec=rec, msg=v.msg, len=(len(check.text(check.gen(ListSrc(rec)))), len(rec)))
    return {"stats": dict(check.stats), "distinct": [h.hex() for h in check.seen], "samples": check.samples,
            "known": dict(check.known), "best": best, "undecided": und, "err": err}


def main(cls):
    a = sys.argv[1:]
    if "--shard" in a:
        i = int(a[a.index("--shard") + 1])
        n = int(a[a.index("--n") + 1])
        seed = int(a[a.index("--seed") + 1])
        out = a[a.index("--out") + 1]
        signal.signal(signal.SIGTERM, lambda *_: sys.exit(5))
        check = cls()
        check.shard = i
        try:
            check.open()
            r = run_shard(check, i, n, seed)
        except Undecided as e:
            r = {"err": str(e)}
        except BaseException as e:
            r = {"err": "".join(traceback.format_exception(e))[-3000:]}
        finally:
            try:
                check.close()
            except Exception:
                pass
        json.dump(r, open(out, "w"))
        sys.exit(0)
    if "--replay" in a:
        sys.exit(replay(cls, a[a.index("--replay") + 1], "--nobuild" in a))
    sys.exit(parent(cls))


def build(cls):
    b = subprocess.run([os.path.join(LIB, "build.sh")] + cls.builds, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if b.returncode:
        print("the harness does not build:\n" + (b.stdout + b.stderr)[-4000:])
        return False
    return True


def replay(cls, path, nobuild):
    d = json.load(open(path))
    if not nobuild and not build(cls):
        return 3
    check = cls()
    check.shard = 0
    check.open()
    try:
        case = d["case"] if d.get("choices") is None else check.gen(ListSrc(d["choices"]))
        v = check.run_case(case)
    except Undecided as e:
        print("undecided:", e)
        return 3
    finally:
        check.close()
    print(check.text(case))
    if v is None:
        print("no violation")
        return 0
    print(v.sig)
    print(v.msg)
    print(f"VIOLATION property={cls.pid} replay={os.path.relpath(path, ROOT)}")
    return 1


def parent(cls):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    total = cls.quick if tier == "quick" else cls.thorough
    if "--cases" in sys.argv:
        total = int(sys.argv[sys.argv.index("--cases") + 1])
    if not build(cls):
        return 3
    tb = time.time()
    tmp = os.path.join(ROOT, ".build", "run", f"{cls.pid}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    procs = []
    script = os.path.abspath(sys.argv[0])
    env = dict(os.environ, PYTHONHASHSEED="0", VERIF_TIER=tier)
    for i in range(cls.shards):
        s = int.from_bytes(hashlib.sha256(f"{seed}/{cls.pid}/{i}".encode()).digest()[:6], "big")
        out = os.path.join(tmp, f"{i}.json")
        log = open(os.path.join(tmp, f"{i}.log"), "w")
        procs.append((subprocess.Popen([PY, script, "--shard", str(i), "--n", str(max(1, total // cls.shards)), "--seed", str(s), "--out", out],
                                       stdin=subprocess.DEVNULL, stdout=log, stderr=log, env=env), out, log.name))
    limit = 800 if tier == "quick" else 6 * 3600
    res, bad = [], []
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.terminate()
            bad.append("a shard ran out of time")
            continue
        if not os.path.exists(out):
            bad.append(f"a shard ended with {p.returncode}: {open(log).read()[-1500:]}")
            continue
        res.append(json.load(open(out)))
    for p, _, _ in procs:
        if p.poll() is None:
            p.terminate()
    stats, distinct, samples, known = collections.Counter(), set(), [], collections.Counter()
    bests = []
    for r in res:
        if r.get("err"):
            bad.append(r["err"])
        for u in r.get("undecided", []):
            bad.append("undecided: " + u)
        stats.update(r.get("stats", {}))
        distinct.update(r.get("distinct", []))
        samples += r.get("samples", [])
        known.update(r.get("known", {}))
        if r.get("best", {}).get("rec") is not None:
            bests.append(r["best"])
    shutil.rmtree(tmp, ignore_errors=True)
    viol = None
    bests.sort(key=lambda b: b["len"] or (0, 0))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for b in bests[:3]:
        d = {"property": cls.pid, "signature": b["sig"], "message": b["msg"]}
        if isinstance(b["rec"], dict):
            d["case"] = b["rec"]["case"]
        else:
            d["choices"] = b["rec"]
        path = os.path.join(ROOT, "replays", f"{cls.pid}-{hashlib.sha1(json.dumps(d, default=str).encode()).hexdigest()[:10]}.json")
        json.dump(d, open(path, "w"), default=str)
        rr = subprocess.run([PY, script, "--replay", path, "--nobuild"], stdin=subprocess.DEVNULL, capture_output=True, text=True, env=env)
        if rr.returncode == 1:
            viol = (path, b, rr.stdout)
            break
        bad.append(f"a failure did not show again when replayed: {b['sig']}: {b['msg']}\n{(rr.stdout + rr.stderr)[-1500:]}")
    ev = {
        "property": cls.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.get("cases", 0),
            "distinct_nontrivial": len(distinct),
            "rule": cls.rule,
            "samples": samples[:4],
            "classes": {k: v for k, v in sorted(stats.items()) if k != "cases"},
            "known_findings_seen": dict(known),
        },
        "assumptions": cls.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{cls.pid}.json"), "w"), indent=1, ensure_ascii=False)
    for sig, what in load_known(cls.pid).items():
        print(f"KNOWN-FINDING: property={cls.pid} {what}" + (f" (met {known[sig]} times in this run)" if known.get(sig) else ""))
    print(f"{cls.pid}: {stats.get('cases', 0)} cases, {len(distinct)} distinct non-trivial, build {tb - t0:.0f} s, run {time.time() - tb:.0f} s")
    for k, v in sorted(stats.items()):
        print(f"   {v:8d} {k}")
    if viol:
        path, b, out = viol
        print(out)
        return 1
    if bad:
        print("\n".join(bad)[:6000])
        return 3
    return 0
