"""Common ground of the checks of the permissions analysis."""
import json
from drive import Check, V, Skip, Undecided
from vh import VH, sysroot
from progen import gen_prog, PRELUDE, Use, Place
import progen

NPRE = len(PRELUDE.splitlines())


def ps(d):
    return "".join(c for c, k in zip("RWO", ("read", "write", "drop")) if d[k])


class Bad(Exception):
    """The analysis did not deliver a usable result: (sig, msg)."""
    def __init__(self, sig, msg):
        super().__init__(sig)
        self.v = V(sig, msg)


class ACheck(Check):
    builds = ["vh"]

    def open(self):
        self.vh = VH(sysroot())

    def close(self):
        self.vh.close()

    def text(self, case):
        return case.code if hasattr(case, "code") else super().text(case)

    def rustc(self, code, *args):
        e = self.vh.rustc(code, *args)
        if e is None:
            raise Skip("the compiler itself fails on the program")
        return e

    def analyse(self, code, **kw):
        """The parsed output; raises Bad if there is none."""
        r = self.vh.perms(code, **kw)
        if r["signal"] in (24, 9):
            raise Undecided(f"the analysis was stopped by signal {r['signal']} (time or memory)")
        if r["status"] != 0:
            tail = r["stderr"][-1500:]
            raise Bad("crash", f"the analysis ended with status {r['status']} signal {r['signal']}:\n{tail}")
        lines = r["stdout"].split("\n")
        if len(lines) != 2 or lines[1] != "":
            raise Bad("output", f"the output is not one line: {r['stdout'][:500]!r}")
        try:
            out = json.loads(lines[0])
        except ValueError as e:
            raise Bad("output", f"the output is not JSON: {e}: {r['stdout'][:500]!r}")
        if not isinstance(out, list):
            raise Bad("output", f"the output is not a list: {lines[0][:300]}")
        return out

    def body(self, out, line):
        """The Ok result of the body whose range starts on the given line."""
        res = [o["Ok"] for o in out if "Ok" in o and o["Ok"]["body_range"]["start"]["line"] == line]
        if len(res) != 1:
            errs = [o["Err"] for o in out if "Err" in o]
            raise Bad("no result", f"{len(res)} results for the function on line {line}; errors: {errs}")
        return res[0]


#: shapes of programs
CFGS = [
    {},
    {"depth": 3, "stmts": 14},
    {"names": "similar"},
    {"refref": 1},
    {"straight": 1, "top": 10},
    {"stmts": 20, "top": 12},
    {"x": 1},
    {"x": 1, "depth": 3, "stmts": 16},
    {"x": 1, "refref": 1, "names": "similar"},
    {"x": 1, "stmts": 20, "top": 12},
]


def gen_case(src, cfgs=CFGS, **extra):
    cfg = dict(cfgs[src.below(len(cfgs))], **extra)
    p = gen_prog(src, cfg)
    p.code = p.source()
    p.cfg = cfg
    return p


def missing(b):
    return sorted(set(ps(b["expected"])) - set(ps(b["actual"])))


def loc(b):
    return (b["location"]["line"], b["location"]["column"])


def fn_text(p):
    return "\n".join(p.code.splitlines()[p.start:p.end + 1])
