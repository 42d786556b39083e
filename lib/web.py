"""The frontend: generated answers of the analysis and of the interpreter, what a page has to show of them, and the pages themselves."""
import json, os, subprocess
from drive import ROOT, Check, V, Undecided

PIECES = ["let ", "x", " = ", "s", ";", "&mut ", "a.b", "(", ")", "{", "}", " ", "  ", "\t", "\"é\"", "'😀'", "// 🦀 日本", "ü", "𝒳", "<div>", "&amp;", "\"", "\\", "`", "v[0]", "é", "fn f()", "1", "e\u0301", "\u200d", "👩‍👧"]
PATHS = ["x", "s", "*x", "s.f", "s.f.0", "(*x).y", "v", "xs", "a", "é", "*s.f", "x.1", "b"]
ERRS = [{"type": "AnalysisError", "msg": "no é <b>"}, {"type": "BuildError", "range": None}, {"type": "AnalysisError", "msg": ""}]


class G:
    def __init__(self, src):
        self.src = src

    def b(self, n):
        return self.src.below(n)

    def pick(self, l):
        return l[self.b(len(l))]

    def code(self, most=8):
        ls = ["".join(self.pick(PIECES) for _ in range(self.b(7))) for _ in range(1 + self.b(most))]
        if not any(ls):
            ls[0] = "x"
        return "\n".join(ls) + ("\n" if self.b(3) else "")

    def pos(self, lines, line=None):
        l = self.b(len(lines)) if line is None else line
        return {"line": l, "column": self.b(len(lines[l]) + 1)}

    def range(self, lines, empty=False):
        for _ in range(8):
            a, b = sorted([self.pos(lines), self.pos(lines)], key=lambda p: (p["line"], p["column"]))
            if a != b or empty:
                return {"start": a, "end": b, "filename": 0}
        l = next(i for i, t in enumerate(lines) if t)
        return {"start": {"line": l, "column": 0}, "end": {"line": l, "column": 1}, "filename": 0}

    def key(self):
        """Of a loan or a move; not every one has a region."""
        return self.b(4)

    def boundary(self, lines):
        exp = [self.b(2) for _ in range(3)]
        b = {"location": self.pos(lines), "expected": dict(zip(("read", "write", "drop"), map(bool, exp))),
             "actual": {k: self.b(3) > 0 for k in ("read", "write", "drop")},
             "data": {"type_droppable": True, "type_writeable": True, "type_copyable": False, "is_live": True, "path_uninitialized": False}}
        for k in ("path_moved", "loan_read_refined", "loan_write_refined", "loan_drop_refined"):
            if self.b(3) == 0:
                b["data"][k] = self.key()
        if self.b(5) == 0:
            bad = self.b(2) == 1
            b["expecting_flow"] = {"is_violation": bad, "flow_context": self.range(lines), "kind": "LocalOutlivesUniversal" if bad else "Ok"}
        return b

    def vstep(self, val):
        k = self.b(5)
        return {"type": "None", **({} if val is None else {"value": val()})} if k < 3 else {"type": "High", "value": (val or self.key)()} if k == 3 else {"type": "Low"}

    def diff(self):
        bit = lambda: self.b(2) == 1
        key = lambda: self.vstep(self.key if self.b(2) else None)
        return {"is_live": self.vstep(bit), "type_droppable": self.vstep(bit), "type_writeable": self.vstep(bit), "path_moved": key(), "path_uninitialized": self.vstep(bit),
                "loan_read_refined": key(), "loan_write_refined": key(), "loan_drop_refined": key(),
                "permissions": {k: self.vstep(bit) for k in ("read", "write", "drop")}}

    def body(self, lines, used):
        o = {"body_range": self.range(lines), "boundaries": [self.boundary(lines) for _ in range(self.b(6))], "steps": [], "loan_points": {}, "loan_regions": {}, "move_points": {}, "move_regions": {}}
        for i in range(self.b(4)):
            l = self.b(len(lines))
            if l in used:
                continue
            used.add(l)
            at = {"line": l, "column": len(lines[l]) if self.b(4) else self.b(len(lines[l]) + 1)}
            o["steps"].append({"location": {"start": {"line": l, "column": 0}, "end": at, "filename": 0},
                               "state": [{"from": self.range(lines), "to": self.range(lines), "state": [[self.pick(PATHS), self.diff()] for _ in range(1 + self.b(3))]} for _ in range(1 + self.b(2))]})
        for kind in ("loan", "move"):
            for k in range(4):
                if self.b(4):
                    o[kind + "_points"][str(k)] = self.range(lines)
                    if self.b(5):
                        o[kind + "_regions"][str(k)] = {"refiner_point": {kind.capitalize(): k}, "refined_ranges": [self.range(lines, True) for _ in range(self.b(4))]}
        return o

    def answer(self, lines, errs=True):
        used = set()
        return [{"Err": self.pick(ERRS)} if errs and self.b(8) == 0 else {"Ok": self.body(lines, used)} for _ in range(1 + self.b(3))]

    def annotations(self, lines, marks=()):
        n = len(lines)
        some = lambda p: sorted({1 + self.b(n) for _ in range(self.b(p))})
        paths = {}
        for l in some(4) if self.b(2) else []:
            paths[str(l)] = [self.pick([{"type": "Literal", "value": self.pick(PATHS)}, {"type": "Regex", "value": self.pick([".*", "^x$", "s|v", r"\*", "^a", "[", "nothing"][:5])}]) for _ in range(1 + self.b(2))]
        return {"hidden_lines": some(4) if self.b(3) == 0 else [], "interp": {"state_locations": list(marks)}, "stepper": {"focused_lines": some(4) if self.b(3) == 0 else [], "focused_paths": paths},
                "boundaries": {"focused_lines": some(4) if self.b(2) else []}}


def lines_of(code):
    return code.split("\n")


def u16(s):
    return len(s.encode("utf-16-le")) // 2


def offset(code, p):
    """Position of a line and a column of characters in UTF-16 units, as editors count."""
    ls = lines_of(code)
    return sum(u16(l) + 1 for l in ls[:p["line"]]) + u16(ls[p["line"]][:p["column"]])


def on(config, k):
    return str(config.get(k)).lower() == "true" if config else False


def stacks(code, answer, ann):
    """[(offset, stack)]: one per position, the first of the answer."""
    out = {}
    for o in answer:
        for b in o.get("Ok", {}).get("boundaries", []):
            at = offset(code, b["location"])
            if at in out:
                continue
            letters = [[c, n, not b["actual"][k]] for c, n, k in (("R", "read", "read"), ("W", "write", "write"), ("O", "own", "drop")) if b["expected"][k]]
            if "expecting_flow" in b:
                letters.append(["F", "flow", b["expecting_flow"]["is_violation"]])
            out[at] = {"letters": letters, "expanded": bool(ann) and b["location"]["line"] + 1 in ann["boundaries"]["focused_lines"], "b": b, "o": o["Ok"]}
    return sorted(out.items())


ICONS = [("path_moved", "High", "fa-sign-out"), ("path_moved", "Low", "fa-recycle"), ("loan_read_refined", "High", "fa-arrow-right"), ("loan_read_refined", "Low", "fa-rotate-left"),
         ("loan_write_refined", "High", "fa-arrow-right"), ("loan_write_refined", "Low", "fa-rotate-left"), ("is_live", "High", "fa-level-up"), ("is_live", "Low", "fa-level-down"),
         ("path_uninitialized", "High", "fa-sign-out"), ("path_uninitialized", "Low", "fa-recycle")]


def focused(path, ms):
    import re
    return not ms or any(m["value"] in path if m["type"] == "Literal" else re.search(m["value"], path) for m in ms)


def tables(code, answer, ann):
    """[(offset, step widget)]"""
    out = []
    for o in answer:
        for st in o.get("Ok", {}).get("steps", []):
            line = st["location"]["end"]["line"]
            ms = ann["stepper"]["focused_paths"].get(str(line + 1)) if ann else None
            fl = ann["stepper"]["focused_lines"] if ann else []
            ts = []
            for t in st["state"]:
                rows = []
                for path, d in t["state"]:
                    icon = next((i for f, ty, i in ICONS if d[f]["type"] == ty), None)
                    perms = []
                    for c, n, k in (("R", "read", "read"), ("W", "write", "write"), ("O", "own", "drop")):
                        s = d["permissions"][k]
                        perms.append(["+", c, n] if s["type"] == "High" else ["-", c, n] if s["type"] == "Low" else ["=", c, n] if s["value"] else [".", "‒", n])
                    rows.append({"path": path, "icon": icon, "perms": perms, "hid": not focused(path, ms), "d": d})
                ts.append({"rows": sorted(rows, key=lambda r: r["hid"]), "more": any(r["hid"] for r in rows)})
            out.append((offset(code, st["location"]["end"]), {"open": line + 1 in fl if fl else True, "tables": ts, "o": o["Ok"], "line": line}))
    return sorted(out, key=lambda x: x[0])


def units(code, r):
    """The code units of a range, without the ends of lines."""
    a, b = offset(code, r["start"]), offset(code, r["end"])
    text = code.encode("utf-16-le")
    return {i for i in range(a, b) if text[2 * i:2 * i + 2] != b"\n\0"}


def pointed(code, o, loan, move, name):
    """What is highlighted for a loan or a move: {class: units}"""
    out = {}
    for kind, key in (("loan", loan), ("move", move)):
        if key is None or str(key) not in o[kind + "_regions"]:
            continue
        reg = set().union(*[units(code, r) for r in o[kind + "_regions"][str(key)]["refined_ranges"]] or [set()])
        pt = units(code, o[kind + "_points"][str(key)])
        for cls in (name, "show-hidden"):
            out.setdefault("loan " + cls, set()).update(pt)
            out.setdefault("live " + cls, set()).update(reg)
    return {k: v for k, v in out.items() if v}


def shown_units(high, code):
    text = code.encode("utf-16-le")
    return {k: {i for a, b in v for i in range(a, b) if text[2 * i:2 * i + 2] != b"\n\0"} for k, v in high.items() if v}


class Page:
    def __init__(self, name="page.js"):
        self.p = subprocess.Popen(["node", os.path.join(ROOT, "harness/web/run.mjs"), "x", os.path.join(ROOT, ".build/web", name)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")

    def run(self, blocks, actions, **k):
        self.p.stdin.write(json.dumps({"blocks": blocks, "actions": actions, **k}) + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise Undecided("the page process died")
        return json.loads(l)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def block(code, ops, responses=None, config=None, ann=None, interact=False, **k):
    """The element that the book embeds."""
    d = {"class": "aquascope-embed", "data-code": json.dumps(code), "data-operations": json.dumps(ops), "data-config": json.dumps(config or {}), "data-no-interact": json.dumps(not interact)}
    if responses is not None:
        d["data-responses"] = json.dumps(responses)
    if ann is not None:
        d["data-annotations"] = json.dumps(ann)
    d.update(k)
    return d


class WebCheck(Check):
    builds = ["web"]
    nbytes = 4096
    page_name = "page.js"

    def open(self):
        self.page = Page(self.page_name)

    def close(self):
        self.page.close()

    def text(self, c):
        return json.dumps(c, ensure_ascii=False)

    def visit(self, *a, **k):
        r = self.page.run(*a, **k)
        if "crash" in r:
            raise Undecided("the page does not run: " + r["crash"][:800])
        return r
