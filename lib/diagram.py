"""The diagram of the interpreter: generated traces and what a page has to draw of them."""
import json
from web import G, lines_of, offset, u16

NAMES = ["x", "y", "s", "self", "v2", "b", "été", "r#type", "_t", "n0", "x_field"]
TYPES = ["Point", "S", "Option", "Pair", "Rc", "Ünit"]
FIELDS = ["x", "len", "next", "a", "b", "inner"]
FLOATS = [(0.5, "0.5"), (-3.0, "-3"), (1.25, "1.25"), (0.0, "0"), (100.0, "100")]


class T(G):
    def value(self, d):
        k = self.b(14 if d > 0 else 7)
        if k == 0:
            return {"type": "Bool", "value": self.b(2) == 1}
        if k == 1:
            return {"type": "Char", "value": self.pick([97, 32, 0xe9, 0x1f600, 0x10ffff, 0x3042, 60, 48])}
        if k in (2, 3):
            return {"type": "Int", "value": self.b(4000) - 2000} if k == 2 else {"type": "Uint", "value": self.pick([0, 1, 255, 2 ** 32, 2 ** 53 - 1])}
        if k == 4:
            return {"type": "Float", "value": self.pick(FLOATS)[0]}
        if k == 5:
            return {"type": "Unallocated", "value": {"alloc_id": self.pick([None, 1, 2, 3])}}
        if k in (6, 7, 8):
            return self.pointer()
        if k == 9:
            return {"type": "Tuple", "value": [self.value(d - 1) for _ in range(self.b(4))]}
        if k == 10:
            n = self.pick([0, 1, 2, 3, 12, 13])
            if n < 13:
                return {"type": "Array", "value": {"type": "All", "value": [self.value(min(d, 2) - 1 if n < 5 else 0) for _ in range(n)]}}
            return {"type": "Array", "value": {"type": "Only", "value": [[self.value(0) for _ in range(11)], self.value(0)]}}
        if k == 11:
            return self.alloc(self.pick(["String", "Vec", "Box"]))
        if k == 12:
            form = self.b(2)
            names = [str(i) for i in range(1 + self.b(3))] if form else sorted({self.pick(FIELDS) for _ in range(self.b(4))})
            return self.adt(self.pick(TYPES), [[n, self.value(d - 1)] for n in names], self.pick([None, "Some", "None", "A"]) if self.b(2) else None)
        return self.adt("Iter", [["ptr", self.adt("NonNull", [["pointer", self.pointer()]])], ["end", {"type": "Uint", "value": 8}]]) if self.b(3) == 0 else self.adt("Some", [["0", self.alloc(self.pick(["String", "Box"]))]], "Some")

    def adt(self, name, fields, variant=None, kind=None):
        return {"type": "Adt", "value": {"name": name, "variant": variant, "fields": fields, "alloc_kind": kind}}

    def pointer(self):
        return {"type": "Pointer", "value": {"path": None, "range": self.pick([None, None, 0, 3]), "pick": self.b(1000), "slice": self.b(4) == 0}}

    def alloc(self, k):
        un = self.adt("Unique", [["pointer", self.adt("NonNull", [["pointer", self.pointer()]])], ["_marker", self.adt("PhantomData", [])]])
        if k == "Box":
            return self.adt("Box", [["0", un], ["1", self.adt("Global", [])]], None, {"type": "Box"})
        cap = {"type": "Uint", "value": self.b(9)}
        vec = lambda kind: self.adt("Vec", [["buf", self.adt("RawVec", [["inner", self.adt("RawVecInner", [["cap", cap], ["ptr", un]])]])], ["len", cap]], None, kind)
        return vec({"type": "Vec", "value": {"len": self.b(9)}}) if k == "Vec" else self.adt("String", [["vec", vec(None)]], None, {"type": "String", "value": {"len": self.b(9)}})

    def step(self, lines):
        frames = []
        for _ in range(1 + self.b(3)):
            names = []
            for _ in range(self.b(5)):
                n = self.pick(NAMES)
                if n not in names:
                    names.append(n)
            frames.append({"name": self.pick(["main", "f", "S::new", "<T as U>::go", "inner"]), "body_span": self.range(lines), "location": self.range(lines, True),
                           "locals": [{"name": n, "value": self.value(3), "moved_paths": [[] if self.b(2) else [{"type": "Field", "value": 0}] for _ in range(self.b(2) + self.b(2))]} for n in names]})
        s = {"stack": {"frames": frames}, "heap": {"locations": [self.value(3) for _ in range(self.b(4))]}}
        cells = Cells(s)
        for p in cells.pointers:
            v = p["value"]
            pick, sl = v.pop("pick"), v.pop("slice")
            if sl and cells.arrays:
                seg, parts, n = cells.arrays[pick % len(cells.arrays)]
                a = (pick // 7) % n
                v["path"] = {"segment": seg, "parts": parts + [{"type": "Subslice", "value": [a, a + (pick // 49) % (n - a)]}]}
            else:
                seg, parts = cells.all[pick % len(cells.all)]
                v["path"] = {"segment": seg, "parts": parts + ([{"type": "Index", "value": 0}] if pick % 5 == 0 else [])}
        return s


class Cells:
    """The cells of a state that pointers can point to, and its pointers."""
    def __init__(self, s):
        self.pointers, self.all, self.arrays = [], [], []
        for f, fr in enumerate(s["stack"]["frames"]):
            for l in fr["locals"]:
                self.walk({"type": "Stack", "value": {"frame": f, "local": l["name"]}}, [], l["value"], True)
        for i, v in enumerate(s["heap"]["locations"]):
            self.walk({"type": "Heap", "value": {"index": i}}, [], v, True)

    def walk(self, seg, parts, v, seen):
        if seen:
            self.all.append((seg, parts))
        t = v["type"]
        if t == "Tuple":
            for i, x in enumerate(v["value"]):
                self.walk(seg, parts + [{"type": "Field", "value": i}], x, seen)
        elif t == "Array":
            a = v["value"]
            xs = a["value"] if a["type"] == "All" else a["value"][0]
            if xs and a["type"] == "All" and seen:
                self.arrays.append((seg, parts, len(xs)))
            for i, x in enumerate(xs):
                self.walk(seg, parts + [{"type": "Index", "value": i}], x, seen)
            if a["type"] == "Only":
                self.walk(seg, parts, a["value"][1], False)
        elif t == "Adt":
            a = v["value"]
            for i, (_, x) in enumerate(a["fields"]):
                self.walk(seg, parts + [{"type": "Field", "value": i}], x, seen and not a["alloc_kind"] and a["name"] != "Iter")
        elif t == "Pointer":
            self.pointers.append(v)


def join(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    out = [" ".join(x.split()) if isinstance(x, str) else x for x in out]
    return [x for x in out if x != ""]


class Draw:
    """A state of the program, drawn."""
    def __init__(self, step, concrete, error):
        self.s, self.concrete, self.error = step, concrete, error
        self.where = {}
        self.first = []
        for self.round in (0, 1):
            frames = [{"name": fr["name"], "locals": [{"name": l["name"], "moved": any(p == [] for p in l["moved_paths"]), "value": join(self.draw(l["value"], f"S{f} {l['name']}", [["frame", f], [i, 1]]))}
                       for i, l in enumerate(fr["locals"])]} for f, fr in enumerate(step["stack"]["frames"])]
            heap = [join(self.draw(v, f"H{i}", [["heap"], [i, 0]])) for i, v in enumerate(step["heap"]["locations"])]
        self.frames, self.heap = frames, heap

    def path(self, p, parts):
        s = p["segment"]
        return " ".join([f"S{s['value']['frame']} {s['value']['local']}" if s["type"] == "Stack" else f"H{s['value']['index']}"] + [f"{x['type'][0]}{x['value']}" for x in parts])

    def draw(self, v, at, addr):
        self.where.setdefault(at, addr)
        t, x = v["type"], v["value"]
        if t == "Bool":
            return ["true" if x else "false"]
        if t in ("Int", "Uint"):
            return [str(x)]
        if t == "Float":
            return [dict(FLOATS)[x]]
        if t == "Char":
            return [chr(x)]
        if t == "Unallocated":
            return [{"gone": bool(self.error and self.error["type"] == "PointerUseAfterFree" and self.error["value"]["alloc_id"] == x["alloc_id"])}]
        cell = lambda y, k, a: join(self.draw(y, at + " " + k, addr + a))
        if t == "Tuple":
            return [{"table": [[cell(y, f"F{i}", [[0, i]]) for i, y in enumerate(x)]], "cls": ""}]
        if t == "Array":
            xs = [cell(y, f"I{i}", [[0, i]]) for i, y in enumerate(x["value"] if x["type"] == "All" else x["value"][0])]
            if x["type"] == "Only":
                xs += [["..."], cell(x["value"][1], "I100", [[0, 12]])]
            return [{"table": [xs], "cls": "array"}]
        if t == "Pointer":
            if not self.round:
                return []
            parts = x["path"]["parts"]
            n = None
            if parts and parts[-1] == {"type": "Index", "value": 0}:
                parts = parts[:-1]
            elif parts and parts[-1]["type"] == "Subslice":
                a, b = parts[-1]["value"]
                parts, n = parts[:-1] + [{"type": "Index", "value": a}], b - a + 1
            ptr = {"ptr": {"to": self.where[self.path(x["path"], parts)], "range": n}}
            return [{"table": [[["ptr"], [ptr]], [["len"], [str(x["range"])]]], "cls": ""}] if self.concrete and x["range"] else [ptr]
        fs = x["fields"]
        sp = self.special(x)
        if sp and not self.concrete:
            return self.draw(sp, at, addr)
        name = x["variant"] or x["name"]
        if len(fs) == 1 and fs[0][0] == "0":
            inner = self.draw(fs[0][1], at + " F0", addr + ["inner"])
            small = fs[0][1]["type"] == "Adt" and not self.concrete and fs[0][1]["value"]["alloc_kind"]
            return [name + "(", *inner, ")"] if small else [" " + name + " / ", *inner]
        if fs and fs[0][0] == "0":
            return [name, {"table": [[cell(y, f"F{i}", [[0, i]]) for i, (_, y) in enumerate(fs)]], "cls": ""}]
        return [name, {"table": [[[k], cell(y, f"F{i}", [[i, 1]])] for i, (k, y) in enumerate(fs)], "cls": ""}]

    def special(self, x):
        f = lambda v, k: dict(v["fields"])[k]["value"]
        vec = lambda v: f(f(f(v, "buf"), "inner"), "ptr")
        k = x["alloc_kind"] and x["alloc_kind"]["type"]
        if k:
            return f(vec(f(x, "vec")) if k == "String" else vec(x) if k == "Vec" else f(x, "0"), "pointer")["fields"][0][1]
        return f(x, "ptr")["fields"][0][1] if x["name"] == "Iter" else None


def char_index(code, p):
    return sum(len(l) + 1 for l in lines_of(code)[:p["line"]]) + p["column"]


def chosen(code, steps, marks):
    """The states at the marks: [(place in the code, state)]"""
    out = []
    for m in marks:
        for i in reversed(range(len(steps))):
            f = steps[i]["stack"]["frames"][-1]
            if char_index(code, f["body_span"]["start"]) <= m <= char_index(code, f["body_span"]["end"]) and m > char_index(code, f["location"]["start"]):
                out.append((i, u16(code[:m])))
                break
        else:
            return None
    return [(at, steps[i]) for i, at in sorted(out, key=lambda x: x[0])]


def differs(b, s, conc):
    """What is wrong with the diagram shown of a block, or nothing."""
    steps = b["trace"]["steps"]
    if b["marks"]:
        shown = chosen(b["code"], steps, b["marks"])
    elif b.get("nomarks"):
        shown = [(0, x) for x in steps]
    else:
        shown = [(offset(b["code"], x["stack"]["frames"][-1]["location"]["end"]), x) for x in steps]
    err = b["trace"]["result"].get("value")
    if len(s["diagram"]) != 1 or s["diagram"][0]["direction"] != ("row" if "horizontal" in b["config"] else "column"):
        return "diagram", f"there are the diagrams {[x['direction'] for x in s['diagram']]}"
    got = s["diagram"][0]["steps"]
    if [x["label"] for x in got] != [f"L{i + 1}" for i in range(len(shown))]:
        return "states", f"the states are labelled {[x['label'] for x in got]}, there are {len(shown)}"
    if "hideCode" in b["config"]:
        if "code" in s:
            return "code", "the code is shown"
    else:
        if s.get("code") != b["code"]:
            return "code", f"the code shown is {s.get('code')!r}, not {b['code']!r}"
        want = [] if b.get("nomarks") else sorted([[at, f"L{i + 1}", bool(err) and i == len(shown) - 1] for i, (at, _) in enumerate(shown)], key=lambda x: x[0])
        m = [[w["at"], w["text"], w["fail"]] for w in s["widgets"] if w["kind"] == "marker"]
        if m != want:
            return "markers", f"the markers in the code are (place, label, failed)\n{m}\nthey have to be\n{want}"
    for i, ((_, st), g) in enumerate(zip(shown, got)):
        e = err if i == len(shown) - 1 else None
        ub = None if not e else "undefined behavior: " + (e["value"] if e["type"] == "Other" else "pointer used after its pointee is freed")
        if (g["ub"], g["fail"]) != (ub, bool(e)):
            return "failure", f"state {i} says {g['ub']!r}, it has to say {ub!r}"
        d = Draw(st, conc, e)
        for what, a, w in (("frames", g["frames"], d.frames), ("heap", g["heap"], d.heap)):
            if a != w:
                f = lambda x: json.dumps(x, ensure_ascii=False)
                bad = next(((p, q) for p, q in zip(a, w) if p != q), (a, w))
                return what, f"state {i} shows the {what}\n{f(bad[0])}\nthe trace says\n{f(bad[1])}"
    return None
