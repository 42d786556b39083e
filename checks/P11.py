"""P11: a flow is shown as violated only, and whenever, the compiler rejects it."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main, V
from ana import ACheck, Bad

PRE = """pub struct S<'s> { pub f: &'s i32, pub g: &'s i32 }
pub struct D<'x, 'y> { pub f: &'x i32, pub h: &'y i32 }
pub fn id<'q>(r: &'q i32) -> &'q i32 { r }
pub fn pick<'q>(r: &'q i32, s: &'q i32) -> &'q i32 { if *r > 0 { r } else { s } }
pub fn first<'q, 'r>(r: &'q i32, _s: &'r i32) -> &'q i32 { r }
pub fn put<'q>(v: &mut Vec<&'q i32>, r: &'q i32) { v.push(r); }
static L: i32 = 0;
"""
#: what leads from a reference to another place without the analysis following it (see DESIGN.md)
HIDE = {"call", "index", "if", "readback", "cell", "nested", "method", "assign", "copyof"}


class Gen:
    def __init__(self, src):
        self.b = src.below
        self.feat = set()
        self.sink = None
        self.tail = False
        self.n = 0
        #: the lifetime of a plain reference, vector or slot; the flows into those of the signature
        self.of = {}
        self.flows = []
        #: how much of the interesting forms
        self.plain = src.below(5) < 2

    def pick(self, xs):
        return xs[self.b(len(xs))]

    def chance(self, p):
        return self.b(100) < p

    def lt(self, elide=True):
        """A lifetime in a parameter: '' means elided"""
        if elide and self.chance(10):
            return ""
        if self.chance(4):
            return "'static"
        return "'" + self.pick(self.lts)

    def named(self):
        return "'" + self.pick(self.lts)

    def build(self):
        b = self.b
        self.lts = ["a", "b", "c", "d"][: 1 + b(4)]
        dense = self.pick([10, 25, 45])
        bounds = {l: [m for m in self.lts if m != l and self.chance(dense)] for l in self.lts}
        order = list(self.lts)
        for i in range(len(order) - 1, 0, -1):
            j = b(i + 1)
            order[i], order[j] = order[j], order[i]
        if self.chance(70):
            # no cycles of bounds
            for l in self.lts:
                bounds[l] = [m for m in bounds[l] if order.index(m) > order.index(l)]
        # expressions of type &i32, by how they are read
        self.refs, self.vecs, self.slots, self.muts = [], [], [], []
        params = []
        for i in range(1 + b(4)):
            k = b(100)
            if k < 45:
                l = self.lt()
                params.append(f"x{i}: &{l} i32")
                self.refs.append(f"x{i}")
                self.of[f"x{i}"] = l or i
            elif k < 55:
                l = self.lt()
                params.append(f"v{i}: &mut Vec<&{l} i32>")
                self.of[f"v{i}"] = l or i
                self.vecs.append(f"v{i}")
            elif k < 67:
                l = self.lt()
                params.append(f"w{i}: &mut &{l} i32")
                self.of[f"w{i}"] = l or i
                self.slots.append(f"w{i}")
            elif k < 76:
                l = self.lt(False)
                params.append(f"s{i}: S<{l}>")
                self.of[f"s{i}.f"] = self.of[f"s{i}.g"] = l
                self.refs += [f"s{i}.f", f"s{i}.g"]
            elif k < 84:
                l, m = self.lt(False), self.lt(False)
                params.append(f"d{i}: D<{l}, {m}>")
                self.of[f"d{i}.f"], self.of[f"d{i}.h"] = l, m
                self.refs += [f"d{i}.f", f"d{i}.h"]
            elif k < 90:
                l, m = self.named(), self.named()
                params.append(f"n{i}: &{l} &{m} i32")
                self.refs.append(f"*n{i}")
                self.of[f"*n{i}"] = m
            elif k < 95:
                l, m = self.lt(False), self.lt(False)
                params.append(f"p{i}: (&{l} i32, &{m} i32)")
                self.of[f"p{i}.0"], self.of[f"p{i}.1"] = l, m
                self.refs += [f"p{i}.0", f"p{i}.1"]
            else:
                l = self.named()
                params.append(f"m{i}: &mut S<{l}>")
                self.of[f"m{i}.f"] = l
                self.slots.append(f"m{i}.f")
        if not self.refs:
            params.append(f"x9: &{self.lt()} i32")
            self.refs.append("x9")
            self.of["x9"] = "x9"
        ret = b(10)
        rt = {0: "", 2: f"S<{self.named()}>", 3: f"({{}}, {{}})"}.get(ret, f"&{self.named()} i32")
        if ret == 3:
            rt = f"(&{self.named()} i32, &{self.named()} i32)"
        rl = rt.split()[0][1:] if rt.startswith("&") else None
        body = self.block(1 + b(4), 1)
        if ret in (2, 3):
            self.feat.add("nested")
        if ret == 2:
            body.append(f"S {{ f: {self.e()}, g: {self.e()} }}")
        elif ret == 3:
            body.append(f"({self.e()}, {self.e()})")
        elif rt:
            self.sink = rl
            self.tail = True
            if self.chance(12):
                body.append(f"return {self.e()};")
            elif self.chance(10):
                self.feat.add("ifreturn")
                body.append(f"if *{self.simple()} > 0 {{ return {self.e()}; }}")
                # (a branch after an early return is not supported)
                body.append(self.simple())
            else:
                body.append(self.e())
        where = self.chance(25)
        def bd(l):
            return f"'{l}" + (": " + " + ".join("'" + m for m in bounds[l]) if bounds[l] and not where else "")
        gs = ", ".join(bd(l) for l in self.lts)
        wh = ""
        if where and any(bounds.values()):
            wh = " where " + ", ".join(f"'{l}: " + " + ".join("'" + m for m in bounds[l]) for l in self.lts if bounds[l])
        head = f"fn f<{gs}>({', '.join(params)})" + (f" -> {rt}" if rt else "") + wh + " {"
        self.code = PRE + head + "\n" + "\n".join("    " + l for l in body) + "\n}\nfn main() {}\n"
        return self

    def simple(self):
        r = self.pick(self.refs)
        if self.sink is not None:
            self.flows.append((self.of.get(r), self.sink))
        return r

    def cyclic(self):
        """Do the flows of the body go round in a circle? Then a violation among them isn't shown."""
        reach = set(self.flows)
        while True:
            new = {(x, w) for x, y in reach for z, w in reach if y == z} - reach
            if not new:
                break
            reach |= new
        return any(x != y and (y, x) in reach for x, y in reach)

    def e(self):
        k = self.b(100)
        if self.plain or k < 50:
            return self.simple()
        if k < 58:
            self.feat.add("call")
            return f"id({self.simple()})"
        if k < 64:
            self.feat.add("call")
            return f"pick({self.simple()}, {self.simple()})"
        if k < 68:
            self.feat.add("call")
            return f"first({self.simple()}, {self.simple()})"
        if k < 76 and self.slots:
            self.feat.add("readback")
            s = self.pick(self.slots)
            return s if "." in s else "*" + s
        if k < 81 and self.vecs:
            self.feat.add("index")
            return self.pick(self.vecs) + "[0]"
        if k < 88:
            self.feat.add("iftail" if self.tail else "if")
            # (the condition is no flow)
            sink, self.sink = self.sink, None
            c = self.simple()
            self.sink = sink
            return f"if *{c} > 0 {{ {self.simple()} }} else {{ {self.simple()} }}"
        if k < 91:
            return "&L"
        if k < 95:
            x = self.simple()
            return "&*" + x if not x.startswith(("&", "*")) else x
        return self.simple()

    def name(self):
        self.n += 1
        return f"t{self.n}"

    def block(self, n, depth):
        out = []
        for _ in range(n):
            k = self.b(100)
            if k < 28:
                t = self.name()
                x = self.e()
                out.append(f"let {t} = {x};")
                self.of[t] = self.of.get(x)
                self.refs.append(t)
            elif k < 36:
                t = self.name()
                x = self.e()
                out.append(f"let mut {t} = {x};")
                self.of[t] = self.of.get(x)
                self.refs.append(t)
                self.muts.append(t)
            elif k < 42 and self.muts:
                self.feat.add("assign")
                out.append(f"{self.pick(self.muts)} = {self.e()};")
            elif k < 54 and self.vecs:
                v = self.pick(self.vecs)
                self.sink = self.of.get(v)
                if self.chance(75):
                    out.append(f"{v}.push({self.e()});")
                else:
                    self.feat.add("call")
                    out.append(f"put({v}, {self.e()});")
                self.sink = None
            elif k < 68 and self.slots:
                s = self.pick(self.slots)
                self.sink = self.of.get(s)
                out.append(f"{s if '.' in s else '*' + s} = {self.e()};")
                self.sink = None
            elif k < 76:
                t = self.name()
                self.feat.add("nested")
                out.append(f"let {t} = S {{ f: {self.e()}, g: {self.e()} }};")
                self.refs += [f"{t}.f", f"{t}.g"]
            elif k < 82:
                t = self.name()
                self.feat.add("nested")
                out.append(f"let {t} = ({self.e()}, {self.e()});")
                self.refs += [f"{t}.0", f"{t}.1"]
            elif k < 92:
                t = self.name()
                l = f"l{self.n}"
                decl, ex = self.pick([("3", l), ("3", l), ("(3, 4)", l + ".1"), ("((1, 2), 3)", l + ".0.1"), ("Box::new(3)", "*" + l), ("[1, 2]", l + "[0]")])
                out.append(f"let {l} = {decl};")
                if "[" in ex:
                    self.feat.add("index")
                if self.chance(25):
                    # used without a variable
                    self.refs.append("&" + ex)
                    continue
                out.append(f"let {t} = &{ex};")
                if self.chance(60):
                    self.refs.append(t)
            elif depth and not self.plain:
                self.feat.add("ifblock")
                r, v, w = len(self.refs), len(self.muts), 0
                inner = self.block(1 + self.b(2), depth - 1)
                del self.refs[r:], self.muts[v:]
                kw = self.pick(["if *{} > 0 {{", "while *{} > 0 {{"]).format(self.simple())
                out += [kw] + ["    " + l for l in inner] + ["}"]
        return out


class P11(ACheck):
    pid = "P11"
    quick = 8000
    thorough = 100000
    rule = ("random functions with up to four lifetimes, bounds between them, and reference parameters, stores and locals; non-trivial: accepted, with at least "
            "two flows into lifetimes of the signature; or rejected for exactly one lifetime error in a body the analysis can follow")
    assumptions = ["that a violation is shown is demanded only where exactly one lifetime error is reported and the references involved go through "
                   "plain variables and fields (no calls, indexing, joins of branches, or reading back what was stored)"]

    def gen(self, src):
        return Gen(src).build()

    def text(self, p):
        return p.code

    def judge(self, p):
        errs = self.rustc(p.code)
        if errs and not all(e[0] in (None, "E0621", "E0515", "E0597") and (e[0] or e[3].startswith("lifetime may not")) for e in errs):
            self.count("other errors: " + ",".join(sorted({str(e[0]) for e in errs})))
            return []
        line = next(i for i, l in enumerate(p.code.splitlines()) if l.startswith("fn f<"))
        try:
            bs = self.body(self.analyse(p.code, flows=True), line)["boundaries"]
        except Bad as e:
            return [e.v]
        flows = [b for b in bs if b.get("expecting_flow")]
        viol = [b for b in flows if b["expecting_flow"]["is_violation"]]
        for b in flows:
            f = b["expecting_flow"]
            if f["is_violation"] == (f["kind"] == "Ok"):
                return [V("kind and verdict differ", json.dumps(b))]
            c, l = f["flow_context"], b["location"]
            if not (c["start"]["line"], c["start"]["column"]) <= (l["line"], l["column"]) <= (c["end"]["line"], c["end"]["column"]):
                return [V("expression outside of the context of its flow", json.dumps(b))]
        if not errs:
            self.count("accepted")
            if len(flows) > 1:
                self.nontrivial(p.code[len(PRE):])
                self.count("accepted with two or more flows")
            if viol:
                return [V("violated flow in an accepted function", json.dumps([(b["location"], b["expecting_flow"]) for b in viol]))]
            return []
        es = {(e[1], e[2], e[0]) for e in errs}
        if len(es) != 1 or errs[0][0] == "E0597":
            self.count("several errors, or E0597")
            return []
        e = errs[0]
        if p.feat & HIDE:
            self.count("one error, not followed" + (": shown" if viol else ": not shown") + " " + ",".join(sorted(p.feat & HIDE)))
            return []
        if p.cyclic():
            self.count("one error, in a circle of flows" + (": shown" if viol else ": not shown"))
            return []
        self.nontrivial(p.code[len(PRE):])
        self.count("one error " + str(e[0]))
        # (for a lifetime that has to be 'static the compiler may point at the variable through which it escapes)
        via = p.code.splitlines()[e[1]].strip().startswith("let ")
        hit = [b for b in viol if b["location"]["line"] == e[1] or via and b["location"]["line"] > e[1]]
        if not hit:
            return [V("violation not shown " + str(e[0]), f"{e}; shown: {[(b['location'], b['expecting_flow']) for b in flows]}")]
        kind = "LocalOutlivesUniversal" if e[0] == "E0515" else "MissingUniversalConstraint"
        if all(b["expecting_flow"]["kind"] != kind for b in hit):
            return [V("kind of violation " + str(e[0]), f"{e}; shown: {[(b['location'], b['expecting_flow']['kind']) for b in hit]}")]
        return []


if __name__ == "__main__":
    main(P11)
