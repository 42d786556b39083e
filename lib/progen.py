"""Generator of small ownership-heavy Rust functions.

Every random choice goes through `src.below(n)`, so that Hypothesis (or a plain PRNG) drives and shrinks it.
The generated program carries everything the oracles need: for each source-level use of a place, where a boundary
has to appear and which permissions it needs; for each statement, its line, what it reads and overwrites; and a way
to render variants of the function with a probe statement inserted at any statement."""

from dataclasses import dataclass, field

#: The crate `pre`, compiled once: the types and functions the generated functions use.
LIB = """\
#![allow(warnings)]
#[derive(Clone, Copy)]
pub struct Cp { pub a: i32, pub b: i32 }
pub struct Nd { pub name: String, pub val: i32, pub pos: Cp }
pub struct Nest { pub inner: Nd, pub tag: String }
pub struct Dr { pub f: String, pub g: i32 }
impl Drop for Dr { fn drop(&mut self) {} }
pub struct DrN { pub d: Nd, pub t: String }
impl Drop for DrN { fn drop(&mut self) {} }
pub struct Rf<'a> { pub s: &'a String, pub m: &'a mut Nd }
pub enum En { A(String), B { x: i32, y: String }, C }
impl Nd {
  pub fn get(&self) -> &String { &self.name }
  pub fn get_mut(&mut self) -> &mut String { &mut self.name }
  pub fn into_name(self) -> String { self.name }
  pub fn set(&mut self, v: i32, s: String) { self.val = v; self.name = s; }
  pub fn mix(&self, a: &String, b: i32, c: &i32) -> i32 { b + *c }
  pub fn give(self, o: &mut String, v: i32) {}
}
pub fn eat<T>(_: T) {}
pub fn look<T: ?Sized>(_: &T) {}
pub fn touch<T: ?Sized>(_: &mut T) {}
pub fn id_ref<'a, T: ?Sized>(x: &'a T) -> &'a T { x }
pub fn id_mut<'a, T: ?Sized>(x: &'a mut T) -> &'a mut T { x }
pub fn pick<'a, T: ?Sized>(x: &'a T, y: &'a T) -> &'a T { x }
pub fn mk_s() -> String { String::new() }
pub fn mk_i() -> i32 { 1 }
pub fn mk_c() -> bool { true }
pub fn two<A, B>(_: A, _: B) {}
pub fn swap<T>(_: &mut T, _: &mut T) {}
pub fn look_str(_: &str) {}
pub fn mk_nd() -> Nd { Nd { name: mk_s(), val: 0, pos: Cp { a: 1, b: 2 } } }
"""
PRELUDE = """\
#![allow(warnings)]
use pre::*;
"""

I32, STR, VEC, BOX, ND, TP, OPT, DR, CP, NEST, BOOL, OPI = (
    "i32", "String", "Vec<i32>", "Box<i32>", "Nd", "(i32, String)", "Option<String>", "Dr", "Cp", "Nest", "bool",
    "Option<i32>")
BOXS, BOXN, DRN, RF, EN = "Box<String>", "Box<Nd>", "DrN", "Rf", "En"
CLOR, CLOW, CLOO = "closure R", "closure W", "closure O"
BOXES = {BOX: I32, BOXS: STR, BOXN: ND}
OWNED = [I32, STR, VEC, BOX, ND, TP, OPT, DR, CP, NEST, OPI]
MORE = OWNED + [BOXS, BOXN, DRN, EN, BOXN, BOXS]
FIELDS = {
    CP: [("a", I32), ("b", I32)],
    ND: [("name", STR), ("val", I32), ("pos", CP)],
    TP: [("0", I32), ("1", STR)],
    DR: [("f", STR), ("g", I32)],
    NEST: [("inner", ND), ("tag", STR)],
    DRN: [("d", ND), ("t", STR)],
    RF: [("s", ("&", STR)), ("m", ("&mut", ND))],
}


def ref(t):
    return ("&", t)


def mref(t):
    return ("&mut", t)


def is_ref(t):
    return isinstance(t, tuple)


def is_copy(t):
    return t in (I32, BOOL, CP, OPI, CLOR) or (isinstance(t, tuple) and t[0] == "&")


def ty_str(t, lt=""):
    if isinstance(t, tuple):
        return f"{t[0][0]}{lt}{' mut' if t[0] == '&mut' else ''}{'' if t[0] == '&mut' or not lt else ' '}{' ' if t[0]=='&mut' else ''}{ty_str(t[1])}".replace("  ", " ")
    return t


@dataclass(eq=False)
class Var:
    name: str
    ty: object
    mut: bool
    uid: int
    param: bool = False
    # state
    init: bool = True
    moved: set = field(default_factory=set)  # field paths (tuples) moved out; () = everything
    dead: bool = False  # a reference whose use would be an error (model)
    loans: frozenset = frozenset()  # {(uid, path, mut)}
    loopdepth: int = 0


@dataclass(frozen=True)
class Place:
    var: int
    name: str
    path: tuple  # of "*" or field names
    ty: object
    auto: bool = False  # written with auto-deref: r.f

    def text(self):
        s = self.name
        for i, p in enumerate(self.path):
            if p == "*":
                if self.auto and i + 1 < len(self.path):
                    continue
                s = f"*{s}"
                if i + 1 < len(self.path):
                    s = f"({s})"
            else:
                s = f"{s}.{p}"
        return s

    def shown(self):
        s = self.name
        for i, p in enumerate(self.path):
            if p == "*":
                s = f"*{s}"
                if i + 1 < len(self.path) and self.path[i + 1] != "*":
                    s = f"({s})"
            else:
                s = f"{s}.{p}"
        return s


@dataclass
class Use:
    """A place as written in the source."""
    text: str
    place: Place  # the place whose permissions matter
    exp: str  # "R", "RW", "RO"; "" for no boundary
    at: str = "lo"
    kind: str = "path"
    line: int = -1
    col: int = -1
    first: bool = False
    sid: int = -1


@dataclass(eq=False)
class Stmt:
    kind: str  # simple, let, if, while, loop, for, match, block, ret
    toks: list = field(default_factory=list)  # str | Use
    reads: list = field(default_factory=list)  # uids
    kills: list = field(default_factory=list)
    blocks: list = field(default_factory=list)  # list of (binders, [Stmt])
    sid: int = -1
    line: int = -1
    scope: list = field(default_factory=list)  # places in scope before the statement (declared vars)
    decl: object = None  # Var declared
    decls: list = field(default_factory=list)
    elseif: bool = False
    diverges: bool = False
    arms: list = field(default_factory=list)
    feats: set = field(default_factory=set)
    nuses: int = 0
    loopdepth: int = 0


class Gen:
    def __init__(self, src, cfg=None):
        self.src = src
        self.cfg = cfg or {}
        self.n = 0
        self.sid = 0
        self.vars = []  # in-scope Vars (stack)
        self.byuid = {}
        self.allow_bad = self.cfg.get("bad", 0)  # in percent, per statement
        self.depth = 0
        self.loopdepth = 0
        self.names = []
        self.feats = set()
        self.budget = self.cfg.get("stmts", 12)
        self.pending = None

    # --- choices
    def below(self, n):
        return self.src.below(n)

    def pct(self, p):
        return p > 0 and self.below(100) < p

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, ws):
        tot = sum(w for w, _ in ws)
        k = self.below(tot)
        for w, x in ws:
            if k < w:
                return x
            k -= w

    # --- variables
    STEMS = ["a", "b", "c", "x", "y", "z", "s", "t", "v", "w", "p", "q", "n", "m", "data", "item", "buf", "acc", "node", "cur"]

    def fresh(self, ty, mut, **kw):
        self.n += 1
        if self.cfg.get("names") == "similar":
            base = self.pick(["x", "xs", "x1", "xx", "x_a", "ax"])
            name = f"{base}{self.n}"
        else:
            name = f"{self.STEMS[(self.n - 1) % len(self.STEMS)]}{self.n}"
        v = Var(name, ty, mut, self.n, loopdepth=self.loopdepth, **kw)
        self.byuid[v.uid] = v
        return v

    # --- model of validity
    def conflicts(self, place, acc):
        """References (Vars) that an access to `place` would invalidate."""
        out = []
        for r in self.byuid.values():
            if r.dead:
                continue
            for (uid, path, mut) in r.loans:
                if uid != place.var:
                    continue
                k = min(len(path), len(place.path))
                if path[:k] != place.path[:k]:
                    continue
                if acc == "O" and "*" in path[len(place.path):]:
                    pass
                if mut or acc in ("W", "O", "A"):
                    out.append(r)
                    break
        return out

    def initialized(self, place):
        v = self.byuid[place.var]
        if not v.init:
            return False
        for m in v.moved:
            k = min(len(m), len(place.path))
            if m[:k] == place.path[:k]:
                return False
        return True

    def can(self, place, acc):
        v = self.byuid[place.var]
        if not self.initialized(place):
            return False
        if v.dead:
            return False
        if acc == "W":
            if not self.writeable(place):
                return False
        if acc == "O":
            if not self.movable(place):
                return False
            if self.loopdepth > v.loopdepth and not self.cfg.get("loopmove") and not is_copy(place.ty):
                return False
        return True

    def movable(self, place):
        """No reference on the way, nor a type with a destructor."""
        for i, q in enumerate(place.path):
            t = self.vty(place, i)
            if t in (DR, DRN) or (q == "*" and t not in BOXES):
                return False
        return self.cfg.get("x") or "*" not in place.path

    def vty(self, place, i):
        """Type of the i-long prefix of the place."""
        t = self.byuid[place.var].ty
        for p in place.path[:i]:
            if p == "*":
                t = t[1] if isinstance(t, tuple) else BOXES[t]
            else:
                t = dict(FIELDS[t])[p]
        return t

    def writeable(self, place):
        v = self.byuid[place.var]
        ok = v.mut
        for i, p in enumerate(place.path):
            if p == "*":
                t = self.vty(place, i)
                if isinstance(t, tuple):
                    ok = t[0] == "&mut" and (True)
                    if t[0] == "&":
                        return False
        return ok

    def access(self, place, acc):
        for r in self.conflicts(place, acc):
            r.dead = True
        v = self.byuid[place.var]
        if acc == "O" and not is_copy(place.ty):
            v.moved.add(place.path)

    # --- places
    def places(self, want=None, acc="R", deref=True):
        out = []
        for v in self.vars:
            self._expand(Place(v.uid, v.name, (), v.ty), out, deref)
        res = [p for p in out if (want is None or want(p.ty))]
        if not self.bad:
            res = [p for p in res if self.can(p, acc)]
        else:
            res = [p for p in res if not isinstance(p.ty, type(None))]
        return res

    def _expand(self, p, out, deref, lim=3):
        out.append(p)
        if len(p.path) >= lim:
            return
        t = p.ty
        if isinstance(t, tuple):
            if deref:
                q = Place(p.var, p.name, p.path + ("*",), t[1])
                self._expand(q, out, deref, lim)
                if t[1] in FIELDS and not p.path:
                    for f, ft in FIELDS[t[1]]:
                        out.append(Place(p.var, p.name, p.path + ("*", f), ft, True))
        elif t in BOXES:
            if deref:
                self._expand(Place(p.var, p.name, p.path + ("*",), BOXES[t]), out, deref, lim)
                if BOXES[t] in FIELDS and not p.path:
                    for f, ft in FIELDS[BOXES[t]]:
                        out.append(Place(p.var, p.name, p.path + ("*", f), ft, True))
        elif t in FIELDS:
            for f, ft in FIELDS[t]:
                self._expand(Place(p.var, p.name, p.path + (f,), ft, p.auto), out, deref, lim)

    # --- expressions: return token lists
    def use_value(self, p):
        """`p` in value position: copy or move."""
        exp = "R" if is_copy(p.ty) else "RO"
        self.cur.reads.append(p.var)
        self.access(p, "O" if exp == "RO" else "R")
        return [Use(p.text(), p, exp, kind="value")]

    def use_ref(self, p, mut):
        self.cur.reads.append(p.var)
        self.access(p, "W" if mut else "R")
        return ["&mut " if mut else "&", Use(p.text(), p, "RW" if mut else "R", kind="borrow")]

    def use_recv(self, p, exp, acc):
        """Method receiver: boundary between the receiver and the dot."""
        self.cur.reads.append(p.var)
        self.access(p, acc)
        t = p.text()
        src = t
        # a receiver that is a reference is auto-dereferenced: the place is the referent
        place = p
        while isinstance(place.ty, tuple):
            place = Place(p.var, p.name, place.path + ("*",), place.ty[1])
        if t.startswith("*"):
            src = f"({t})"
        return [Use(src, place, exp, at="hi", kind="recv")]

    def some_place(self, want, acc, deref=True):
        ps = self.places(want, acc, deref)
        if acc == "O":
            ps = [p for p in ps if is_copy(p.ty) or self.movable(p)] if not self.bad else ps
        return self.pick(ps) if ps else None

    def val(self, t, d=0):
        """An expression of type t."""
        opts = [(3, "fresh")]
        ps = [p for p in self.places(lambda u: u == t, "R" if is_copy(t) else "O")
              if is_copy(t) or self.bad or self.movable(p)]
        if ps:
            opts.append((5, "place"))
        if t in (I32,) and d < 2:
            opts.append((1, "arith"))
            if self.places(lambda u: u in (STR, VEC)):
                opts.append((1, "len"))
        if t == STR and self.places(lambda u: u == STR):
            opts.append((1, "clone"))
        if t == STR and self.places(lambda u: u == ND, "O", False):
            opts.append((1, "into"))
        k = self.weighted(opts)
        if k == "place":
            return self.use_value(self.pick(ps))
        if k == "arith":
            return self.val(I32, d + 1) + [" + "] + self.val(I32, d + 1)
        if k == "len":
            p = self.some_place(lambda u: u in (STR, VEC), "R")
            return self.use_recv(p, "R", "R") + [".len() as i32"]
        if k == "clone":
            p = self.some_place(lambda u: u == STR, "R")
            return self.use_recv(p, "R", "R") + [".clone()"]
        if k == "into":
            p = self.some_place(lambda u: u == ND, "O", False)
            return self.use_recv(p, "RO", "O") + [".into_name()"]
        if t == I32:
            return [self.pick(["0", "1", "mk_i()", "7"])]
        if t == BOOL:
            return ["mk_c()"]
        if t == STR:
            return [self.pick(["mk_s()", 'String::from("é")', "String::new()"])]
        if t == VEC:
            return ["Vec::new()"]
        if t in BOXES:
            return ["Box::new("] + self.val(BOXES[t], d + 1) + [")"]
        if t == DRN:
            return ["DrN { d: "] + self.val(ND, d + 1) + [", t: "] + self.val(STR, d + 1) + [" }"]
        if t == EN:
            k = self.below(3)
            return ["En::A("] + self.val(STR, d + 1) + [")"] if k == 0 else \
                ["En::B { x: "] + self.val(I32, d + 1) + [", y: "] + self.val(STR, d + 1) + [" }"] if k == 1 else ["En::C"]
        if t == CP:
            return ["Cp { a: "] + self.val(I32, d + 1) + [", b: 2 }"]
        if t == ND:
            if d < 2 and self.pct(50):
                return ["Nd { name: "] + self.val(STR, d + 1) + [", val: "] + self.val(I32, d + 1) + [", pos: Cp { a: 1, b: 2 } }"]
            return ["mk_nd()"]
        if t == NEST:
            return ["Nest { inner: "] + self.val(ND, d + 1) + [", tag: "] + self.val(STR, d + 1) + [" }"]
        if t == TP:
            return ["("] + self.val(I32, d + 1) + [", "] + self.val(STR, d + 1) + [")"]
        if t == DR:
            return ["Dr { f: "] + self.val(STR, d + 1) + [", g: 1 }"]
        if t == OPT:
            return ["Some("] + self.val(STR, d + 1) + [")"] if self.pct(70) else ["None"]
        if t == OPI:
            return ["Some("] + self.val(I32, d + 1) + [")"] if self.pct(70) else ["None"]
        raise AssertionError(t)

    def refexpr(self, t, coerce=False):
        """An expression of type &T / &mut T; returns (tokens, loans) or None."""
        mut = t[0] == "&mut"
        opts = []
        direct = self.places(lambda u: u == t[1], "W" if mut else "R")
        if direct:
            opts.append((6, "direct"))
            opts.append((2, "id"))
        same = [v for v in self.vars if v.ty == t and (self.bad or (not v.dead and v.init and not v.moved))
                and (not mut or v.loopdepth >= self.loopdepth or self.bad)]
        if same:
            opts.append((2, "var"))
        if not mut and len(direct) > 0:
            opts.append((1, "pick"))
        if t[1] == STR and self.places(lambda u: u == ND, "W" if mut else "R"):
            opts.append((1, "get"))
        if not opts:
            return None
        k = self.weighted(opts)

        def loan_of(p, m):
            ls = {(p.var, p.path, m)}
            # reborrow through references: keep what they borrow alive
            v = self.byuid[p.var]
            if "*" in p.path:
                ls |= set(v.loans)
            return frozenset(ls)

        if k in ("direct", "id"):
            p = self.pick(direct)
            toks = self.use_ref(p, mut)
            if k == "id":
                toks = ["id_mut(" if mut else "id_ref("] + toks + [")"]
            return toks, loan_of(p, mut)
        if k == "var":
            v = self.pick(same)
            p = Place(v.uid, v.name, (), v.ty)
            loans = v.loans
            if coerce:
                # the expected type is known: an implicit reborrow, not a move or copy
                q = Place(v.uid, v.name, ("*",), t[1])
                self.cur.reads.append(v.uid)
                self.access(q, "W" if mut else "R")
                return [Use(v.name, q, "RW" if mut else "R", kind="reborrow" if mut else "coerce")], frozenset({(v.uid, ("*",), mut)}) | loans
            toks = self.use_value(p)
            return toks, loans
        if k == "pick":
            p = self.pick(direct)
            q = self.pick(direct)
            a = self.use_ref(p, False)
            b = self.use_ref(q, False)
            return ["pick("] + a + [", "] + b + [")"], loan_of(p, False) | loan_of(q, False)
        if k == "get":
            p = self.some_place(lambda u: u == ND, "W" if mut else "R")
            toks = self.use_recv(p, "RW" if mut else "R", "W" if mut else "R")
            return toks + [".get_mut()" if mut else ".get()"], loan_of(p, mut)

    # --- statements
    def new_stmt(self, kind):
        self.sid += 1
        s = Stmt(kind, sid=self.sid)
        s.loopdepth = self.loopdepth
        s.scope = [(v.uid, v.name, v.ty, v.mut, v.init) for v in self.vars]
        return s

    def gen_block(self, n):
        mark = len(self.vars)
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            s = self.gen_stmt()
            if s is not None:
                out.append(s)
        if self.cfg.get("x") and self.depth and self.pct(self.cfg.get("jumps", 0)):
            out.append(self.jump())
        self.close_scope(mark)
        return out

    def close_scope(self, mark):
        for v in self.vars[mark:]:
            # references to this variable die
            for r in self.byuid.values():
                if any(l[0] == v.uid and "*" not in l[1][:1] for l in r.loans):
                    r.dead = True
        del self.vars[mark:]

    def snapshot(self):
        return {u: (v.init, set(v.moved), v.dead, v.loans) for u, v in self.byuid.items()}

    def restore(self, snap):
        for u, v in self.byuid.items():
            if u in snap:
                v.init, v.moved, v.dead, v.loans = snap[u][0], set(snap[u][1]), snap[u][2], snap[u][3]

    def join(self, snaps):
        for u, v in self.byuid.items():
            ss = [s[u] for s in snaps if u in s]
            if not ss:
                continue
            v.init = all(s[0] for s in ss)
            v.moved = set().union(*[s[1] for s in ss])
            v.dead = any(s[2] for s in ss)
            v.loans = frozenset().union(*[s[3] for s in ss])

    def gen_stmt(self):
        self.budget -= 1
        self.bad = self.pct(self.allow_bad)
        if self.pending is not None:
            # use the reference whose loan was just violated
            v, self.pending = self.pending, None
            if v in self.vars:
                return self.refuse(v)
        if self.pct(self.cfg.get("conflict", 0)):
            s = self.st_conflict()
            if s is not None:
                s.nuses = sum(isinstance(t, Use) for t in s.toks)
                return s
        ws = [(30, "let"), (16 + (20 if self.cfg.get("conflict") else 0), "letref"), (8, "call"), (9, "method"), (6, "assign"), (5, "opassign"), (4, "print"),
              (4, "deferred"), (4, "derefassign"), (3, "drop"), (3, "refuse")]
        if self.depth < self.cfg.get("depth", 2) and self.budget > 1 and not self.cfg.get("straight"):
            ws += [(6, "if"), (3, "while"), (2, "block"), (3, "for"), (3, "match"), (2, "loop"), (2, "iflet")]
        if self.cfg.get("x"):
            ws += [(6, "closure"), (16 if any(v.ty in (CLOR, CLOW, CLOO) for v in self.vars) else 0, "callclosure"), (4, "letif"), (4, "destructure"), (4, "twoargs"), (3, "rf"), (3, "pushstr"), (5, "margs"), (3, "group")]
            if self.depth < self.cfg.get("depth", 2) and self.budget > 1 and not self.cfg.get("straight"):
                ws += [(3, "matchen"), (2, "whilelet"), (2, "foriter"), (3, "if")]
        if not self.vars:
            ws = [(1, "let")]
        for _ in range(6):
            k = self.weighted(ws)
            s = getattr(self, "st_" + k)()
            if s is not None:
                s.nuses = sum(isinstance(t, Use) for t in s.toks)
                return s
        return None

    def declare(self, s, v):
        self.vars.append(v)
        s.decl = s.decl or v
        s.decls.append(v)
        s.kills.append(v.uid)

    def st_let(self):
        s = self.cur = self.new_stmt("let")
        ty = self.pick(MORE if self.cfg.get("x") else OWNED)
        toks = self.val(ty)
        mut = self.pct(60)
        v = self.fresh(ty, mut)
        ann = f": {ty_str(ty)}" if self.pct(30) or ty in (VEC, OPT, OPI) else ""
        s.toks = [f"let {'mut ' if mut else ''}{v.name}{ann} = "] + toks + [";"]
        self.declare(s, v)
        return s

    def st_letref(self):
        s = self.cur = self.new_stmt("let")
        tys = [v.ty for v in self.vars if not isinstance(v.ty, tuple)] + [STR, I32]
        t = self.pick(tys)
        t = mref(t) if self.pct(40) else ref(t)
        if self.cfg.get("refref") and self.pct(10):
            t = ref(t)
        if self.cfg.get("x") and self.pct(15):
            same = [v.ty for v in self.vars if isinstance(v.ty, tuple) and not isinstance(v.ty[1], tuple)]
            if same:
                t = self.pick([ref, mref])(self.pick(same))
        if t[1] in (RF, CLOR, CLOW, CLOO):
            return None
        r = self.refexpr(t)
        if r is None:
            return None
        toks, loans = r
        v = self.fresh(t, self.pct(25))
        v.loans = loans
        s.toks = [f"let {'mut ' if v.mut else ''}{v.name} = "] + toks + [";"]
        self.declare(s, v)
        return s

    def st_deferred(self):
        s = self.cur = self.new_stmt("let")
        ty = self.pick([I32, STR, BOX])
        v = self.fresh(ty, self.pct(40))
        v.init = False
        s.toks = [f"let {'mut ' if v.mut else ''}{v.name}: {ty_str(ty)};"]
        s.feats.add("deferred")
        self.declare(s, v)
        return s

    def st_assign(self):
        s = self.cur = self.new_stmt("simple")
        cands = []
        for v in self.vars:
            p0 = Place(v.uid, v.name, (), v.ty)
            if not v.init and not v.moved and self.loopdepth == v.loopdepth:
                cands.append(p0)
            elif v.mut and not (isinstance(v.ty, tuple) and self.loopdepth != v.loopdepth):
                cands.append(p0)
                if v.init and not v.moved and v.ty in FIELDS:
                    for f, ft in FIELDS[v.ty]:
                        cands.append(Place(v.uid, v.name, (f,), ft))
            elif self.bad:
                cands.append(p0)
            if isinstance(v.ty, tuple) and v.ty[0] == "&mut" and v.ty[1] in FIELDS and self.can(p0, "R"):
                for f, ft in FIELDS[v.ty[1]]:
                    cands.append(Place(v.uid, v.name, ("*", f), ft, True))
        cands = [p for p in cands if p.ty not in (RF, CLOR, CLOW, CLOO)]
        if not cands:
            return None
        p = self.pick(cands)
        if isinstance(p.ty, tuple):
            r = self.refexpr(p.ty, coerce=True)
            if r is None:
                return None
            toks, loans = r
        else:
            toks, loans = self.val(p.ty), None
        v = self.byuid[p.var]
        self.access(p, "A")
        if not p.path:
            s.kills.append(v.uid)
            v.init = True
            v.moved = set()
            if loans is not None:
                v.loans, v.dead = loans, False
        else:
            v.moved.discard(p.path)
            s.reads.append(v.uid)
        s.toks = [Use(p.text(), p, "", kind="assign"), " = "] + toks + [";"]
        s.feats.add("assign")
        return s

    def st_derefassign(self):
        s = self.cur = self.new_stmt("simple")
        cands = [p for p in self.places(None, "W") if p.path and p.path[-1] == "*" and not isinstance(p.ty, tuple)]
        if not cands:
            return None
        p = self.pick(cands)
        toks = self.val(p.ty)
        if not self.bad and not self.can(p, "W") or not self.initialized(p):
            return None
        self.access(p, "A")
        s.reads.append(p.var)
        s.toks = [Use(p.text(), p, "RW", kind="derefassign"), " = "] + toks + [";"]
        return s

    def st_opassign(self):
        s = self.cur = self.new_stmt("simple")
        cands = self.places(lambda u: u == I32, "W")
        if not cands:
            return None
        p = self.pick(cands)
        toks = self.val(I32, 2)
        if not self.bad and not self.can(p, "W"):
            return None
        self.access(p, "A")
        s.reads.append(p.var)
        s.toks = [Use(p.text(), p, "RW", kind="opassign"), self.pick([" += ", " -= ", " *= "])] + toks + [";"]
        return s

    def st_call(self):
        s = self.cur = self.new_stmt("simple")
        k = self.weighted([(3, "look"), (3, "touch"), (2, "eat")])
        if k == "look":
            p = self.some_place(None, "R")
            if p is None:
                return None
            toks = self.use_ref(p, False)
        elif k == "touch":
            p = self.some_place(None, "W")
            if p is None:
                return None
            toks = self.use_ref(p, True)
        else:
            ps = [p for p in self.places(None, "R") if is_copy(p.ty)] + [p for p in self.places(None, "O") if not is_copy(p.ty)]
            ps = [p for p in ps if is_copy(p.ty) or self.movable(p) or self.bad]
            if not ps:
                return None
            toks = self.use_value(self.pick(ps))
        s.toks = [f"{k}("] + toks + [");"]
        return s

    def st_refuse(self):
        """Use of a reference variable: keeps its loans alive up to here."""
        s = self.cur = self.new_stmt("simple")
        vs = [v for v in self.vars if isinstance(v.ty, tuple) and (self.bad or (not v.dead and v.init and not v.moved))]
        if not vs:
            return None
        return self.refuse(self.pick(vs))

    def refuse(self, v):
        s = self.cur = self.new_stmt("simple")
        if v.ty == RF:
            s.toks = ["look("] + self.use_ref(Place(v.uid, v.name, (), v.ty), False) + [");"]
            return s
        if not isinstance(v.ty, tuple):
            return self.callclosure(v)
        if v.ty[0] == "&mut":
            q = Place(v.uid, v.name, ("*",), v.ty[1])
            s.reads.append(v.uid)
            self.access(q, "W")
            s.toks = ["touch(", Use(v.name, q, "RW", kind="reborrow"), ");"]
        else:
            q = Place(v.uid, v.name, ("*",), v.ty[1])
            s.reads.append(v.uid)
            self.access(q, "R")
            s.toks = ["look(", Use(v.name, q, "R", kind="reborrow"), ");"]
        return s

    def st_conflict(self):
        """An access to a borrowed place; the reference is used in the next statement."""
        refs = [v for v in self.vars if (isinstance(v.ty, tuple) or v.ty in (CLOR, CLOW, RF)) and not v.dead and v.init and not v.moved and v.loans]
        refs = [v for v in refs if any(self.byuid[l[0]] in self.vars for l in v.loans)]
        if not refs:
            return None
        v = self.pick(refs)
        uid, path, mut = self.pick(sorted((l for l in v.loans if self.byuid[l[0]] in self.vars), key=str))
        ps = []
        self._expand(Place(uid, self.byuid[uid].name, (), self.byuid[uid].ty), ps, True)
        ps = [p for p in ps if p.path[:len(path)] == path[:len(p.path)] and self.initialized(p)]
        self.pending = v
        s = self.cur = self.new_stmt("simple")
        opts = [(p, k) for p in ps for k in ("look", "touch", "value", "op", "print", "deref", "push", "len")
                if (k not in ("touch", "op", "deref", "push") or self.can(p, "W"))
                and (k != "value" or self.can(p, "O") or is_copy(p.ty))
                and (k != "op" or p.ty == I32) and (k != "print" or p.ty in (I32, STR, BOX, ref(STR), ref(I32)))
                and (k != "deref" or (p.path and p.path[-1] == "*" and not is_ref(p.ty)))
                and (k not in ("push", "len") or p.ty in (STR, VEC))]
        p, k = self.pick(opts) if opts else (None, None)
        if k is None:
            return None
        bad, self.bad = self.bad, 0
        if k in ("look", "touch"):
            s.toks = [k + "("] + self.use_ref(p, k == "touch") + [");"]
        elif k == "value":
            s.toks = ["eat("] + self.use_value(p) + [");"]
        elif k == "print":
            s.reads.append(p.var)
            s.toks = ['println!("{}", ', Use(p.text(), p, "R", kind="print"), ");"]
        elif k == "op":
            s.toks = [Use(p.text(), p, "RW", kind="opassign"), " += 1;"]
        elif k == "deref":
            s.toks = [Use(p.text(), p, "RW", kind="derefassign"), " = "] + self.val(p.ty, 2) + [";"]
            if not self.initialized(p):
                self.bad = bad
                return None
        elif k == "len":
            s.toks = self.use_recv(p, "R", "R") + [".len();"]
        else:
            s.toks = self.use_recv(p, "RW", "W") + [".clear();"]
        self.bad = bad
        return s

    def st_method(self):
        s = self.cur = self.new_stmt("simple")
        k = self.weighted([(3, "mut"), (3, "shared"), (1, "own")])
        if k == "own":
            p = self.some_place(lambda u: u in (STR, ND), "O", False)
            if p is None:
                return None
            toks = self.use_recv(p, "RO", "O") + [".into_bytes();" if p.ty == STR else ".into_name();"]
        elif k == "mut":
            p = self.some_place(lambda u: u in (STR, VEC, mref(STR), mref(VEC)), "R")
            if p is None:
                return None
            t = p.ty
            if not isinstance(t, tuple):
                if not self.bad and not self.can(p, "W"):
                    return None
                acc = "W"
                toks = self.use_recv(p, "RW", acc)
                bt = t
            else:
                q = Place(p.var, p.name, p.path + ("*",), t[1])
                if not self.bad and not self.can(q, "W"):
                    return None
                toks = self.use_recv(p, "RW", "R")
                self.access(q, "W")
                bt = t[1]
            toks += [self.pick(['.push_str("x");', ".clear();"]) if bt == STR else self.pick([".push(1);", ".clear();"])]
        else:
            p = self.some_place(lambda u: u in (STR, VEC, ref(STR), ref(VEC), mref(STR)), "R")
            if p is None:
                return None
            toks = self.use_recv(p, "R", "R")
            if isinstance(p.ty, tuple):
                self.access(Place(p.var, p.name, p.path + ("*",), p.ty[1]), "R")
            toks += [".len();"]
        s.toks = toks
        return s

    def st_closure(self):
        """A closure capturing places; its body's uses are those of its creation."""
        s = self.cur = self.new_stmt("let")
        toks, loans, kind = [], set(), CLOR
        for i in range(1 + self.below(2)):
            k = self.pick(["look", "touch", "len", "val", "add"] if i or self.pct(80) else ["eat"])
            if k in ("look", "touch"):
                p = self.some_place(lambda u: u not in (CLOR, CLOW, CLOO, RF), "R" if k == "look" else "W")
                if p is None or "*" in p.path and self.byuid[p.var].ty in BOXES:
                    continue
                new = self.use_ref(p, k == "touch")
                toks += [k + "("] + new + ["); "]
            elif k == "len":
                p = self.some_place(lambda u: u in (STR, VEC), "R")
                if p is None:
                    continue
                toks += self.use_recv(p, "R", "R") + [".len(); "]
            elif k == "add":
                p = self.some_place(lambda u: u == I32, "W")
                if p is None or "*" in p.path and self.byuid[p.var].ty in BOXES:
                    continue
                s.reads.append(p.var)
                self.access(p, "W")
                toks += [Use(p.text(), p, "RW", kind="opassign"), " += 1; "]
            elif k == "val":
                p = self.some_place(lambda u: u == I32, "R")
                if p is None:
                    continue
                toks += ["eat("] + self.use_value(p) + ["); "]
            else:
                p = self.some_place(lambda u: u in (STR, ND, VEC), "O", False)
                if p is None or p.path:
                    continue
                toks += ["eat("] + self.use_value(p) + ["); "]
                kind = CLOO
                continue
            loans.add((p.var, p.path, k in ("touch", "add")))
            if "*" in p.path:
                loans |= set(self.byuid[p.var].loans)
            if k in ("touch", "add") and kind == CLOR:
                kind = CLOW
        uses = [t for t in toks if isinstance(t, Use)]
        if not uses or len({u.place.var for u in uses}) != len(uses):
            return None
        for u in uses:
            u.kind = "captured " + u.kind
        v = self.fresh(kind, kind == CLOW or self.pct(20))
        v.loans = frozenset(loans)
        s.toks = [f"let {'mut ' if v.mut else ''}{v.name} = || {{ "] + toks + ["};"]
        self.declare(s, v)
        return s

    def st_callclosure(self):
        s = self.cur = self.new_stmt("simple")
        vs = [v for v in self.vars if v.ty in (CLOR, CLOW, CLOO) and (self.bad or (not v.dead and v.init and not v.moved))
              and not (v.ty == CLOO and self.loopdepth > v.loopdepth and not self.bad)]
        if not vs:
            return None
        return self.callclosure(self.pick(vs))

    def callclosure(self, v):
        s = self.cur
        p = Place(v.uid, v.name, (), v.ty)
        s.reads.append(v.uid)
        acc = {CLOR: "R", CLOW: "W", CLOO: "O"}[v.ty]
        self.access(p, acc)
        s.toks = [Use(v.name, p, {"R": "R", "W": "RW", "O": "RO"}[acc], kind="callee"), "();"]
        return s

    def st_letif(self):
        s = self.cur = self.new_stmt("let")
        c = self.cond()
        base = self.snapshot()
        if self.pct(50):
            t = self.pick([STR, I32, ND])
            a = self.val(t)
            s1 = self.snapshot()
            self.restore(base)
            b = self.val(t)
            la = lb = frozenset()
        else:
            t = self.pick([v.ty for v in self.vars if not isinstance(v.ty, tuple) and v.ty not in (RF, CLOR, CLOW, CLOO)] + [STR, I32])
            t = mref(t) if self.pct(40) else ref(t)
            r = self.refexpr(t)
            if r is None:
                return None
            a, la = r
            s1 = self.snapshot()
            self.restore(base)
            r = self.refexpr(t)
            if r is None:
                return None
            b, lb = r
        self.join([s1, self.snapshot()])
        v = self.fresh(t, self.pct(30))
        v.loans = la | lb
        s.toks = [f"let {'mut ' if v.mut else ''}{v.name} = if "] + c + [" { "] + a + [" } else { "] + b + [" };"]
        s.feats.add("letif")
        self.declare(s, v)
        return s

    def st_destructure(self):
        s = self.cur = self.new_stmt("let")
        p = self.some_place(lambda u: u in (TP, ND, NEST), "O")
        if p is None:
            return None
        s.reads.append(p.var)
        for r in self.conflicts(p, "O"):
            r.dead = True
        use = Use(p.text(), p, "RO", kind="destructured")
        fs = FIELDS[p.ty]
        sel = [i for i, (f, t) in enumerate(fs) if not is_copy(t) or self.pct(60)] or [0]
        new = []
        for i in sel:
            v = self.fresh(fs[i][1], self.pct(30))
            new.append((i, v))
        if p.ty == TP:
            names = {i: ("mut " if v.mut else "") + v.name for i, v in new}
            pat = "(" + ", ".join(names.get(i, "_") for i in range(len(fs))) + ")"
        else:
            pat = f"{p.ty} {{ " + ", ".join(f"{fs[i][0]}: {'mut ' if v.mut else ''}{v.name}" for i, v in new) + ", .. }"
        for i, v in new:
            q = Place(p.var, p.name, p.path + (fs[i][0],), fs[i][1], p.auto)
            self.access(q, "R" if is_copy(q.ty) else "O")
            self.declare(s, v)
        s.toks = [f"let {pat} = ", use, ";"]
        s.feats.add("pattern")
        return s

    def st_twoargs(self):
        s = self.cur = self.new_stmt("simple")
        if self.pct(30):
            a = self.some_place(lambda u: u in (STR, ND, I32, VEC), "W")
            if a is None:
                return None
            ta = self.use_ref(a, True)
            bs = [b for b in self.places(lambda u: u == a.ty, "W") if b.var != a.var]
            if not bs:
                return None
            s.toks = ["swap("] + ta + [", "] + self.use_ref(self.pick(bs), True) + [");"]
            return s
        out, seen = [], []
        for i in range(2):
            k = self.pick(["ref", "mut", "val"])
            ps = [q for q in self.places(None, {"ref": "R", "mut": "W", "val": "R"}[k]) if q.var not in seen or self.bad
                  or (k == "ref" and seen[-1:] == [q.var, "ref"])]
            if k == "val":
                ps = [q for q in ps if is_copy(q.ty) or (self.can(q, "O") and self.movable(q))]
            if not ps:
                return None
            q = self.pick(ps)
            seen += [q.var]
            out.append(self.use_value(q) if k == "val" else self.use_ref(q, k == "mut"))
        s.toks = ["two("] + out[0] + [", "] + out[1] + [");"]
        return s

    def st_rf(self):
        s = self.cur = self.new_stmt("let")
        a = self.some_place(lambda u: u == STR, "R")
        if a is None:
            return None
        ta = self.use_ref(a, False)
        b = self.pick([q for q in self.places(lambda u: u == ND, "W") if q.var != a.var] or [None])
        if b is None:
            return None
        tb = self.use_ref(b, True)
        v = self.fresh(RF, self.pct(50))
        ls = {(a.var, a.path, False), (b.var, b.path, True)}
        for q in (a, b):
            if "*" in q.path:
                ls |= set(self.byuid[q.var].loans)
        v.loans = frozenset(ls)
        s.toks = [f"let {'mut ' if v.mut else ''}{v.name} = Rf {{ s: "] + ta + [", m: "] + tb + [" };"]
        self.declare(s, v)
        return s

    def st_pushstr(self):
        s = self.cur = self.new_stmt("simple")
        p = self.some_place(lambda u: u == STR, "W")
        if p is None:
            return None
        t = self.use_recv(p, "RW", "W")
        q = self.pick([q for q in self.places(lambda u: u == STR, "R") if q.var != p.var] or [None])
        if q is None:
            return None
        s.toks = t + [".push_str("] + self.use_ref(q, False) + [");"]
        return s

    def st_margs(self):
        """A method call with several arguments, none of which touches the receiver."""
        s = self.cur = self.new_stmt("simple")
        k = self.pick(["set", "set", "mix", "give", "insert", "replace"])
        rt = {"insert": VEC, "replace": STR}.get(k, ND)
        exp, acc = {"set": ("RW", "W"), "mix": ("R", "R"), "give": ("RO", "O"), "insert": ("RW", "W"), "replace": ("RW", "W")}[k]
        p = self.some_place(lambda u: u == rt, acc, k != "give")
        if p is None:
            return None
        t = self.use_recv(p, exp, acc)
        hidden = [v for v in self.vars if v.uid == p.var]
        self.vars = [v for v in self.vars if v.uid != p.var]
        try:
            if k == "set":
                a = [self.val(I32, 1), self.val(STR, 1)]
            elif k == "mix":
                a = [self.argref(STR, False), self.val(I32, 1), self.argref(I32, False)]
            elif k == "give":
                a = [self.argref(STR, True), self.val(I32, 1)]
            elif k == "insert":
                # (nothing is inserted at run time: only the analysis sees the program)
                a = [["0"], self.val(I32, 1)]
            else:
                a = [["0..1"], self.argref(STR, False)]
        finally:
            self.vars = sorted(self.vars + hidden, key=lambda v: v.uid)
        if any(x is None for x in a):
            return None
        s.toks = t + [{"insert": ".insert(", "replace": ".replace_range("}.get(k, f".{k}(")]
        for i, x in enumerate(a):
            s.toks += ([", "] if i else []) + x
        s.toks += [");"]
        return s

    def argref(self, t, mut):
        ps = self.places(lambda u: u == t, "W" if mut else "R")
        return self.use_ref(self.pick(ps), mut) if ps else None

    def st_group(self):
        """Values gathered in a tuple, an array, a block or parentheses."""
        s = self.cur = self.new_stmt("simple")
        k = self.below(5)
        if k == 0:
            s.toks = ["eat(("] + self.val(self.pick([I32, STR, BOX, ND, TP, DR, CP, NEST]), 1) + [", "] + self.val(I32, 1) + [", "] + self.val(self.pick([I32, STR, BOX, ND, TP, DR, CP, NEST]), 1) + ["));"]
        elif k == 1:
            t = self.pick([I32, STR, ND])
            s.toks = ["eat(["] + self.val(t, 1) + [", "] + self.val(t, 1) + ["]);"]
        elif k == 2:
            s.toks = ["eat({ "] + self.val(self.pick([I32, STR, BOX, ND, TP, DR, CP, NEST]), 1) + [" });"]
        elif k == 3:
            s.toks = ["eat(0 - "] + self.val(I32, 1) + [" - "] + self.val(I32, 1) + [");"]
        else:
            s.toks = ["eat("] + self.val(I32, 1) + [" > "] + self.val(I32, 1) + [");"]
        return s

    def st_matchen(self):
        s = self.cur = self.new_stmt("match")
        p = self.some_place(lambda u: u in (EN, OPT), "O")
        if p is None:
            return None
        s.reads.append(p.var)
        self.access(p, "R")
        s.toks = ["match ", Use(p.text(), p, "R", at="hi", kind="match"), " {"]
        base = self.snapshot()
        snaps = []
        arms = [("Some({}) => {{", STR), ("None => {{", None)] if p.ty == OPT else \
            [("En::A({}) => {{", STR), ("En::B {{ y: {}, .. }} => {{", STR), ("En::C => {{", None)]
        self.depth += 1
        for pat, t in arms:
            self.restore(base)
            v = None
            if t:
                v = self.fresh(t, self.pct(30))
                self.access(p, "O")
                self.vars.append(v)
            b = self.gen_block(1 + self.below(2))
            if v:
                self.vars.remove(v)
            if not (b and b[-1].diverges):
                snaps.append(self.snapshot())
            s.blocks.append(b)
            s.arms.append((pat.format(("mut " if v.mut else "") + v.name) if v else pat.format(), v))
        self.depth -= 1
        if snaps:
            self.join(snaps)
        return s

    def st_whilelet(self):
        s = self.cur = self.new_stmt("while")
        p = self.some_place(lambda u: u == VEC, "W")
        if p is None:
            return None
        toks = self.use_recv(p, "RW", "W")
        v = self.fresh(I32, self.pct(20))
        v.loopdepth += 1
        s.toks = [f"while let Some({'mut ' if v.mut else ''}{v.name}) = "] + toks + [".pop() {"]
        s.feats.add("whilelet")
        self.vars.append(v)
        s.decl = v
        s.decls = [v]
        self.loop_body(s, 1 + self.below(3))
        self.vars.remove(v)
        return s

    def st_foriter(self):
        s = self.cur = self.new_stmt("for")
        own = self.pct(40)
        p = self.some_place(lambda u: u == VEC, "O" if own else "R")
        if p is None:
            return None
        toks = self.use_value(p) if own else self.use_recv(p, "R", "R") + [".iter()"]
        v = self.fresh(I32 if own else ref(I32), False)
        if not own:
            v.loans = frozenset({(p.var, p.path, False)})
        s.toks = [f"for {v.name} in "] + toks + [" {"]
        s.feats.add("foriter")
        v.loopdepth += 1
        self.vars.append(v)
        s.decl = v
        s.decls = [v]
        self.loop_body(s, 1 + self.below(3))
        self.vars.remove(v)
        return s

    def jump(self):
        """A statement that leaves the block: return, break or continue."""
        k = self.pick(["return"] if not self.loopdepth else ["return", "break", "continue"])
        s = self.cur = self.new_stmt(k)
        s.diverges = True
        s.toks = [k + ";"]
        return s

    def st_print(self):
        s = self.cur = self.new_stmt("simple")
        p = self.some_place(lambda u: u in (I32, STR, BOX, ref(STR), ref(I32), BOOL), "R")
        if p is None:
            return None
        s.reads.append(p.var)
        self.access(p, "R")
        s.toks = ['println!("{}", ', Use(p.text(), p, "R", kind="print"), ");"]
        return s

    def st_drop(self):
        s = self.cur = self.new_stmt("simple")
        ps = [p for p in self.places(None, "O", False) if not is_copy(p.ty)]
        if not ps:
            return None
        s.toks = ["drop("] + self.use_value(self.pick(ps)) + [");"]
        return s

    def cond(self):
        if self.pct(50):
            p = self.some_place(lambda u: u == I32, "R")
            if p is not None:
                return self.use_value(p) + [" > 0"]
        return ["mk_c()"]

    def st_if(self):
        s = self.cur = self.new_stmt("if")
        s.toks = ["if "] + self.cond() + [" {"]
        base = self.snapshot()
        self.depth += 1
        b1 = self.gen_block(1 + self.below(3))
        s1 = self.snapshot()
        blocks = [b1]
        if self.cfg.get("x") and self.depth < 3 and self.pct(20):
            self.restore(base)
            inner = self.st_if()
            inner.elseif = True
            blocks.append([inner])
            s2 = self.snapshot()
        elif self.pct(50):
            self.restore(base)
            blocks.append(self.gen_block(1 + self.below(3)))
            s2 = self.snapshot()
        else:
            s2 = base
        self.depth -= 1
        ends = [sn for sn, b in ((s1, b1), (s2, blocks[1] if len(blocks) > 1 else [])) if not (b and b[-1].diverges)]
        self.join(ends or [s1, s2])
        s.blocks = blocks
        return s

    def loop_body(self, s, n):
        base = self.snapshot()
        self.depth += 1
        self.loopdepth += 1
        b = self.gen_block(n)
        self.loopdepth -= 1
        self.depth -= 1
        self.join([base, self.snapshot()])
        s.blocks = [b]
        return s

    def st_while(self):
        s = self.cur = self.new_stmt("while")
        s.toks = ["while "] + self.cond() + [" {"]
        return self.loop_body(s, 1 + self.below(3))

    def st_loop(self):
        s = self.cur = self.new_stmt("loop")
        s.toks = ["loop {"]
        return self.loop_body(s, 1 + self.below(3))

    def st_for(self):
        s = self.cur = self.new_stmt("for")
        v = self.fresh(I32, False)
        s.toks = [f"for {v.name} in 0..3 {{"]
        v.loopdepth += 1
        self.vars.append(v)
        s.decl = v
        self.loop_body(s, 1 + self.below(3))
        self.vars.remove(v)
        return s

    def st_block(self):
        s = self.cur = self.new_stmt("block")
        s.toks = ["{"]
        self.depth += 1
        s.blocks = [self.gen_block(1 + self.below(3))]
        self.depth -= 1
        return s

    def opt_place(self):
        return self.some_place(lambda u: u in (OPI,), "R") if self.pct(40) else self.some_place(lambda u: u in (OPT,), "R")

    def st_match(self):
        s = self.cur = self.new_stmt("match")
        p = self.opt_place()
        if p is None:
            return None
        s.reads.append(p.var)
        self.access(p, "R")
        s.toks = ["match ", Use(p.text(), p, "R", at="hi", kind="match"), " {"]
        base = self.snapshot()
        v = self.fresh(I32 if p.ty == OPI else ref(STR), False)
        if p.ty == OPT:
            v.loans = frozenset({(p.var, p.path, False)})
        pat = f"Some({'ref ' if p.ty == OPT else ''}{v.name}) => {{"
        self.depth += 1
        self.vars.append(v)
        b1 = self.gen_block(1 + self.below(2))
        self.vars.remove(v)
        s1 = self.snapshot()
        self.restore(base)
        b2 = self.gen_block(1 + self.below(2))
        self.depth -= 1
        self.join([s1, self.snapshot()])
        s.blocks = [b1, b2]
        s.arms = [(pat, v), ("None => {", None)]
        return s

    def st_iflet(self):
        s = self.cur = self.new_stmt("iflet")
        p = self.some_place(lambda u: u == OPI, "R")
        if p is None:
            return None
        v = self.fresh(I32, False)
        s.toks = [f"if let Some({v.name}) = "] + self.use_value(p) + [" {"]
        base = self.snapshot()
        self.depth += 1
        self.vars.append(v)
        s.decl = v
        b1 = self.gen_block(1 + self.below(2))
        self.vars.remove(v)
        self.depth -= 1
        self.join([base, self.snapshot()])
        s.blocks = [b1]
        return s


@dataclass
class Prog:
    params: list
    body: list
    gen: object

    def sig(self, name="f0"):
        ps = ", ".join(f"{'mut ' if v.mut else ''}{v.name}: {ty_str(v.ty)}" for v in self.params)
        return f"fn {name}({ps}) {{"

    def render_fn(self, lines, name="f0", probe=None, record=False):
        """Appends the lines of the function; probe = (sid, text): inserted before statement sid.
        Returns the line of the probe."""
        start = len(lines)
        lines.append(self.sig(name))
        pl = [None]

        def emit(s, ind, pre=""):
            if probe and probe[0] == s.sid:
                pl[0] = len(lines)
                lines.append(" " * ind + probe[1])
            txt = " " * ind + pre
            for t in s.toks:
                if isinstance(t, Use):
                    if record:
                        t.line = len(lines)
                        t.col = len(txt) if t.at == "lo" else len(txt) + len(t.text)
                        t.sid = s.sid
                    txt += t.text
                else:
                    txt += t
            if record:
                s.line = len(lines)
            lines.append(txt)
            if s.kind in ("if",):
                blk(s.blocks[0], ind + 2)
                if len(s.blocks) > 1:
                    i = s.blocks[1][0] if s.blocks[1] else None
                    lines.append(" " * ind + "}")
                    if i is not None and i.elseif and not (probe and probe[0] == i.sid):
                        emit(i, ind, "else ")
                        return
                    lines.append(" " * ind + "else {")
                    blk(s.blocks[1], ind + 2)
                lines.append(" " * ind + "}")
            elif s.kind in ("while", "for", "block", "iflet"):
                blk(s.blocks[0], ind + 2)
                lines.append(" " * ind + "}")
            elif s.kind == "loop":
                blk(s.blocks[0], ind + 2)
                lines.append(" " * (ind + 2) + "if mk_c() { break; }")
                lines.append(" " * ind + "}")
            elif s.kind == "match":
                for (pat, _), b in zip(s.arms, s.blocks):
                    lines.append(" " * (ind + 2) + pat)
                    blk(b, ind + 4)
                    lines.append(" " * (ind + 2) + "}")
                lines.append(" " * ind + "}")

        def blk(b, ind):
            for s in b:
                emit(s, ind)

        blk(self.body, 2)
        if probe and probe[0] == "end":
            pl[0] = len(lines)
            lines.append("  " + probe[1])
        lines.append("}")
        return start, pl[0]

    def stmts(self):
        def walk(b):
            for s in b:
                yield s
                for bb in s.blocks:
                    yield from walk(bb)
        yield from walk(self.body)

    def uses(self):
        for s in self.stmts():
            for t in s.toks:
                if isinstance(t, Use):
                    yield t

    def source(self):
        lines = PRELUDE.splitlines()
        start, _ = self.render_fn(lines, record=True)
        self.start = start
        lines.append("fn main() {}")
        self.end = len(lines) - 2
        return "\n".join(lines) + "\n"


def gen_prog(src, cfg=None):
    g = Gen(src, cfg)
    params = []
    for _ in range(g.below(4)):
        ts = OWNED + [ref(STR), mref(STR), ref(ND), mref(ND), mref(I32), ref(I32), mref(VEC)]
        if g.cfg.get("x"):
            ts += [BOXS, BOXN, DRN, EN, mref(BOXN), ref(BOXS), ref(NEST), mref(NEST), mref(DRN), ref(ref(STR)), mref(mref(STR)), ref(mref(ND)), mref(ref(STR)), RF]
        t = g.pick(ts)
        v = g.fresh(t, g.pct(50), param=True)
        params.append(v)
        g.vars.append(v)
    body = []
    n = 2 + g.below((cfg or {}).get("top", 8))
    for _ in range(n):
        if g.budget <= 0:
            break
        s = g.gen_stmt()
        if s is not None:
            body.append(s)
    return Prog(params, body, g)
