"""Generator of programs of many shapes: fragments of Rust nested in each other, correct or not."""

#: statements; {n} is a number that is unique in the program, {e} an i32 expression, {s} a String expression, {b} a block of statements
STMTS = [
    "let a{n} = {e};", "let mut a{n} = {e}; a{n} += {e};", "let s{n} = {s};", "let mut s{n} = {s}; s{n}.push_str(&{s});",
    "let v{n} = vec![{e}, {e}]; let _ = v{n}[0];", "let mut v{n} = vec![{s}]; v{n}.push({s}); for x{n} in v{n}.iter_mut() {{ x{n}.push('a'); }}",
    "let mut v{n} = vec![{e}]; v{n}[0] = {e}; v{n}[0] += 1;", "let arr{n} = [{e}; 3]; let [p{n}, .., q{n}] = arr{n}; let _r{n} = p{n} + q{n};",
    "let t{n} = ({e}, {s}); let (u{n}, w{n}) = t{n}; drop(w{n}); let _ = u{n};", "let t{n} = ({s}, {s}); let (ref u{n}, ref w{n}) = t{n}; look(u{n}); look(w{n});",
    "let b{n} = Box::new({s}); let c{n} = *b{n}; drop(c{n});", "let mut b{n} = Box::new(({e}, {s})); b{n}.0 += 1; let _m{n} = b{n}.1;",
    "let r{n} = &{e}; let q{n} = &r{n}; let _z{n} = **q{n};", "let mut x{n} = {e}; {{ let r{n} = &mut x{n}; *r{n} = {e}; }} let _y{n} = x{n};",
    "let mut s{n} = {s}; let r{n} = &mut s{n}; let q{n} = &mut *r{n}; q{n}.clear(); r{n}.clear();",
    "if {e} > 0 {{ {b} }} else if {e} < 3 {{ {b} }} else {{ {b} }}", "if let Some(x{n}) = Some({e}) {{ {b} let _ = x{n}; }}",
    "let Some(x{n}) = Some({s}) else {{ return Default::default() }}; drop(x{n});", "while {e} > 0 {{ {b} break; }}", "'l{n}: loop {{ {b} loop {{ if {e} > 1 {{ break 'l{n}; }} {b} break; }} break; }}",
    "for i{n} in 0..{e} {{ {b} if i{n} > 2 {{ continue; }} {b} }}", "for (i{n}, c{n}) in {s}.chars().enumerate() {{ let _ = (i{n}, c{n}); {b} }}",
    "match {e} {{ 0 => {{ {b} }} n{n} if n{n} > 3 => {{ {b} }} 1..=2 => {{}} _ => {{ {b} }} }}",
    "match {s}.as_str() {{ \"é\" => {{ {b} }} _ => {{}} }}", "match (Some({s}), {e}) {{ (Some(x{n}), 1) => {{ drop(x{n}); {b} }} (None, k{n}) => {{ let _ = k{n}; }} _ => {{}} }}",
    "match Ok::<i32, String>({e}) {{ Ok(x{n}) => {{ let _ = x{n}; }} Err(ref m{n}) => {{ look(m{n}); }} }}",
    "let f{n} = |x{n}: i32| x{n} + {e}; let _ = f{n}({e});", "let s{n} = {s}; let f{n} = move || {{ let l{n} = s{n}.len(); {b} l{n} }}; let _ = f{n}();",
    "let mut c{n} = {e}; let mut f{n} = || {{ c{n} += 1; {b} }}; f{n}(); f{n}(); let _ = c{n};", "let s{n} = {s}; let f{n} = || drop(s{n}); f{n}();",
    "let v{n}: Vec<i32> = (0..{e}).map(|x{n}| x{n} * {e}).filter(|y{n}| *y{n} > 1).collect(); look(&v{n});",
    "let o{n} = Some({s}); let l{n} = o{n}.as_ref().map(|z{n}| z{n}.len()).unwrap_or(0); let _ = l{n};", "let mut o{n} = Some({s}); if let Some(z{n}) = o{n}.as_mut() {{ z{n}.push('q'); }} let _t{n} = o{n}.take();",
    "let _f{n} = async {{ {b} {e} }};", "let _f{n} = async move |q{n}: i32| {{ {b} q{n} }};", "unsafe {{ let p{n} = &raw const *&{e}; let _d{n} = *p{n}; {b} }}", "let x{n} = {{ {b} {e} }}; let _ = x{n};",
    "fn inner{n}(x: &mut i32) -> &mut i32 {{ *x += 1; x }} let mut k{n} = {e}; *inner{n}(&mut k{n}) += 1;", "const C{n}: i32 = 4; let _ = C{n};", "static S{n}: &str = \"日本\"; look(S{n});",
    "struct L{n}<'a> {{ r: &'a str, n: usize }} let s{n} = {s}; let l{n} = L{n} {{ r: &s{n}, n: s{n}.len() }}; look(l{n}.r); let L{n} {{ r, .. }} = l{n}; look(r);",
    "enum E{n} {{ A(String), B {{ x: i32 }}, C }} let e{n} = E{n}::A({s}); match e{n} {{ E{n}::A(s) => drop(s), E{n}::B {{ x }} => {{ let _ = x; }} E{n}::C => {{ {b} }} }}",
    "let n{n} = mk_nd(); let Nd {{ name: m{n}, val: w{n}, .. }} = n{n}; drop(m{n}); let _ = w{n};", "let mut n{n} = mk_nd(); n{n}.val += {e}; n{n}.name.push('x'); let p{n} = &mut n{n}.pos; p{n}.a = {e}; drop(n{n}.name);",
    "let n{n} = Nd {{ val: {e}, ..mk_nd() }}; look(n{n}.get());", "let mut n{n} = mk_nd(); {{ let m{n} = n{n}.get_mut(); m{n}.clear(); }} let _i{n} = n{n}.into_name();",
    "println!(\"{{}} {{:?}}\", {e}, {s});", "let x{n} = {e}; println!(\"{{x{n} }} {{0:>1$}}\", x{n}, 3);", "assert!({e} < 10, \"{{}}\", {s});", "let _f{n} = format!(\"{{}}{{}}\", {s}, {s});", "dbg!({e});",
    "let d{n}: Box<dyn Fn(i32) -> i32> = Box::new(move |x{n}| x{n} + 1); let _ = d{n}({e});", "let t{n}: &dyn std::fmt::Debug = &{e}; let _ = format!(\"{{:?}}\", t{n});",
    "let rc{n} = std::rc::Rc::new(std::cell::RefCell::new({s})); rc{n}.borrow_mut().push('x'); let c{n} = rc{n}.clone(); drop(rc{n}); let _ = c{n}.borrow().len();",
    "let h{n} = std::thread::spawn(move || {{ {b} }}); let _ = h{n}.join();", "let mut st{n} = std::collections::HashMap::new(); st{n}.insert({e}, {s}); *st{n}.entry(1).or_default() = {s}; for (k{n}, w{n}) in &st{n} {{ let _ = (k{n}, w{n}); }}",
    "let sl{n} = &[1, 2, 3][..]; if let [f{n}, rest{n} @ ..] = sl{n} {{ let _ = (f{n}, rest{n}.len()); }}", "let mut z{n} = [1, 2, 3]; let (l{n}, r{n}) = z{n}.split_at_mut(1); l{n}[0] = r{n}[0]; z{n}.swap(0, 1);",
    "return Default::default();", "panic!(\"x\");", "loop {{ {b} }}", "let z{n}: i32; if {e} > 0 {{ z{n} = 1; }} else {{ z{n} = 2; }} let _ = z{n};", "let z{n}; z{n} = {s}; drop(z{n});", "let _ = {s};", "_ = {e};", "{{ {b} }}", ";",
    "let (mut a{n}, mut b{n}) = ({s}, {s}); std::mem::swap(&mut a{n}, &mut b{n}); (a{n}, b{n}) = (b{n}, a{n}); drop(a{n});", "let c{n} = 'é'; let _ = c{n} as u32;", "let i{n} = {e} as u8 as char; let _ = i{n};",
    "let v{n} = {{ let q{n} = {s}; q{n}.len() + {{ let k{n} = {s}; k{n}.len() }} }}; let _ = v{n};", "let x{n} = if {e} > 1 {{ {s} }} else {{ {s} }}; drop(x{n});", "let y{n} = match {e} {{ 1 => Some({s}), _ => None }}; drop(y{n});",
    "let x{n} = loop {{ {b} break {e}; }}; let _ = x{n};", "let x{n} = 'b{n}: {{ {b} if {e} > 2 {{ break 'b{n} {e}; }} {e} }}; let _ = x{n};",
    "let s{n} = {s}; let it{n} = s{n}.split(' ').map(str::to_owned); for w{n} in it{n} {{ drop(w{n}); }}", "let mut e{n} = {e}; let m{n} = id_mut(&mut e{n}); *m{n} = 3;",
]
#: statements with an error of ownership
BAD = [
    "let s{n} = {s}; drop(s{n}); look(&s{n});", "let mut s{n} = {s}; let r{n} = &s{n}; s{n}.clear(); look(r{n});", "let s{n} = {s}; s{n}.clear();", "let r{n}; {{ let k{n} = {e}; r{n} = &k{n}; }} look(r{n});",
    "let v{n} = vec![{s}]; let w{n} = v{n}[0];", "let z{n}: i32; let _ = z{n};", "let r{n} = &{s}; let m{n} = *r{n};", "let s{n} = {s}; for _ in 0..2 {{ drop(s{n}); }}", "let x{n} = 1; x{n} = 2;",
    "let s{n} = {s}; let f{n} = move || s{n}.len(); look(&s{n}); f{n}();", "let mut a{n} = {e}; let f{n} = || a{n} += 1; f{n}();", "let mut s{n} = {s}; let a{n} = &mut s{n}; let b{n} = &mut s{n}; a{n}.clear(); b{n}.clear();",
    "let n{n} = mk_nd(); drop(n{n}.name); look(&n{n});", "let mut o{n} = Some({s}); if let Some(ref x{n}) = o{n} {{ o{n} = None; look(x{n}); }}", "let x{n}: &'static str = &{s};",
]
#: other errors
WRONG = ["let x{n}: i32 = {s};", "let x{n} = unknown{n}({e});", "{s}.no_such_method();", "let x{n} = y{n};", "let a{n} = {e} + \"x\";", "look({e}, {e});", "let [a, b] = {e};", "break;", "let x{n}: Unknown{n} = 1;"]
BROKEN = ["let x{n} = ;", "let = 3;", "fn (", "}}}}", "\"unterminated", "let x{n} = 'ab';", "match {e} {{"]
EXPR = ["1", "mk_i()", "{e} + 1", "({e} * 2)", "*id_ref(&{e})", "{s}.len() as i32", "(|q: i32| q)(3)", "-{e}", "[1, 2][0]", "mk_nd().val", "i32::from(true)", "if mk_c() {{ 1 }} else {{ 2 }}", "{{ let k = 2; k }}"]
STR = ["mk_s()", "String::new()", "\"é日\".to_string()", "{s}.clone()", "mk_nd().name", "mk_nd().into_name()", "format!(\"{{}}\", {e})", "(String::from(\"x\") + &{s})", "{s}.trim().to_owned()"]
#: items
SIGS = ["fn f{n}() -> i32 {{\n{b}\n  {e}\n}}", "pub fn f{n}<'a>(x: &'a mut String, mut k: i32) -> &'a str {{\n{b}\n  x.push('x'); k += 1;\n  let _ = k; x\n}}",
        "fn f{n}<T: Clone>(t: &T) -> Option<T> {{\n{b}\n  Some(t.clone())\n}}", "async fn f{n}(s: String) -> usize {{\n{b}\n  s.len()\n}}", "unsafe fn f{n}(p: *mut i32) -> i32 {{\n{b}\n  *p += 1; *p\n}}",
        "struct W{n} {{ a: String, b: i32 }}\nimpl W{n} {{\n  fn f{n}(&mut self, o: Self) -> i32 {{\n{b}\n    self.a = o.a; self.b += o.b;\n    self.b\n  }}\n  fn g{n}(self) -> String {{ self.a }}\n}}",
        "trait T{n} {{\n  fn f{n}(&self) -> i32 {{\n{b}\n    1\n  }}\n  fn g{n}(&self) -> i32;\n}}\nimpl T{n} for String {{ fn g{n}(&self) -> i32 {{ self.len() as i32 }} }}",
        "mod m{n} {{\n  use pre::*;\n  pub fn f{n}(mut v: Vec<i32>) -> Vec<i32> {{\n{b}\n    v.push(1); v\n  }}\n}}", "fn f{n}(x: i32) -> impl Fn(i32) -> i32 {{\n{b}\n  move |y| x + y\n}}",
        "const fn f{n}(x: i32) -> i32 {{ let y = x + 1; y }}", "fn f{n}() -> Result<i32, std::num::ParseIntError> {{\n{b}\n  let x: i32 = \"1\".parse()?;\n  Ok(x + {e})\n}}",
        "fn f{n}<const N: usize>(a: [String; N]) -> usize {{\n{b}\n  let mut l = 0;\n  for s in a {{ l += s.len(); }}\n  l\n}}", "fn f{n}() -> () {{\n{b}\n}}", "#[derive(Clone, Debug, PartialEq, Default)]\nstruct D{n} {{ x: i32, y: String }}",
        "impl Drop for H{n} {{ fn drop(&mut self) {{ self.0.clear(); }} }}\nstruct H{n}(String);\nfn f{n}(h: H{n}) -> i32 {{\n{b}\n  let r = &h.0; look(r); drop(h); 1\n}}",
        "static K{n}: std::sync::Mutex<Vec<i32>> = std::sync::Mutex::new(Vec::new());\nfn f{n}() -> usize {{\n{b}\n  let mut g = K{n}.lock().unwrap(); g.push(1); g.len()\n}}",
        "enum Tr{n} {{ Leaf, Node(Box<Tr{n}>, i32, Box<Tr{n}>) }}\nfn f{n}(t: &mut Tr{n}, k: i32) -> i32 {{\n{b}\n  match t {{ Tr{n}::Leaf => {{ *t = Tr{n}::Node(Box::new(Tr{n}::Leaf), k, Box::new(Tr{n}::Leaf)); 0 }} Tr{n}::Node(l, x, r) => if k < *x {{ f{n}(l, k) }} else {{ f{n}(r, k) }} }}\n}}",
        ]


class Wild:
    def __init__(self, src, bad=0, wrong=0, broken=0):
        self.src, self.n, self.budget = src, 0, 14
        self.p = (bad, wrong, broken)

    def fill(self, t, ind, d):
        self.n += 1
        n = self.n
        out = t.replace("{{", "\0").replace("}}", "\1").replace("{n}", str(n))
        while True:
            i = [(out.find(h), h) for h in ("{e}", "{s}", "{b}") if h in out]
            if not i:
                break
            i, h = min(i)
            if h == "{e}":
                k = self.pick(EXPR) if d < 3 else "mk_i()"
            elif h == "{s}":
                k = self.pick(STR) if d < 3 else "mk_s()"
            else:
                k = None
            if k is not None:
                sub = self.fill(k, ind, d + 1) if "{" in k else k
                if " " in sub and not sub[0] + sub[-1] == "()":
                    sub = f"({sub})"
            else:
                m = self.src.below(3) if self.budget > 0 else 0
                if "\n{b}" in out[max(0, i - 1):i + 3]:
                    m += 1
                    sub = "\n".join("    " + self.stmt(ind, d + 1) for _ in range(m))
                else:
                    sub = " ".join(self.stmt(ind, d + 1) for _ in range(m))
            out = out[:i] + sub.replace("{", "\0").replace("}", "\1") + out[i + 3:]
        return out.replace("\0", "{").replace("\1", "}")

    def pick(self, xs):
        return xs[self.src.below(len(xs))]

    def stmt(self, ind, d):
        self.budget -= 1
        k = self.src.below(100)
        bad, wrong, broken = self.p
        if k < bad:
            t = self.pick(BAD)
        elif k < bad + wrong:
            t = self.pick(WRONG)
        elif k < bad + wrong + broken:
            t = self.pick(BROKEN)
        else:
            t = self.pick(STMTS)
        s = self.fill(t, ind, d)
        if self.src.below(12) == 0:
            s = "/* ü */ " + s
        return s


def wild(src, bad=0, wrong=0, broken=0):
    w = Wild(src, bad, wrong, broken)
    items = []
    for _ in range(1 + src.below(4)):
        w.budget = 2 + src.below(10)
        items.append(w.fill(w.pick(SIGS), 0, 0))
    return "#![allow(warnings)]\nuse pre::*;\n" + "\n".join(items) + "\nfn main() {}\n"
