// A small CodeMirror 6: documents, transactions, fields, facets, decorations, and the DOM they make.
const any = Object.getPrototypeOf(require("./any.cjs"));
const flat = e => (Array.isArray(e) ? e.flatMap(flat) : e && e.$comp ? [e, ...flat(e.ext)] : e && e.extension && e.extension !== e && e.extension !== any ? flat(e.extension) : e ? [e] : []);

class Text {
  constructor(lines) { this.$l = lines; this.lines = lines.length; this.length = lines.reduce((n, l) => n + l.length + 1, -1); }
  static of(l) { return new Text(l); }
  line(n) {
    if (!(n >= 1 && n <= this.lines) || n !== Math.floor(n)) throw new RangeError(`Invalid line number ${n} in ${this.lines}-line document`);
    let from = 0;
    for (let i = 0; i < n - 1; i++) from += this.$l[i].length + 1;
    const text = this.$l[n - 1];
    return { number: n, from, to: from + text.length, text, length: text.length };
  }
  lineAt(p) {
    if (!(p >= 0 && p <= this.length)) throw new RangeError(`Invalid position ${p} in document of length ${this.length}`);
    let from = 0;
    for (let i = 0; i < this.lines; i++) { const to = from + this.$l[i].length; if (p <= to) return this.line(i + 1); from = to + 1; }
  }
  iterLines(from = 1, to = this.lines + 1) {
    const a = this.$l.slice(from - 1, to - 1);
    let i = -1;
    return { value: "", done: false, lineBreak: false, next() { i++; this.done = i >= a.length; this.value = this.done ? "" : a[i]; return this; }, [Symbol.iterator]: () => a[Symbol.iterator]() };
  }
  iter() { const a = this.$l.flatMap((l, i) => (i ? ["\n", l] : [l])).filter(Boolean); return this.$it(a); }
  iterRange(f, t = this.length) { return this.$it([this.sliceString(f, t)]); }
  $it(a) { let i = -1; return { value: "", done: false, next() { i++; this.done = i >= a.length; this.value = this.done ? "" : a[i]; return this; }, [Symbol.iterator]: () => a[Symbol.iterator]() }; }
  sliceString(f, t = this.length, sep = "\n") { f = Math.max(0, f); t = Math.min(this.length, t); return this.$l.join("\n").slice(f, Math.max(f, t)).split("\n").join(sep); }
  slice(f, t) { return new Text(this.sliceString(f, t).split("\n")); }
  replace(f, t, x) { const s = this.toString(); return new Text((s.slice(0, f) + x.toString() + s.slice(t)).split("\n")); }
  append(x) { return this.replace(this.length, this.length, x); }
  toString() { return this.$l.join("\n"); }
  toJSON() { return [...this.$l]; }
  eq(o) { return this.toString() === o.toString(); }
}
Text.empty = new Text([""]);
const split = d => (d instanceof Text ? d : new Text(String(d ?? "").split(/\r\n?|\n/)));

class ChangeSet {
  constructor(list, len) { this.list = [...list].sort((a, b) => a.from - b.from); this.length = len; }
  get empty() { return this.list.every(c => c.from === c.to && !c.insert.length); }
  get newLength() { return this.list.reduce((n, c) => n - (c.to - c.from) + c.insert.length, this.length); }
  apply(doc) { let s = doc.toString(); for (const c of [...this.list].reverse()) s = s.slice(0, c.from) + c.insert + s.slice(c.to); return split(s); }
  mapPos(p, assoc = -1) {
    let d = 0;
    for (const c of this.list) {
      if (p < c.from || (p === c.from && c.from === c.to && assoc < 0)) break;
      if (p > c.to || (p === c.to && c.to > c.from) || (p === c.from && c.from === c.to)) { d += c.insert.length - (c.to - c.from); continue; }
      if (p === c.from) break;
      return c.from + d + (assoc > 0 ? c.insert.length : 0);
    }
    return p + d;
  }
  iterChanges(f) { let d = 0; for (const c of this.list) { f(c.from, c.to, c.from + d, c.from + d + c.insert.length, split(c.insert)); d += c.insert.length - (c.to - c.from); } }
  touchesRange(f, t = f) { return this.list.some(c => c.from <= t && c.to >= f); }
}

class Range { constructor(from, to, value) { this.from = from; this.to = to; this.value = value; } static create(f, t, v) { return new Range(f, t, v); } }
class RangeValue { constructor() { this.startSide ??= 0; this.endSide ??= 0; } eq(o) { return this === o; } range(from, to = from) { return new Range(from, to, this); } }
const cmp = (a, b) => a.from - b.from || a.value.startSide - b.value.startSide;
class RangeSet {
  constructor(r) { this.$r = r; this.size = r.length; }
  static of(ranges, sort = false) {
    let a = ranges instanceof Range ? [ranges] : [...ranges];
    if (sort) a = a.map((r, i) => [r, i]).sort(([x, i], [y, j]) => cmp(x, y) || i - j).map(([r]) => r);
    for (let i = 1; i < a.length; i++) if (cmp(a[i - 1], a[i]) > 0) throw new Error("Ranges must be added sorted by `from` position and `startSide`");
    return a.length ? new RangeSet(a) : RangeSet.empty;
  }
  update({ add = [], sort = false, filter, filterFrom = 0, filterTo = Infinity } = {}) {
    const keep = filter ? this.$r.filter(r => r.to < filterFrom || r.from > filterTo || filter(r.from, r.to, r.value)) : this.$r;
    return RangeSet.of([...keep, ...RangeSet.of(add, sort).$r], true);
  }
  map(ch) {
    if (!ch.list || ch.empty) return this;
    return RangeSet.of(this.$r.map(r => { const f = ch.mapPos(r.from, r.value.startSide || (r.to > r.from ? 1 : -1)), t = r.to > r.from ? ch.mapPos(r.to, -1) : f; return f > t || (r.to > r.from && f >= t) || (ch.list.some(c => c.from < r.from && c.to > r.to)) ? null : new Range(f, t, r.value); }).filter(Boolean), true);
  }
  between(f, t, fn) { for (const r of this.$r) if (r.to >= f && r.from <= t && fn(r.from, r.to, r.value) === false) return; }
  iter(from = 0) { const a = this.$r.filter(r => r.to >= from); let i = 0; const c = { get value() { return a[i]?.value ?? null; }, get from() { return a[i]?.from ?? 1e9; }, get to() { return a[i]?.to ?? 1e9; }, next() { i++; } }; return c; }
  static join(s) { return RangeSet.of(s.flatMap(x => x.$r), true); }
  static eq(a, b) { const x = a.flatMap(s => s.$r), y = b.flatMap(s => s.$r); return x.length === y.length && x.every((r, i) => r.from === y[i].from && r.to === y[i].to && (r.value === y[i].value || r.value.eq(y[i].value))); }
}
RangeSet.empty = new RangeSet([]);
class RangeSetBuilder { constructor() { this.a = []; } add(f, t, v) { this.a.push(new Range(f, t, v)); } finish() { return RangeSet.of(this.a); } }

class WidgetType {
  eq() { return false; }
  updateDOM() { return false; }
  compare(o) { return this === o || (this.constructor === o.constructor && this.eq(o)); }
  get estimatedHeight() { return -1; }
  get lineBreaks() { return 0; }
  ignoreEvent() { return true; }
  coordsAt() { return null; }
  destroy() {}
}
class Decoration extends RangeValue {
  constructor(kind, spec, ss, es) { super(); this.kind = kind; this.spec = spec; this.widget = spec.widget ?? null; this.startSide = ss; this.endSide = es; }
  static widget(s) { const side = Math.max(-10000, Math.min(10000, s.side || 0)) + (s.block ? (s.side > 0 ? 3e8 : -4e8) : s.side > 0 ? 1e8 : -1e8); return new Decoration("widget", s, side, side); }
  static mark(s) { return new Decoration("mark", s, s.inclusiveStart ?? s.inclusive ? -1 : 5e8, s.inclusiveEnd ?? s.inclusive ? 1 : -6e8); }
  static line(s) { return new Decoration("line", s, -2e8, -2e8); }
  static replace(s) { return new Decoration("replace", s, 4e8, -5e8); }
  static set(of, sort) { return RangeSet.of(of, sort); }
  hasHeight() { return false; }
  eq(o) { return this === o || (o instanceof Decoration && this.kind === o.kind && (this.kind === "widget" ? this.startSide === o.startSide && (this.widget === o.widget || this.widget.compare(o.widget)) : JSON.stringify(this.spec) === JSON.stringify(o.spec))); }
  range(from, to = from) {
    if (this.kind === "mark" && from >= to) throw new RangeError("Mark decorations may not be empty");
    if ((this.kind === "line" || this.kind === "widget") && to !== from) throw new RangeError("Widget and line decorations can only have zero length");
    if (!(from >= 0)) throw new RangeError(`Invalid position ${from}`);
    return new Range(from, to, this);
  }
}
Decoration.none = RangeSet.empty;

class Facet {
  constructor(c = {}) { this.c = c; this.extension = any; }
  static define(c) { return new Facet(c); }
  of(value) { return { facet: this, get: () => value }; }
  compute(_, f) { return { facet: this, get: f }; }
  computeN(_, f) { return { facet: this, getN: f }; }
  from(field, get = x => x) { return { facet: this, get: st => get(st.field(field)) }; }
  get reader() { return this; }
}
class StateField {
  constructor(c) { this.c = c; }
  static define(c) { return new StateField(c); }
  init(create) { return { field: this, create }; }
  get extension() { return this; }
}
class StateEffect {
  constructor(type, value) { this.type = type; this.value = value; }
  is(t) { return this.type === t; }
  map(ch) { const v = this.type.map(this.value, ch); return v === undefined ? undefined : v === this.value ? this : new StateEffect(this.type, v); }
  static define(s = {}) { const t = { map: s.map ?? (v => v), of: v => new StateEffect(t, v) }; return t; }
  static mapEffects(es, ch) { return es.map(e => e.map(ch)).filter(Boolean); }
}
StateEffect.appendConfig = StateEffect.define();
StateEffect.reconfigure = StateEffect.define();
const compEffect = StateEffect.define();
class Compartment {
  of(ext) { return { $comp: this, ext }; }
  reconfigure(ext) { return compEffect.of({ comp: this, ext }); }
  get(state) { return state.$comps.get(this); }
}
class Annotation { constructor(type, value) { this.type = type; this.value = value; } static define() { const t = { of: v => new Annotation(t, v) }; return t; } }
class EditorSelection {
  static single(anchor, head = anchor) { const r = { anchor, head, from: Math.min(anchor, head), to: Math.max(anchor, head), empty: anchor === head }; return { main: r, ranges: [r], mainIndex: 0, map: ch => EditorSelection.single(ch.mapPos(anchor), ch.mapPos(head)) }; }
  static cursor(p) { return EditorSelection.single(p).main; }
  static range(a, h) { return EditorSelection.single(a, h).main; }
}
class Transaction {
  constructor(start, spec) {
    this.startState = start;
    const cs = flatten(spec.changes);
    this.changes = spec.changes instanceof ChangeSet ? spec.changes : start.changes(cs);
    this.docChanged = !this.changes.empty;
    this.newDoc = this.docChanged ? this.changes.apply(start.doc) : start.doc;
    this.effects = flatten(spec.effects);
    this.annotations = flatten(spec.annotations);
    this.selection = spec.selection;
    this.newSelection = spec.selection ? EditorSelection.single(spec.selection.anchor ?? spec.selection.main.anchor, spec.selection.head ?? spec.selection.main?.head) : start.selection.map(this.changes);
    for (const e of this.effects) if (!(e instanceof StateEffect)) throw new TypeError("not a state effect");
  }
  get state() { return (this.$s ??= this.startState.$next(this)); }
  get reconfigured() { return this.effects.some(e => e.is(compEffect) || e.is(StateEffect.appendConfig) || e.is(StateEffect.reconfigure)); }
  annotation(t) { return this.annotations.find(a => a.type === t)?.value; }
  isUserEvent() { return false; }
}
Transaction.userEvent = Annotation.define(); Transaction.addToHistory = Annotation.define(); Transaction.remote = Annotation.define(); Transaction.time = Annotation.define();
const flatten = x => (x === undefined || x === null ? [] : Array.isArray(x) ? x : [x]);

class EditorState {
  static create(c = {}) {
    const s = new EditorState();
    s.doc = split(c.doc);
    s.selection = EditorSelection.single(c.selection?.anchor ?? 0, c.selection?.head ?? c.selection?.anchor ?? 0);
    s.$ext = c.extensions ?? [];
    s.$setup(new Map(), new Map(), null);
    return s;
  }
  $setup(over, values, tr) {
    this.$over = over;
    this.$comps = new Map();
    const walk = e => (Array.isArray(e) ? e.flatMap(walk) : !e || e === any || typeof e === "function" ? [] : e.$comp ? (this.$comps.set(e.$comp, over.has(e.$comp) ? over.get(e.$comp) : e.ext), walk(this.$comps.get(e.$comp))) : e.$prec ? walk(e.$prec) : e instanceof StateField ? [e, ...walk(e.c.provide?.(e))] : e.facet || e.field ? [e] : e === any || typeof e === "function" ? [] : e.extension && e.extension !== e ? walk(e.extension) : []);
    this.$flat = [...new Set(walk(this.$ext))];
    this.$values = new Map();
    for (const e of this.$flat) {
      const f = e instanceof StateField ? e : e.field;
      if (!f || this.$values.has(f)) continue;
      if (tr && values.has(f)) {
        // fields are brought up to date when they are first read, the others see the old ones only through the transaction
        this.$values.set(f, { pending: true, tr, old: values.get(f) });
      } else this.$values.set(f, { v: (e.create ?? f.c.create)(this) });
    }
    for (const f of this.$values.keys()) this.field(f);
  }
  field(f, req = true) {
    const b = this.$values.get(f);
    if (!b) { if (req === false) return undefined; throw new RangeError("Field is not present in this state"); }
    if (b.pending) { b.pending = false; b.v = b.old; const n = f.c.update(b.old, b.tr); b.v = n; }
    return b.v;
  }
  $facetValues(fc) { return this.$flat.filter(e => e.facet === fc).flatMap(e => (e.getN ? e.getN(this) : [e.get(this)])); }
  facet(fc) { const v = fc instanceof Facet ? this.$facetValues(fc) : []; return fc.c?.combine ? fc.c.combine(v) : v; }
  get readOnly() { return this.facet(EditorState.readOnly); }
  get tabSize() { return 4; }
  get lineBreak() { return "\n"; }
  sliceDoc(f = 0, t = this.doc.length) { return this.doc.sliceString(f, t); }
  toText(s) { return split(s); }
  changes(cs) {
    return new ChangeSet(flatten(cs).map(c => {
      const from = c.from, to = c.to ?? c.from;
      if (!(from >= 0 && to >= from && to <= this.doc.length)) throw new RangeError(`Invalid change range ${from} to ${to} (in doc of length ${this.doc.length})`);
      return { from, to, insert: c.insert instanceof Text ? c.insert.toString() : String(c.insert ?? "").split(/\r\n?|\n/).join("\n") };
    }), this.doc.length);
  }
  update(...specs) {
    const spec = specs.length === 1 ? specs[0] : { changes: specs.flatMap(s => flatten(s.changes)), effects: specs.flatMap(s => flatten(s.effects)), annotations: specs.flatMap(s => flatten(s.annotations)), selection: specs.map(s => s.selection).filter(Boolean)[0] };
    return new Transaction(this, spec);
  }
  replaceSelection(t) { return { changes: { from: this.selection.main.from, to: this.selection.main.to, insert: t } }; }
  $next(tr) {
    const s = new EditorState();
    tr.$s = s;
    s.doc = tr.newDoc;
    s.selection = tr.newSelection;
    s.$ext = this.$ext;
    const over = new Map(this.$over);
    let fresh = false;
    for (const e of tr.effects) {
      if (e.is(compEffect)) over.set(e.value.comp, e.value.ext);
      if (e.is(StateEffect.appendConfig)) s.$ext = [s.$ext, e.value];
      if (e.is(StateEffect.reconfigure)) { s.$ext = e.value; over.clear(); }
    }
    s.$setup(over, new Map([...this.$values].map(([k, b]) => [k, b.v])), tr);
    return s;
  }
  toJSON() { return { doc: this.doc.toString() }; }
}
EditorState.readOnly = Facet.define({ combine: v => v[0] ?? false });
EditorState.allowMultipleSelections = Facet.define({ combine: v => v.some(Boolean) });
EditorState.tabSize = Facet.define({ combine: v => v[0] ?? 4 });
for (const k of ["changeFilter", "transactionFilter", "transactionExtender", "languageData", "lineSeparator", "phrases"]) EditorState[k] = Facet.define();

class EditorView {
  constructor(c = {}) {
    this.state = c.state ?? EditorState.create(c);
    this.dom = document.createElement("div"); this.dom.className = "cm-editor";
    this.scrollDOM = this.dom.appendChild(document.createElement("div")); this.scrollDOM.className = "cm-scroller";
    this.contentDOM = this.scrollDOM.appendChild(document.createElement("div")); this.contentDOM.className = "cm-content";
    this.dom.$view = this;
    this.$custom = c.dispatch;
    this.$widgets = [];
    this.root = document; this.hasFocus = false; this.inView = true; this.composing = false;
    this.defaultLineHeight = 16; this.defaultCharacterWidth = 8;
    this.$draw();
    if (c.parent) c.parent.appendChild(this.dom);
  }
  get viewport() { return { from: 0, to: this.state.doc.length }; }
  get visibleRanges() { return [this.viewport]; }
  get textDirection() { return 0; }
  dispatch(...input) {
    const tr = input.length === 1 && input[0] instanceof Transaction ? input[0] : input.length === 1 && Array.isArray(input[0]) ? null : this.state.update(...input);
    this.update(tr ? [tr] : input[0]);
  }
  update(trs) {
    if (this.$busy) throw new Error("Calls to EditorView.update are not allowed while an update is in progress");
    const start = this.state;
    if (trs.length && trs[0].startState !== start) throw new RangeError("Trying to update state with a transaction that doesn't start from the previous state.");
    this.state = trs.length ? trs[trs.length - 1].state : start;
    if (this.$dead) return;
    this.$busy = true;
    try { this.$draw(); } finally { this.$busy = false; }
    const upd = { view: this, state: this.state, startState: start, transactions: trs, docChanged: trs.some(t => t.docChanged), changes: trs[0]?.changes ?? new ChangeSet([], start.doc.length), selectionSet: trs.some(t => t.selection), viewportChanged: false, heightChanged: false, geometryChanged: trs.some(t => t.docChanged), focusChanged: false };
    for (const l of this.state.facet(EditorView.updateListener)) try { l(upd); } catch (e) { globalThis.__report(e); }
  }
  setState(s) { this.state = s; this.$widgets = []; this.$draw(); }
  $decos() { return this.state.facet(EditorView.decorations).map(d => (typeof d === "function" ? d(this) : d)); }
  $draw() {
    const doc = this.state.doc, len = doc.length;
    const old = this.$widgets, next = [];
    const marks = [], widgets = [], lines = [];
    this.$decos().forEach((set, prec) => set.$r.forEach(r => {
      if (r.to > len) { globalThis.__report(new RangeError(`a decoration at ${r.from}-${r.to} is outside of the document of length ${len}`)); return; }
      (r.value.kind === "mark" ? marks : r.value.kind === "line" ? lines : widgets).push({ ...r, d: r.value, prec });
    }));
    widgets.sort((a, b) => a.from - b.from || a.d.startSide - b.d.startSide || a.prec - b.prec);
    const out = [];
    for (let n = 1; n <= doc.lines; n++) {
      const L = doc.line(n);
      const div = document.createElement("div");
      div.className = "cm-line";
      for (const l of lines) if (l.from === L.from) { (l.d.spec.class ?? "").split(" ").filter(Boolean).forEach(c => div.classList.add(c)); for (const k in l.d.spec.attributes ?? {}) k === "class" ? div.classList.add(...l.d.spec.attributes[k].split(" ")) : div.setAttribute(k, l.d.spec.attributes[k]); }
      const here = widgets.filter(w => w.from >= L.from && w.from <= L.to && (w.to === w.from || w.from < L.to || w.to === L.to));
      const ms = marks.filter(m => m.from < L.to && m.to > L.from);
      const cuts = [...new Set([L.from, L.to, ...here.flatMap(w => [w.from, w.to]), ...ms.flatMap(m => [m.from, m.to])])].filter(p => p >= L.from && p <= L.to).sort((a, b) => a - b);
      const put = w => {
        const i = old.findIndex(o => !o.used && o.w && o.d.startSide === w.d.startSide && o.w.compare(w.d.widget));
        let dom;
        if (i >= 0) { old[i].used = true; dom = old[i].dom; next.push({ w: w.d.widget, d: w.d, dom }); }
        else { dom = w.d.widget.toDOM(this); dom.$widget = true; next.push({ w: w.d.widget, d: w.d, dom }); }
        let top = dom;
        for (const m of marks.filter(m => m.from < w.from && m.to > w.from)) top = wrap(m, top);
        div.appendChild(top);
      };
      const wrap = (m, inner) => { const e = document.createElement(m.d.spec.tagName ?? "span"); if (m.d.spec.class) e.className = m.d.spec.class; for (const k in m.d.spec.attributes ?? {}) e.setAttribute(k, m.d.spec.attributes[k]); e.appendChild(inner); return e; };
      cuts.forEach((p, i) => {
        for (const w of here) if (w.from === p && w.to === p && w.d.widget) put(w);
        const q = cuts[i + 1];
        if (q === undefined) return;
        if (widgets.some(w => w.to > w.from && w.from <= p && w.to >= q)) { for (const w of widgets) if (w.to > w.from && w.from === p && w.d.widget) put(w); return; }
        let node = document.createTextNode(doc.sliceString(p, q));
        for (const m of ms.filter(m => m.from <= p && m.to >= q)) node = wrap(m, node);
        div.appendChild(node);
      });
      if (!div.hasChildNodes()) div.appendChild(document.createElement("br"));
      out.push(div);
    }
    for (const o of old) if (!o.used) { o.w.destroy?.(o.dom); }
    this.$widgets = next;
    this.contentDOM.replaceChildren(...out);
  }
  destroy() { this.$dead = true; this.dom.remove(); }
  focus() { this.hasFocus = true; }
  coordsAtPos() { return null; } posAtCoords() { return null; } requestMeasure(r) { if (r?.read) { const m = r.read(this); r.write?.(m, this); } }
  lineBlockAt(p) { const l = this.state.doc.lineAt(p); return { from: l.from, to: l.to, length: l.length, top: 0, bottom: 0, height: 0 }; }
  posAtDOM() { return 0; } domAtPos() { return { node: this.contentDOM, offset: 0 }; } plugin() { return null; }
}
EditorView.decorations = Facet.define();
EditorView.updateListener = Facet.define();
EditorView.editable = Facet.define({ combine: v => v[0] ?? true });
for (const k of ["contentAttributes", "editorAttributes", "atomicRanges", "clickAddsSelectionRange", "dragMovesSelection", "exceptionSink", "inputHandler", "mouseSelectionStyle", "perLineTextDirection", "scrollMargins", "darkTheme", "cspNonce"]) EditorView[k] = Facet.define();
EditorView.theme = EditorView.baseTheme = EditorView.domEventHandlers = EditorView.domEventObservers = () => [];
EditorView.lineWrapping = [];
EditorView.scrollIntoView = () => StateEffect.define().of(null);
class ViewPlugin { static define() { return []; } static fromClass() { return []; } }
const Prec = Object.fromEntries(["highest", "high", "default", "low", "lowest"].map(k => [k, e => ({ $prec: e })]));

module.exports = Object.assign(Object.create(any), { Text, ChangeSet, Range, RangeValue, RangeSet, RangeSetBuilder, WidgetType, Decoration, Facet, StateField, StateEffect, Compartment, Annotation, EditorSelection, Transaction, EditorState, EditorView, ViewPlugin, Prec });
