// A small document: elements, text, classes, attributes, selectors, events. Layout is not modelled (all boxes are empty).
const VOID = new Set(["br", "img", "hr", "input"]);

class Node {
  constructor() { this.parentNode = null; this.childNodes = []; this.listeners = {}; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get nextSibling() { const s = this.parentNode?.childNodes; return s ? s[s.indexOf(this) + 1] ?? null : null; }
  get previousSibling() { const s = this.parentNode?.childNodes; return s ? s[s.indexOf(this) - 1] ?? null : null; }
  get children() { return this.childNodes.filter(c => c instanceof Element); }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { return this.children[this.children.length - 1] ?? null; }
  get nextElementSibling() { let n = this.nextSibling; while (n && !(n instanceof Element)) n = n.nextSibling; return n; }
  get previousElementSibling() { let n = this.previousSibling; while (n && !(n instanceof Element)) n = n.previousSibling; return n; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === globalThis.document; }
  get ownerDocument() { return globalThis.document; }
  appendChild(c) { return this.insertBefore(c, null); }
  insertBefore(c, ref) {
    if (c === ref) return c;
    if (c.contains?.(this)) throw new Error("HierarchyRequestError");
    if (c.isFragment) { for (const k of [...c.childNodes]) this.insertBefore(k, ref); return c; }
    c.parentNode?.removeChild(c);
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    if (i < 0) throw new Error("NotFoundError");
    this.childNodes.splice(i, 0, c);
    c.parentNode = this;
    return c;
  }
  removeChild(c) {
    const i = this.childNodes.indexOf(c);
    if (i < 0) throw new Error("NotFoundError: the node to be removed is not a child of this node");
    this.childNodes.splice(i, 1);
    c.parentNode = null;
    return c;
  }
  replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
  append(...cs) { for (const c of cs) this.appendChild(wrap(c)); }
  prepend(...cs) { const f = this.firstChild; for (const c of cs) this.insertBefore(wrap(c), f); }
  before(...cs) { for (const c of cs) this.parentNode.insertBefore(wrap(c), this); }
  after(...cs) { const n = this.nextSibling; for (const c of cs) this.parentNode.insertBefore(wrap(c), n); }
  replaceWith(...cs) { this.before(...cs); this.remove(); }
  replaceChildren(...cs) { for (const c of [...this.childNodes]) this.removeChild(c); this.append(...cs); }
  remove() { this.parentNode?.removeChild(this); }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  get textContent() { return this.childNodes.map(c => c.textContent).join(""); }
  set textContent(t) { this.replaceChildren(); if (t !== "" && t != null) this.appendChild(new TextNode(String(t))); }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  addEventListener(k, f, o) { (this.listeners[k] ??= []).push({ f, capture: o === true || !!o?.capture, once: !!o?.once }); }
  removeEventListener(k, f) { this.listeners[k] = (this.listeners[k] ?? []).filter(l => l.f !== f); }
  dispatchEvent(e) {
    e.target ??= this;
    const path = [];
    for (let n = this; n; n = n.parentNode) path.push(n);
    path.push(globalThis);
    e.composedPath = () => path;
    const call = (n, capture) => {
      e.currentTarget = n;
      for (const l of [...((n === globalThis ? globalThis.__listeners : n.listeners)[e.type] ?? [])])
        if (l.capture === capture && !e.stopped) {
          if (l.once) n.removeEventListener(e.type, l.f);
          try { typeof l.f === "function" ? l.f.call(n, e) : l.f.handleEvent(e); } catch (x) { globalThis.__report(x); }
        }
    };
    for (const n of [...path].reverse()) call(n, true);
    for (const n of e.bubbles ? path : [this]) call(n, false);
    return !e.defaultPrevented;
  }
  querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
  querySelectorAll(s) { const sel = parseSelector(s); return list(descendants(this).filter(e => sel.some(c => matchComplex(e, c, this)))); }
  getElementsByTagName(t) { t = String(t).toLowerCase(); return list(descendants(this).filter(e => t === "*" || e.localName === t)); }
  getElementsByClassName(c) { const cs = c.trim().split(/\s+/); return list(descendants(this).filter(e => cs.every(x => e.classList.contains(x)))); }
}

const list = a => { a.item = i => a[i] ?? null; return a; };
const wrap = c => (c instanceof Node ? c : new TextNode(String(c)));
const descendants = n => { const out = []; const go = x => { for (const c of x.childNodes) if (c instanceof Element) { out.push(c); go(c); } }; go(n); return out; };

class TextNode extends Node {
  constructor(t) { super(); this.data = t; this.nodeType = 3; this.nodeName = "#text"; }
  get textContent() { return this.data; }
  set textContent(t) { this.data = t; }
  get nodeValue() { return this.data; }
  set nodeValue(t) { this.data = t; }
}

class Comment extends TextNode { constructor(t) { super(t); this.nodeType = 8; this.nodeName = "#comment"; } get textContent() { return ""; } }

class ClassList {
  constructor(e) { this.e = e; }
  get all() { return (this.e.attrs.class ?? "").split(/\s+/).filter(Boolean); }
  set all(a) { this.e.attrs.class = a.join(" "); }
  static check(c) { if (c === "" || /\s/.test(c)) throw new Error(`InvalidCharacterError: class ${JSON.stringify(c)}`); return c; }
  add(...cs) { this.all = [...new Set([...this.all, ...cs.map(c => ClassList.check(String(c)))])]; }
  remove(...cs) { cs.forEach(c => ClassList.check(String(c))); this.all = this.all.filter(c => !cs.includes(c)); }
  contains(c) { return this.all.includes(c); }
  toggle(c, force) { const on = force ?? !this.contains(c); on ? this.add(c) : this.remove(c); return on; }
  replace(a, b) { if (!this.contains(a)) return false; this.all = this.all.map(c => (c === a ? b : c)); return true; }
  get length() { return this.all.length; }
  item(i) { return this.all[i] ?? null; }
  forEach(f) { this.all.forEach(f); }
  [Symbol.iterator]() { return this.all[Symbol.iterator](); }
  get value() { return this.e.className; }
  toString() { return this.e.className; }
}

const kebab = s => s.replace(/[A-Z]/g, c => "-" + c.toLowerCase());

function styleOf() {
  const o = {};
  Object.defineProperty(o, "setProperty", { value: (k, v) => { o[k] = v; } });
  Object.defineProperty(o, "removeProperty", { value: k => { delete o[k]; } });
  Object.defineProperty(o, "getPropertyValue", { value: k => o[k] ?? "" });
  return o;
}

class Element extends Node {
  constructor(tag, ns) {
    super();
    this.nodeType = 1; this.localName = ns ? tag : tag.toLowerCase(); this.tagName = this.nodeName = ns ? tag : tag.toUpperCase(); this.namespaceURI = ns ?? "http://www.w3.org/1999/xhtml";
    this.attrs = {}; this.classList = new ClassList(this); this.style = styleOf();
    const el = this;
    this.dataset = new Proxy({}, {
      get: (_, k) => (typeof k === "string" ? el.attrs["data-" + kebab(k)] : undefined),
      set: (_, k, v) => { el.attrs["data-" + kebab(k)] = String(v); return true; },
      has: (_, k) => "data-" + kebab(k) in el.attrs,
      deleteProperty: (_, k) => { delete el.attrs["data-" + kebab(k)]; return true; },
      ownKeys: () => Object.keys(el.attrs).filter(k => k.startsWith("data-")).map(k => k.slice(5).replace(/-([a-z])/g, (_, c) => c.toUpperCase())),
      getOwnPropertyDescriptor: (_, k) => ({ enumerable: true, configurable: true, value: el.attrs["data-" + kebab(k)] })
    });
    this.scrollLeft = this.scrollTop = this.offsetTop = this.offsetHeight = this.clientWidth = this.clientHeight = this.scrollWidth = this.scrollHeight = 0;
    this.checked = false; this.disabled = false; this.value = "";
  }
  get className() { return this.attrs.class ?? ""; }
  set className(c) { this.attrs.class = String(c); }
  get id() { return this.attrs.id ?? ""; }
  set id(c) { this.attrs.id = String(c); }
  get title() { return this.attrs.title ?? ""; }
  set title(c) { this.attrs.title = String(c); }
  get type() { return this.attrs.type ?? ""; }
  set type(c) { this.attrs.type = String(c); }
  getAttribute(k) { return this.attrs[k.toLowerCase()] ?? null; }
  setAttribute(k, v) { this.attrs[k.toLowerCase()] = String(v); }
  removeAttribute(k) { delete this.attrs[k.toLowerCase()]; }
  hasAttribute(k) { return k.toLowerCase() in this.attrs; }
  toggleAttribute(k, f) { const on = f ?? !this.hasAttribute(k); on ? this.setAttribute(k, "") : this.removeAttribute(k); return on; }
  get attributes() { return Object.entries(this.attrs).map(([name, value]) => ({ name, value })); }
  matches(s) { return parseSelector(s).some(c => matchComplex(this, c, this)); }
  closest(s) { for (let n = this; n instanceof Element; n = n.parentNode) if (n.matches(s)) return n; return null; }
  // the layout: siblings stand side by side, each ten wide
  get offsetLeft() { return 10 * Math.max(0, this.parentNode ? [...this.parentNode.children].indexOf(this) : 0); }
  get offsetWidth() { return 10; }
  getBoundingClientRect() { return { left: 0, top: 0, right: 0, bottom: 0, width: 0, height: 0, x: 0, y: 0 }; }
  getClientRects() { return [this.getBoundingClientRect()]; }
  get innerHTML() { return this.childNodes.map(html).join(""); }
  set innerHTML(s) { this.replaceChildren(); parseHTML(s, this); }
  get outerHTML() { return html(this); }
  insertAdjacentElement(p, e) { p === "beforebegin" ? this.before(e) : p === "afterbegin" ? this.prepend(e) : p === "beforeend" ? this.append(e) : this.after(e); return e; }
  insertAdjacentHTML(p, s) { const f = new Element("div"); parseHTML(s, f); for (const c of p === "afterbegin" || p === "afterend" ? [...f.childNodes].reverse() : [...f.childNodes]) this.insertAdjacentElement(p, c); }
  cloneNode(deep) { const e = new Element(this.localName); Object.assign(e.attrs, this.attrs); Object.assign(e.style, this.style); if (deep) for (const c of this.childNodes) e.append(c instanceof Element ? c.cloneNode(true) : new TextNode(c.data)); return e; }
  focus() {} blur() {} scrollIntoView() {}
  click() { this.dispatchEvent({ type: "click", bubbles: true, preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; }, stopImmediatePropagation() { this.stopped = true; } }); }
}
// Elements made by React and CodeMirror are tested with these names
class HTMLElement extends Element {}

const esc = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
function html(n) {
  if (!(n instanceof Element)) return n.nodeType === 8 ? "" : esc(n.data);
  const at = Object.entries(n.attrs).map(([k, v]) => ` ${k}="${esc(v)}"`).join("");
  return `<${n.localName}${at}>` + (VOID.has(n.localName) ? "" : n.innerHTML + `</${n.localName}>`);
}
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const unesc = s => s.replace(/&(?:#x([0-9a-fA-F]+)|#(\d+)|(\w+));/g, (m, h, d, n) => (h ? String.fromCodePoint(parseInt(h, 16)) : d ? String.fromCodePoint(+d) : ENT[n] ?? m));
function parseHTML(s, root) {
  let cur = root;
  const re = /<!--[^]*?-->|<\/([\w-]+)\s*>|<([\w-]+)((?:\s+[\w:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|([^<]+|<)/g;
  for (let m; (m = re.exec(s)); ) {
    if (m[1]) { let n = cur; while (n !== root && n.localName !== m[1].toLowerCase()) n = n.parentNode; if (n !== root) cur = n.parentNode; }
    else if (m[2]) {
      const e = new HTMLElement(m[2]);
      for (const a of m[3].matchAll(/([\w:-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e.attrs[a[1].toLowerCase()] = unesc(a[2] ?? a[3] ?? a[4] ?? "");
      cur.appendChild(e);
      if (!m[4] && !VOID.has(e.localName)) cur = e;
    } else if (m[5]) cur.appendChild(new TextNode(unesc(m[5])));
  }
}

// Selectors: lists of complex selectors of compounds with tag, #id, .class, [attr op value], :scope, :not(), :first-child, :last-child, :nth-child(n)
const cache = new Map();
function parseSelector(s) {
  if (cache.has(s)) return cache.get(s);
  let i = 0;
  const ident = () => {
    let out = "";
    for (; i < s.length; ) {
      if (s[i] === "\\") {
        const h = /^\\([0-9a-fA-F]{1,6})\s?/.exec(s.slice(i));
        if (h) { out += String.fromCodePoint(parseInt(h[1], 16)); i += h[0].length; }
        else { const c = String.fromCodePoint(s.codePointAt(i + 1)); out += c; i += 1 + c.length; }
      } else if (/[\w-]/.test(s[i]) || s.charCodeAt(i) > 127) out += s[i++];
      else break;
    }
    if (!out) throw new Error(`SyntaxError: not a valid selector: ${s}`);
    return out;
  };
  const compound = () => {
    const tests = [];
    for (;;) {
      const c = s[i];
      if (c === "*") { i++; tests.push(() => true); }
      else if (c === ".") { i++; const n = ident(); tests.push(e => e.classList.contains(n)); }
      else if (c === "#") { i++; const n = ident(); tests.push(e => e.id === n); }
      else if (c === "[") {
        const m = /^\[\s*([\w:-]+)\s*(?:([~|^$*]?=)\s*(?:"([^"]*)"|'([^']*)'|([\w-]+))\s*)?\]/.exec(s.slice(i));
        if (!m) throw new Error(`SyntaxError: not a valid selector: ${s}`);
        i += m[0].length;
        const v = m[3] ?? m[4] ?? m[5];
        tests.push(e => { const a = e.getAttribute(m[1]); return a !== null && (!m[2] || (m[2] === "=" ? a === v : m[2] === "^=" ? a.startsWith(v) : m[2] === "$=" ? a.endsWith(v) : m[2] === "*=" ? a.includes(v) : a.split(/\s+/).includes(v))); });
      } else if (c === ":") {
        const m = /^::?([\w-]+)(?:\(([^)]*)\))?/.exec(s.slice(i));
        i += m[0].length;
        if (m[1] === "scope") tests.push((e, sc) => e === sc);
        else if (m[1] === "not") { const sub = parseSelector(m[2]); tests.push((e, sc) => !sub.some(x => matchComplex(e, x, sc))); }
        else if (m[1] === "first-child") tests.push(e => !e.previousElementSibling);
        else if (m[1] === "last-child") tests.push(e => !e.nextElementSibling);
        else if (m[1] === "nth-child") tests.push(e => e.parentNode.children.indexOf(e) + 1 === +m[2]);
        else throw new Error(`SyntaxError: selector ${s}`);
      } else if (c !== undefined && (/[\w\\-]/.test(c) || c.charCodeAt(0) > 127)) { const n = ident().toLowerCase(); tests.push(e => e.localName.toLowerCase() === n); }
      else break;
    }
    if (!tests.length) throw new Error(`SyntaxError: not a valid selector: ${s}`);
    return tests;
  };
  const out = [];
  const ws = () => { while (/\s/.test(s[i] ?? "")) i++; };
  for (;;) {
    ws();
    const parts = [{ comb: null, tests: compound() }];
    for (;;) {
      const sp = /\s/.test(s[i] ?? "");
      ws();
      if (i >= s.length || s[i] === ",") break;
      let comb = " ";
      if (">+~".includes(s[i])) { comb = s[i++]; ws(); } else if (!sp) throw new Error(`SyntaxError: not a valid selector: ${s}`);
      parts.push({ comb, tests: compound() });
    }
    out.push(parts);
    if (s[i] !== ",") break;
    i++;
  }
  cache.set(s, out);
  return out;
}
function matchComplex(e, parts, scope, k = parts.length - 1) {
  if (!parts[k].tests.every(t => t(e, scope))) return false;
  if (k === 0) return true;
  const c = parts[k].comb;
  if (c === ">") return e.parentNode instanceof Element && matchComplex(e.parentNode, parts, scope, k - 1);
  if (c === "+") return !!e.previousElementSibling && matchComplex(e.previousElementSibling, parts, scope, k - 1);
  if (c === "~") { for (let n = e.previousElementSibling; n; n = n.previousElementSibling) if (matchComplex(n, parts, scope, k - 1)) return true; return false; }
  for (let n = e.parentNode; n instanceof Element; n = n.parentNode) if (matchComplex(n, parts, scope, k - 1)) return true;
  return false;
}

class Document extends Node {
  constructor() {
    super();
    this.nodeType = 9; this.nodeName = "#document";
    this.documentElement = this.appendChild(new HTMLElement("html"));
    this.head = this.documentElement.appendChild(new HTMLElement("head"));
    this.body = this.documentElement.appendChild(new HTMLElement("body"));
    this.activeElement = this.body;
  }
  createElement(t) { if (!/^[A-Za-z][\w.-]*$/.test(t)) throw new Error(`InvalidCharacterError: tag ${t}`); return new HTMLElement(t); }
  createElementNS(ns, t) { return new Element(t, ns); }
  createTextNode(t) { return new TextNode(t); }
  createComment(t) { return new Comment(t); }
  createDocumentFragment() { const f = new Element("fragment"); f.isFragment = true; return f; }
  getElementById(i) { return descendants(this).find(e => e.id === i) ?? null; }
}

globalThis.window = globalThis.self = globalThis;
globalThis.__listeners = {};
globalThis.__errors = [];
globalThis.__report = e => { globalThis.__errors.push(String(e?.stack ?? e)); };
globalThis.addEventListener = Node.prototype.addEventListener.bind({ listeners: globalThis.__listeners });
globalThis.removeEventListener = (k, f) => { globalThis.__listeners[k] = (globalThis.__listeners[k] ?? []).filter(l => l.f !== f); };
globalThis.scrollX = globalThis.scrollY = globalThis.pageXOffset = globalThis.pageYOffset = 0;
globalThis.innerWidth = globalThis.innerHeight = 1000;
globalThis.document = new Document();
Object.assign(globalThis, { Node, Element, HTMLElement, Document, HTMLDocument: Document, Text: TextNode, Comment, SVGElement: Element, EventTarget: Node });
for (const k of ["Div", "Input", "Button", "Span", "Pre", "Table", "TableRow", "TableCell", "TableSection", "Anchor", "Label", "Paragraph", "Image", "Script", "Style", "Body", "Head", "Html", "UList", "OList", "LI", "Canvas", "TextArea", "Select", "Form"]) globalThis[`HTML${k}Element`] = HTMLElement;
Object.assign(Node, { ELEMENT_NODE: 1, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9 });
class Event { constructor(type, o = {}) { this.type = type; this.bubbles = !!o.bubbles; this.cancelable = !!o.cancelable; Object.assign(this, o.detail === undefined ? {} : { detail: o.detail }); for (const k in o) this[k] ??= o[k]; } preventDefault() { this.defaultPrevented = true; } stopPropagation() { this.stopped = true; } stopImmediatePropagation() { this.stopped = true; } }
for (const k of ["Event", "CustomEvent", "MouseEvent", "PointerEvent", "KeyboardEvent", "InputEvent", "FocusEvent", "UIEvent"]) globalThis[k] = Event;
const storage = () => { const m = new Map(); return { getItem: k => m.get(String(k)) ?? null, setItem: (k, v) => { m.set(String(k), String(v)); }, removeItem: k => { m.delete(String(k)); }, clear: () => m.clear(), get length() { return m.size; } }; };
globalThis.localStorage = storage(); globalThis.sessionStorage = storage();
globalThis.location = { href: "http://localhost/", origin: "http://localhost", protocol: "http:", host: "localhost", hostname: "localhost", pathname: "/", search: "", hash: "" };
globalThis.matchMedia = () => ({ matches: false, addEventListener() {}, removeEventListener() {}, addListener() {}, removeListener() {} });
globalThis.queueMicrotask ??= f => { Promise.resolve().then(f).catch(e => globalThis.__report(e)); };
globalThis.performance ??= { now: () => now, mark() {}, measure() {} };
globalThis.devicePixelRatio = 1;
globalThis.scrollTo = globalThis.scrollBy = () => {};
globalThis.getComputedStyle = e => e.style;
globalThis.CSS = { escape: s => String(s).replace(/[^\w\u0080-\uffff-]/g, c => "\\" + c).replace(/^(-?)(\d)/, (_, d, n) => `${d}\\3${n} `) };
globalThis.MutationObserver = globalThis.ResizeObserver = globalThis.IntersectionObserver = class { observe() {} unobserve() {} disconnect() {} };
globalThis.FormData = class { get() { return ""; } };

// Time passes only when the driver says so
let now = 0, ids = 1;
const timers = new Map();
globalThis.setTimeout = (f, ms = 0, ...a) => { timers.set(ids, { at: now + (+ms || 0), f, a }); return ids++; };
globalThis.setInterval = (f, ms = 0, ...a) => { timers.set(ids, { at: now + (+ms || 0), f, a, every: Math.max(1, +ms || 0) }); return ids++; };
globalThis.clearTimeout = globalThis.clearInterval = i => { timers.delete(i); };
globalThis.requestAnimationFrame = f => globalThis.setTimeout(() => f(now), 16);
globalThis.cancelAnimationFrame = i => { timers.delete(i); };
globalThis.requestIdleCallback = f => globalThis.setTimeout(() => f({ timeRemaining: () => 10 }), 1);
export async function pass(ms) {
  const end = now + ms;
  await settle();
  for (let n = 0; n < 1000; n++) {
    const due = [...timers].filter(([, t]) => t.at <= end).sort((a, b) => a[1].at - b[1].at || a[0] - b[0])[0];
    if (!due) break;
    const [id, t] = due;
    now = Math.max(now, t.at);
    if (t.every) t.at = now + t.every; else timers.delete(id);
    try { t.f(...t.a); } catch (e) { globalThis.__report(e); }
    await settle();
  }
  now = end;
}
export async function settle() { for (let i = 0; i < 30; i++) await null; }
export function fire(el, type, opts = {}) {
  const e = { type, bubbles: true, timeStamp: now, preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; }, stopImmediatePropagation() { this.stopped = true; }, ...opts };
  el.dispatchEvent(e);
}
