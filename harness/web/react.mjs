// A small React: function components, hooks, context, keys, fragments, refs, events by delegation.
export const Fragment = Symbol("Fragment");
export const StrictMode = Fragment, Suspense = Fragment;
export function createElement(type, props, ...children) {
  const { key = null, ref = null, ...rest } = props ?? {};
  if (children.length) rest.children = children.length === 1 ? children[0] : children;
  if (type?.defaultProps) for (const k in type.defaultProps) if (rest[k] === undefined) rest[k] = type.defaultProps[k];
  return { $el: true, type, key: key === null ? null : String(key), ref, props: rest };
}
export const jsx = (type, props, key) => { const { ref = null, ...rest } = props ?? {}; return { $el: true, type, key: key === undefined ? null : String(key), ref, props: rest }; };
export const jsxs = jsx, jsxDEV = jsx;
export const isValidElement = e => !!e?.$el;
export const cloneElement = (e, p, ...c) => createElement(e.type, { ...e.props, key: e.key, ref: e.ref, ...p }, ...(c.length ? c : []));
export const createRef = () => ({ current: null });
export const forwardRef = f => { const g = p => f(p, p.$ref); g.forward = true; return g; };
export const memo = f => f;
export const createContext = def => { const c = { def }; c.Provider = p => p.children; c.Provider.context = c; c.Consumer = p => p.children(useContext(c)); return c; };
export const Children = { toArray: c => flat(c), map: (c, f) => flat(c).map(f), forEach: (c, f) => flat(c).forEach(f), count: c => flat(c).length, only: c => c };
export class Component {}
const flat = c => (Array.isArray(c) ? c.flatMap(flat) : c === null || c === undefined || typeof c === "boolean" ? [] : [c]);

let cur = null;
const hook = make => { const h = cur.hooks; if (cur.at === h.length) h.push(make()); return h[cur.at++]; };
export function useReducer(red, init, f) {
  const inst = cur;
  const h = hook(() => { const s = { v: f ? f(init) : init }; s.set = a => { const n = s.red(s.v, a); if (!Object.is(n, s.v)) { s.v = n; schedule(inst.root); } }; return s; });
  h.red = red;
  return [h.v, h.set];
}
export const useState = init => useReducer((s, a) => (typeof a === "function" ? a(s) : a), undefined, () => (typeof init === "function" ? init() : init));
export const useRef = v => hook(() => ({ current: v }));
const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
export const useMemo = (f, deps) => { const h = hook(() => ({})); if (!("v" in h) || changed(h.deps, deps)) { h.v = f(); h.deps = deps; } return h.v; };
export const useCallback = (f, deps) => useMemo(() => f, deps);
const effect = layout => (f, deps) => { const inst = cur; const h = hook(() => ({ effect: true })); if (!h.ran || changed(h.deps, deps)) { h.ran = true; h.deps = deps; (layout ? inst.root.layout : inst.root.effects).push({ inst, h, f }); } };
export const useEffect = effect(false), useLayoutEffect = effect(true), useInsertionEffect = effect(true);
export const useImperativeHandle = (ref, f, deps) => useLayoutEffect(() => { ref.current = f(); }, deps);
export function useContext(c) { for (let i = cur.parent; i; i = i.parent) if (i.type?.context === c) return i.props.value; return c.def; }
let nid = 0;
export const useId = () => hook(() => `:r${nid++}:`);
export const useDebugValue = () => {};
export const useTransition = () => [false, f => f()], startTransition = f => f();
export const useDeferredValue = v => v;
export const useSyncExternalStore = (sub, get) => { const [, set] = useState(0); useEffect(() => sub(() => set(n => n + 1)), []); return get(); };

const norm = c => (c === null || c === undefined || typeof c === "boolean" ? null : typeof c === "string" || typeof c === "number" || typeof c === "bigint" ? { text: String(c) } : Array.isArray(c) ? { $el: true, type: Fragment, key: null, props: { children: c } } : c.$el ? c : fail(c));
const fail = c => { throw new Error(`Objects are not valid as a React child (${JSON.stringify(c)})`); };
const kids = c => (Array.isArray(c) ? c : c === undefined ? [] : [c]).map(norm);

function reconcile(parent, list, root) {
  const old = parent.kids ?? [];
  const keyed = new Map();
  old.forEach((o, i) => { if (o) keyed.set(o.key ?? `#${i}`, o); });
  const used = new Set();
  const seen = new Set();
  parent.kids = list.map((e, i) => {
    if (!e) return null;
    const key = (e.$el ? e.key : null) ?? `#${i}`;
    if (seen.has(key)) globalThis.__warn?.(`two children with the same key ${key}`);
    seen.add(key);
    let inst = keyed.get(key);
    if (inst && (used.has(inst) || inst.type !== (e.$el ? e.type : "#text"))) inst = null;
    if (!inst) inst = { parent, root, key: e.$el ? e.key : null, type: e.$el ? e.type : "#text", hooks: [] };
    used.add(inst);
    return inst;
  });
  for (const o of old) if (o && !used.has(o)) unmount(o);
  parent.kids.forEach((inst, i) => inst && update(inst, list[i], root));
}
function update(inst, e, root) {
  if (inst.type === "#text") { inst.dom ??= document.createTextNode(""); inst.dom.data = e.text; return; }
  inst.props = e.props;
  if (typeof inst.type === "string") {
    inst.dom ??= document.createElement(inst.type);
    inst.dom.$inst = inst;
    setProps(inst.dom, e.props, inst.last ?? {});
    inst.last = e.props;
    if (inst.ref !== e.ref) { inst.ref = e.ref; if (e.ref) root.refs.push(() => setRef(e.ref, inst.dom)); }
    if (e.props.dangerouslySetInnerHTML) { if (inst.html !== e.props.dangerouslySetInnerHTML.__html) inst.dom.innerHTML = inst.html = e.props.dangerouslySetInnerHTML.__html; return; }
    reconcile(inst, kids(e.props.children), root);
    place(inst.dom, inst);
  } else if (inst.type === Fragment) reconcile(inst, kids(e.props.children), root);
  else {
    const was = cur;
    cur = inst; inst.at = 0;
    let out;
    try {
      if (typeof inst.type !== "function") throw new Error(`Element type is invalid: ${String(inst.type)}`);
      out = inst.type(inst.type.forward ? { ...e.props, $ref: e.ref } : e.props);
    } finally { cur = was; }
    reconcile(inst, kids(out), root);
  }
}
const setRef = (r, v) => { typeof r === "function" ? r(v) : (r.current = v); };
function doms(inst) { return inst.dom ? [inst.dom] : (inst.kids ?? []).flatMap(k => (k ? doms(k) : [])); }
function place(dom, inst) {
  // what others have put into an element stays behind what belongs here
  const want = (inst.kids ?? []).flatMap(k => (k ? doms(k) : []));
  const have = dom.childNodes.filter(c => want.includes(c));
  if (have.length === want.length && have.every((c, i) => c === want[i])) return;
  let at = dom.firstChild;
  for (const w of want) { if (w === at) at = at.nextSibling; else dom.insertBefore(w, at); }
}
function cleanup(inst) {
  for (const h of inst.hooks) if (h?.effect && h.clean) { const c = h.clean; h.clean = null; try { c(); } catch (e) { globalThis.__report(e); } }
  if (inst.ref) setRef(inst.ref, null);
  for (const k of inst.kids ?? []) if (k) cleanup(k);
  inst.dead = true;
}
function unmount(inst) { cleanup(inst); for (const d of doms(inst)) d.remove(); }
const EVENTS = { mouseenter: 1, mouseleave: 1 };
function setProps(dom, p, last) {
  for (const k of new Set([...Object.keys(last), ...Object.keys(p)])) {
    const v = p[k];
    if (k === "children" || k === "dangerouslySetInnerHTML" || k === "key" || k === "ref") continue;
    if (/^on[A-Z]/.test(k)) { (dom.$on ??= {})[k.slice(2).toLowerCase()] = v; continue; }
    if (k === "style") { for (const s in last.style ?? {}) if (!v || !(s in v)) delete dom.style[s]; Object.assign(dom.style, v); continue; }
    const name = k === "className" ? "class" : k === "htmlFor" ? "for" : k.toLowerCase();
    if (k === "checked" || k === "disabled" || k === "value") dom[k] = v ?? false;
    if (v === undefined || v === null || (v === false && !/^(data|aria)-/.test(name))) dom.removeAttribute(name);
    else if (v !== last[k]) dom.setAttribute(name, v === true && !/^(data|aria)-/.test(name) ? "" : v);
  }
}
const queue = new Set();
let scheduled = false;
function schedule(root) { if (root.dead) return; queue.add(root); if (!scheduled) { scheduled = true; Promise.resolve().then(flush); } }
export function flush() {
  scheduled = false;
  for (let n = 0; queue.size; n++) {
    if (n > 100) { queue.clear(); globalThis.__report(new Error("Maximum update depth exceeded")); return; }
    const [root] = queue;
    queue.delete(root);
    if (root.dead) continue;
    try {
      root.refs = []; root.layout = []; root.effects = [];
      if (!root.first) { root.first = true; root.container.replaceChildren(); }
      reconcile(root, [norm(root.element)], root);
      place(root.container, root);
      for (const r of root.refs) r();
      for (const list of [root.layout, root.effects]) {
        for (const { inst, h } of list) if (h.clean) { const c = h.clean; h.clean = null; c(); }
        for (const { inst, h, f } of list) if (!inst.dead) { const c = f(); if (typeof c === "function") h.clean = c; }
      }
    } catch (e) {
      // without an error boundary the tree is taken down
      globalThis.__report(e);
      try { (root.kids ?? []).forEach(k => k && unmount(k)); } catch {}
      root.kids = []; root.dead = true;
    }
  }
}
export function createRoot(container) {
  const root = { container, hooks: [], kids: [], parent: null };
  root.root = root;
  for (const ev of ["click", "mouseenter", "mouseleave", "mousedown", "mouseup", "mousemove", "mouseover", "mouseout", "keydown", "keyup", "input", "change", "submit", "focus", "blur", "pointerenter", "pointerleave"])
    container.addEventListener(ev, e => {
      const go = !e.$done;
      if (!go) return;
      e.$done = true;
      const only = EVENTS[ev];
      for (let n = e.target; n; n = n.parentNode) {
        const f = n.$on?.[ev];
        e.currentTarget = n;
        if (f) try { f(e); } catch (x) { globalThis.__report(x); }
        if (only || e.stopped || n === container) break;
      }
      flush();
    }, false);
  return {
    render(e) { if (root.dead && root.unmounted) throw new Error("Cannot update an unmounted root."); root.element = e; schedule(root); },
    unmount() { root.dead = root.unmounted = true; (root.kids ?? []).forEach(k => k && unmount(k)); root.kids = []; }
  };
}
export const render = (e, c) => { (c.$root ??= createRoot(c)).render(e); };
export const flushSync = f => { const r = f?.(); flush(); return r; };
export const createPortal = c => c;
export const version = "18.2.0";
export default { Fragment, StrictMode, Suspense, createElement, cloneElement, isValidElement, createRef, forwardRef, memo, createContext, Children, Component, useReducer, useState, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect, useImperativeHandle, useContext, useId, useDebugValue, useTransition, startTransition, useDeferredValue, useSyncExternalStore, createRoot, render, flushSync, createPortal, version };
