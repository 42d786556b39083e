// Runs the page of one case and tells what is to be seen on it.
import { fire, pass, settle } from "./dom.mjs";
import * as React from "react";

const T = n => n.textContent.replace(/\u00a0/g, " ");
const inWidget = (n, root) => { for (; n && n !== root; n = n.parentNode) if (n.$widget) return n; return null; };

function highlighted(b, content) {
  // positions of the code in elements that are highlighted, by class
  const out = {};
  let pos = 0;
  [...content.children].forEach((line, i) => {
    if (i) pos++;
    const walk = (n, cls) => {
      if (n.$widget) return;
      if (n.nodeType === 3) { for (const c of cls) { const l = (out[c] ??= []); const last = l[l.length - 1]; if (last && last[1] === pos) last[1] = pos + n.data.length; else l.push([pos, pos + n.data.length]); } pos += n.data.length; return; }
      const own = n.classList.contains("show-hidden") ? [...n.classList].filter(c => c === "read" || c === "write" || c === "own" || c === "show-hidden").map(c => `${n.classList.contains("aquascope-loan") ? "loan" : "live"} ${c}`) : [];
      for (const c of n.childNodes) walk(c, [...new Set([...cls, ...own])]);
    };
    for (const c of line.childNodes) walk(c, []);
  });
  return out;
}

function marks(content) {
  const out = { loan: [], live: [] };
  let pos = 0;
  [...content.children].forEach((line, i) => {
    if (i) pos++;
    const walk = (n, cls) => {
      if (n.$widget) return;
      if (n.nodeType === 3) { for (const c of cls) out[c].push([pos, pos + n.data.length]); pos += n.data.length; return; }
      const k = n.classList.contains("aquascope-loan") ? "loan" : n.classList.contains("aquascope-live-region") ? "live" : null;
      for (const c of n.childNodes) walk(c, k && !cls.includes(k) ? [...cls, k] : cls);
    };
    for (const c of line.childNodes) walk(c, []);
  });
  return out;
}

const hiddenBy = (n, root, cls) => { for (; n && n !== root; n = n.parentNode) if (n.classList?.contains(cls)) return true; return false; };

function row(tr) {
  const perms = [...tr.querySelectorAll(".perm-char")].map(td => {
    const p = td.querySelector(".perm");
    return [td.querySelector(".perm-diff-present") ? "=" : td.querySelector(".perm-diff-none") ? "." : td.querySelector(".perm-diff-sub") ? "-" : td.querySelector(".perm-diff-add") ? "+" : "?", T(p), [...p.classList].filter(c => c !== "perm").join(" ")];
  });
  const i = tr.querySelector(".perm-step-event i");
  return { path: tr.querySelector(".perm-step-path").textContent, icon: i ? [...i.classList].filter(c => c.startsWith("fa-")).join(" ") : null, perms };
}

function widget(w) {
  const st = w.classList.contains("permission-stack") ? w : w.querySelector(".permission-stack");
  if (st) return { kind: "stack", letters: [...st.querySelectorAll(".perm")].map(p => [T(p.querySelector(".big")), [...p.classList].filter(c => !["perm", "missing"].includes(c)).join(" "), p.classList.contains("missing")]), expanded: st.classList.contains("expanded"), size: [...st.classList].filter(c => c.startsWith("stack-size-")).join(" ") };
  const sw = w.querySelector(".perm-step-widget");
  if (sw) {
    return {
      kind: "step", open: !hiddenBy(sw.querySelector(".perm-step-table") ?? sw, w, "hidden-width"), spaces: [...T(sw.querySelector(".step-widget-spacer"))].length,
      tables: [...sw.querySelectorAll(".step-table-container")].map(c => { const all = [...c.querySelectorAll("tr")].map(tr => ({ ...row(tr), hid: hiddenBy(tr, c, "hidden-height"), second: hiddenBy(tr, c, "hidden-height") })); return { rows: all, more: !!c.querySelector(".step-table-dropdown") }; })
    };
  }
  const m = w.querySelector(".step-marker");
  if (m) return { kind: "marker", text: T(m), fail: m.classList.contains("fail") };
  return { kind: "other", text: w.textContent };
}

// The contents of a cell of the diagram
function cell(n, where) {
  const out = [];
  for (const c of n.childNodes) {
    if (c.nodeType === 3) { if (c.data !== "") out.push(c.data.replace(/\u00a0/g, " ")); }
    else if (c.localName === "table") out.push({ table: [...c.querySelectorAll("tr")].filter(tr => tr.closest("table") === c).map(tr => [...tr.children].map(td => cell(td, where))), cls: c.className });
    else if (c.classList.contains("pointer")) out.push({ ptr: where.get(c) ?? null });
    else if (c.classList.contains("unallocated")) out.push({ gone: c.classList.contains("error") });
    else out.push(...cell(c, where));
  }
  return out.reduce((a, x) => (typeof x === "string" && typeof a[a.length - 1] === "string" ? [...a.slice(0, -1), a[a.length - 1] + x] : [...a, x]), []).map(x => typeof x === "string" ? x.replace(/\s+/g, " ").trim() : x).filter(x => x !== "");
}

function address(td, step) {
  // where a cell is: the region, the row, and the cells of the tables within
  const path = [];
  let n = td;
  while (n && n !== step) {
    if (n.localName === "td" || n.localName === "th") {
      const table = n.closest("table");
      const tr = n.closest("tr");
      if (!table || !tr) return null;
      path.unshift([[...table.querySelectorAll("tr")].filter(r => r.closest("table") === table).indexOf(tr), [...tr.children].indexOf(n)]);
    }
    if (n.localName === "span" && n.className && /field-0$/.test(n.className)) path.unshift("inner");
    if (n.classList?.contains("frame")) path.unshift(["frame", [...step.querySelectorAll(".frame")].indexOf(n)]);
    if (n.classList?.contains("heap")) path.unshift(["heap"]);
    n = n.parentNode;
  }
  return path;
}

function diagram(b) {
  const it = b.querySelectorAll(".interpreter");
  return [...it].map(d => ({
    direction: d.style.flexDirection,
    steps: [...d.querySelectorAll(".step")].map(s => {
      const where = new Map();
      for (const a of s.querySelectorAll(".arrow-container > .leader-line")) { const e = a.$line.end; if (where.has(a.$line.start)) { where.set(a.$line.start, { twice: true }); continue; } const dst = e.$anchor ? e.element : e; where.set(a.$line.start, { to: address(dst, s), range: a.$line.end.area ? a.$line.end.width / 10 : null }); }
      const stack = s.querySelector(".stack"), heap = s.querySelector(".heap");
      return {
        label: T(s.querySelector(".step-marker")), fail: s.querySelector(".step-marker").classList.contains("fail"), ub: s.querySelector(".undefined-behavior") ? T(s.querySelector(".undefined-behavior")) : null,
        frames: [...stack.querySelectorAll(".frame")].map(f => ({ name: T(f.querySelector(".frame-header .header-text")), locals: f.querySelector(".empty-frame") ? [] : [...f.querySelector("table.locals").querySelectorAll("tr")].filter(tr => tr.closest("table") === f.querySelector("table.locals")).map(tr => ({ name: T(tr.children[0]), moved: tr.classList.contains("moved"), value: cell(tr.children[1], where) })) })),
        heap: heap ? [...heap.querySelector("table").querySelectorAll("tr")].filter(tr => tr.closest("table") === heap.querySelector("table")).map(tr => cell(tr.children[0], where)) : [],
        arrows: s.querySelectorAll(".arrow-container > .leader-line").length
      };
    })
  }));
}

function snap(b) {
  const cont = b.querySelector(".cm-content");
  const out = { classes: [...b.classList] };
  if (cont) {
    const view = b.querySelector(".cm-editor").$view;
    const ws = [];
    let pos = 0;
    const text = [];
    [...cont.children].forEach((line, i) => {
      if (i) { pos++; text.push("\n"); }
      const walk = n => { if (n.$widget) { ws.push({ at: pos, line: i, ...widget(n) }); return; } if (n.nodeType === 3) { text.push(n.data); pos += n.data.length; } else n.childNodes.forEach(walk); };
      line.childNodes.forEach(walk);
    });
    out.code = text.join("");
    out.widgets = ws;
    out.hidden = [...cont.children].flatMap((l, i) => (l.classList.contains("hidden-line") ? [i] : []));
    out.readOnly = view.state.readOnly;
    out.editable = view.state.facet(view.constructor.editable);
    out.shown = cont.closest(".show-hidden") !== null;
    out.high = highlighted(b, cont);
    out.marks = marks(cont);
  }
  out.buttons = [...b.querySelectorAll("button")].map(x => x.className + "|" + [...x.children].map(c => c.className).join(" "));
  out.fails = b.querySelectorAll(".ferris").length;
  out.diagram = diagram(b);
  return out;
}

// What is around the editor on the page of its own
function playground(b) {
  const $ = i => document.getElementById(i);
  return {
    ...snap(b), stderr: T(b.querySelector(".aquascope-stderr")), tabs: [...b.querySelectorAll(".tab.active")].map(t => t.getAttribute("data-tab")), panes: [...b.querySelectorAll(".tab-pane.active")].map(t => t.getAttribute("data-pane")),
    cards: ["buildErrorCard", "analysisErrorCard"].map(i => $(i).classList.contains("live")), msg: T($("analysisErrorMsg")),
    waiting: ["showPermissions", "showInterpret"].map(i => [$(i).disabled === true, $(i).classList.contains("waiting")]), checks: ["showBoundaries", "showSteps", "passesBorrowChecker"].map(i => $(i).checked)
  };
}

function hoverAll(b, limit) {
  const cont = b.querySelector(".cm-content");
  if (!cont) return [];
  const els = [...cont.querySelectorAll(".perm, .perm-char")].filter(e => inWidget(e, cont) && !(e.classList.contains("perm") && e.closest(".perm-char")));
  const out = [];
  for (const e of els.slice(0, limit)) {
    const chain = [];
    for (let n = e; n && n !== cont; n = n.parentNode) chain.unshift(n);
    for (const n of chain) fire(n, "mouseenter", { hover: true });
    const on = highlighted(b, cont);
    for (const n of [...chain].reverse()) fire(n, "mouseleave", {});
    out.push({ on, left: highlighted(b, cont) });
  }
  return out;
}

globalThis.__case = async json => {
  const c = JSON.parse(json);
  const said = [], sent = [], copied = [];
  const log = k => (...a) => { if (k === "error") said.push(a.map(x => (x instanceof Error ? String(x) : typeof x === "string" ? x : JSON.stringify(x))).join(" ")); };
  globalThis.console = { log: log("log"), debug: log("debug"), info: log("info"), warn: log("warn"), error: log("error"), trace() {}, assert() {}, time() {}, timeEnd() {}, group() {}, groupEnd() {}, table() {} };
  const clipboard = { writeText: async t => { copied.push(t); } };
  globalThis.navigator = { clipboard, userAgent: "test", platform: "Linux" };
  globalThis.fetch = async (url, o = {}) => {
    const plan = c.server?.[sent.length];
    sent.push({ url: String(url), method: o.method, type: o.headers?.["Content-Type"] ?? o.headers?.get?.("Content-Type"), body: JSON.parse(o.body) });
    if (!plan) throw new TypeError("Failed to fetch");
    if (plan.delay) await new Promise(r => setTimeout(r, plan.delay));
    const res = { ok: true, status: 200, statusText: "OK", url: String(url), redirected: false, type: "cors", bodyUsed: false, headers: new Headers({ "content-type": "application/json" }), json: async () => JSON.parse(JSON.stringify(plan.answer)), text: async () => JSON.stringify(plan.answer), clone: () => res };
    return res;
  };
  if (c.telemetry) globalThis.telemetry = { log() {} };
  for (const k of c.theme ?? []) document.documentElement.classList.add(k);
  if (globalThis.__html) document.body.innerHTML = globalThis.__html;
  for (const e of document.querySelectorAll("input")) e.checked = e.hasAttribute("checked");
  const warned = [];
  globalThis.alert = t => { warned.push(String(t)); };
  for (const b of c.blocks ?? []) {
    const e = document.createElement("div");
    for (const [k, v] of Object.entries(b)) e.setAttribute(k, v);
    document.body.appendChild(document.createElement("p"));
    document.body.appendChild(e);
  }
  const blocks = globalThis.__html ? [document.body] : [...document.body.children].filter(e => e.localName === "div");
  fire(document.documentElement, "DOMContentLoaded");
  for (const l of [...(globalThis.__listeners.load ?? [])]) try { l.f({ type: "load" }); } catch (e) { globalThis.__report(e); }
  await pass(1000);
  const out = [];
  for (const a of c.actions ?? [{ do: "snap" }]) {
    const b = blocks[a.block ?? 0];
    if (a.do === "snap") out.push(blocks.map(snap));
    else if (a.do === "snap1") out.push(snap(b));
    else if (a.do === "hover") out.push(hoverAll(b, a.limit ?? 60));
    else if (a.do === "click") { const el = [...b.querySelectorAll(a.sel)][a.n ?? 0]; if (!el) { out.push("nothing to click"); continue; } for (const t of ["mousedown", "mouseup", "click"]) fire(el, t, { button: 0 }); await pass(200); out.push(null); }
    else if (a.do === "edit") { const v = b.querySelector(".cm-editor").$view; v.dispatch({ changes: { from: a.from, to: a.to ?? v.state.doc.length, insert: a.insert } }); await pass(100); out.push(null); }
    else if (a.do === "pass") { await pass(a.ms); out.push(null); }
    else if (a.do === "check") { const e = b.querySelector(a.sel); e.checked = a.on; fire(e, "input", {}); fire(e, "change", {}); await pass(10); out.push(null); }
    else if (a.do === "playground") out.push(playground(b));
    else if (a.do === "init") { globalThis.initAquascopeBlocks(document.body); await pass(100); out.push(null); }
    await settle();
  }
  return JSON.stringify({ out, said, sent, copied, warned, errors: globalThis.__errors });
};
