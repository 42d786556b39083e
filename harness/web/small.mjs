// classnames, floating-ui and leader-line
export default function classNames(...a) {
  const out = [];
  for (const x of a) {
    if (!x) continue;
    if (typeof x === "string" || typeof x === "number") out.push(x);
    else if (Array.isArray(x)) { const s = classNames(...x); if (s) out.push(s); }
    else for (const k in x) if (x[k]) out.push(k);
  }
  return out.join(" ");
}
