// Arrows: what they go from and to is kept with the element they make.
const svg = cls => { const e = document.createElementNS("http://www.w3.org/2000/svg", "svg"); e.attrs.class = cls; document.body.appendChild(e); return e; };
export default class LeaderLine {
  constructor(start, end, options) {
    if (start && !start.nodeType && !start.$anchor && start.start) { options = start; ({ start, end } = start); }
    const el = e => (e?.$anchor ? e.element : e);
    if (!el(start)?.isConnected || !el(end)?.isConnected) throw new Error("the ends of a line have to be in the document");
    this.start = start; this.end = end; this.options = options ?? {};
    this.svg = svg("leader-line");
    this.svg.$line = this;
    if (end.area) this.area = svg("leader-line-areaAnchor");
  }
  position() { return this; }
  setOptions(o) { Object.assign(this.options, o); return this; }
  show() { return this; } hide() { return this; }
  remove() { this.svg.remove(); this.area?.remove(); }
  static pointAnchor(element, o) { return { $anchor: true, element, ...o }; }
  static areaAnchor(element, o) { return { $anchor: true, area: true, element, ...o }; }
  static mouseHoverAnchor(element) { return { $anchor: true, element }; }
}
