// A stand-in browser for the composition pipelines: pages hold a small element
// model laid out on a fixed grid, in web fonts whose every glyph is a rectangle
// of its own size, so that what a viewer sees can be read back from outlines.
import { repoRequire } from "../core/bundle.mjs";

// ---- fonts: glyph rectangle size encodes (font, character) ----
const UPEM = 1000; const CHARS = []; for (let c = 33; c < 127; c++) CHARS.push(c); CHARS.push(0xe9, 0x4f60, 0x597d, 0x2588, 0x2500);
export const FONTS = ["SimA", "SimB", "SimC", "SimMono"];
export const ADV = 0.6;
const boxOf = (fi, ci) => [90 + ci * 4 + fi, 210 + ci * 4 + fi * 2];
const key = (w, h) => `${Math.round(w)}x${Math.round(h)}`;
const decodeTable = new Map(); FONTS.forEach((f, fi) => CHARS.forEach((c, ci) => { const [w, h] = boxOf(fi, ci); decodeTable.set(key(w, h), { font: f, ch: String.fromCodePoint(c) }); }));
/** Which (font, character) an outline box belongs to; null for anything else. */
export const decodeBox = (w, h) => decodeTable.get(key(w, h)) ?? null;
const fontCache = new Map();
export function fontBuffer(name) {
  if (fontCache.has(name)) return fontCache.get(name);
  const fi = FONTS.indexOf(name); if (fi < 0) throw new Error(`no font ${name}`);
  const glyphs = CHARS.map((c, ci) => { const [w, h] = boxOf(fi, ci); return `<glyph unicode="&#${c};" horiz-adv-x="600" d="M0 0H${w}V${h}H0Z"/>`; }).join("") + `<glyph unicode=" " horiz-adv-x="600" d=""/><glyph unicode="&#160;" horiz-adv-x="600" d=""/>`;
  const svg = `<svg xmlns="http://www.w3.org/2000/svg"><defs><font id="f" horiz-adv-x="600"><font-face font-family="${name}" units-per-em="${UPEM}" ascent="800" descent="-200"/><missing-glyph horiz-adv-x="600" d="M0 0H33V33H0Z"/>${glyphs}</font></defs></svg>`;
  const buf = Buffer.from(repoRequire("svg2ttf")(svg, { ts: 1 }).buffer); fontCache.set(name, buf); return buf;
}

// ---- captured elements ----
const BASE = {
  backgroundColor: "rgba(0, 0, 0, 0)", backgroundImage: "none", backgroundSize: "auto", backgroundPosition: "0% 0%", backgroundRepeat: "repeat", backgroundClip: "border-box",
  backgroundOrigin: "padding-box", backgroundAttachment: "scroll", borderColor: "rgb(0,0,0)", borderWidth: "0", borderRadius: "0",
  borderTopLeftRadius: "0", borderTopRightRadius: "0", borderBottomRightRadius: "0", borderBottomLeftRadius: "0",
  borderTopWidth: "0", borderRightWidth: "0", borderBottomWidth: "0", borderLeftWidth: "0",
  borderTopColor: "rgb(0,0,0)", borderRightColor: "rgb(0,0,0)", borderBottomColor: "rgb(0,0,0)", borderLeftColor: "rgb(0,0,0)",
  borderTopStyle: "none", borderRightStyle: "none", borderBottomStyle: "none", borderLeftStyle: "none",
  color: "rgb(10, 20, 30)", fontSize: "20px", fontFamily: "SimA", fontWeight: "400", fontStyle: "normal",
  lineHeight: "24px", letterSpacing: "normal", textAlign: "left", textTransform: "none",
  textDecoration: "none", textDecorationLine: "none", textDecorationStyle: "solid", textDecorationColor: "rgb(0,0,0)",
  textDecorationThickness: "auto", textUnderlineOffset: "auto", whiteSpace: "pre", wordSpacing: "0",
  verticalAlign: "baseline", direction: "ltr", writingMode: "horizontal-tb", textOverflow: "clip",
  cursor: "auto", caretColor: "auto", outlineColor: "rgb(0,0,0)", outlineWidth: "0", outlineStyle: "none", outlineOffset: "0",
  boxShadow: "none", opacity: "1", transform: "none", transformOrigin: "50% 50%", visibility: "visible",
  borderCollapse: "separate", overflowX: "visible", overflowY: "visible", scrollbarGutter: "auto",
  scrollWidth: 60, scrollHeight: 60, clientWidth: 60, clientHeight: 60, scrollTop: 0, scrollLeft: 0,
  objectFit: "fill", objectPosition: "50% 50%", filter: "none", backdropFilter: "none", mixBlendMode: "normal",
  clipPath: "none", mask: "none", maskImage: "none", maskMode: "match-source", maskSize: "auto",
  maskPosition: "0% 0%", maskRepeat: "repeat", maskComposite: "add",
  listStyleType: "none", listStyleImage: "none", display: "block", listStylePosition: "outside",
  paddingTop: "0", paddingRight: "0", paddingBottom: "0", paddingLeft: "0",
  borderImageSource: "none", borderImageSlice: "100%", borderImageWidth: "1", borderImageOutset: "0", borderImageRepeat: "stretch",
  zIndex: "auto", position: "static", float: "none", order: "0", flexDirection: "row",
  fontKerning: "auto", fontStretch: "100%", fontVariationSettings: "normal", fontFeatureSettings: "normal",
};
/** One line of text as the DOM capture would report it. */
export function textEl(o) {
  const size = o.size ?? 20, adv = size * ADV, text = o.text; const chars = [...text];
  const xs = []; let x = o.x; for (const ch of chars) { xs.push(x); x += adv * (o.wide?.(ch) ? 2 : 1); }
  const xOffsets = []; chars.forEach((ch, i) => { for (let k = 0; k < ch.length; k++) xOffsets.push(xs[i]); });
  return {
    tag: "div", text, x: o.x, y: o.y, width: x - o.x, height: size * 1.2, children: [],
    styles: { ...BASE, fontFamily: o.font ?? "SimA", fontSize: `${size}px`, lineHeight: `${size * 1.2}px`, ...(o.styles ?? {}) },
    fontAscent: size * 0.8, fontDescent: size * 0.2,
    textSegments: [{ text, x: o.x, y: o.y, width: x - o.x, height: size * 1.2, xOffsets, ...(o.color ? { color: o.color } : {}) }],
    ...(o.anim ? { animId: o.anim } : {}),
  };
}
export function boxEl(children, o = {}) {
  return { tag: o.tag ?? "div", text: "", x: o.x ?? 0, y: o.y ?? 0, width: o.width ?? 400, height: o.height ?? 300, children, styles: { ...BASE, ...(o.styles ?? {}) }, ...(o.anim ? { animId: o.anim } : {}) };
}

/** Source text of the stub that stands in for src/capture/index.ts. */
export const stubCapture = `module.exports = new Proxy({
  captureElementTree: (p, ...a) => p.__capture(...a), captureElementTreeSelfContained: (p, ...a) => p.__capture(...a),
  attachWebfontTracker: (p) => { p.__trackers++; return { urls: new Set(), detach: () => { p.__trackers--; } }; },
  discoverAndRegisterWebfonts: (p) => p.__discover(), injectBrandVariables: (c, b) => c.__brand(b),
  embedRemoteImages: async () => {}, launchChromium: (o) => { if (!globalThis.__simLaunch) throw new Error("no browser here"); return globalThis.__simLaunch(o); }, crossOriginFramesLaunchArgs: () => [], logCaptureWarnings: () => {},
}, { get: (t, k) => k === "__esModule" ? true : t[k], has: (t, k) => k === "__esModule" || k in t });`;

/** Line heights: a text element's glyph baseline below its top. */
export const baselineOf = (y, size) => y + size * 1.0;

const WIDE = new Set(["\u4f60", "\u597d"]);
export const isWide = (ch) => WIDE.has(ch);

// ---- documents ----
let uid = 0;
class Node {
  constructor(doc, o) { Object.assign(this, o); this.doc = doc; this.dataset = {}; this.uid = ++uid; this.style = { setProperty: (k, v) => { this.css = { ...(this.css ?? {}), [k]: v }; } }; }
  get hidden() { return this.css?.display === "none"; }
  get textContent() { return this.text; } set textContent(v) { this.text = String(v); }
  get tagName() { return this.tag.toUpperCase(); } get isContentEditable() { return false; } getAttribute() { return null; }
  get childNodes() { return this.lines ?? (this.text ? [{ nodeType: 3, textContent: this.text }] : []); }
  remove() { const p = this.doc.panes.find((q) => q.lines.includes(this)); if (p) p.lines.splice(p.lines.indexOf(this), 1); }
  box() { const p = this.doc.panes.find((q) => q === this || q.lines.includes(this)); if (p === this) return { x: p.x, y: p.y - this.doc.sy, width: p.w, height: p.h }; let y = p.y; for (const l of p.lines) { if (l === this) break; y += lineH(l); } return { x: p.x, y: y - this.doc.sy, width: textWidth(this), height: lineH(this) }; }
  getBoundingClientRect() { const b = this.box(); return { ...b, left: b.x, top: b.y, right: b.x + b.width, bottom: b.y + b.height }; }
  matches(sel) { return sel === `#${this.id}` || sel === this.tag || (this.cls && sel === `.${this.cls}`) || (this.dataset.domotionAnim != null && sel === `[data-domotion-anim="${this.dataset.domotionAnim}"]`); }
}
const withCursor = (node, el) => { if (node.css?.cursor) el.cursor = node.css.cursor; return el; };
const lineH = (l) => l.size * 1.2;
const textWidth = (l) => [...l.text].length * l.size * ADV;
/** spec: {font, panes: [{id, x, y, w, h, lines: [{id, text, size, color}]}], height} */
export class Doc {
  constructor(spec) {
    this.spec = spec; this.sx = 0; this.sy = 0; this.height = spec.height ?? 300; this.appended = 0;
    this.panes = spec.panes.map((p) => { const n = new Node(this, { tag: "section", ...p, lines: [] }); n.lines = p.lines.map((l) => new Node(this, { tag: "p", size: 20, ...l })); return n; });
  }
  all() { return this.panes.flatMap((p) => [p, ...p.lines]); }
  find(sel) { return this.all().filter((e) => e.matches(sel)); }
  click(sel, later) { const [e] = this.find(sel); if (!e) throw new Error(`page.click: Timeout 90000ms exceeded. waiting for locator('${sel}')`); const p = this.panes.find((q) => q === e || q.lines.includes(e)); if (later && this.spec.clickDelay) later(this.spec.clickDelay, () => this.react(p)); else this.react(p); }
  react(p) { const k = p.appended = (p.appended ?? 0) + 1; const at = this.spec.clickInserts === "top" ? 0 : p.lines.length; p.lines.splice(at, 0, new Node(this, { tag: "p", id: `${p.id}n${k}`, text: `${p.id}-new${k}`, size: p.lines[0]?.size ?? 20 })); }
  /** Visible lines as [{text, x, y, size, font, color}] in page coordinates at the current scroll. */
  lines() { const out = []; for (const p of this.panes) { if (p.hidden) continue; let y = p.y; for (const l of p.lines) { if (l.hidden) continue; out.push({ node: l, pane: p, text: l.text, x: p.x - this.sx, y: y - this.sy, size: l.size, font: l.font ?? p.font ?? this.spec.font, color: l.css?.color ?? l.color }); y += lineH(l); } } return out; }
  tree(W, H) {
    const ls = this.lines();
    return [boxEl(this.panes.filter((p) => !p.hidden).map((p) => boxEl(ls.filter((l) => l.pane === p).map((l) => withCursor(l.node, textEl({ text: l.text, x: l.x, y: l.y, size: l.size, font: l.font, color: l.color, anim: l.node.dataset.domotionAnim, styles: { ...(l.color ? { color: l.color } : {}), ...(l.pane.deco ? { textDecorationLine: "underline" } : {}) } }))), { tag: "section", x: p.x - this.sx, y: p.y - this.sy, width: p.w, height: p.h, anim: p.dataset.domotionAnim, styles: p.clip ? { overflowX: "hidden", overflowY: "hidden" } : {} })), { tag: "body", x: -this.sx, y: -this.sy, width: W, height: Math.max(H, this.height) })];
  }
}
/** A terminal page (what src/terminal sets as content), laid out on its cell grid. */
class TermDoc {
  constructor(html) {
    this.html = html; const css = /<style>([\s\S]*?)<\/style>/.exec(html)[1]; const body = /<div class="term">([\s\S]*)<\/div><\/body>/.exec(html)[1];
    this.size = parseFloat(/font-size:([\d.]+)px/.exec(css)[1]); this.lh = parseFloat(/line-height:([\d.]+)[;\s}]/.exec(css)[1]); this.font = /font-family:([^;]+);/.exec(css)[1].split(",")[0].replace(/['"]/g, "").trim();
    this.pad = parseFloat(/padding:([1-9][\d.]*)px/.exec(css)?.[1] ?? /\.r\{position:absolute;left:([\d.]+)px/.exec(css)?.[1] ?? "0");
    this.rows = []; let n = 0; const linePx = this.size * this.lh;
    for (const m of body.matchAll(/<div class="r"([^>]*)>([\s\S]*?)<\/div>/g)) { const top = /top:([\d.]+)px/.exec(m[1]); this.rows.push({ anim: /data-domotion-anim="([^"]+)"/.exec(m[1])?.[1], y: top ? parseFloat(top[1]) : this.pad + n * linePx, runs: runsOf(m[2]) }); n++; }
    this.linePx = linePx; this.adv = this.size * ADV;
  }
  measure() { const cols = Math.max(0, ...this.rows.map((r) => r.runs.reduce((a, q) => a + [...q.text].reduce((b, ch) => b + (isWide(ch) ? 2 : 1), 0), 0))); return { width: 2 * this.pad + cols * this.adv, height: 2 * this.pad + this.rows.length * this.linePx }; }
  tree() {
    const els = this.rows.map((r) => { let x = this.pad; const kids = []; for (const q of r.runs) { const e = textEl({ text: q.text, x, y: r.y + (this.linePx - this.size * 1.2) / 2, size: this.size, font: this.font, wide: isWide, color: q.color, styles: { ...(q.color ? { color: q.color } : {}), ...(q.bg ? { backgroundColor: q.bg } : {}), ...(q.dim ? { opacity: "0.6" } : {}), ...(q.bold ? { fontWeight: "700" } : {}) } }); kids.push(e); x += e.width; } return boxEl(kids, { x: this.pad, y: r.y, width: x - this.pad, height: this.linePx, anim: r.anim }); });
    const m = this.measure(); return [boxEl([boxEl(els, { x: 0, y: 0, width: m.width, height: m.height })], { tag: "body", x: 0, y: 0, width: 1280, height: 800 })];
  }
}
const unesc = (s) => s.replace(/&nbsp;/g, " ").replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&amp;/g, "&");
function runsOf(inner) { const out = []; for (const m of inner.matchAll(/<span style="([^"]*)">([\s\S]*?)<\/span>|([^<]+)/g)) { if (m[3] != null) out.push({ text: unesc(m[3]) }); else out.push({ text: unesc(m[2]), color: /(?:^|;)color:([^;]+)/.exec(m[1])?.[1], bg: /background:([^;]+)/.exec(m[1])?.[1], dim: /opacity/.test(m[1]), bold: /font-weight/.test(m[1]) }); } return out; }

// ---- browser ----
/** o: {proc, sites: Map(url → doc spec), register(font), lat, fault(label) → throw} */
export class StageBrowser {
  constructor(o) { Object.assign(this, o); this.contexts = []; this.closed = false; this.ops = 0; this.loads = 0; }
  op(label, fn) { const d = this.lat ? this.lat(label) : 1; return this.proc.later(d, () => { this.ops++; this.fault?.(label); return fn(); }, `page:${label}`); }
  async newContext(o) { return this.op("newContext", () => { const c = new StageContext(this, o ?? {}); this.contexts.push(c); return c; }); }
  get open() { return this.contexts.filter((c) => !c.closed); }
  isConnected() { return !this.closed; }
  close() { this.closeCalls = (this.closeCalls ?? 0) + 1; return this.proc.later(1, () => { this.closed = true; for (const c of this.contexts) c.closed = true; }, "page:browser-close"); }
}
class StageContext {
  constructor(b, o) { this.b = b; this.o = o; this.closed = false; this.pages = []; this.brand = null; }
  newPage() { return this.b.op("newPage", () => { const p = new StagePage(this); this.pages.push(p); return p; }); }
  __brand(b) { return this.b.op("addInitScript", () => { this.brand = b; }); }
  addInitScript() { return this.b.op("addInitScript", () => {}); }
  close() { return this.b.proc.later(1, () => { this.closed = true; }, "page:context-close"); }
}
const pageFns = new Map();
class HTMLElement {}
Object.setPrototypeOf(Node.prototype, HTMLElement.prototype);
class StagePage {
  constructor(ctx) { this.ctx = ctx; this.b = ctx.b; this.doc = null; this.__trackers = 0; this.vw = ctx.o.viewport?.width ?? 1280; this.vh = ctx.o.viewport?.height ?? 720; this.keyboard = { press: () => this.op("press", () => {}) }; }
  op(l, f) { return this.b.op(l, () => { if (this.ctx.closed) throw new Error("Target page, context or browser has been closed"); return f(); }); }
  context() { return this.ctx; } on() {} off() {} mainFrame() { return null; } setDefaultTimeout() {} setDefaultNavigationTimeout() {}
  goto(url) { return this.op("goto", () => { const spec = this.b.sites.get(url); if (!spec) throw new Error(`page.goto: net::ERR_NAME_NOT_RESOLVED at ${url}`); this.b.loads++; this.doc = new Doc(spec); }); }
  setContent(html) { return this.op("setContent", () => { const spec = this.b.sites.get(html); this.doc = spec ? new Doc(spec) : new TermDoc(html); }); }
  waitForTimeout(ms) { return this.b.proc.later(Math.max(0, ms), () => {}, "page:wait"); }
  waitForSelector(sel) { return this.op("waitForSelector", () => { if (this.doc.find(sel).length === 0) throw new Error(`Timeout 90000ms exceeded waiting for ${sel}`); }); }
  waitForFunction() { return this.op("waitForFunction", () => {}); }
  click(sel) { return this.op("click", () => { const d = this.doc; d.click(sel, (ms, f) => { this.b.proc.later(ms, () => { this.b.reacted?.(); f(); }, "page:react"); }); }); } hover(sel) { return this.op("hover", () => { if (!this.doc.find(sel).length) throw new Error("no element"); }); } focus(sel) { return this.hover(sel); }
  evaluate(fn, arg) {
    return this.op("evaluate", () => {
      const src = String(fn); if (!pageFns.has(src)) pageFns.set(src, new Function("window", "document", "HTMLElement", "getComputedStyle", "Node", `return (${src})`));
      const d = this.doc; const me = this;
      const clampY = (y) => Math.max(0, Math.min(y, Math.max(0, (d.height ?? 0) - me.vh)));
      const scrollTo = (a, b) => { const [x, y] = typeof a === "object" ? [a.left, a.top] : [a, b]; void x; d.sy = clampY(y ?? d.sy); };
      const de = { scrollTo, clientWidth: me.vw, clientHeight: me.vh, get scrollHeight() { return Math.max(d.height, me.vh); }, get scrollWidth() { return me.vw; }, get scrollTop() { return d.sy; }, set scrollTop(v) { d.sy = clampY(v); }, get scrollLeft() { return 0; }, set scrollLeft(v) { void v; } };
      const window = { scrollTo, get scrollX() { return 0; }, get scrollY() { return d.sy; }, get pageXOffset() { return 0; }, get pageYOffset() { return d.sy; }, innerWidth: me.vw, innerHeight: me.vh };
      const document = { fonts: { ready: undefined }, documentElement: de, scrollingElement: de, body: de, querySelector: (s) => (d instanceof TermDoc ? (s === ".term" ? { getBoundingClientRect: () => d.measure() } : null) : d.find(s)[0] ?? null), querySelectorAll: (s) => (d instanceof TermDoc ? [] : d.find(s)) };
      const r = pageFns.get(src)(window, document, HTMLElement, (e) => ({ cursor: "auto", ...(e.css ?? {}) }), { TEXT_NODE: 3 })(arg === undefined ? undefined : structuredClone(arg));
      return r === undefined ? r : structuredClone(r);
    });
  }
  __discover() { return this.op("discover", () => { for (const f of this.doc?.spec?.fonts ?? []) this.b.register(f); }); }
  __capture(sel, clip) {
    return this.op("capture", () => {
      if (this.doc instanceof TermDoc) { this.b.register(this.doc.font); this.b.captures?.push("term"); return this.doc.tree(); }
      const t = this.doc.tree(this.vw, this.vh); void sel; void clip; return t;
    });
  }
}
export { TermDoc };
