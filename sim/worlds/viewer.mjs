// What a viewer of a generated SVG sees at a given time: cascade, animation
// clocks, transforms, clips and embedded fonts, down to the glyphs on screen.
import { parseCss, parseAnimation, parseMarkup, valueAt, walk } from "./cssclock.mjs";
import { repoRequire } from "../core/bundle.mjs";
import { decodeBox } from "./stage.mjs";

const I = [1, 0, 0, 1, 0, 0];
const mul = (m, n) => [m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3], m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5]];
const app = (m, x, y) => [m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]];
const len = (s, ref) => { const v = parseFloat(s); return /%\s*$/.test(s) ? v / 100 * ref : v; };
const ang = (s) => { const v = parseFloat(s); return /rad\s*$/.test(s) ? v : /turn\s*$/.test(s) ? v * 2 * Math.PI : v * Math.PI / 180; };
export function parseTransform(s, ref, css) {
  let m = I; if (s == null || s === "none" || s === "") return m;
  for (const [, fn, body] of s.matchAll(/([a-zA-Z0-9]+)\(([^)]*)\)/g)) {
    const a = body.split(/[\s,]+/).map((x) => x.trim()).filter(Boolean); let n;
    switch (fn) {
      case "translate": case "translate3d": n = [1, 0, 0, 1, len(a[0], ref.w), a[1] == null ? 0 : len(a[1], ref.h)]; break;
      case "translateX": n = [1, 0, 0, 1, len(a[0], ref.w), 0]; break;
      case "translateY": n = [1, 0, 0, 1, 0, len(a[0], ref.h)]; break;
      case "scale": case "scale3d": { const x = parseFloat(a[0]), y = a[1] == null ? x : parseFloat(a[1]); n = [x, 0, 0, y, 0, 0]; break; }
      case "scaleX": n = [parseFloat(a[0]), 0, 0, 1, 0, 0]; break; case "scaleY": n = [1, 0, 0, parseFloat(a[0]), 0, 0]; break;
      case "rotate": { const t = ang(a[0]), c = Math.cos(t), d = Math.sin(t); n = [c, d, -d, c, 0, 0]; if (a.length === 3 && !css) n = mul(mul([1, 0, 0, 1, +a[1], +a[2]], n), [1, 0, 0, 1, -a[1], -a[2]]); break; }
      case "skewX": n = [1, 0, Math.tan(ang(a[0])), 1, 0, 0]; break; case "skewY": n = [1, Math.tan(ang(a[0])), 0, 1, 0, 0]; break;
      case "matrix": n = a.map(parseFloat); break;
      case "translateZ": case "perspective": n = I; break;
      default: throw new Error(`transform not understood: ${fn}`);
    }
    m = mul(m, n);
  }
  return m;
}
const decode = (s) => s.replace(/&#x([0-9a-fA-F]+);/g, (_, h) => String.fromCodePoint(parseInt(h, 16))).replace(/&#(\d+);/g, (_, d) => String.fromCodePoint(+d)).replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&apos;/g, "'").replace(/&amp;/g, "&");

// ---- selectors ----
function parseCompound(s) {
  const c = { tag: null, id: [], cls: [], attrs: [], pseudo: [] };
  const re = /^(?:([a-zA-Z*][\w-]*|\*)|#([\w-]+)|\.([\w-]+)|\[([\w:-]+)(?:([~^$*]?)="?([^"\]]*)"?)?\]|::?([\w-]+)(?:\(([^)]*)\))?)/; let r = s;
  while (r) { const m = re.exec(r); if (!m) return null; r = r.slice(m[0].length); if (m[1]) c.tag = m[1]; else if (m[2]) c.id.push(m[2]); else if (m[3]) c.cls.push(m[3]); else if (m[4]) c.attrs.push([m[4], m[5], m[6]]); else c.pseudo.push(m[7]); }
  return c;
}
function parseSelector(sel) {
  const parts = sel.replace(/\s*>\s*/g, " > ").split(/\s+/).filter(Boolean); const out = []; let comb = " ";
  for (const p of parts) { if (p === ">") { comb = ">"; continue; } const c = parseCompound(p); if (c == null) return null; out.push({ c, comb }); comb = " "; }
  return out;
}
const classesOf = (el) => (el._cls ??= new Set((el.attrs.class ?? "").split(/\s+/).filter(Boolean)));
function matchC(el, c) {
  if (el.tag === "#root" || el.tag === "#text") return false;
  if (c.tag && c.tag !== "*" && c.tag !== el.tag) return false;
  for (const i of c.id) if (el.attrs.id !== i) return false;
  for (const k of c.cls) if (!classesOf(el).has(k)) return false;
  for (const [k, op, v] of c.attrs) { const a = el.attrs[k]; if (a == null) return false; if (v != null && (op === "^" ? !a.startsWith(v) : op === "$" ? !a.endsWith(v) : op === "*" ? !a.includes(v) : op === "~" ? !a.split(/\s+/).includes(v) : a !== v)) return false; }
  for (const p of c.pseudo) { if (p === "root") { if (el.parent?.tag !== "#root") return false; } else return false; }
  return true;
}
function matches(el, sel) { const go = (e, i) => { if (!matchC(e, sel[i].c)) return false; if (i === 0) return true; if (sel[i].comb === ">") return e.parent != null && go(e.parent, i - 1); for (let p = e.parent; p; p = p.parent) if (go(p, i - 1)) return true; return false; }; return go(el, sel.length - 1); }
const spec = (sel) => sel.reduce((a, { c }) => a + c.id.length * 10000 + (c.cls.length + c.attrs.length + c.pseudo.length) * 100 + (c.tag && c.tag !== "*" ? 1 : 0), 0);

const declsOf = (s) => { const o = {}; for (const part of (s ?? "").split(/;(?![^(]*\))/)) { const i = part.indexOf(":"); if (i > 0) o[part.slice(0, i).trim()] = part.slice(i + 1).trim(); } return o; };
const PRES = ["opacity", "visibility", "display", "fill", "font-family", "font-size", "clip-path", "letter-spacing", "font-weight", "text-anchor"];
const INHERIT = new Set(["visibility", "fill", "font-family", "font-size", "letter-spacing", "font-weight", "text-anchor"]);

const SHAPES = new Set(["path", "circle", "ellipse", "rect", "line", "polyline", "polygon"]);
export class Viewer {
  constructor(svg) {
    this.svg = svg; const doc = parseMarkup(svg.replace(/<!DOCTYPE[^>]*>/i, "")); this.root = doc.root;
    let cssText = decode(doc.css).replace(/@supports[^{]*\{((?:[^{}]*\{[^{}]*\})*)\s*\}/g, "$1");
    this.faces = []; cssText = cssText.replace(/@font-face\s*\{([^}]*)\}/g, (_, b) => { this.faces.push(b); return ""; });
    const css = parseCss(cssText); this.keyframes = css.keyframes; this.media = css.media;
    this.rules = css.rules.map((r, n) => ({ sel: parseSelector(r.sel), d: r.decls, n })).filter((r) => r.sel != null).map((r) => ({ ...r, s: spec(r.sel) })).sort((a, b) => a.s - b.s || a.n - b.n);
    this.byLast = new Map(); this.generic = [];
    for (const r of this.rules) { const c = r.sel[r.sel.length - 1].c; const k = c.cls[0] ? "." + c.cls[0] : c.id[0] ? "#" + c.id[0] : null; if (k) { if (!this.byLast.has(k)) this.byLast.set(k, []); this.byLast.get(k).push(r); } else this.generic.push(r); }
    this.ids = new Map(); this.dupIds = new Set();
    for (const el of walk(this.root)) { const id = el.attrs?.id; if (id != null) { if (this.ids.has(id)) this.dupIds.add(id); else this.ids.set(id, el); } }
    this.svgEl = this.root.kids.find((e) => e.tag === "svg");
    this._faces();
    this.fontMiss = new Set();
  }
  _faces() {
    this.families = new Map();
    for (const b of this.faces) {
      const d = {}; const fam = /font-family\s*:\s*["']?([^"';]+)["']?/.exec(b)?.[1]?.trim(); const src = /base64,([A-Za-z0-9+/=]+)/.exec(b)?.[1];
      if (fam == null || src == null) continue;
      if (!this.families.has(fam)) this.families.set(fam, []); this.families.get(fam).push({ src, font: null, d });
    }
  }
  /** decls that apply to an element, in cascade order (animation longhands folded in). */
  _style(el) {
    if (el._style) return el._style; const d = {};
    for (const k of PRES) if (el.attrs[k] != null) d[k] = el.attrs[k];
    const cand = [...this.generic]; for (const c of classesOf(el)) cand.push(...(this.byLast.get("." + c) ?? [])); if (el.attrs.id) cand.push(...(this.byLast.get("#" + el.attrs.id) ?? []));
    cand.sort((a, b) => a.s - b.s || a.n - b.n);
    const put = (x) => { for (const k in x) { if (k === "animation") for (const q of Object.keys(d)) if (q.startsWith("animation-")) delete d[q]; d[k] = x[k]; } };
    for (const r of cand) if (matches(el, r.sel)) put(r.d);
    if (el.attrs.style) put(declsOf(decode(el.attrs.style)));
    return (el._style = d);
  }
  _anims(el, vars) {
    if (el._anims) return el._anims; const d = this._style(el); const sub = (s) => { for (let i = 0; i < 5 && s.includes("var("); i++) s = s.replace(/var\(\s*(--[\w-]+)\s*(?:,([^()]*))?\)/g, (_, n, f) => vars[n] ?? f ?? "0s"); return s.replace(/calc\(\s*(-?[\d.]+)(m?s)\s*\)/g, "$1$2"); };
    const list = d.animation && d.animation !== "none" ? parseAnimation(sub(d.animation)) : [];
    const split = (k) => (d[k] == null ? null : sub(d[k]).split(/,(?![^(]*\))/).map((x) => x.trim()));
    const names = split("animation-name"); if (names) { while (list.length < names.length) list.push({ name: null, dur: 0, delay: 0, it: 1, tf: "ease", fill: "none", dir: "normal", paused: false }); names.forEach((n, i) => { list[i].name = n; }); }
    const secs = (s) => (s.endsWith("ms") ? parseFloat(s) : parseFloat(s) * 1000);
    for (const [k, f] of [["animation-duration", (a, v) => { a.dur = secs(v); }], ["animation-delay", (a, v) => { a.delay = secs(v); }], ["animation-iteration-count", (a, v) => { a.it = v === "infinite" ? Infinity : +v; }], ["animation-timing-function", (a, v) => { a.tf = v; }], ["animation-fill-mode", (a, v) => { a.fill = v; }], ["animation-direction", (a, v) => { a.dir = v; }], ["animation-play-state", (a, v) => { a.paused = v === "paused"; }]]) { const vs = split(k); if (vs) list.forEach((a, i) => f(a, vs[i % vs.length])); }
    return (el._anims = list);
  }
  glyph(family, ch) {
    const cp = ch.codePointAt(0); const list = this.families.get(family); if (!list) { this.fontMiss.add(family); return { what: null, adv: 0.6, unknown: family }; }
    for (let i = list.length - 1; i >= 0; i--) {
      const f = list[i]; f.font ??= openFont(f.src);
      if (!f.font.has(cp)) continue; return f.font.get(cp);
    }
    return { what: null, adv: 0.6, missing: true };
  }
  /** Everything on screen at time t (ms): glyphs and tagged shapes, in paint order, in root coordinates. */
  at(t, o = {}) {
    const out = []; const vb = (this.svgEl.attrs.viewBox ?? "").split(/[\s,]+/).map(Number); const W = vb[2] || parseFloat(this.svgEl.attrs.width), H = vb[3] || parseFloat(this.svgEl.attrs.height);
    const minO = o.minOpacity ?? 0.02;
    const base = { m: I, op: 1, vis: "visible", clips: o.open ? [] : [[0, 0, W, H]], ref: { w: W, h: H }, inh: {}, vars: {}, ev: true };
    const visit = (el, c0, viaUse) => {
      if (el.tag === "#text") return;
      if (["defs", "clipPath", "mask", "symbol", "style", "title", "desc", "metadata", "linearGradient", "radialGradient", "pattern", "filter", "marker"].includes(el.tag) && !(viaUse && el.tag === "symbol")) return;
      const d = this._style(el); const c = { ...c0, inh: { ...c0.inh } };
      let own = null; for (const k in d) if (k.startsWith("--")) { own ??= { ...c0.vars }; own[k] = d[k]; } if (own) c.vars = own;
      const an = this._anims(el, c.vars); const get = (p) => { if (an.length) { const v = valueAt(an, this.keyframes, p, t); if (v != null) return v; } return d[p]; };
      if (get("display") === "none") return;
      for (const p of INHERIT) { const v = get(p); if (v != null && v !== "inherit") c.inh[p] = v; }
      const op = get("opacity"); if (op != null) { c.op *= Math.max(0, Math.min(1, parseFloat(op))); }
      if (c.op < minO) return;
      const css = get("transform"); let m;
      if (css != null) {
        m = parseTransform(css, c.ref, true);
        const org = get("transform-origin") ?? d["transform-origin"]; const box = d["transform-box"];
        if (org && !(m[0] === 1 && m[1] === 0 && m[2] === 0 && m[3] === 1)) { const bb = box === "fill-box" ? this._bbox(el) : { x: 0, y: 0, w: c.ref.w, h: c.ref.h }; const kw = { left: "0%", top: "0%", center: "50%", right: "100%", bottom: "100%" }; const [ox, oy] = org.split(/\s+/).map((x) => kw[x] ?? x); if (bb) { const px = bb.x + len(ox, bb.w), py = bb.y + len(oy ?? "50%", bb.h); m = mul(mul([1, 0, 0, 1, px, py], m), [1, 0, 0, 1, -px, -py]); } }
      } else m = parseTransform(el.attrs.transform, c.ref, false);
      if (m !== I) c.m = mul(c.m, m);
      if (el.tag === "svg" && el !== this.svgEl) {
        const x = parseFloat(el.attrs.x ?? 0), y = parseFloat(el.attrs.y ?? 0), w = len(el.attrs.width ?? "100%", c.ref.w), h = len(el.attrs.height ?? "100%", c.ref.h);
        c.m = mul(c.m, [1, 0, 0, 1, x, y]); if ((d.overflow ?? el.attrs.overflow) !== "visible") c.clips = [...c.clips, rectOf(c.m, 0, 0, w, h)];
        const v = (el.attrs.viewBox ?? "").split(/[\s,]+/).map(Number); if (v.length === 4) { let kx = w / v[2], ky = h / v[3]; if ((el.attrs.preserveAspectRatio ?? "") !== "none") kx = ky = Math.min(kx, ky); c.m = mul(c.m, [kx, 0, 0, ky, (w - v[2] * kx) / 2 - v[0] * kx, (h - v[3] * ky) / 2 - v[1] * ky]); c.ref = { w: v[2], h: v[3] }; } else c.ref = { w, h };
      }
      const cp = get("clip-path"); if (cp && cp !== "none") {
        const u = /url\(["']?#([^"')]+)["']?\)/.exec(cp);
        if (u) { const r = this._clip(u[1], t); if (r === undefined) out.push({ kind: "missing-ref", id: u[1] }); else if (r) c.clips = [...c.clips, rectOf(c.m, ...r)]; }
        else { const q = /^inset\(([^)]*)\)/.exec(cp); if (q) { const a = q[1].trim().split(/\s+/).map(parseFloat); const [T, R, B, L] = [a[0], a[1] ?? a[0], a[2] ?? a[0], a[3] ?? a[1] ?? a[0]]; if (/%/.test(q[1]) && (T + B >= 99.9 || R + L >= 99.9)) return; if (/%/.test(q[1]) && o.insetBox !== false) c.clips = [...c.clips, rectOf(c.m, L / 100 * c.ref.w, T / 100 * c.ref.h, c.ref.w * (1 - (R + L) / 100), c.ref.h * (1 - (T + B) / 100))]; } const k = /^circle\(([\d.]+)/.exec(cp); if (k && parseFloat(k[1]) < 0.01) return; }
      }
      const anim = classesOf(el);
      if (o.tag) { const r = o.tag(el, c, get); if (r != null) out.push(r); }
      if (el.tag === "use") { const id = (el.attrs.href ?? el.attrs["xlink:href"] ?? "").slice(1); const target = this.ids.get(id); if (!target) { out.push({ kind: "missing-ref", id }); return; } const cc = { ...c, m: mul(c.m, [1, 0, 0, 1, parseFloat(el.attrs.x ?? 0), parseFloat(el.attrs.y ?? 0)]) }; visit(target, cc, true); return; }
      if (el.tag === "text") { if ((c.inh.visibility ?? "visible") !== "hidden") this._text(el, c, out, t, o.cut); return; }
      void anim;
      if (o.shapes && SHAPES.has(el.tag) && (c.inh.visibility ?? "visible") !== "hidden") out.push({ kind: "shape", tag: el.tag, el, m: c.m, op: c.op, fill: d.fill ?? c.inh.fill, stroke: d.stroke ?? el.attrs.stroke, ...(el.tag === "rect" ? { w: parseFloat(get("width") ?? el.attrs.width), h: parseFloat(get("height") ?? el.attrs.height) } : {}) });
      for (const k of el.kids) visit(k, c);
    };
    visit(this.svgEl, base); return out;
  }
  /** Texts a screen reader is given. */
  get titles() { const out = []; for (const el of walk(this.root)) if (el.tag === "title") out.push(decode(el.kids.map((k) => k.text ?? "").join(""))); return out; }
  _clip(id, t) {
    const el = this.ids.get(id); if (!el) return undefined; if (el._clip !== undefined) return el._clip;
    const one = el.kids.filter((k) => k.tag !== "#text");
    if (one.length === 1 && one[0].tag === "rect" && el.attrs.clipPathUnits === "userSpaceOnUse" && this._anims(one[0], {}).length > 0) { // a box resized about a fixed point
      const a = one[0].attrs, d = this._style(one[0]); const tf = valueAt(this._anims(one[0], {}), this.keyframes, "transform", t) ?? "none"; const m = parseTransform(tf, { w: 0, h: 0 }, true); const [ox, oy] = (d["transform-origin"] ?? "0 0").split(/\s+/).map(parseFloat);
      if (m[1] === 0 && m[2] === 0) return [ox + (+a.x - ox) * m[0] + m[4], oy + (+a.y - oy) * m[3] + m[5], a.width * m[0], a.height * m[3]];
      return null;
    }
    const kids = el.kids.filter((k) => k.tag !== "#text"); if (kids.length === 1 && kids[0].tag === "rect" && !el.attrs.transform && el.attrs.clipPathUnits !== "objectBoundingBox" && !kids[0].attrs.transform && this._anims(kids[0], {}).length === 0) { const a = kids[0].attrs; return (el._clip = [+(a.x ?? 0), +(a.y ?? 0), +a.width, +a.height]); }
    return (el._clip = null);
  }
  _bbox(el) { let b = null; for (const e of walk(el)) { if (e.tag === "circle" && e === el) { const r = +e.attrs.r; return { x: e.attrs.cx - r, y: e.attrs.cy - r, w: 2 * r, h: 2 * r }; } if (e.tag === "rect") { const x = +(e.attrs.x ?? 0), y = +(e.attrs.y ?? 0), w = +e.attrs.width, h = +e.attrs.height; b = b ? { x: Math.min(b.x, x), y: Math.min(b.y, y), x2: Math.max(b.x2, x + w), y2: Math.max(b.y2, y + h) } : { x, y, x2: x + w, y2: y + h }; } } return b && { x: b.x, y: b.y, w: b.x2 - b.x, h: b.y2 - b.y }; }
  _text(el, c, out, t, cut) {
    const pos = { x: 0, y: 0 };
    const runEl = (e, inh) => {
      const d = e === el ? {} : this._style(e); const my = { ...inh }; for (const p of INHERIT) if (d[p] != null) my[p] = d[p];
      const xs = e.attrs.x?.trim().split(/[\s,]+/).map(Number), ys = e.attrs.y?.trim().split(/[\s,]+/).map(Number), dx = e.attrs.dx?.trim().split(/[\s,]+/).map(Number), dy = e.attrs.dy?.trim().split(/[\s,]+/).map(Number); let n = 0;
      for (const k of e.kids) {
        if (k.tag === "tspan") { runEl(k, my); continue; } if (k.tag !== "#text") continue;
        for (const ch of decode(k.text)) {
          if (xs && n < xs.length) pos.x = xs[n]; if (ys && n < ys.length) pos.y = ys[n]; if (dx && n < dx.length) pos.x += dx[n]; if (dy && n < dy.length) pos.y += dy[n]; n++;
          const size = parseFloat(my["font-size"] ?? "16"); const fam = (my["font-family"] ?? "").split(",")[0].trim().replace(/^["']|["']$/g, "");
          const g = this.glyph(fam, ch); const [X, Y] = app(c.m, pos.x, pos.y); const w = g.adv * size;
          const hidden = my.visibility === "hidden"; const inside = c.clips.every((r) => X >= r[0] - 0.6 && X < r[2] - 0.4 && Y > r[1] + 0.4 && Y - size * 0.5 < r[3] - 0.4);
          // with `cut`: whatever a clip may show a part of, flagged when it may also hide a part
          const sx = Math.abs(c.m[0]), sy = Math.abs(c.m[3]); const bx = [X, Y - size * sy, X + w * sx, Y + size * sy * 0.3];
          const shown = cut ? c.clips.every((r) => bx[0] < r[2] + 2 && bx[2] > r[0] - 2 && bx[1] < r[3] + 2 && bx[3] > r[1] - 2) : inside; const part = cut && !c.clips.every((r) => bx[0] > r[0] - 0.8 && bx[2] < r[2] + 0.8 && bx[1] > r[1] + 0.8 && bx[3] < r[3] - 0.8);
          if (!hidden && shown && g.what !== undefined && !g.blank) out.push({ kind: "glyph", ch: g.what?.ch ?? (g.missing ? "(no glyph)" : g.unknown ? `(${g.unknown}:${ch})` : "(wrong outline)"), font: g.what?.font ?? null, x: X, y: Y, size: size * c.m[0], op: c.op, fill: my.fill, fam, el, m: c.m, ...(cut ? { cut: part } : {}) });
          pos.x += w;
        }
      }
    };
    runEl(el, c.inh); void t;
  }
}
function rectOf(m, x, y, w, h) { const p = [app(m, x, y), app(m, x + w, y), app(m, x, y + h), app(m, x + w, y + h)]; return [Math.min(...p.map((q) => q[0])), Math.min(...p.map((q) => q[1])), Math.max(...p.map((q) => q[0])), Math.max(...p.map((q) => q[1]))]; }
let fk = null; const fontMemo = new Map();
function openFont(b64) {
  if (fontMemo.has(b64)) return fontMemo.get(b64);
  fk ??= repoRequire("fontkit"); const f = fk.create(Buffer.from(b64, "base64")); const memo = new Map(); const set = new Set(f.characterSet);
  const api = { has: (cp) => set.has(cp), get: (cp) => { if (!memo.has(cp)) { const g = f.glyphForCodePoint(cp); const bb = g.path.bbox; const k = 1000 / f.unitsPerEm; const w = (bb.maxX - bb.minX) * k, h = (bb.maxY - bb.minY) * k; const empty = g.path.commands.length === 0; memo.set(cp, { adv: g.advanceWidth / f.unitsPerEm, blank: empty, what: empty ? null : decodeBox(w, h), box: [w, h] }); } return memo.get(cp); } };
  if (fontMemo.size > 200) fontMemo.clear(); fontMemo.set(b64, api); return api;
}
