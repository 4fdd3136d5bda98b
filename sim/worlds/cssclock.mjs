// A viewer's clock for generated SVG: parses the CSS of the markup (rules,
// @keyframes, animation shorthands) and evaluates any animated property of any
// class at any time, per CSS Animations L1 (per-keyframe timing functions,
// fill modes, delays, iteration counts, play through `linear`, `steps()`, ...).

const NAMED = { linear: null, ease: [0.25, 0.1, 0.25, 1], "ease-in": [0.42, 0, 1, 1], "ease-out": [0, 0, 0.58, 1], "ease-in-out": [0.42, 0, 0.58, 1] };
export function bezier([x1, y1, x2, y2], x) {
  if (x <= 0) return 0; if (x >= 1) return 1;
  const f = (a, b, t) => 3 * a * t * (1 - t) ** 2 + 3 * b * t * t * (1 - t) + t ** 3;
  let lo = 0, hi = 1; for (let i = 0; i < 60; i++) { const m = (lo + hi) / 2; if (f(x1, x2, m) < x) lo = m; else hi = m; }
  return f(y1, y2, (lo + hi) / 2);
}
export function stepsFn(n, pos, x) {
  if (pos === "jump-start" || pos === "start") return Math.min(1, (Math.floor(x * n + 1e-9) + 1) / n);
  if (pos === "jump-none") return Math.min(1, Math.floor(x * n + 1e-9) / (n - 1));
  if (pos === "jump-both") return Math.min(1, (Math.floor(x * n + 1e-9) + 1) / (n + 1));
  return Math.min(1, Math.floor(x * n + 1e-9) / n);
}
export function timing(tf, x) {
  tf = (tf ?? "ease").trim();
  if (tf in NAMED) return NAMED[tf] ? bezier(NAMED[tf], x) : x;
  if (tf === "step-end") return x >= 1 ? 1 : 0;
  if (tf === "step-start") return 1;
  let m = /^cubic-bezier\(([^)]*)\)$/.exec(tf); if (m) return bezier(m[1].split(",").map(Number), x);
  m = /^steps\(\s*(\d+)\s*(?:,\s*([a-z-]+)\s*)?\)$/.exec(tf); if (m) return stepsFn(Number(m[1]), m[2] ?? "end", x);
  m = /^linear\((.*)\)$/.exec(tf);
  if (m) { // piecewise linear with optional percentages
    const pts = m[1].split(",").map((s) => { const p = s.trim().split(/\s+/); return { v: Number(p[0]), at: p[1] ? parseFloat(p[1]) / 100 : null }; });
    pts[0].at ??= 0; pts[pts.length - 1].at ??= 1;
    for (let i = 1; i < pts.length; i++) if (pts[i].at == null) { let j = i; while (pts[j].at == null) j++; for (let k = i; k < j; k++) pts[k].at = pts[i - 1].at + (pts[j].at - pts[i - 1].at) * (k - i + 1) / (j - i + 1); }
    if (x <= pts[0].at) return pts[0].v; for (let i = 1; i < pts.length; i++) if (x <= pts[i].at) { const s = pts[i].at - pts[i - 1].at; return s === 0 ? pts[i].v : pts[i - 1].v + (pts[i].v - pts[i - 1].v) * (x - pts[i - 1].at) / s; }
    return pts[pts.length - 1].v;
  }
  throw new Error(`timing function not understood: ${tf}`);
}
const decls = (s) => { const o = {}; let depth = 0, cur = ""; for (const ch of s + ";") { if (ch === "(") depth++; if (ch === ")") depth--; if (ch === ";" && depth === 0) { const i = cur.indexOf(":"); if (i > 0) o[cur.slice(0, i).trim()] = cur.slice(i + 1).replace(/!important/, "").replace(/%(?=[\d.+-])/g, "% ").replace(/\)(?=[a-z])/g, ") ").trim(); cur = ""; } else cur += ch; } return o; };
const splitTop = (s, sep) => { const out = []; let d = 0, cur = ""; for (const ch of s) { if (ch === "(") d++; if (ch === ")") d--; if (ch === sep && d === 0) { out.push(cur); cur = ""; } else cur += ch; } out.push(cur); return out.map((x) => x.trim()).filter(Boolean); };
const secs = (s) => (s.endsWith("ms") ? parseFloat(s) : parseFloat(s) * 1000);

export function parseAnimation(v) { // animation shorthand list → specs (times in ms)
  return splitTop(v, ",").map((one) => {
    const a = { name: null, dur: 0, delay: 0, it: 1, tf: "ease", fill: "none", dir: "normal", paused: false }; let times = 0;
    for (const tok of splitTop(one.replace(/\s+/g, " "), " ")) {
      if (/^-?[\d.]+(e-?\d+)?m?s$/.test(tok)) { if (times++ === 0) a.dur = secs(tok); else a.delay = secs(tok); }
      else if (tok === "infinite") a.it = Infinity;
      else if (/^[\d.]+$/.test(tok)) a.it = Number(tok);
      else if (tok in NAMED || /^(step-start|step-end|steps\(|cubic-bezier\(|linear\()/.test(tok)) a.tf = tok;
      else if (["forwards", "backwards", "both"].includes(tok)) a.fill = tok;
      else if (["normal", "reverse", "alternate", "alternate-reverse"].includes(tok)) a.dir = tok;
      else if (tok === "paused") a.paused = true; else if (tok === "running") a.paused = false;
      else if (tok !== "none") a.name = tok;
    }
    return a;
  });
}

/** Parse CSS text into {rules: [{sel, decls}], keyframes: Map} (media blocks are kept apart). */
export function parseCss(css) {
  css = css.replace(/\/\*[\s\S]*?\*\//g, "");
  const rules = [], media = [], keyframes = new Map(); let i = 0;
  while (i < css.length) {
    const open = css.indexOf("{", i); if (open < 0) break;
    const head = css.slice(i, open).trim(); let d = 1, j = open + 1; for (; j < css.length && d > 0; j++) { if (css[j] === "{") d++; else if (css[j] === "}") d--; }
    if (d !== 0) throw new Error("unbalanced CSS");
    const body = css.slice(open + 1, j - 1); i = j;
    if (head.startsWith("@keyframes")) {
      const stops = []; const re = /([^{}]+)\{([^{}]*)\}/g; let m;
      while ((m = re.exec(body))) for (const k of m[1].split(",")) { const t = k.trim(); stops.push({ at: t === "from" ? 0 : t === "to" ? 1 : parseFloat(t) / 100, d: decls(m[2]) }); }
      keyframes.set(head.slice(10).trim(), stops.map((s, n) => ({ ...s, n })).sort((a, b) => a.at - b.at || a.n - b.n));
    } else if (head.startsWith("@media")) media.push({ head, body });
    else if (!head.startsWith("@")) for (const sel of splitTop(head, ",")) rules.push({ sel, decls: decls(body) });
  }
  return { rules, keyframes, media };
}

/** Progress of an animation at time t: null when it has no effect, else {p, iter}. */
export function progress(a, t) {
  const local = t - a.delay; if (a.dur <= 0) { if (local < 0) return a.fill === "backwards" || a.fill === "both" ? { p: 0 } : null; return a.fill === "forwards" || a.fill === "both" ? { p: 1 } : null; }
  const active = a.dur * a.it;
  let x;
  if (local < 0) { if (a.fill !== "backwards" && a.fill !== "both") return null; x = 0; }
  else if (local >= active) { if (a.fill !== "forwards" && a.fill !== "both") return null; x = a.it; }
  else x = local / a.dur;
  let iter = Math.floor(x), p = x - iter; if (local >= active && p === 0 && x > 0) { iter -= 1; p = 1; }
  const rev = a.dir === "reverse" || (a.dir === "alternate" && iter % 2 === 1) || (a.dir === "alternate-reverse" && iter % 2 === 0);
  return { p: rev ? 1 - p : p, iter };
}

/** Interval of `stops` holding progress p for property `prop`: {from, to, k} with k eased into [0,1]. */
export function interval(stops, prop, p, tf) {
  const s = stops.filter((x) => prop in x.d); if (s.length === 0) return null;
  let a = null, b = null;
  for (const x of s) { if (x.at <= p + 1e-12) a = x; }
  for (const x of s) { if (x.at > p + 1e-12) { b = x; break; } }
  if (a == null) return { from: null, to: b.d[prop], k: p / b.at };
  if (b == null) return { from: a.d[prop], to: a.at >= 1 - 1e-12 ? a.d[prop] : null, k: a.at >= 1 - 1e-12 ? 0 : 0, last: true };
  return { from: a.d[prop], to: b.d[prop], k: timing(a.d["animation-timing-function"] ?? tf, (p - a.at) / (b.at - a.at)) };
}
const nums = (s) => (s.match(/-?[\d.]+(?:e-?\d+)?/g) ?? []).map(Number);
export const isDiscrete = (prop) => prop === "visibility" || prop === "display";

/** Value of `prop` under animation list at t; undefined when no animation sets it. Numeric lists are interpolated. */
export function valueAt(anims, keyframes, prop, t) {
  let out;
  for (const a of anims) {
    const stops = keyframes.get(a.name); if (stops == null) continue;
    const pr = progress(a, t); if (pr == null) continue;
    const iv = interval(stops, prop, pr.p, a.tf); if (iv == null) continue;
    if (iv.from == null || iv.to == null) { out = iv.from ?? iv.to; continue; }
    if (iv.from === iv.to) { out = iv.from; continue; }
    if (prop === "visibility") { const vis = iv.from === "visible" || iv.to === "visible"; out = vis ? (iv.k <= 0 ? iv.from : iv.k >= 1 ? iv.to : "visible") : iv.k < 0.5 ? iv.from : iv.to; continue; }
    if (prop === "display") { out = iv.k < 1 && (iv.from !== "none" || iv.to !== "none") ? (iv.k <= 0 ? iv.from : iv.from === "none" ? iv.to : iv.from) : iv.to; continue; }
    const fn = iv.from.replace(/-?[\d.]+(e-?\d+)?/g, "#"), fn2 = iv.to.replace(/-?[\d.]+(e-?\d+)?/g, "#");
    if (fn.replace(/px|%/g, "") !== fn2.replace(/px|%/g, "")) { out = iv.k < 0.5 ? iv.from : iv.to; continue; }
    const x = nums(iv.from), y = nums(iv.to); let n = 0;
    out = iv.from.replace(/-?[\d.]+(?:e-?\d+)?/g, () => { const v = x[n] + (y[n] - x[n]) * iv.k; n++; return String(v); });
  }
  return out;
}
export { nums };

/** Minimal SVG/HTML element tree of generated markup. */
export function parseMarkup(src) {
  const root = { tag: "#root", attrs: {}, kids: [], parent: null }; let cur = root; const styles = [];
  const re = /<!--[\s\S]*?-->|<\?[\s\S]*?\?>|<!\[CDATA\[([\s\S]*?)\]\]>|<style(?:\s[^>]*)?(?<!\/)>([\s\S]*?)<\/style>|<(\/?)([a-zA-Z][\w:-]*)((?:\s+[\w:@.-]+\s*=\s*(?:"[^"]*"|'[^']*'))*)\s*(\/?)>|([^<]+)/g; let m; let last = 0;
  while ((m = re.exec(src))) {
    if (m.index !== last) throw new Error(`markup not understood near ${src.slice(last, last + 80)}`);
    last = re.lastIndex;
    if (m[2] != null) { styles.push(m[2]); continue; }
    if (m[7] != null) { if (m[7].trim()) cur.kids.push({ tag: "#text", text: m[7], parent: cur, kids: [], attrs: {} }); continue; }
    if (m[4] == null) continue;
    if (m[3] === "/") { if (cur.tag !== m[4]) throw new Error(`mismatched </${m[4]}> in <${cur.tag}>`); cur = cur.parent; continue; }
    const el = { tag: m[4], attrs: {}, kids: [], parent: cur }; for (const a of m[5].matchAll(/([\w:@.-]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) el.attrs[a[1]] = a[2] ?? a[3];
    cur.kids.push(el); if (m[6] !== "/") cur = el;
  }
  if (last !== src.length) throw new Error(`markup not understood near ${src.slice(last, last + 80)}`);
  if (cur !== root) throw new Error(`unclosed <${cur.tag}>`);
  return { root, css: styles.join("\n") };
}
export function* walk(el) { yield el; for (const k of el.kids) yield* walk(k); }
