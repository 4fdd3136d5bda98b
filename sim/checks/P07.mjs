// P07 — scroll capture: segments follow the pattern, the walk is bounded, and the composed SVG plays it back.
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { parseCss, parseAnimation, parseMarkup, valueAt, walk, timing, nums } from "../worlds/cssclock.mjs";

const SETTLE = 230;
const clamp = (n, lo, hi) => Math.max(lo, Math.min(hi, n));

/** A scrolling page. Content changes only as a consequence of its own history (or, in the fault runs, of time). */
class ScrollPage {
  constructor(o) { Object.assign(this, o); this.x = o.x0 ?? 0; this.y = o.y0 ?? 0; this.version = 0; this.grown = 0; this.scrolls = 0; this.selfMoves = 0; this.anim = null; this.gone = false; }
  get maxX() { return Math.max(0, this.w - this.vw); } get maxY() { return Math.max(0, this.h - this.vh); }
  round(v) { return this.rounding === "floor" ? Math.floor(v) : this.rounding === "round" ? Math.round(v) : v; }
  place(x, y) { this.x = this.round(clamp(x, 0, this.maxX)); this.y = this.round(clamp(y, 0, this.maxY)); this.scrolls++; this.react(); }
  react() { // lazy loading: each threshold fires once, an endless feed every time its end is near
    for (const t of this.lazy) if (!t.done && this.y >= t.past) { t.done = true; if (t.delay > 0) this.later?.(t.delay, () => this.resize(t.dh, t.touch)); else this.resize(t.dh, t.touch); }
    if (this.endless > 0 && this.y >= this.maxY - 50) { if (this.feedDelay > 0 && this.later) this.later(this.feedDelay, () => this.resize(this.endless)); else this.resize(this.endless); }
  }
  resize(dh, touch = true) { this.h = Math.max(this.vh, this.h + dh); if (touch) this.version++; const c = clamp(this.y, 0, this.maxY); if (c !== this.y) { this.y = this.round(c); this.selfMoves++; } }
  tree() {
    const { x, y } = this; const kids = [];
    const el = (tag, text, ex, ey, position) => ({ tag, text, x: ex, y: ey, width: 50, height: 20, styles: { position: position ?? "static" }, children: [] });
    kids.push(el("p", `at:${x}:${y}:v${this.version}`, 0, 0));
    for (const m of this.marks) kids.push(el("h2", m.sel, m.x - x, m.y - y));
    if (this.fixed) kids.push(el("nav", "fixed", 0, 0, "fixed"));
    if (this.sticky != null && !(this.stickyGap && y > this.stickyGap[0] && y < this.stickyGap[1])) kids.push({ ...el("th", "sticky", 0, Math.max(0, this.sticky - y), "sticky"), width: 300 });
    return [{ ...el("body", "", -x, -y), width: this.w, height: this.h, children: kids }];
  }
}

const EASE = ["linear", "ease", "ease-in", "ease-out", "ease-in-out", "step-start", "step-end", "cubic-bezier(0.2, -0.5, 0.6, 1.4)", "steps(4)", "steps(3, jump-none)", "steps(5, jump-start)"];
const easeTf = (e) => e ?? "linear";

/** Random pattern: own AST plus its source text. */
function genPattern(c, page, o) {
  const dur = (ms) => (ms % 1000 === 0 && c.chance(0.5, "unit") ? `${ms / 1000}s` : `${ms}ms`);
  const len = (allowPct) => (allowPct && c.chance(0.15, "pct") ? { v: c.pick([10, 25, 33.3, 50, 100], "pct"), u: "%" } : { v: c.pick([300, 720, 100, 40, 1000, 2500, 333.5, 7], "px"), u: "px" });
  const anchor = (axis, until) => {
    const names = axis === "y" ? ["bottom", "top", "end", "start"] : ["right", "left", "end.x", "start.x"];
    let name = c.pick(names, "anchor"), sel = null;
    if (page.marks.length && c.chance(0.2, "selector")) sel = c.pick(page.marks, "mark").sel;
    if (o.missing && c.chance(0.15, "missing-selector")) sel = ".never";
    const offs = c.chance(0.4, "off") ? [{ op: c.pick(["-", "+"], "offop"), ...len(true) }] : [];
    const src = (sel ? `selector("${sel}")${axis === "x" ? ".x" : ""}` : name) + offs.map((f) => ` ${f.op} ${f.v}${f.u}`).join("");
    return { sel, name: sel ? null : name.replace(".x", ""), axis, offs, src };
  };
  const axisOf = () => (o.axes === "both" ? c.pick(["y", "x"], "axis") : o.axes);
  const action = () => {
    if (c.chance(0.25, "pause")) { const ms = c.pick([500, 1000, 2000, 250, o.longPause ? 30000 : 1500], "pms"); return { k: "pause", ms, src: (c.chance(0.3, "pp") ? "pause:" : "") + dur(ms) }; }
    const axis = axisOf(); let src, a;
    if (c.chance(0.3, "abs")) { const t = anchor(axis); const dir = c.chance(0.25, "dir") ? c.pick(axis === "y" ? ["down", "up"] : ["right", "left"], "dirv") : null; a = { k: "scroll", axis, t, dir }; src = (dir ? dir + ":" : "") + t.src; }
    else { const l = len(true); const neg = c.chance(0.15, "neg"); let dir = c.chance(0.45, "dir") ? c.pick(axis === "y" ? ["down", "up"] : ["right", "left"], "dirv") : null; if (axis === "x" && dir == null) dir = "right"; a = { k: "scroll", axis, d: (neg ? -1 : 1) * l.v, u: l.u, dir }; src = `${dir ? dir + ":" : ""}${neg ? "-" : ""}${l.v}${l.u}`; }
    if (c.chance(0.25, "dur")) { a.ms = c.pick([400, 1000, 3000, 150, 20000], "ms"); src += "/" + dur(a.ms); }
    else if (c.chance(0.25, "speed")) { a.speed = c.pick([800, 300, 1200.5, 4000], "sp"); src += `@${a.speed}pxps`; }
    if (c.chance(0.25, "ease")) { a.ease = c.pick(EASE, "easev"); src += `[${a.ease}]`; }
    return { ...a, src };
  };
  const until = () => { if (c.chance(0.35, "count")) { const n = 1 + c.below(4, "n"); return { k: "count", n, src: ` until ${n} times` }; } const t = anchor(axisOf(), true); return { k: "pos", t, src: ` until ${t.src}` }; };
  const flat = () => { const acts = Array.from({ length: 1 + c.below(3, "acts") }, action); const u = c.chance(0.4, "until") ? until() : null; return { k: "flat", acts, u, src: acts.map((a) => a.src).join(",") + (u ? u.src : "") }; };
  const pattern = (depth) => { const segs = []; const n = 1 + c.below(depth === 0 ? 3 : 2, "segs"); for (let i = 0; i < n; i++) { const prev = segs[segs.length - 1]; if (depth < 2 && (c.chance(0.25, "group") || (prev && prev.k === "flat" && prev.u == null))) { const p = pattern(depth + 1); const u = c.chance(0.5, "guntil") ? until() : null; segs.push({ k: "group", p, u, src: `(${p.src})${u ? u.src : ""}` }); } else { if (prev && prev.k === "flat" && prev.u == null) continue; segs.push(flat()); } } return { segs, src: segs.map((s) => s.src).join(", ") }; };
  return pattern(0);
}

/** What doc 37 prescribes on a page whose changes follow its scroll history alone. */
function reference(pat, page, o) {
  const out = []; let ops = 0; class Stop extends Error {}
  const cap = 400;
  const resolveT = (t, axis) => {
    let base; const tA = t.sel ? t.axis : axis;
    if (t.sel) { const m = page.marks.find((x) => x.sel === t.sel); if (!m) throw new Stop("missing"); base = tA === "x" ? m.x : m.y; }
    else base = t.name === "bottom" ? page.maxY : t.name === "right" ? page.maxX : t.name === "end" ? (axis === "x" ? page.maxX : page.maxY) : 0;
    for (const f of t.offs) { const px = f.u === "px" ? f.v : f.v / 100 * (axis === "x" ? page.maxX : page.maxY); base += f.op === "+" ? px : -px; }
    return base;
  };
  const pos = (axis) => (axis === "x" ? page.x : page.y), max = (axis) => (axis === "x" ? page.maxX : page.maxY);
  const scroll = (a, lim) => {
    const { axis } = a; const cur = pos(axis); const sign = a.dir == null ? null : a.dir === "down" || a.dir === "right" ? 1 : -1;
    let delta; if (a.t) { delta = resolveT(a.t, axis) - cur; if (sign != null && delta !== 0 && Math.sign(delta) !== sign) delta = 0; }
    else delta = (sign ?? 1) * (a.u === "px" ? a.d : a.d / 100 * max(axis));
    const natural = clamp(cur + delta, 0, max(axis)); let dest = natural;
    if (lim && lim.axis === axis) { if (natural > lim.from && lim.target >= lim.from) dest = Math.min(natural, lim.target); else if (natural < lim.from && lim.target <= lim.from) dest = Math.max(natural, lim.target); }
    const rate = a.speed ?? o.speed; const full = a.ms ?? Math.round(Math.abs(natural - cur) / rate * 1000), low = a.ms ?? Math.min(full, Math.round(Math.abs(dest - cur) / rate * 1000));
    const view = axis === "x" ? page.vw : page.vh; const n = Math.max(1, Math.ceil(Math.abs(dest - cur) / view)); const dir = dest >= cur ? 1 : -1;
    const op = { low, full, n, axis };
    for (let i = 1; i <= n; i++) {
      const p = i === n ? dest : cur + dir * i * view;
      if (axis === "x") page.place(p, page.y); else page.place(page.x, p);
      out.push({ x: page.x, y: page.y, op, i, n, ease: a.ease, version: page.version });
      if (out.length > cap) throw new Stop("long");
    }
  };
  const body = (acts, lim) => { for (const a of acts) { if (a.k === "pause") out.push({ pause: a.ms }); else scroll(a, lim); if (out.length > cap || ++ops > 3000) throw new Stop("long"); } };
  const explicitUp = (seg, axis) => { const ds = []; const go = (s) => { if (s.k === "flat") for (const a of s.acts) { if (a.k === "scroll" && a.axis === axis) ds.push(a.t ? null : (a.dir === "up" || a.dir === "left" ? -1 : 1) * Math.sign(a.d)); } else for (const q of s.p.segs) go(q); }; go(seg); return ds.length > 0 && ds.every((d) => d === -1); };
  const rep = (seg, once, outer) => {
    const u = seg.u; if (!u) return once(outer);
    if (u.k === "count") { for (let i = 0; i < u.n; i++) once(outer); return; }
    let prev = null; const axis = u.t.axis; const up = explicitUp(seg, axis);
    for (let i = 0; i < 1000; i++) {
      if (++ops > 3000) throw new Stop("long");
      const target = resolveT(u.t, axis), cur = pos(axis);
      if (Math.abs(cur - target) < 0.5) break;
      if (up ? cur < target : target > 0 && cur >= target) break;
      if (!up && target < 0 && cur <= target) break;
      if (prev && prev.x === page.x && prev.y === page.y) break;
      prev = { x: page.x, y: page.y };
      once({ axis, from: cur, target, outer });
    }
  };
  // an inner limit applies before the enclosing one
  const scrollLim = (lim) => lim;
  const walkP = (p, outer) => { for (const s of p.segs) rep(s, (lim) => (s.k === "flat" ? s.acts.forEach((a) => body1(a, lim)) : walkP(s.p, lim)), outer); };
  const body1 = (a, lim) => { if (lim?.outer) return nested(a, lim); body([a], scrollLim(lim)); };
  const nested = (a, lim) => { // limits of several enclosing loops: capped by each in turn, innermost first
    if (a.k === "pause") return body([a], null);
    const lims = []; for (let l = lim; l; l = l.outer) lims.push(l);
    const { axis } = a; const cur = pos(axis); const on = lims.filter((l) => l.axis === axis);
    if (on.length <= 1) return body([a], on[0] ?? null);
    const sign = a.dir == null ? null : a.dir === "down" || a.dir === "right" ? 1 : -1;
    let delta; if (a.t) { delta = resolveT(a.t, axis) - cur; if (sign != null && delta !== 0 && Math.sign(delta) !== sign) delta = 0; } else delta = (sign ?? 1) * (a.u === "px" ? a.d : a.d / 100 * max(axis));
    let dest = clamp(cur + delta, 0, max(axis)); const nat = dest;
    for (const l of on) { if (dest > l.from && l.target >= l.from) dest = Math.min(dest, l.target); else if (dest < l.from && l.target <= l.from) dest = Math.max(dest, l.target); }
    scroll(a, { axis, from: nat > dest ? Math.min(dest, nat) - 1e-9 : Math.max(dest, nat) + 1e-9, target: dest });
  };
  let why = "end"; try { walkP(pat, null); } catch (e) { if (!(e instanceof Stop)) throw e; why = e.message; }
  return { out, why };
}

const stubCapture = `module.exports = new Proxy({ captureElementTree: (p, ...a) => p.__capture(false, a), captureElementTreeSelfContained: (p, ...a) => p.__capture(true, a) }, { get: (t, k) => k === "__esModule" ? true : t[k], has: () => true });`;
const stubRender = `const esc = (s) => String(s).replace(/[<>&"]/g, "_"); const one = (e) => '<g data-t="' + esc(e.tag) + '" data-x="' + e.x + '" data-y="' + e.y + '">' + esc(e.text ?? "") + (e.children ?? []).map(one).join("") + "</g>"; module.exports = new Proxy({ elementTreeToSvgInner: (t) => t.map(one).join("") }, { get: (t, k) => k === "__esModule" ? true : t[k], has: () => true });`;
const stubText = `module.exports = new Proxy({ resetGeneration() {}, getEmbeddedFontFaceCss: () => "", withRenderTextMode: (m, f) => f() , beginCharacterFallbackDocument() {}, endCharacterFallbackDocument() {} }, { get: (t, k) => k === "__esModule" ? true : t[k], has: () => true });`;

export default {
  id: "P07",
  entries: { ex: "src/scroll/executor.ts", pat: "src/scroll/pattern.ts", comp: "src/scroll/composer.ts", diff: "src/tree-ops/tree-diff.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture], [/src\/render\/element-tree-to-svg\.ts$/, stubRender], [/src\/render\/(text-to-path|font-resolution)\.ts$/, stubText]] },
  quick: { runs: 80000, cap: 75 }, thorough: { runs: 3000000, cap: 1500 },
  rule: "a run = one generated scroll pattern (nested groups, loops by count and by position in both directions, deltas, anchors, selectors, speeds, durations, easings, pauses) executed against one simulated page (sizes, rounding, smooth scrolling, inner scroller, lazy growth by scroll history or by time, endless feed, page latencies, slow captures, page closing) and played back from the composed SVG on a viewer clock; non-trivial = at least two captured segments or a reported error",
  assumptions: ["a page scrolls to the clamped position it is asked for", "capture of a page shows its state at one instant"],
  real: ["src/scroll/executor.ts (page-side functions included)", "src/scroll/pattern.ts", "src/scroll/composer.ts", "src/scroll/hoist-fixed.ts", "src/scroll/hoist-sticky.ts", "src/tree-ops/tree-diff.ts", "src/tree-ops/prune-tree.ts"],
  stub: ["page and DOM capture", "rendering of element trees to SVG", "font registry", "clock", "SVG viewer (CSS animation clock)"],
  simOpts: { stallProb: 0 },
  async run({ sim, choices, load }) {
    const c = choices; const timed = c.chance(0.35, "timed");
    const axes = c.weighted([[5, "y"], [1.5, "x"], [1, "both"]], "axes");
    const vw = c.pick([400, 1280], "vw"), vh = c.pick([800, 600, 333], "vh"); const inner = c.chance(0.25, "inner");
    const spec = {
      vw, vh, w: axes === "y" ? vw + c.pick([0, 0, 300], "w") : vw + c.pick([900, 3000, 50], "w"), h: vh + c.pick([3200, 1000, 5000, 0, 250, 9000], "h"),
      rounding: c.weighted([[6, "none"], [1, "floor"], [1, "round"]], "rounding"), marks: [], lazy: [], endless: 0, feedDelay: 0,
      fixed: c.chance(0.3, "fixed"), sticky: c.chance(0.25, "sticky") ? c.pick([0, 500, 1500], "stickyY") : null,
    };
    if (spec.sticky != null && c.chance(0.4, "sticky-gap")) { const g = c.below(spec.h, "gap"); spec.stickyGap = [g, g + c.pick([400, 1500], "gaplen")]; }
    if (c.chance(0.5, "marks")) for (let i = 0; i < 3; i++) spec.marks.push({ sel: `.m${i}`, x: c.below(spec.w, "mx"), y: c.below(spec.h, "my") });
    const dynamic = c.chance(0.4, "dynamic");
    if (dynamic) for (let i = 0; i < 1 + c.below(3, "nlazy"); i++) spec.lazy.push({ past: c.below(spec.h, "past"), dh: c.pick([600, 2000, -400], "dh"), delay: timed ? c.below(4000, "ldelay") : 0, touch: true });
    if (c.chance(0.06, "endless")) { spec.endless = c.pick([1500, 400], "feed"); spec.feedDelay = timed ? c.below(900, "fd") : 0; }
    const mk = () => new ScrollPage({ ...spec, marks: spec.marks, lazy: spec.lazy.map((l) => ({ ...l })) });
    const longPause = c.chance(0.1, "long-pause");
    const pat = genPattern(c, spec, { axes, missing: c.chance(0.1, "missing"), longPause });
    const speed = c.chance(0.3, "dspeed") ? c.pick([600, 3000], "sp") : 1500; const prescroll = c.chance(0.6, "prescroll");
    const start = prescroll || !c.chance(0.3, "scrolled-start") ? null : { x: axes === "y" ? 0 : c.below(600, "sx"), y: axes === "x" ? 0 : c.below(2000, "sy") };
    const maxTimeoutMs = c.weighted([[5, 60000], [2, 20000], [1, 3000]], "budget");
    const smooth = c.chance(0.2, "smooth"); const evalMax = timed && c.chance(0.5, "slow-eval") ? c.pick([40, 300, 2000], "evalMax") : 4; const capMax = timed && c.chance(0.5, "slow-capture") ? c.pick([500, 3000, 9000], "capMax") : 30;
    const closeAt = timed && c.chance(0.12, "page-closes") ? 1 + c.below(60, "closeAt") : Infinity;

    const proc = new SimProcess(sim, { name: "domotion" }); const g = makeGlobals(sim, proc, {}); const m = load(g);
    const page = mk(); if (start) { page.x = clamp(start.x, 0, page.maxX); page.y = clamp(start.y, 0, page.maxY); }
    page.later = (ms, fn) => sim.schedule(ms, fn, { label: "page:late-content" });
    let calls = 0, longestPause = 0; const caps = []; const logs = [];
    const goTo = (x, y, behavior) => {
      if (smooth && behavior !== "instant") { // CSS scroll-behavior: smooth — the position arrives over several frames
        sim.count("smooth-scroll"); const sx = page.x, sy = page.y, T = 300 + Math.min(500, Math.hypot(x - sx, y - sy) / 4), N = 6; page.anim = (page.anim ?? 0) + 1; const id = page.anim;
        for (let i = 1; i <= N; i++) sim.schedule(T * i / N, () => { if (page.anim === id) page.place(sx + (x - sx) * i / N, sy + (y - sy) * i / N); }, { label: "page:smooth" });
      } else { page.anim = (page.anim ?? 0) + 1; page.place(x, y); }
    };
    class HTMLElement {}
    const args2 = (a) => (a.length === 1 && typeof a[0] === "object" ? [a[0].left, a[0].top, a[0].behavior] : [a[0], a[1], undefined]);
    const innerEl = Object.assign(Object.create(HTMLElement.prototype), {
      scrollTo: (...a) => { const [x, y, b] = args2(a); goTo(x ?? page.x, y ?? page.y, b); }, getBoundingClientRect: () => ({ left: 60, top: 90, right: 60 + vw, bottom: 90 + vh, width: vw, height: vh, x: 60, y: 90 }),
      clientLeft: 0, clientTop: 0, contains: (o) => o.__mark != null,
    });
    for (const [k, f] of Object.entries({ scrollWidth: () => Math.max(page.w, vw), scrollHeight: () => Math.max(page.h, vh), clientWidth: () => vw, clientHeight: () => vh })) Object.defineProperty(innerEl, k, { get: f });
    Object.defineProperty(innerEl, "scrollLeft", { get: () => page.x, set: (v) => goTo(v, page.y) }); Object.defineProperty(innerEl, "scrollTop", { get: () => page.y, set: (v) => goTo(page.x, v) });
    const still = { scrollWidth: vw + 60, clientWidth: vw + 60, scrollHeight: vh + 90, clientHeight: vh + 90 };
    const markEl = (mk1) => Object.assign(Object.create(HTMLElement.prototype), { __mark: mk1, getBoundingClientRect: () => { const l = mk1.x - page.x + (inner ? 60 : 0), t = mk1.y - page.y + (inner ? 90 : 0); return { left: l, top: t, x: l, y: t, width: 50, height: 20, right: l + 50, bottom: t + 20 }; } });
    const document = { documentElement: inner ? still : innerEl, body: {}, scrollingElement: inner ? still : innerEl, querySelector: (s) => { if (inner && s === "#list") return innerEl; const k = spec.marks.find((x) => x.sel === s); return k ? markEl(k) : null; } };
    const window = { scrollTo: (...a) => { const [x, y, b] = args2(a); if (!inner) goTo(x ?? page.x, y ?? page.y, b); } };
    Object.defineProperty(window, "scrollX", { get: () => (inner ? 0 : page.x) }); Object.defineProperty(window, "scrollY", { get: () => (inner ? 0 : page.y) });
    for (const k of ["pageXOffset", "pageYOffset"]) Object.defineProperty(window, k, { get: () => (k === "pageXOffset" ? window.scrollX : window.scrollY) });
    const inPage = new Map();
    const alive = () => { if (++calls >= closeAt && !page.gone) { page.gone = true; sim.fired("page-closed"); } if (page.gone) throw new Error("page.evaluate: Target page, context or browser has been closed"); };
    const lat = (mx) => (mx <= 4 ? mx : c.delay(1, mx, "latency"));
    const fakePage = {
      evaluate: (fn, arg) => proc.later(lat(evalMax), () => { alive(); const src = String(fn); if (!inPage.has(src)) inPage.set(src, new Function("window", "document", "HTMLElement", `return (${src})`)(window, document, HTMLElement)); const r = inPage.get(src)(structuredClone(arg)); return r === undefined ? r : structuredClone(r); }, "page:evaluate"),
      waitForTimeout: (ms) => { longestPause = Math.max(longestPause, ms); return proc.later(Math.max(0, ms), () => { if (page.gone) throw new Error("Target closed"); }, "page:wait"); },
      __capture: (self, a) => proc.later(lat(capMax), () => { alive(); const t = page.tree(); caps.push({ x: page.x, y: page.y, version: page.version, at: sim.now, tree: t, self, moves: page.selfMoves, args: a }); return t; }, "page:capture"),
    };
    const desc = `"${pat.src}" on ${spec.w}x${spec.h} in ${vw}x${vh}`;
    let parsed; try { parsed = m.pat.parseScrollPattern(pat.src); } catch (e) { sim.violate("pattern-refused", `${desc}: ${short(e)}`); return { key: "refused" }; }
    const t0 = sim.now; const selfContained = c.chance(0.5, "embed");
    const res = await sim.settle(m.ex.executeScrollPattern(fakePage, parsed, { selector: inner ? "#list" : undefined, viewportW: vw, viewportH: vh, defaultSpeed: speed === 1500 ? undefined : speed, prescroll, maxTimeoutMs: maxTimeoutMs === 60000 ? undefined : maxTimeoutMs, embedImages: selfContained ? undefined : false, log: (s) => logs.push(s) }), { maxTime: sim.now + 3 * 3600_000, maxSteps: 60000 });
    const elapsed = sim.now - t0;
    if (res.status === "pending") { sim.violate("walk-never-ends", `${desc}: still running after ${Math.round(elapsed / 1000)} s (${res.why})`); return { key: "pending" }; }
    const slack = (prescroll ? 1300 + 6 * evalMax : 0) + capMax + longestPause + SETTLE + capMax + 8 * evalMax + 200;
    if (elapsed > maxTimeoutMs + slack) sim.violate("time-budget-exceeded", `${desc}: ran ${Math.round(elapsed)} ms with a budget of ${maxTimeoutMs} ms (longest pause ${longestPause} ms)`);
    const stable = !timed && !smooth && spec.feedDelay === 0;
    // what the pattern prescribes
    let ref = null; if (!timed) { const rp = mk(); if (start) { rp.x = clamp(start.x, 0, rp.maxX); rp.y = clamp(start.y, 0, rp.maxY); } if (prescroll) { if (inner) { rp.place(rp.x, rp.maxY); rp.place(rp.x, 0); } else { rp.place(0, rp.h); rp.place(0, 0); } } const s0 = { x: rp.x, y: rp.y }; ref = { ...reference(pat, rp, { speed }), s0 }; }
    if (res.status === "error") {
      const e = res.error; const over = /exceeded .* budget/.test(e?.message ?? "");
      if (over) { if (elapsed <= maxTimeoutMs) sim.violate("premature-timeout", `${desc}: gave up after ${Math.round(elapsed)} ms of ${maxTimeoutMs}`); }
      else if (page.gone) { /* the page's own error */ }
      else if (/matched no element/.test(e?.message ?? "") && pat.src.includes(".never")) { if (ref && ref.why === "end") sim.violate("spurious-error", `${desc}: ${short(e)}`); }
      else sim.violate("spurious-error", `${desc}: ${short(e)}`);
      return { key: `err${over}${page.gone}`, err: short(e, 80), pattern: pat.src };
    }
    const segs = res.value;
    if (page.gone && closeAt <= calls) sim.violate("success-on-closed-page", desc);
    if (ref && ref.why === "missing") sim.violate("missing-selector-ignored", `${desc}: finished although a selector it uses matches nothing`);
    if (caps.some((k) => k.self !== selfContained)) sim.violate("embed-option-ignored", desc);
    // history invariants
    let ci = 0, prev = null;
    for (let i = 0; i < segs.length; i++) {
      const s = segs[i]; let k = ci; while (k < caps.length && caps[k].tree !== s.tree) k++;
      if (k === caps.length) { sim.violate("foreign-tree", `${desc}: segment ${i} carries a tree that is not the capture made for it`); break; }
      const cap = caps[k]; ci = k + 1;
      if (!smooth && page.selfMoves === 0 && (Math.abs(cap.x - s.scrollX) > 0.01 || Math.abs(cap.y - s.scrollY) > 0.01)) { sim.violate("position-mismatch", `${desc}: segment ${i} says (${s.scrollX}, ${s.scrollY}), its content was captured at (${cap.x}, ${cap.y})`); break; }
      if (smooth && Math.abs(cap.y - s.scrollY) + Math.abs(cap.x - s.scrollX) > 1 && page.selfMoves === 0) { sim.violate("captured-in-motion", `${desc}: segment ${i} says (${s.scrollX}, ${s.scrollY}), its content was captured at (${cap.x}, ${cap.y}) on a page with smooth scrolling`); break; }
      if (!(s.segmentEndMs >= s.segmentStartMs) || (prev && s.segmentStartMs < prev.segmentEndMs - 0.001)) { sim.violate("segments-overlap", `${desc}: segment ${i} ${s.segmentStartMs}..${s.segmentEndMs} after ${prev?.segmentEndMs}`); break; }
      if ((s.diffFromPrev == null) !== (i === 0)) { sim.violate("diff-missing", `${desc}: segment ${i}`); break; }
      if (i > 0) { const want = m.diff.diffTrees(prev.tree, s.tree).entries.map((e) => e.kind + (e.dy ?? "")).join(); const got = s.diffFromPrev.entries.map((e) => e.kind + (e.dy ?? "")).join(); if (want !== got) { sim.violate("diff-wrong", `${desc}: segment ${i} is not compared with the segment before it`); break; } }
      prev = s;
    }
    if (segs.length === 0) { sim.violate("no-initial-capture", desc); return { key: "none" }; }
    if (ref && ref.why === "end" && !smooth && sim.violations.length === 0) this.compare(sim, segs, ref, desc);
    // playback
    const oneAxis = axes !== "both" && (segs.every((s) => s.scrollX === segs[0].scrollX) || segs.every((s) => s.scrollY === segs[0].scrollY));
    const lastAct = ref?.why === "end" ? ref.out[ref.out.length - 1] : null;
    if (oneAxis && sim.violations.length === 0) this.playback({ sim, c, m, segs, vw, vh, axes, desc, spec, total: ref && ref.why === "end" ? { segs, ref } : null });
    return { nontrivial: segs.length > 1, key: `${segs.length}/${pat.src.length}/${inner}${smooth}${dynamic}`, segments: segs.length, pattern: pat.src, logs: logs.length };
  },
  compare(sim, segs, ref, desc) {
    const want = ref.out; let j = 0, tExp = 0; let opStart = null;
    if (segs[0].scrollX !== ref.s0.x || segs[0].scrollY !== ref.s0.y) { sim.violate("initial-position", `${desc}: starts at (${segs[0].scrollX}, ${segs[0].scrollY})`); return; }
    let end = 0; j = 1;
    for (const w of want) {
      if (w.pause != null) { end += w.pause; continue; }
      const s = segs[j]; if (s == null) { sim.violate("segments-missing", `${desc}: ${segs.length - 1} scroll captures, the pattern makes ${want.filter((q) => q.pause == null).length}`); return; }
      if (Math.abs(s.scrollX - w.x) > 0.01 || Math.abs(s.scrollY - w.y) > 0.01) { sim.violate("wrong-destination", `${desc}: capture ${j} at (${s.scrollX}, ${s.scrollY}), the pattern leads to (${w.x}, ${w.y})`); return; }
      if (Math.abs(s.segmentStartMs - end) > 0.01) { sim.violate("time-line-broken", `${desc}: capture ${j} begins at ${s.segmentStartMs} ms, ${end} ms of scrolling and pauses precede it`); return; }
      if (w.i === 1) opStart = s.segmentStartMs;
      if (w.i === w.n) { const d = s.segmentEndMs - opStart; if (d < w.op.low - 1 || d > w.op.full + 1) { sim.violate("wrong-duration", `${desc}: the scroll ending at capture ${j} takes ${d} ms, prescribed ${w.op.full}`); return; } }
      else { const d = s.segmentEndMs - s.segmentStartMs; if (d > w.op.full / w.n + 2 || d < w.op.low / w.n - 2) { sim.violate("uneven-chunks", `${desc}: chunk ${w.i}/${w.n} takes ${d} ms of ${w.op.full}`); return; } }
      const e = s.easing; const got = e == null ? undefined : e.kind === "named" ? e.name : e.kind === "steps" ? `steps(${e.count}${e.position ? `, ${e.position}` : ""})` : `cubic-bezier(${e.values.join(", ")})`;
      if (got !== w.ease) { sim.violate("wrong-easing", `${desc}: capture ${j} has easing ${got}, the action says ${w.ease}`); return; }
      end = s.segmentEndMs; j++;
    }
    if (j !== segs.length) sim.violate("extra-segments", `${desc}: ${segs.length - 1} captures, the pattern makes ${j - 1}`);
    ref.end = end;
  },
  playback({ sim, c, m, segs, vw, vh, axes, desc, spec, total }) {
    const horizontal = segs.some((s) => s.scrollX !== segs[0].scrollX); const axis = horizontal ? "x" : "y"; const view = horizontal ? vw : vh;
    const pos = (s) => (horizontal ? s.scrollX : s.scrollY);
    let svg; try { svg = m.comp.composeScrollSvg(segs, { viewportW: vw, viewportH: vh, ...(c.chance(0.5, "axis-given") ? { axis } : {}), chunkSize: 1 + c.below(3, "chunk") }); } catch (e) { sim.violate("compose-throws", `${desc}: ${short(e)}`); return; }
    let doc, css; try { doc = parseMarkup(svg); css = parseCss(doc.css); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    const animsOf = (cls) => css.rules.filter((r) => r.sel === `.${cls}` && r.decls.animation).flatMap((r) => parseAnimation(r.decls.animation));
    const cyc = css.rules.find((r) => r.decls.animation && /transform/.test(r.decls["will-change"] ?? "")); if (!cyc) { sim.violate("no-scroll-animation", desc); return; }
    const A = parseAnimation(cyc.decls.animation); const T = A[0].dur;
    // the timeline the segments prescribe: motion into each, rest until the next begins
    const rests = segs.map((s, i) => ({ p: pos(s), from: s.segmentEndMs, to: i + 1 < segs.length ? segs[i + 1].segmentStartMs : s.segmentEndMs }));
    const wantTotal = total ? Math.max(total.ref.end, 1) : null; if (wantTotal != null) rests[rests.length - 1].to = wantTotal;
    if (wantTotal != null && Math.abs(T - wantTotal) > 1) { sim.violate("playback-length", `${desc}: plays ${T} ms, the pattern's scrolls and pauses take ${wantTotal} ms`); return; }
    const min = Math.min(...segs.map(pos)); const q = T * 1e-5 + 0.6;
    const wrap = [...walk(doc.root)].find((e) => e.attrs.class != null && `.${e.attrs.class}` === cyc.sel); if (!wrap) { sim.violate("no-scroll-layer", desc); return; }
    const groups = [...walk(wrap)].filter((e) => e.tag === "g" && /^translate\(/.test(e.attrs.transform ?? "")).map((e) => ({ off: nums(e.attrs.transform)[horizontal ? 0 : 1], cls: e.attrs.class, an: e.attrs.class ? animsOf(e.attrs.class) : [], el: e }));
    if (groups.length !== segs.length) { sim.violate("segment-groups", `${desc}: ${groups.length} groups for ${segs.length} segments`); return; }
    const overlays = doc.root.kids[0].kids.filter((e) => e.tag === "g" && e.attrs["clip-path"] == null).map((e) => ({ el: e, an: e.attrs.class ? animsOf(e.attrs.class) : [] }));
    const visible = (an, t) => an.length === 0 || valueAt(an, css.keyframes, "visibility", t) !== "hidden";
    const transAt = (t) => { const v = valueAt(A, css.keyframes, "transform", t); return v == null ? null : -nums(v.replace("translate3d", ""))[horizontal ? 0 : 1]; };
    const at = (t) => { // expected position, and whether the view rests
      for (let i = 0; i < segs.length; i++) {
        if (t <= rests[i].to + 1e-9 && t >= rests[i].from - 1e-9) return { p: rests[i].p, rest: i };
        if (i + 1 < segs.length && t > segs[i + 1].segmentStartMs && t < segs[i + 1].segmentEndMs) { const s = segs[i + 1]; const k = (t - s.segmentStartMs) / (s.segmentEndMs - s.segmentStartMs); const e = s.easing; const tf = e == null ? "linear" : e.kind === "named" ? e.name : e.kind === "steps" ? `steps(${e.count}${e.position ? `, ${e.position}` : ""})` : `cubic-bezier(${e.values.join(", ")})`; return { p: pos(segs[i]) + (pos(s) - pos(segs[i])) * timing(tf, k), seg: i + 1, stepped: /step/.test(tf), a: pos(segs[i]), b: pos(s), d: s.segmentEndMs - s.segmentStartMs, k }; }
      }
      return null;
    };
    const times = []; for (let i = 0; i < 12; i++) times.push(c.below(Math.floor(T * 10), "t") / 10); for (const r of rests) { if (r.to - r.from > 8 * q) times.push((r.from + r.to) / 2, r.to - 3 * q, r.from + 3 * q); } 
    for (const t of times) {
      const w = at(t); if (w == null) continue; const got = transAt(t); if (got == null) { sim.violate("no-position", `${desc}: at ${t} ms`); return; }
      const speedTol = w.rest != null ? 0.02 : w.stepped ? Math.abs(w.b - w.a) + 0.05 : Math.abs(w.b - w.a) * (6 * q / Math.max(1, w.d)) + 0.05;
      if (w.rest != null && (t - rests[w.rest].from < 2 * q || rests[w.rest].to - t < 2 * q)) continue;
      if (Math.abs(got - (w.p - min)) > speedTol) { sim.violate(w.rest != null ? "does-not-rest" : "wrong-position", `${desc}: at ${t.toFixed(1)} of ${T} ms the view is at ${(got + min).toFixed(1)}, prescribed ${w.p.toFixed(1)}${w.rest != null ? ` (resting from ${rests[w.rest].from} to ${rests[w.rest].to})` : ""}`); return; }
      // every part of the view shows some segment, and a resting view shows its own segment
      const vis = groups.filter((gr) => visible(gr.an, t)); const lo = got, hi = got + view; let edge = lo;
      const inRange = got >= -0.01 && got <= Math.max(...segs.map(pos)) - min + 0.01;
      if (inRange) { for (const iv of vis.map((gr) => [gr.off, gr.off + view]).sort((a, b) => a[0] - b[0])) if (iv[0] <= edge + 0.6) edge = Math.max(edge, iv[1]); const tiled = (() => { let e2 = lo; for (const iv of groups.map((gr) => [gr.off, gr.off + view]).sort((a, b) => a[0] - b[0])) if (iv[0] <= e2 + 0.6) e2 = Math.max(e2, iv[1]); return e2 >= hi - 0.6; })(); if (tiled && edge < hi - 0.6) { sim.violate("blank-view", `${desc}: at ${t.toFixed(1)} ms the view at ${got.toFixed(1)} shows nothing below ${(edge - lo).toFixed(1)}`); return; } if (!tiled && w.rest == null) sim.count("untiled"); }
      if (w.rest != null && !vis.includes(groups[w.rest])) { sim.violate("segment-hidden", `${desc}: at ${t.toFixed(1)} ms, resting on segment ${w.rest}, that segment is hidden`); return; }
      if (w.rest != null) {
        if (spec.fixed) { const n = overlays.filter((o) => visible(o.an, t) && /fixed/.test(texts(o.el))).length; const inline = groups.some((gr) => /fixed/.test(texts(gr.el))); if (n !== 1 || inline) { sim.violate("fixed-element", `${desc}: at ${t.toFixed(1)} ms the fixed element is shown ${n} times over the view${inline ? " and inside the scrolling content" : ""}`); return; } }
        if (spec.sticky != null) { const i = w.rest; const sy = find(segs[i].tree, "sticky"); const inl = groups[i].el && /sticky/.test(texts(groups[i].el)); const over = overlays.filter((o) => visible(o.an, t)).flatMap((o) => [...walk(o.el)]).filter((e) => e.attrs["data-t"] === "th"); if (sy && !inl && !over.some((e) => Math.abs(Number(e.attrs["data-y"]) - sy.y) < 1.01)) { sim.violate("sticky-element-lost", `${desc}: at ${t.toFixed(1)} ms, resting on segment ${i} of ${segs.length}, the sticky element is nowhere`); return; } if (over.length > (sy && !inl ? 1 : 0)) { sim.violate("sticky-element-extra", `${desc}: at ${t.toFixed(1)} ms, resting on segment ${i} of ${segs.length}, ${over.length} sticky overlays over a page ${sy ? inl ? "that shows it in its content" : "with one" : "without one"}`); return; } }
      }
    }
    sim.count("played-back");
  },
};
const texts = (el) => (el.text ?? "") + el.kids.map(texts).join(" ");
const find = (tree, text) => { for (const e of tree) { if (e.text === text) return e; const k = find(e.children ?? [], text); if (k) return k; } return null; };
