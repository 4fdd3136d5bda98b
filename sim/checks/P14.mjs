// P14 — the pointer and its clicks play back as scripted.
import { short } from "../core/sim.mjs";
import { StageBrowser, stubCapture, fontBuffer } from "../worlds/stage.mjs";
import { stubRegistry, makeStudio, Model, genDoc, genTransition, adv, FILL, word } from "../worlds/studio.mjs";
import { Viewer } from "../worlds/viewer.mjs";

const KINDS = ["default", "pointer", "text", "crosshair", "move", "grab"];
/** What a script asks for: where the pointer is, whether it shows, which glyph is forced, when rings start. */
export function model(events, resolve) {
  const evs = events.map((e, i) => ({ e, i })).sort((a, b) => a.e.t - b.e.t || a.i - b.i).map((q) => q.e);
  const bps = [{ t: -Infinity, x0: 0, y0: 0, x1: 0, y1: 0, t1: -Infinity, vis: false, cursor: undefined }]; const clicks = [];
  const last = (t) => { let r = bps[0]; for (const b of bps) if (b.t <= t) r = b; return r; };
  const pos = (t, b = last(t)) => { const k = t >= b.t1 ? 1 : (t - b.t) / (b.t1 - b.t); return { x: b.x0 + (b.x1 - b.x0) * k, y: b.y0 + (b.y1 - b.y0) * k }; };
  const still = (t, p, vis, cursor) => bps.push({ t, x0: p.x, y0: p.y, x1: p.x, y1: p.y, t1: t, vis, cursor });
  for (const e of evs) {
    const here = pos(e.t);
    if (e.type === "show") still(e.t, e, true, e.cursor);
    else if (e.type === "hide") still(e.t, here, false);
    else if (e.type === "click") clicks.push({ t: e.t, ...here, button: e.button ?? "primary", style: e.style });
    else { const to = e.to ?? (e.by ? { x: here.x + e.by.dx, y: here.y + e.by.dy } : resolve(e)); if (to == null) continue; if (e.duration > 0) bps.push({ t: e.t, x0: here.x, y0: here.y, x1: to.x, y1: to.y, t1: e.t + e.duration, vis: true, cursor: e.cursor }); else still(e.t, to, true, e.cursor); }
  }
  return { clicks, at: (t) => { const b = last(t); return { ...pos(t, b), vis: b.vis, cursor: b.cursor }; }, edges: bps.slice(1).flatMap((b) => [b.t, b.t1]) };
}
const over = (q) => { for (let e = q.el; e; e = e.parent) if ((e.attrs?.class ?? "").split(/\s+/).includes("cursor-overlay")) return true; return false; };
const sig = (q) => `${q.el._geo ??= `${q.tag} ${["d", "cx", "cy", "r", "x", "y", "width", "height", "x1", "y1", "x2", "y2"].map((k) => q.el.attrs[k] ?? "").join(",")}`} ${q.m.slice(0, 4).map((v) => v.toFixed(3))}`;
const centre = (q) => { const x = +q.el.attrs.cx, y = +q.el.attrs.cy; return { x: q.m[0] * x + q.m[2] * y + q.m[4], y: q.m[1] * x + q.m[3] * y + q.m[5], r: +q.el.attrs.r * q.m[0] }; };
const near = (a, b, e = 0.7) => Math.abs(a.x - b.x) <= e && Math.abs(a.y - b.y) <= e;
const inBox = (q, b) => q.x >= b.x && q.x < b.x + b.width && q.y >= b.y && q.y < b.y + b.height;
const at = (q) => `(${q.x.toFixed(1)}, ${q.y.toFixed(1)})`;

export default {
  id: "P14",
  entries: { an: "src/cli/animate.ts", ttp: "src/render/text-to-path.ts", anim: "src/animation/index.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture], [/src\/templates\/registry\.ts$/, stubRegistry]] },
  quick: { runs: 4000, cap: 60 }, thorough: { runs: 120000, cap: 840 },
  rule: "a pointer script, run by an independent model, says at every moment where the pointer is, whether it shows, which glyph it has and which rings are on; the played-back SVG shows exactly that in every loop; with an automatic pointer every interaction is shown where it happened, in order, before its result",
  assumptions: ["a glyph that applies for less than 45 ms may be skipped", "page reactions settle within the action"],
  real: ["src/animation/cursor-overlay.ts", "src/animation/cursor-glyphs.ts", "src/animation/animator.ts (composition, frame clocks)", "src/cli/animate.ts (config, page session, target recording, staging)", "src/capture/content-box.ts", "src/render/paint-order.ts"],
  stub: ["Chromium pages (documents of text lines)", "src/capture (element tree of those documents)"],
  simOpts: {},
  warmup() { for (const f of ["SimA", "SimB", "SimC", "SimMono"]) fontBuffer(f); },
  async run({ sim, choices: c, load }) {
    const studio = makeStudio({ sim, c, load }); this.refs = new Map(); this.m = studio.m;
    return c.chance(0.55, "library") ? this.library({ sim, c, m: studio.m }) : this.session({ sim, c, ...studio });
  },
  /** The glyph of a kind, as drawn at the origin: sorted [signature, e, f]. */
  ref(kind, scale) {
    const key = `${kind}:${scale}`; if (this.refs.has(key)) return this.refs.get(key);
    const svg = this.m.anim.generateAnimatedSvg({ width: 400, height: 300, frames: [{ svgContent: "<g/>", duration: 1000, transition: { type: "cut", duration: 0 } }], cursorOverlay: { events: [{ type: "show", t: 0, x: 0, y: 0, ...(kind ? { cursor: kind } : {}) }], style: { cursorScale: scale } }, ...(kind ? { resolveCursorAt: () => kind } : {}) });
    const r = new Viewer(svg).at(500, { shapes: true, open: true }).filter((q) => q.kind === "shape" && over(q)).map((q) => ({ s: sig(q), e: q.m[4], f: q.m[5] })).sort((a, b) => (a.s < b.s ? -1 : 1));
    this.refs.set(key, r); return r;
  },
  /** What is drawn: { pointer: {kind, x, y} | null, rings, marks, odd } */
  view(v, t, kinds, scale) {
    let rest = v.at(t, { shapes: true, open: true, minOpacity: 0.012 }).filter((q) => q.kind === "shape" && over(q)); const pointers = [];
    for (const kind of kinds) {
      const ref = this.ref(kind, scale); if (ref.length === 0) continue; const have = rest.filter((q) => q.op > 0.5).map((q) => ({ q, s: sig(q) }));
      const first = have.find((h) => h.s === ref[0].s && this.whole(ref, have, h)); if (!first) continue;
      const dx = first.q.m[4] - ref[0].e, dy = first.q.m[5] - ref[0].f; pointers.push({ kind, x: dx, y: dy, n: ref.length }); for (const r of ref) { const i = rest.findIndex((q) => sig(q) === r.s && Math.abs(q.m[4] - r.e - dx) < 0.02 && Math.abs(q.m[5] - r.f - dy) < 0.02); rest = rest.filter((_, j) => j !== i); }
    }
    const rings = rest.filter((q) => q.tag === "circle"), marks = rest.filter((q) => q.tag === "path" && q.op < 0.999 || q.tag === "path" && /rgba\(0,\s*0,\s*0,\s*0?\.2\)/.test(q.fill ?? ""));
    return { pointers, rings: rings.map((q) => ({ ...centre(q), el: q.el, stroke: q.stroke })), marks, odd: rest.filter((q) => !rings.includes(q) && !marks.includes(q)) };
  },
  whole(ref, have, h) { const dx = h.q.m[4] - ref[0].e, dy = h.q.m[5] - ref[0].f; return ref.every((r) => have.some((k) => k.s === r.s && Math.abs(k.q.m[4] - r.e - dx) < 0.02 && Math.abs(k.q.m[5] - r.f - dy) < 0.02)); },

  library({ sim, c, m }) {
    const frames = []; const starts = []; let total = 0; const n = 1 + c.below(4, "frames");
    for (let i = 0; i < n; i++) { const f = { svgContent: "<g/>", duration: c.pick([400, 600, 777, 1000, 1333, 900.5], "dur") }; const t = genTransition(c, {}); if (t && t.type !== "magic-move") f.transition = t; frames.push(f); starts.push(total); total += adv(f); }
    const areas = starts.map(() => Array.from({ length: c.below(4, "areas") }, () => ({ x: c.below(300, "ax"), y: c.below(200, "ay"), w: 20 + c.below(200, "aw"), h: 20 + c.below(200, "ah"), kind: c.pick(KINDS, "kind") })));
    const typed = c.chance(0.7, "typed"); const under = (x, y, i) => { let k = "default"; for (const a of areas[i] ?? []) if (x >= a.x && x < a.x + a.w && y >= a.y && y < a.y + a.h) k = a.kind; return k; };
    const boxes = { "#a": { x: 30, y: 40, w: 61, h: 20 }, "#b": { x: 200.5, y: 111, w: 40, h: 33 } };
    const resolveSelector = (s, i) => (s === "#a" && i % 2 ? null : boxes[s] ?? null);
    const frameAt = (t) => { let r = 0; starts.forEach((s, i) => { if (t >= s) r = i; }); return r; };
    const resolve = (e) => { const b = resolveSelector(e.selector, frameAt(e.t)); return b && { x: b.x + b.w / 2 + (e.offset?.dx ?? 0), y: b.y + b.h / 2 + (e.offset?.dy ?? 0) }; };
    const style = {}; if (c.chance(0.3, "scale")) style.cursorScale = c.pick([0.5, 2, 1.3], "scale"); if (c.chance(0.3, "pdur")) style.pulseDurationMs = c.pick([200, 800, 1500], "pd"); if (c.chance(0.3, "prad")) style.pulseRadius = c.pick([16, 60], "pr"); if (c.chance(0.2, "pcol")) style.pulseStroke = "rgb(1, 2, 3)";
    const events = []; let t = c.chance(0.4, "from-start") ? 0 : c.below(600, "t0"); const k = 1 + c.below(8, "events"); const pt = () => ({ x: c.below(4000, "x") / 10, y: c.below(3000, "y") / 10 }); const rough = c.chance(0.3, "interrupting");
    for (let i = 0; i < k; i++) {
      const type = i === 0 ? c.pick(["show", "move"], "first") : c.weighted([[5, "move"], [4, "click"], [1, "show"], [1, "hide"]], "type"); const forced = c.chance(0.2, "forced") ? { cursor: c.pick(KINDS, "fk") } : {}; let e, busy = 0;
      if (type === "show") e = { type, t, ...pt(), ...forced };
      else if (type === "hide") e = { type, t };
      else if (type === "click") e = { type, t, ...(c.chance(0.4, "b") ? { button: c.pick(["primary", "secondary", "middle"], "button") } : {}), ...(c.chance(0.2, "st") ? { style: { pulseDurationMs: c.pick([250, 700], "pd"), pulseStroke: "rgb(9, 9, 200)" } } : {}) };
      else { busy = c.pick([0, 0, 150, 400, 900, 333.3], "slide"); e = { type, t, ...(busy || c.chance(0.3, "zero") ? { duration: busy } : {}), ...c.weighted([[5, () => ({ to: pt() })], [2, () => ({ by: { dx: c.below(100, "dx") - 50, dy: c.below(80, "dy") - 40 } })], [2, () => ({ selector: c.pick(["#a", "#b", "#none"], "sel"), ...(c.chance(0.4, "off") ? { offset: { dx: 7, dy: -3 } } : {}) })]], "to")(), ...forced }; }
      events.push(e); t += (rough && c.chance(0.6, "early") ? Math.round(busy * c.below(10, "frac") / 10) : busy) + (c.chance(0.25, "at-once") ? 0 : c.pick([60, 200, 500, 77.7, 1200], "gap"));
    }
    const given = c.chance(0.15, "unordered") ? [...events].reverse().sort((a, b) => b.t - a.t) : events; if (given !== events && new Set(events.map((e) => e.t)).size < events.length) return this.playScript({ sim, c, m, frames, total, events, given: events, resolve, resolveSelector, typed, under, frameAt, style });
    return this.playScript({ sim, c, m, frames, total, events, given, resolve, resolveSelector, typed, under, frameAt, style });
  },
  playScript({ sim, c, m, frames, total, events, given, resolve, resolveSelector, typed, under, frameAt, style }) {
    const warn = sim.count; void warn; let svg;
    svg = m.anim.generateAnimatedSvg({ width: 400, height: 300, frames, cursorOverlay: { events: given, style }, resolveSelector, ...(typed ? { resolveCursorAt: under } : {}) });
    this.svg = svg; const mod = model(events, resolve); const kinds = typed ? KINDS : [null];
    this.check({ sim, c, svg, mod, total, kinds, style, glyph: (s, t) => (typed ? s.cursor ?? under(s.x, s.y, frameAt(t)) : null), desc: `script ${JSON.stringify(events)} over ${Math.round(total)} ms` });
    sim.count("library-script"); return { nontrivial: true, key: `L${typed ? "t" : ""}${events.map((e) => e.type[0] + (e.duration > 0 ? "~" : "") + (e.button ?? "")[0]).join("")}` };
  },
  check({ sim, c, svg, mod, total, kinds, style, glyph, desc }) {
    let v; try { v = new Viewer(svg); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    const P = +(total / 1000).toFixed(2) * 1000; const scale = style.cursorScale ?? 1; const ts = []; const inLoop = (t) => t >= 0 && t < Math.min(total, P) - 8;
    for (let i = 0; i < 10; i++) ts.push(c.below(10000, "t") / 10000 * (total - 10)); for (const e of mod.edges) for (const d of [-4, 4, -30, 30]) ts.push(e + d); for (const k of mod.clicks) { const D = k.style?.pulseDurationMs ?? style.pulseDurationMs ?? 500; for (const d of [-5, 0.3 * D, 0.6 * D, D + 5]) ts.push(k.t + d); } ts.push(1, total - 12);
    const loop = c.pick([0, 1, 3, 40, 300], "loop");
    for (const t of ts) if (inLoop(t)) for (const l of new Set([0, loop])) {
      const got = this.view(v, t + l * P, kinds, scale); const s = mod.at(t); const where = `${t.toFixed(1)} ms${l ? ` of loop ${l + 1}` : ""}; ${desc}`; const w = 2 + total * 1.2e-5 + (l ? 1 + l * 1e-3 : 0) + Math.abs(P - total);
      const around = (r) => { const out = []; for (let i = -4; i <= 4; i++) out.push(mod.at(t + r * i / 4)); return out; };
      if (got.odd.length) { sim.violate("stray-shape", `${got.odd.map(sig)[0]} shows at ${where}`); return; }
      if (got.pointers.length > 1) { sim.violate("pointer-twice", `${got.pointers.map((p) => `${p.kind} ${at(p)}`).join(" and ")} at ${where}`); return; }
      const p = got.pointers[0]; const a = around(w);
      const blank = (q, tt) => { const k = glyph(q, tt); return k === "none" || kinds[0] != null && this.ref(k, scale).length === 0; };
      if (a.every((q) => !q.vis)) { if (p) { sim.violate("pointer-while-hidden", `pointer at ${at(p)} at ${where}`); return; } }
      else if (a.every((q) => q.vis)) {
        if (!p && !blank(s, t)) { const b = around(50); if (b.every((q) => q.vis)) { sim.violate("pointer-missing", `should be at ${at(s)} at ${where}`); return; } }
        if (p) {
          const xs = a.map((q) => q.x), ys = a.map((q) => q.y); if (p.x < Math.min(...xs) - 0.6 || p.x > Math.max(...xs) + 0.6 || p.y < Math.min(...ys) - 0.6 || p.y > Math.max(...ys) + 0.6) { sim.violate("pointer-elsewhere", `pointer at ${at(p)}, the script has it at ${at(s)} at ${where}`); return; }
          if (kinds[0] != null) { const r = []; for (let d = -50; d <= 50; d += 2) { const q = mod.at(t + d); r.push(q.vis ? glyph(q, t + d) : "-"); } const fast = r.slice(25 - 2, 25 + 3); let changes = 0; for (let i = 1; i < r.length; i++) if (r[i] !== r[i - 1]) changes++; if (new Set(fast).size === 1 && changes <= 1 && p.kind !== fast[0]) { sim.violate("wrong-glyph", `${p.kind} at ${at(p)}, over ${fast[0]}, at ${where}`); return; } }
        }
      }
      const on = mod.clicks.map((k) => ({ ...k, D: k.style?.pulseDurationMs ?? style.pulseDurationMs ?? 500, R: style.pulseRadius ?? 32, col: k.style?.pulseStroke ?? style.pulseStroke })).filter((k) => k.t < total);
      for (const k of on) { const end = Math.min(k.t + k.D, total); if (t > k.t + 0.06 * k.D + w && t < k.t + (end - k.t) * 0.8 - w) { const mine = got.rings.filter((r) => near(r, k)); if (mine.length === 0) { sim.violate("ring-missing", `click at ${k.t} should ring at ${at(k)}, at ${where}`); return; } if (k.col && !mine.some((r) => r.stroke.replace(/\s/g, "") === k.col.replace(/\s/g, ""))) { sim.violate("ring-colour", `click at ${k.t} rings in ${mine.map((r) => r.stroke)}, not ${k.col}, at ${where}`); return; } if (k.button === "secondary" && t > k.t + 0.2 * k.D && got.marks.length === 0) { sim.violate("button-not-marked", `secondary click at ${k.t}, at ${where}`); return; } } }
      const live = on.filter((k) => t > k.t - w && t < k.t + k.D + w);
      const ghost = got.rings.find((r) => !live.some((k) => near(r, k))); if (ghost) { sim.violate("stray-ring", `ring at ${at(ghost)} without a click, at ${where}`); return; }
      const big = got.rings.find((r) => !live.some((k) => near(r, k) && r.r <= k.R * 1.02 + 1)); if (big) { sim.violate("ring-too-large", `radius ${big.r.toFixed(1)}, at ${where}`); return; }
      if (got.marks.length && !live.some((k) => k.button === "secondary")) { sim.violate("button-marked", `no secondary click, at ${where}`); return; }
    }
  },

  async session({ sim, c, proc, world, m, register }) {
    world.delayed = false; const lat = c.pick([1, 20], "lat"); let ops = 0, failAt = -1;
    const b = new StageBrowser({ proc, sites: world.sites, register, lat: () => 1 + c.below(lat, "lat"), fault: (l) => { if (ops++ === failAt) { sim.fired("page operation fails"); throw new Error(`${l}: Target crashed`); } } });
    const auto = c.chance(0.6, "auto"); const cfg = { width: 400, height: 300, frames: [], autoCompress: c.chance(0.5, "compress") && !auto }; const mod = new Model(); let total = 0; const starts = [], holds = []; const want = []; const docs = [], hot = []; const script = []; const events = [];
   
    const n = 1 + c.below(5, "frames");
    for (let i = 0; i < n; i++) {
      const f = {}; const loads = i === 0 || c.chance(0.25, "load"); if (loads) { const url = `https://sim/p${i}`; const spec = genDoc(c, {}); for (const p of spec.panes) p.blinks = false; world.sites.set(url, spec); f.input = url; mod.load(spec); } else if (c.chance(0.4, "explicit")) f.continue = true;
      if (mod.doc.height > 300 && c.chance(0.4, "scrollTo")) { f.scrollTo = [0, c.pick([0, 40, 150], "sy")]; mod.scroll(f.scrollTo[1]); }
      const acts = []; const k = c.below(4, "acts");
      for (let j = 0; j < k; j++) {
        const lines = mod.doc.panes.filter((p) => !p.hidden).flatMap((p) => p.lines); if (lines.length === 0) break; const l = c.pick(lines, "line");
        const a = c.weighted([[5, () => ({ type: "click", selector: `#${c.chance(0.7, "line") ? l.id : mod.doc.panes.find((p) => p.lines.includes(l)).id}` })], [2, () => ({ type: "hover", selector: `#${l.id}` })], [1.5, () => ({ type: "setText", selector: `#${l.id}`, value: word(c) })], [2, () => ({ type: "setStyle", selector: `#${l.id}`, props: c.chance(0.75, "cur") ? { cursor: c.pick(["pointer", "grab", "crosshair"], "css") } : { color: c.pick(FILL, "fill") } })], [lines.length > 1 ? 0.7 : 0, () => ({ type: "remove", selector: `#${l.id}` })], [mod.doc.height > 300 ? 2 : 0, () => ({ type: "scroll", x: 0, y: c.pick([0, 60, 150], "sy") })]], "act")();
        if (a.type === "click" || a.type === "hover") { const el = mod.doc.find(a.selector)[0]; const box = el.box(); const aim = c.chance(0.2, "aim") ? { cursorAt: c.pick(["top-left", "right", "bottom"], "at") } : {}; if (c.chance(0.2, "nudge")) aim.cursorOffset = { dx: 5, dy: -2 }; Object.assign(a, aim); const g = { "top-left": [0, 0], right: [1, 0.5], bottom: [0.5, 1] }[aim.cursorAt] ?? [0.5, 0.5]; want.push({ frame: i, x: box.x + box.width * g[0] + (aim.cursorOffset?.dx ?? 0), y: box.y + box.height * g[1] + (aim.cursorOffset?.dy ?? 0), sel: a.selector, css: el.css?.cursor ?? (el.text?.trim() ? "text" : "default"), act: j, type: a.type }); }
        if (a.type !== "hover") mod.act(a); acts.push(a);
      }
      mod.settle(); if (acts.length) f.actions = acts; f.duration = c.pick([120, 300, 400, 777, 1000, 1500, 900.5], "dur"); const tr = genTransition(c, {}); if (tr) f.transition = tr;
      starts.push(total); holds.push(f.duration); total += adv(f); cfg.frames.push(f);
      docs.push(new Map(mod.doc.all().map((e) => [`#${e.id}`, e.box()]))); hot.push(mod.doc.panes.flatMap((p) => p.lines.filter((l) => l.css?.cursor).map((l) => ({ kind: l.css.cursor, box: l.box(), clip: p.clip ? p.box() : null }))));
      if (!auto && c.chance(0.8, "points")) { let at0 = c.pick([0, 50, 200, 300.3], "at"); for (let q = 1 + c.below(3, "evs"); q > 0; q--) { const type = c.weighted([[3, "move"], [4, "moveClick"], [2, "click"], [0.7, "hide"]], "etype"); const e = { frame: i, at: at0, type }; let d = 0; if (type === "move" || type === "moveClick") { if (c.chance(0.4, "to")) e.to = { x: c.below(400, "x"), y: c.below(300, "y") }; else e.selector = c.pick([...docs[i].keys()], "sel"); if (c.chance(0.3, "off")) e.offset = { dx: 4, dy: 9 }; if (c.chance(0.5, "dur")) e.duration = c.pick([0, 120, 700], "slide"); d = e.duration ?? 400; } if ((type === "click" || type === "moveClick") && c.chance(0.3, "btn")) e.button = c.pick(["secondary", "middle"], "button"); events.push(e);
        const t = starts[i] + at0; if (type === "hide") script.push({ type, t }); else if (type === "click") script.push({ type, t, button: e.button }); else { const bx = e.selector ? docs[i].get(e.selector) : null; const to = { x: (e.to ? e.to.x : bx.x + bx.width / 2) + (e.offset?.dx ?? 0), y: (e.to ? e.to.y : bx.y + bx.height / 2) + (e.offset?.dy ?? 0) }; script.push({ type: "move", t, duration: d, to }); if (type === "moveClick") script.push({ type: "click", t: t + d, button: e.button }); }
        at0 += d + c.pick([0, 80, 300], "gap"); } }
    }
    if (hot.some((h) => h.length)) cfg.autoCompress = false; const style = {}; if (auto) cfg.cursor = "auto"; else { if (events.length === 0) return { nontrivial: false, key: "none" }; cfg.cursor = { events }; if (c.chance(0.3, "style")) { cfg.cursor.style = { scale: 1.5, pulseRadius: 20, pulseDurationMs: 300, pulseColor: "rgb(3, 3, 3)" }; Object.assign(style, { cursorScale: 1.5, pulseRadius: 20, pulseDurationMs: 300, pulseStroke: "rgb(3, 3, 3)" }); } }
    if (c.chance(0.08, "crash")) failAt = c.below(40, "at");
    const res = await sim.settle(m.an.composeAnimateConfig(b, m.an.validateAnimateConfig(structuredClone(cfg)), { configDir: world.dir, log: () => {} }), { maxTime: sim.now + 3600_000, maxSteps: 200000 });
    const desc = `${auto ? "automatic pointer" : "pointer events"}, ${JSON.stringify(auto ? cfg.frames.map((f) => [f.input ? "load" : "go on", f.duration, f.transition?.type, ...(f.actions ?? []).map((a) => `${a.type} ${a.selector ?? a.y}`)]) : events)}`; this.cfg = cfg;
    if (res.status === "pending") { sim.violate("never-ends", `${desc}: ${res.why}`); return { key: "p" }; }
    if (res.status === "error") { if (failAt < 0 || ops <= failAt) sim.violate("spurious-error", `${desc}: ${short(res.error)}`); return { nontrivial: true, key: "err" }; }
    if (failAt >= 0 && ops > failAt) return { nontrivial: true, key: "failed-op" };
    this.svg = res.value;
    if (!auto) this.check({ sim, c, svg: res.value, mod: model(script), total, kinds: KINDS, style, glyph: (q, t) => { let i = 0; starts.forEach((s, j) => { if (t >= s) i = j; }); const h = hot[i].find(({ box: b, clip: k }) => inBox(q, b) && (!k || inBox(q, k))); return h ? h.kind : "default"; }, desc });
    else if (want.length) this.autoCheck({ sim, c, svg: res.value, want, starts, holds, frames: cfg.frames, total, desc });
    sim.count(auto ? "automatic-pointer" : "pointer-events"); return { nontrivial: true, key: `S${auto ? "a" : "e"}${want.map((w) => w.type[0] + w.frame).join("")}${events.map((e) => e.type[0] + (e.selector ? "s" : "t")).join("")}` };
  },
  autoCheck({ sim, c, svg, want, starts, holds, frames, total, desc }) {
    let v; try { v = new Viewer(svg); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    const P = +(total / 1000).toFixed(2) * 1000; const base = c.pick([0, 0, 1, 30], "loop") * P; const spans = []; const step = 6; const q = 4 + Math.abs(P - total) + base / P * 0.01;
    for (let t = 0; t < Math.min(P, total); t += step) { const g = this.view(v, t + base, KINDS, 1); const now = new Set(); for (const r of g.rings) { let s = spans.find((x) => x.end >= t - step * 1.5 && near(x, r) && x.els.has(r.el)) ?? spans.find((x) => x.end >= t - step * 1.5 && near(x, r) && Math.abs(x.start - t) < step * 1.5); if (!s) { s = { x: r.x, y: r.y, start: t, end: t, els: new Set(), p: g.pointers[0] }; spans.push(s); } s.els.add(r.el); s.end = t; now.add(s); } if (g.odd.length || g.pointers.length > 1) { sim.violate(g.odd.length ? "stray-shape" : "pointer-twice", `${t} ms, ${desc}`); return; } }
    const stage = (w) => (w.frame > 0 && frames[w.frame].input == null ? w.frame - 1 : w.frame); const left = [...spans].sort((a, b) => a.start - b.start); let prev = -1;
    const merged = (a, b) => near(a, b) && stage(a) === stage(b);
    for (const w of want) {
      const s = stage(w), lo = starts[s] - q, hi = starts[s] + holds[s] + q + step; const i = left.findIndex((x) => near(x, w) && x.start >= lo && x.start <= hi && x.start >= prev - step);
      if (i < 0) { const again = want.some((o) => o !== w && merged(o, w)); if (again) continue; const else_ = left.find((x) => near(x, w)); sim.violate(else_ ? "interaction-out-of-place" : "interaction-not-shown", `${w.type} ${w.sel} (frame ${w.frame + 1}, action ${w.act + 1}) at ${at(w)} ${else_ ? `rings at ${else_.start} ms, not within ${lo.toFixed(0)}…${hi.toFixed(0)} in order` : "has no ring"}; rings: ${spans.map((x) => `${x.start} ${at(x)}`).join(", ")}; ${desc}`); return; }
      const [x] = left.splice(i, 1); prev = x.start;
      let seen = null, ok = false, gl = false; for (let d = -step - 1; d <= 1; d += 0.5) { const p = this.view(v, Math.max(0, x.start + d) + base, KINDS, 1).pointers[0]; if (p && (!seen || Math.hypot(p.x - w.x, p.y - w.y) < Math.hypot(seen.x - w.x, seen.y - w.y))) seen = p; if (p && near(p, w, 9)) { ok = true; if (p.kind === w.css) gl = true; } }
      if (!seen) { sim.violate("pointer-missing", `no pointer when ${w.type} ${w.sel} rings at ${x.start} ms; ${desc}`); return; }
      if (!ok) { sim.violate("pointer-elsewhere", `pointer at ${at(seen)} when ${w.type} ${w.sel} rings at ${at(w)}, ${x.start} ms; ${desc}`); return; }
      if (!gl && holds[s] >= 300) { sim.violate("wrong-glyph", `${seen.kind} when ${w.type} ${w.sel} (cursor: ${w.css}) rings at ${x.start} ms; ${desc}`); return; }
    }
    if (left.length) { sim.violate("stray-ring", `ring at ${at(left[0])} from ${left[0].start} ms for no interaction; ${desc}`); }
  },
};
