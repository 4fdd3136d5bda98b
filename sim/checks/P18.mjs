// P18 — carets and selections play back as scripted.
import { short } from "../core/sim.mjs";
import { StageBrowser, stubCapture, fontBuffer, textEl, boxEl, ADV } from "../worlds/stage.mjs";
import { stubRegistry, makeStudio, Model, genDoc, genTransition, adv, FILL, word } from "../worlds/studio.mjs";
import { Viewer } from "../worlds/viewer.mjs";

const HEB = ["\u05d0", "\u05d1", "\u05d2", "\u05d3", "\u05d4"];
const col = (k, i) => `rgb(7, ${k}, ${i + 1})`;
/** A line of a document as the boxes its characters are painted in. */
function boxesOf(l) { const a = l.size * ADV; let x = l.x; return [...l.text].map((ch) => { const b = { ch, l: x, r: x + a, t: l.y, b: l.y + l.size, y: l.y, size: l.size, rtl: false }; x += a; return b; }); }
/** Where a caret before character k of these boxes stands. */
function slot(bs, k) { if (k < 0 || k > bs.length || bs.length === 0) return null; const b = bs[Math.min(k, bs.length - 1)], end = k === bs.length; if (b.col) return { x: b.l, y: end ? b.b : b.t, size: b.size, cell: end ? b.size : b.b - b.t, colW: b.r - b.l, ch: null, col: true }; return { x: end === b.rtl ? b.l : b.r, rtl: b.rtl, y: b.y, size: b.size, cell: end ? null : b.r - b.l, ch: end ? null : b.ch, ...(end || b.rtl ? {} : { x: b.l }) }; }
/** What a track's events ask for, at every moment. */
export function model(events, end = Infinity) {
  const evs = events.map((e, i) => ({ e, i })).sort((a, b) => a.e.t - b.e.t || a.i - b.i).map((q) => q.e);
  const caret = [], sels = [];
  for (const e of evs) {
    if (e.type === "hide") caret.push({ t: e.t, p: null }); else if (e.type === "park" || e.type === "move") { const p = slot(e.bs, e.charOffset); if (p) caret.push({ t: e.t, p }); }
    else if (e.type === "select") { const cs = e.bs.slice(e.charStart, e.charEnd); if (cs.length) sels.push({ t: e.t, sweep: e.sweepMs ?? 0, cs, color: e.color, until: end }); }
    else { for (let i = sels.length - 1; i >= 0; i--) if (sels[i].cleared == null) { sels[i].cleared = e.t; sels[i].until = Math.min(end, e.t); break; } }
  }
  // at one moment, showing wins over hiding
  const at = (t) => { if (t >= end) return null; let r = null, rt = -1; for (const k of caret) if (k.t <= t) { if (k.t === rt && k.p == null) continue; r = k.p; rt = k.t; } return r; };
  return { at, sels, any: caret.some((k) => k.p), edges: [...caret.map((k) => k.t), ...sels.flatMap((s) => [s.t, s.t + s.sweep, s.until])].filter(Number.isFinite) };
}
/** How much of a selection is drawn at t, in characters. */
const swept = (s, t) => (t < s.t || t >= s.until ? 0 : s.sweep === 0 || t >= s.t + s.sweep ? s.cs.length : s.cs.length * (t - s.t) / s.sweep);
const box = (q) => { const x = parseFloat(q.el.attrs.x ?? 0), y = parseFloat(q.el.attrs.y ?? 0); const X = [q.m[0] * x + q.m[4], q.m[0] * (x + q.w) + q.m[4]], Y = [q.m[3] * y + q.m[5], q.m[3] * (y + q.h) + q.m[5]]; return { l: Math.min(...X), r: Math.max(...X), t: Math.min(...Y), b: Math.max(...Y) }; };
const f1 = (n) => n.toFixed(1);
const same = (a, b) => (a ?? "").replace(/\s/g, "") === (b ?? "").replace(/\s/g, "");

export default {
  id: "P18",
  entries: { an: "src/cli/animate.ts", ttp: "src/render/text-to-path.ts", anim: "src/animation/index.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture], [/src\/templates\/registry\.ts$/, stubRegistry]] },
  quick: { runs: 5000, cap: 50 }, thorough: { runs: 120000, cap: 840 },
  rule: "an independent model runs every track's events over the boxes the page's characters are painted in, and says at every moment where its caret stands, whether it shows, and which characters are highlighted; the played-back SVG shows exactly that in every loop",
  assumptions: ["page reactions settle within the action", "characters of one line have one size"],
  real: ["src/animation/caret-track.ts", "src/animation/text-address.ts", "src/animation/caret-metrics.ts", "src/animation/animator.ts (composition)", "src/cli/animate.ts (config, stamping, frame clocks, automatic end)"],
  stub: ["Chromium pages (documents of text lines)", "src/capture (element tree of those documents)"],
  simOpts: {},
  warmup() { for (const f of ["SimA", "SimB", "SimC", "SimMono"]) fontBuffer(f); },
  async run({ sim, choices: c, load }) {
    const studio = makeStudio({ sim, c, load });
    return c.chance(0.55, "library") ? this.library({ sim, c, ...studio }) : this.session({ sim, c, ...studio });
  },
  /** One track's look and events over the targets [{sel|id, bs}]. */
  genTrack({ c, k, targets, span, t0, cli }) {
    const shape = c.pick([undefined, "bar", "block", "underscore"], "shape"); const tr = { ...(shape ? { shape } : {}), color: col(k, 200), ...(c.chance(0.3, "bar") ? { barWidthPx: c.pick([1, 3.5], "bw") } : {}), ...(c.chance(0.4, "blink") ? { blinkMs: c.pick([400, 1500], "ms") } : {}), selectionColor: col(k, 100) };
    if (!cli && c.chance(0.25, "invert")) { tr.invert = true; tr.invertTextColor = col(k, 150); }
    const main = c.pick(targets, "target"); const evs = []; let t = c.chance(0.3, "from-start") ? 0 : c.below(Math.ceil(span / 3), "t0"); const n = 1 + c.below(7, "events");
    for (let i = 0; i < n && t < span - 10; i++) {
      const tg = c.chance(0.25, "elsewhere") ? c.pick(targets, "other") : main; const N = tg.bs.length; const own = tg === main ? {} : { tg };
      const type = c.weighted([[3, "park"], [3, "move"], [1.5, "hide"], [3.5, "select"], [2, "clearSelection"]], "type"); let e = { type, t, bs: tg.bs, ...own };
      if (type === "park" || type === "move") e.charOffset = c.chance(0.15, "end") ? N : c.chance(0.05, "beyond") ? N + 1 + c.below(3, "by") : c.below(N + 1, "off");
      if (type === "select") { e.charStart = c.below(N, "from"); e.charEnd = c.chance(0.15, "all") ? N : e.charStart + 1 + c.below(N - e.charStart, "len"); if (c.chance(0.65, "sweeps")) e.sweepMs = c.pick([100, 300, 450, 1000, 0], "sweep"); if (c.chance(0.75, "own-colour")) e.color = col(k, i); }
      if (type === "hide" || type === "clearSelection") e = { type, t };
      evs.push(e); t += c.chance(0.12, "at-once") ? 0 : c.pick([50, 77.7, 150, 300, 600], "gap");
    }
    return { tr, main, evs: evs.map((e) => ({ ...e, t: e.t + t0, at: e.t })), spec: tr };
  },
  library({ sim, c, m, register }) {
    for (const f of ["SimA", "SimMono"]) register(f);
    const frames = []; let total = 0; for (let i = 1 + c.below(3, "frames"); i > 0; i--) { const f = { svgContent: "<g/>", duration: c.pick([600, 1000, 1333, 900.5, 2500], "dur") }; const t = genTransition(c, {}); if (t && t.type !== "magic-move") f.transition = t; frames.push(f); total += adv(f); }
    // elements: one line, wrapped lines, lines made of spans, right-to-left lines
    const els = [], targets = []; let y = 10; const n = 1 + c.below(4, "elements");
    for (let i = 0; i < n; i++) {
      const kind = c.weighted([[3, "line"], [2, "wrapped"], [2, "spans"], [1.5, "rtl"], [0.5, "long"], [1, "column"], [1.5, "mixed"]], "kind"); const size = c.pick([20, 15, 32, 13.5], "size"); const x0 = c.pick([10, 33.3, 120], "x"); const a = size * ADV; const bs = []; let el;
      const ltr = (text, x, yy) => { const l = { text, x, y: yy, size }; bs.push(...boxesOf(l)); return textEl({ text, x, y: yy, size, font: c.pick(["SimA", "SimMono"], "font") }); };
      if (kind === "line") { el = ltr(c.chance(0.2, "astral") ? `a\u{1F600}b ${word(c)}` : word(c), x0, y); }
      else if (kind === "long") { el = ltr("abcdefghij".repeat(13).slice(0, 121 + c.below(9, "n")), x0, y); }
      else if (kind === "wrapped") { el = ltr(word(c), x0, y); for (let q = 1 + c.below(2, "lines"); q > 0; q--) { y += size * 1.2; const e2 = ltr(word(c), x0, y); e2.textSegments[0].fontFamily = el.styles.fontFamily; el.textSegments.push(e2.textSegments[0]); el.text += e2.text; el.height += size * 1.2; } }
      else if (kind === "spans") { const kids = []; let x = x0; for (let q = 2 + c.below(2, "spans"); q > 0; q--) { const e2 = ltr(word(c), x, y); kids.push(e2); x += e2.width; } el = boxEl(kids, { x: x0, y, width: x - x0, height: size * 1.2 }); }
      else if (kind === "mixed") { // runs of both directions on one line
        const rtl = c.chance(0.5, "rtl"); const runs = Array.from({ length: 2 + c.below(3, "runs") }, (_, q) => ({ heb: (q + (rtl ? 1 : 0)) % 2 === 1, cs: Array.from({ length: 1 + c.below(4, "n") }, () => 0) })); const text = runs.map((r) => (r.cs = r.cs.map(() => (r.heb ? c.pick(HEB, "letter") : c.pick([..."abcxyz"], "letter")))).join("")).join(""); const xs = []; let x = rtl ? x0 + [...text].length * a : x0;
        for (const r of runs) { const w = r.cs.length * a, left = rtl ? x - w : x; r.cs.forEach((ch, j) => { const l = left + (r.heb ? r.cs.length - 1 - j : j) * a; xs.push(l); bs.push({ ch, l, r: l + a, t: y, b: y + size, y, size, rtl: r.heb }); }); x = rtl ? left : x + w; }
        el = textEl({ text, x: x0, y, size }); el.styles = { ...el.styles, direction: rtl ? "rtl" : "ltr" }; el.textSegments[0].xOffsets = xs;
      } else if (kind === "column") { // lines that run down, column after column
        const mode = c.pick(["vertical-rl", "vertical-lr", "sideways-rl"], "mode"); const cols = 1 + c.below(2, "cols"), cw = size * 1.2; el = null; let most = 0;
        for (let q = 0; q < cols; q++) { const text = word(c), x = x0 + 60 + q * cw * (mode === "vertical-lr" ? 1 : -1); const ys = [], advs = []; let yy = y; for (const ch of text) { const h = ch === " " ? size * 0.5 : size; ys.push(yy); advs.push(h); bs.push({ ch, l: x, r: x + cw, t: yy, b: yy + h, y: yy, size, col: true }); yy += h; } most = Math.max(most, yy - y); const e2 = textEl({ text, x, y, size }); Object.assign(e2.textSegments[0], { x, width: cw, height: yy - y, verticalWritingMode: mode, yOffsets: ys, verticalAdvances: advs }); delete e2.textSegments[0].xOffsets; if (el) el.textSegments.push(e2.textSegments[0]); else el = e2; }
        el.styles = { ...el.styles, writingMode: mode }; y += most;
      } else { const k = 2 + c.below(5, "letters"); const text = Array.from({ length: k }, () => c.pick(HEB, "letter")).join(""); el = textEl({ text, x: x0, y, size }); el.styles = { ...el.styles, direction: "rtl" }; el.textSegments[0].xOffsets = [...text].map((_, j) => x0 + (k - 1 - j) * a); [...text].forEach((ch, j) => bs.push({ ch, l: x0 + (k - 1 - j) * a, r: x0 + (k - j) * a, t: y, b: y + size, y, size, rtl: true })); }
      el.animId = `e${i}`; els.push(el); targets.push({ id: `e${i}`, bs }); y += size * 1.2 + 4;
    }
    const tree = [boxEl(els, { tag: "body" })]; const tracks = [];
    for (let k = 1 + c.below(3, "tracks"), i = 0; i < k; i++) { const g = this.genTrack({ c, k: i, targets, span: total, t0: 0 }); if (i > 0 && tracks.length && c.chance(0.3, "alike")) { const o = tracks[0]; g.main = o.main; g.evs = o.evs.filter((e) => (e.type !== "hide" && e.type !== "clearSelection") || c.chance(0.4, "keep")).map((e) => (e.type === "select" ? { ...e, color: col(i, 50), ...(c.chance(0.3, "slower") ? { sweepMs: 700 } : {}) } : e)); if (c.chance(0.5, "hide")) { const t = c.below(Math.ceil(total), "at"); g.evs.push({ type: c.pick(["hide", "clearSelection"], "end"), t, at: t }); } } if (g.evs.length === 0) continue; const events = g.evs.map(({ bs, tg, at, ...e }) => ({ ...e, ...(tg ? { target: { animId: tg.id } } : {}) })); const given = c.chance(0.1, "unordered") && new Set(events.map((e) => e.t)).size === events.length ? [...events].reverse() : events; g.resolved = m.anim.resolveTextTrack(tree, { target: { animId: g.main.id }, ...g.tr, events: given }); g.mod = model(g.evs); tracks.push(g); }
    if (tracks.length === 0) return { nontrivial: false, key: "none" };
    const svg = this.svg = m.anim.generateAnimatedSvg({ width: 400, height: 300, frames, textTracks: tracks.map((g) => g.resolved) }); const all = targets.flatMap((q) => q.bs);
    this.check({ sim, c, svg, tracks, total, all, desc: JSON.stringify(tracks.map((g) => ({ ...g.tr, events: g.evs.map(({ bs, tg, ...e }) => ({ ...e, ...(tg ? { on: tg.id } : {}) })) }))) });
    sim.count("library-tracks"); return { nontrivial: true, key: `L${tracks.map((g) => `${(g.tr.shape ?? "b")[0]}${g.tr.invert ? "i" : ""}${g.evs.map((e) => e.type[0] + (e.sweepMs ? "~" : "")).join("")}`).join("|")}` };
  },
  async session({ sim, c, proc, world, m, register }) {
    world.delayed = false; const lat = c.pick([1, 20], "lat"); let ops = 0, failAt = -1;
    const b = new StageBrowser({ proc, sites: world.sites, register, lat: () => 1 + c.below(lat, "lat"), fault: (l) => { if (ops++ === failAt) { sim.fired("page operation fails"); throw new Error(`${l}: Target crashed`); } } });
    const cfg = { width: 400, height: 300, frames: [], autoCompress: c.chance(0.5, "compress") }; const mod = new Model(); let total = 0; const tracks = [], all = [];
    const n = 1 + c.below(5, "frames");
    for (let i = 0; i < n; i++) {
      const f = {}; if (i === 0 || c.chance(0.25, "load")) { const url = `https://sim/p${i}`; const spec = genDoc(c, {}); for (const p of spec.panes) p.blinks = false; world.sites.set(url, spec); f.input = url; mod.load(spec); } else if (c.chance(0.4, "explicit")) f.continue = true;
      if (mod.doc.height > 300 && c.chance(0.4, "scrollTo")) { f.scrollTo = [0, c.pick([0, 40, 150], "sy")]; mod.scroll(f.scrollTo[1]); }
      const acts = []; for (let j = c.below(3, "acts"); j > 0; j--) { const lines = mod.doc.panes.flatMap((p) => p.lines); if (lines.length === 0) break; const l = c.pick(lines, "line"); const a = c.weighted([[4, () => ({ type: "setText", selector: `#${l.id}`, value: word(c) })], [2, () => ({ type: "click", selector: `#${l.id}` })], [1, () => ({ type: "setStyle", selector: `#${l.id}`, props: { color: c.pick(FILL, "fill") } })], [lines.length > 1 ? 1 : 0, () => ({ type: "remove", selector: `#${l.id}` })], [mod.doc.height > 300 ? 1 : 0, () => ({ type: "scroll", x: 0, y: c.pick([0, 60, 150], "sy") })]], "act")(); mod.act(a); acts.push(a); }
      mod.settle(); if (acts.length) f.actions = acts; f.duration = c.pick([400, 777, 1000, 1500, 900.5], "dur"); f.transition = genTransition(c, { cut: 8 }) ?? undefined; if (!f.transition) delete f.transition;
      const at = mod.doc.lines(); all.push(...at.flatMap((l) => boxesOf(l)));
      const targets = mod.doc.all().map((e) => { const ls = at.filter((l) => l.node === e || l.pane === e); return { sel: `#${e.id}`, bs: ls.flatMap((l) => boxesOf(l)), seen: e.lines == null ? ls.length && ls[0].y > 2 && ls[0].y < 270 : ls.some((l) => l.y > 2 && l.y < 270) }; }).filter((q) => q.bs.length && q.seen);
      if (targets.length && c.chance(0.6, "tracks")) f.textTracks = Array.from({ length: 1 + c.below(2, "k") }, () => { const g = this.genTrack({ c, k: tracks.length, targets, span: f.duration, t0: total, cli: true }); if (g.evs.length === 0) return null; const persist = c.chance(0.25, "persist"); g.mod = model(g.evs, persist ? Infinity : total + f.duration); tracks.push(g); return { selector: g.main.sel, ...g.tr, ...(persist ? { persist } : {}), events: g.evs.map(({ bs, tg, t, ...e }) => ({ ...e, ...(tg ? { selector: tg.sel } : {}) })) }; }).filter(Boolean);
      if (f.textTracks?.length === 0) delete f.textTracks;
      total += adv(f); cfg.frames.push(f);
    }
    if (tracks.length === 0) return { nontrivial: false, key: "none" };
    if (c.chance(0.08, "crash")) failAt = c.below(40, "at"); this.cfg = cfg;
    const res = await sim.settle(m.an.composeAnimateConfig(b, m.an.validateAnimateConfig(structuredClone(cfg)), { configDir: world.dir, log: () => {} }), { maxTime: sim.now + 3600_000, maxSteps: 200000 });
    const desc = JSON.stringify(cfg.frames.map((f) => [f.input ? "load" : "go on", f.duration, f.transition?.type, f.scrollTo, ...(f.actions ?? []).map((a) => `${a.type} ${a.selector ?? a.y}`), f.textTracks]));
    if (res.status === "pending") { sim.violate("never-ends", `${desc}: ${res.why}`); return { key: "p" }; }
    if (res.status === "error") { if (failAt < 0 || ops <= failAt) sim.violate("spurious-error", `${desc}: ${short(res.error)}`); return { nontrivial: true, key: "err" }; }
    if (failAt >= 0 && ops > failAt) return { nontrivial: true, key: "failed-op" };
    this.svg = res.value; this.check({ sim, c, svg: res.value, tracks, total, all, desc });
    sim.count("session-tracks"); return { nontrivial: true, key: `S${tracks.map((g) => `${(g.tr.shape ?? "b")[0]}${g.evs.map((e) => e.type[0] + (e.sweepMs ? "~" : "") + (e.tg ? "o" : "")).join("")}`).join("|")}` };
  },
  check({ sim, c, svg, tracks, total, all, desc }) {
    let v; try { v = new Viewer(svg); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    const P = +(total / 1000).toFixed(2) * 1000; const loop = c.pick([0, 1, 3, 40], "loop"); const ts = [1, total - 12]; for (let i = 0; i < 8; i++) ts.push(c.below(10000, "t") / 10000 * (total - 10));
    for (const g of tracks) for (const e of g.mod.edges) for (const d of [-40, -4, 4, 40, 200]) ts.push(e + d); for (const g of tracks) for (const s of g.mod.sels) for (const k of [0.3, 0.7]) ts.push(s.t + s.sweep * k);
    const glyphs = new Map();
    for (const t of ts.map((q) => Math.round(q * 8) / 8 + 0.03)) if (t >= 0 && t < Math.min(total, P) - 8) for (const l of new Set([0, loop])) {
      const T = t + l * P; const shapes = v.at(T, { shapes: true, open: true, minOpacity: 0.012 }).filter((q) => q.kind === "shape"); const where = `${f1(t)} ms${l ? ` of loop ${l + 1}` : ""}; ${desc}`; const w = 2 + total * 1.2e-5 + (l ? 1 + l * 1e-3 : 0) + Math.abs(P - total);
      for (const g of tracks) {
        const mine = shapes.filter((q) => q.tag === "rect" && same(q.fill, g.tr.color)).map(box); const now = [-w, 0, w].map((d) => g.mod.at(t + d)); const p = now[1]; const steady = now.every((q) => q?.x === p?.x && q?.y === p?.y && (q == null) === (p == null) && q?.ch === p?.ch);
        const blink = g.tr.blinkMs ?? 1060, ph = T % blink; const lit = ph < blink / 2 - 1 ? true : ph > blink / 2 + 1 && ph < blink - 1 ? false : null;
        if (mine.length > 1) { sim.violate("caret-twice", `${mine.map((q) => `(${f1(q.l)}, ${f1(q.t)})`)} at ${where}`); return; }
        if (steady && p == null && mine.length) { sim.violate("caret-while-hidden", `track ${g.tr.color}: caret at (${f1(mine[0].l)}, ${f1(mine[0].t)}) at ${where}`); return; }
        if (steady && p && lit === true && mine.length === 0) { sim.violate("caret-missing", `track ${g.tr.color}: should stand at (${f1(p.x)}, ${f1(p.y)}) at ${where}`); return; }
        if (steady && p && lit === false && mine.length) { sim.violate("caret-does-not-blink", `track ${g.tr.color} at ${where}`); return; }
        if (steady && p && mine.length) {
          const q = mine[0], wd = q.r - q.l, shape = g.tr.shape ?? "bar"; const edge = p.rtl ? q.r : q.l; const top = shape === "underscore" && !p.col ? p.y + p.size * 0.8 : p.y; const want = shape === "bar" ? g.tr.barWidthPx ?? 2 : p.cell;
          if (Math.abs(edge - p.x) > 0.6 || Math.abs(q.t - top) > 0.6) { sim.violate("caret-elsewhere", `track ${g.tr.color}: caret at (${f1(edge)}, ${f1(q.t)}), the script has it at (${f1(p.x)}, ${f1(top)}) at ${where}`); return; }
          if (p.col) { const h = q.b - q.t; if (shape !== "underscore" && Math.abs(wd - p.colW) > 0.6 || Math.abs(h - want) > 0.6) { sim.violate("caret-size", `track ${g.tr.color}: ${f1(wd)}×${f1(h)} in a column, at ${where}`); return; } }
          else if (want != null && Math.abs(wd - want) > 0.6 || shape !== "underscore" && Math.abs(q.b - q.t - Math.round(p.size)) > 1) { sim.violate("caret-size", `track ${g.tr.color}: ${f1(wd)}×${f1(q.b - q.t)} at ${where}`); return; }
          if (g.tr.invert && shape === "block") { const over = shapes.filter((s) => s.tag === "path" && same(s.fill, g.tr.invertTextColor)); const d = over[0]?.el.attrs.d ?? null; if (over.length > 1) { sim.violate("inverted-twice", where); return; } if (d && p.ch == null) { sim.violate("inverted-nothing", where); return; } if (d && /[a-z0-9]/i.test(p.ch ?? "")) { if (glyphs.has(d) && glyphs.get(d) !== p.ch) { sim.violate("inverted-wrong-character", `${p.ch} and ${glyphs.get(d)} look the same, at ${where}`); return; } glyphs.set(d, p.ch); } }
        }
      }
      // highlights, colour by colour
      const colours = new Map(); for (const g of tracks) for (const s of g.mod.sels) { const k = s.color ?? g.tr.selectionColor; colours.set(k, [...(colours.get(k) ?? []), s]); }
      for (const [k, ss] of colours) {
        const rects = shapes.filter((q) => q.tag === "rect" && same(q.fill, k)).map(box).filter((q) => q.r - q.l > 0.05 && q.b - q.t > 0.05);
        const covered = (x, y) => rects.some((q) => x > q.l && x < q.r && y > q.t && y < q.b);
        const must = new Set(), may = new Set(); for (const s of ss) { const slack = s.cs.length > 120 && s.sweep > 0 ? 1.6 : 0; const lo = Math.min(...[-w, w].map((d) => swept(s, t + d))) - slack, hi = Math.max(...[-w, w].map((d) => swept(s, t + d)), ...(t + w >= s.t && t - w < s.until ? [swept(s, Math.min(t + w, s.until - 1e-3))] : [])) + (slack && t + w > s.t && t - w < s.until ? slack : 0); s.cs.forEach((b, i) => { if (i + 1 <= lo + 1e-6) must.add(b); if (i + 1 <= hi + 1e-6) may.add(b); }); }
        const mays = [...may];
        for (const b of must) if (!covered((b.l + b.r) / 2, (b.t + b.b) / 2)) { sim.violate("not-highlighted", `${JSON.stringify(b.ch)} at (${f1(b.l)}, ${f1(b.y)}) in ${k} at ${where}`); return; }
        for (const q of rects) { const pts = [], mx = (q.l + q.r) / 2, my = (q.t + q.b) / 2; for (let x = q.l + 0.8; x < q.r - 0.8; x += 3) pts.push([x, my]); for (let y = q.t + 0.8; y < q.b - 1.3; y += 3) pts.push([mx, y]); for (const [x, y] of pts) if (!mays.some((b) => x > b.l - 0.8 && x < b.r + 0.8 && y > b.t - 0.8 && y < b.b + 1.3 && (b.col ? q.l > b.l - 0.8 && q.r < b.r + 0.8 : q.t > b.t - 0.8 && q.b < b.b + 1.3))) { const b = all.find((a) => x > a.l && x < a.r && y > a.t && y < a.b); sim.violate("wrongly-highlighted", `${b ? JSON.stringify(b.ch) : "nothing"} at (${f1(x)}, ${f1(y)}) in ${k} at ${where}`); return; } }
      }
    }
  },
};
