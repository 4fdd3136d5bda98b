// Authored animation configs over stand-in pages, with what each must show, and
// the process they are composed in.
import { SimProcess } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { Doc, fontBuffer, ADV } from "./stage.mjs";

export const W = 400, H = 300;
export const stubRegistry = `module.exports = { loadTemplate: async (n) => globalThis.__simTemplates(n) };`;
// words that are also names in generated markup must survive as text
export const WORDS = ["alpha", "beta", "fv-0", "f0", "tcur", "cr0", "dmf0", "fd-1", "f-1", "a<b", "x&y", "sf1_", "50%", "{}", "url(#a)", "0%{}", "tf0_f", "go", "Next"];
export const FILL = ["rgb(200, 10, 10)", "rgb(10, 120, 10)", "rgb(0, 0, 200)"];

export let uniq = 0;
export const word = (c) => `${c.pick(WORDS, "w")}${c.chance(0.7, "u") ? ` ${(uniq++).toString(36)}` : ""}`.slice(0, 14);
export function genDoc(c, o = {}) {
  const w = o.w ?? W, h = o.h ?? H; const fonts = [c.pick(["SimA", "SimB", "SimC"], "font")]; const id = (uniq++).toString(36);
  const lines = (k, p, n) => Array.from({ length: n }, (_, i) => ({ id: `l${id}${p}${i}`, text: word(c), size: 20, cls: c.chance(0.2, "cls") ? "hot" : undefined, ...(c.chance(0.3, "colour") ? { color: c.pick(FILL, "fill") } : {}) }));
  if (o.tall) return { font: fonts[0], fonts, height: 900, panes: [{ id: `p${id}0`, x: 10, y: 0, w: w - 20, h: 900, clip: false, lines: lines(id, 0, 37) }] };
  const two = w >= 390 && c.chance(0.6, "panes"); if (c.chance(0.3, "second-font")) fonts.push(c.pick(["SimA", "SimB", "SimC"], "font"));
  const panes = [{ id: `p${id}0`, x: 10, y: c.pick([0, 6, 33], "py"), w: two ? 180 : w - 20, h: h - 40, clip: c.chance(0.4, "clip"), deco: c.chance(0.15, "underlined"), lines: lines(id, 0, 1 + c.below(4, "n")) }];
  if (two) panes.push({ id: `p${id}1`, x: 210, y: c.pick([0, 6, 50], "py"), w: 180, h: h - 60, clip: c.chance(0.4, "clip"), deco: c.chance(0.3, "underlined"), blinks: c.chance(0.3, "menu"), font: fonts[1], lines: lines(id, 1, 1 + c.below(4, "n")) });
  const tall = c.chance(0.2, "scrolls") ? h + 150 : h;
  return { font: fonts[0], fonts: [...new Set(fonts)], height: tall, clickInserts: c.pick(["end", "top"], "ins"), clickDelay: o.delay ? c.pick([0, 60, 150], "delay") : 0, panes };
}
/** What a captured page shows: [{ch,x,y,size,fill}] for every inked character. */
export function shown(doc) {
  const out = []; for (const l of doc.lines()) { let x = l.x; for (const ch of l.text) { if (ch !== " ") out.push({ ch, x, y: l.y + l.size * 0.8, size: l.size, fill: l.color ?? null, clip: l.pane.clip ? [l.pane.x - doc.sx, l.pane.y - doc.sy, l.pane.x - doc.sx + l.pane.w, l.pane.y - doc.sy + l.pane.h] : null }); x += l.size * ADV; } }
  return out;
}
export class Model { // an author's idea of the session: pages change by actions, reactions settle before the next frame
  constructor() { this.doc = null; this.pending = []; this.vh = H; }
  load(spec) { this.doc = new Doc(spec); this.pending = []; }
  settle() { for (const f of this.pending) f(); this.pending = []; }
  act(a) {
    const d = this.doc;
    if (a.type === "wait") { this.settle(); return; }
    if (a.type === "click") { d.click(a.selector, (ms, f) => { this.pending.push(f); }); return; }
    if (a.type === "scroll") { this.scroll(a.y ?? 0); return; }
    const els = d.find(a.selector); if (els.length === 0) throw new Error(`no match for ${a.selector}`);
    for (const e of els) { if (a.type === "setText") e.text = a.value; else if (a.type === "remove") e.remove(); else if (a.type === "setStyle") for (const k in a.props) e.style.setProperty(k, a.props[k]); }
  }
  scroll(y) { this.doc.sy = Math.max(0, Math.min(y, Math.max(0, this.doc.height - this.vh))); }
}
export function genActions(c, m, o = {}) {
  const n = 1 + c.below(o.max ?? 2, "acts"); const out = [];
  for (let i = 0; i < n; i++) {
    const panes = m.doc.panes.filter((p) => !p.hidden && (!o.pane || p === o.pane)); const toggles = o.pane || o.noScroll ? [] : m.doc.panes.filter((p) => p.hidden || panes.some((q) => q !== p && q.lines.length > 0));
    const b = m.doc.panes.find((p) => p.blinks); // a menu that opens and closes, saying one of two things
    if (b && toggles.includes(b) && b.lines.length > 0 && c.chance(0.85, "menu")) { const say = () => ({ type: "setText", selector: `#${b.lines[0].id}`, value: c.pick(["yes", "no"], "says") }); const flip = { type: "setStyle", selector: `#${b.id}`, props: { display: b.hidden ? "block" : "none" } }; const l = b.hidden ? [say(), flip] : [c.chance(0.6, "close") ? flip : say()]; for (const a of l) { m.act(a); out.push(a); } if (c.chance(0.9, "only")) break; continue; }
    if (toggles.length > 0 && c.chance(panes.length === m.doc.panes.length ? 0.15 : 0.4, "toggle")) { const p = c.pick(toggles, "pane"); const a = { type: "setStyle", selector: `#${p.id}`, props: { display: p.hidden ? "block" : "none" } }; m.act(a); out.push(a); continue; }
    const lines = panes.flatMap((p) => p.lines); if (lines.length === 0) break;
    const l = c.pick(lines, "line"); const many = !o.pane && l.cls && c.chance(0.5, "by-class");
    const a = c.weighted([[4, () => ({ type: "setText", selector: many ? ".hot" : `#${l.id}`, value: c.chance(0.3, "append") ? `${l.text}${c.pick("xyz!", "ch")}`.slice(0, 15) : word(c) })], [3, () => ({ type: "click", selector: `#${c.chance(0.5, "pane") ? l.id : panes.find((p) => p.lines.includes(l)).id}` })], [lines.length > 1 ? 1 : 0, () => ({ type: "remove", selector: `#${l.id}` })], [1, () => ({ type: "setStyle", selector: `#${l.id}`, props: { color: c.pick(FILL, "fill") } })], [o.waits ? 1 : 0, () => ({ type: "wait", ms: 200 })], [o.pane || o.noScroll ? 0 : 0.5, () => ({ type: "scroll", x: 0, y: c.pick([0, 60, 150], "sy") })]], "act")();
    m.act(a); out.push(a);
  }
  return out;
}
export const dur = (c) => c.pick([400, 600, 777, 1000, 1250, 900.5, 1333], "dur");
export function genTransition(c, o) {
  const duration = c.pick([200, 300, 450, 333, 0, 700], "td"); const easing = c.chance(0.3, "te") ? { easing: c.pick(["linear", "ease-in-out", "cubic-bezier(0.2,0,0.3,1)"], "easing") } : {}; const origin = { x: c.pick([0, 0.5, 1], "ox"), y: c.pick([0, 0.3], "oy") };
  const t = c.weighted([[2, () => null], [o.cut ?? 4, () => ({ type: "cut", duration: c.chance(0.5, "cd") ? 0 : 100 })], [2, () => ({ type: "crossfade", duration })], [2, () => ({ type: c.pick(["push-left", "push-right", "push-up", "push-down", "scroll"], "push"), duration })], [1, () => ({ type: "wipe", duration, ...easing, ...(c.chance(0.5, "a") ? { wipeAngle: 30 } : {}) })], [1, () => ({ type: c.pick(["iris", "wipe-radial"], "rad"), duration, ...easing })], [0.5, () => ({ type: "wipe-clock", duration, ...easing })], [1, () => ({ type: c.pick(["zoom-in", "zoom-out"], "z"), duration, ...easing })], [2, () => ({ type: "magic-move", duration })], [0.5, () => ({ type: "shine", duration })], [0.5, () => ({ type: "push", duration, ...easing, push: c.chance(0.5, "pa") ? { angle: 45, distance: 1 } : { direction: c.pick(["left", "down"], "d"), distance: 1 } })], [0.5, () => ({ type: "reveal", duration, ...easing, reveal: c.pick([{ shape: "linear", angle: 90 }, { shape: "radial", origin, radius: 1.2 }, { shape: "clock", origin }], "rev") })], [0.5, () => ({ type: "zoom", duration, ...easing, zoom: { fromScale: 0.5, origin } })], [0.5, () => ({ type: "custom", duration, ...easing, custom: { incoming: { opacity: 0, translate: { x: 0.5, y: 0 } }, outgoing: { opacity: 0 } } })]], "transition")();
  return t;
}
export const adv = (f) => f.duration + (f.transition == null ? 300 : f.transition.type === "cut" ? 0 : f.transition.duration);

export const resetNames = () => { uniq = 0; };
/** A config and what it must show: parts [{start, hold, tr, at(τ) → {items, guard}, edges:[τ…]}]. */
export function genConfig(c, world, o = {}) {
  const cfg = { width: o.w ?? W, height: o.h ?? H, frames: [] }; const parts = []; const m = new Model(); m.vh = cfg.height;
  if (!o.nested) { const ac = c.pick([undefined, true, false], "auto"); if (ac !== undefined) cfg.autoCompress = ac; }
  const n = 1 + c.below(o.max ?? 6, "frames"); let live = false;
  const delayed = world.delayed;
  const load = (spec) => { const url = `https://sim/${uniq++}`; world.sites.set(url, spec); m.load(spec); live = true; return url; };
  for (let i = 0; i < n; i++) {
    const f = {}; const tr = genTransition(c, { cut: o.cut });
    const kind = c.weighted([[i === 0 || !live ? 5 : 2, "load"], [live ? 7 : 0, "continue"], [delayed ? 0 : 2, "states"], [o.nested ? 0.5 : 1.2, "cast"], [o.nested ? 0 : 1.2, "template"], [o.nested ? 0 : 1.2, "scroll"]], "kind");
    let items = null, at = null, edges = [];
    const page = () => { if (!live || c.chance(0.3, "fresh")) { f.input = load(genDoc(c, { w: cfg.width, h: cfg.height, delay: delayed })); } else if (c.chance(0.4, "explicit")) f.continue = true; m.settle(); };
    const pre = () => { if (c.chance(0.1, "wait")) f.wait = c.pick([200, 350], "w"); if (m.doc.height > cfg.height && c.chance(0.3, "scrollTo")) { f.scrollTo = [0, c.pick([0, 40, 150], "sy")]; m.scroll(f.scrollTo[1]); } };
    if (kind === "load" || kind === "continue") {
      if (kind === "load") { f.input = load(genDoc(c, { w: cfg.width, h: cfg.height, delay: delayed })); m.settle(); } else { if (c.chance(0.4, "explicit")) f.continue = true; m.settle(); }
      pre(); if (kind === "continue" || c.chance(0.3, "acts")) { const a = genActions(c, m, { waits: delayed, max: delayed ? 1 : 3 }); if (a.length) f.actions = a; }
      f.duration = dur(c); items = shown(m.doc); at = () => ({ items }); if (!o.nested) { if (c.chance(0.06, "marker")) f.compress = true; else if (c.chance(0.06, "no-marker")) f.compress = false; }
    } else if (kind === "states") {
      page(); pre(); if (c.chance(0.3, "acts")) { const a = genActions(c, m); if (a.length) f.actions = a; }
      const k = 1 + c.below(m.doc.panes.some((p) => p.blinks) ? 9 : 5, "states"); const regional = m.doc.panes.length === 2 && m.doc.panes.every((p) => !p.hidden) && c.chance(0.35, "regions"); const list = []; f.states = [];
      if (regional) f.regions = { left: `#${m.doc.panes[0].id}`, right: `#${m.doc.panes[1].id}` };
      const timed = regional && c.chance(0.7, "advances");
      for (let j = 0; j < k; j++) { const s = { duration: c.pick([120, 200, 350, 401], "hold") }; if (j > 0) { if (timed) { const which = c.below(2, "region"); s.advances = [["left", "right"][which]]; s.actions = genActions(c, m, { pane: m.doc.panes[which] }); } else s.actions = genActions(c, m, { noScroll: regional }); } if (s.actions?.length === 0) delete s.actions; f.states.push(s); list.push({ hold: s.duration, items: shown(m.doc) }); }
      if (c.chance(0.3, "caret")) f.caret = true;
      ({ at, edges } = screens(list)); const total = list.reduce((a, q) => a + q.hold, 0); f.duration = Math.max(300, total + c.pick([0, 0, 400, -100], "slack"));
    } else if (kind === "cast") {
      const name = `c${uniq++}.cast`; f.cast = o.nested ? `${world.dir}/${name}` : name; const rows = 5, cols = 20, fs = 14, pad = 4; const k = 1 + c.below(4, "lines"); const list = []; const acc = []; let t = 0; const ev = [];
      for (let j = 0; j < k; j++) { const text = `${word(c)}`; ev.push([t / 1000, "o", `${text}\r\n`]); const y = j; [...text].forEach((ch, x) => { if (ch !== " ") acc.push({ ch, x: pad + x * fs * ADV, y: pad + y * fs * 1.4 + fs * 1.4 / 2 + fs * 0.2, size: fs, fill: null, clip: null }); }); const hold = j === k - 1 ? 1000 : c.pick([420, 500, 800], "gap"); t += hold; list.push({ hold, items: [...acc] }); }
      world.files.set(`${world.dir}/${name}`, JSON.stringify({ version: 2, width: cols, height: rows }) + "\n" + ev.map((e) => JSON.stringify(e)).join("\n") + "\n");
      const mode = c.chance(0.4, "full") ? "full" : "incremental"; f.term = { fontFamily: "SimMono, monospace", fontSize: fs, padding: pad, tailMs: 1000, mode, cursor: "none" };
      ({ at, edges } = screens(list, mode === "full" ? 8 : 140)); f.duration = Math.max(300, t + c.pick([0, 0, 500, -150], "slack"));
    } else if (kind === "template") {
      const sub = genConfig(c, world, { nested: true, max: 3, w: c.pick([400, 200], "tw"), h: c.pick([300, 150], "th") }); const key = `t${uniq++}`; f.template = "sim"; f.params = { key };
      const total = sub.parts.reduce((a, p) => a + p.hold + p.tr, 0); const still = sub.parts.length === 1 && sub.cfg.frames[0].states == null && sub.cfg.frames[0].cast == null; world.templates.set(key, { cfg: sub.cfg, width: sub.cfg.width, height: sub.cfg.height, durationMs: still ? undefined : total });
      const fit = c.pick([undefined, "center", "contain", "cover"], "fit"); if (fit) f.fit = fit;
      const k = fit === "contain" ? Math.min(cfg.width / sub.cfg.width, cfg.height / sub.cfg.height) : fit === "cover" ? Math.max(cfg.width / sub.cfg.width, cfg.height / sub.cfg.height) : 1; const ox = (cfg.width - sub.cfg.width * k) / 2, oy = (cfg.height - sub.cfg.height * k) / 2;
      const box = [ox, oy, ox + sub.cfg.width * k, oy + sub.cfg.height * k]; const place = (list) => list.map((q) => ({ ...q, x: ox + q.x * k, y: oy + q.y * k, size: q.size * k, clip: q.clip ? clipBoth(q.clip.map((v, i2) => (i2 % 2 ? oy : ox) + v * k), box) : box }));
      at = (tau) => { const r = playAt(sub.parts, Math.min(tau, total - 1e-6), total, tau >= total); return r == null ? null : { items: place(r.items) }; };
      let s = 0; edges = []; for (const p of sub.parts) { edges.push(s, ...p.edges.map((e) => s + e), s + p.hold); s += p.hold + p.tr; }
      if (still || c.chance(0.6, "own-duration")) f.duration = Math.max(300, (still ? 700 : total) + c.pick([0, 0, 400, -200], "slack"));
      else { f.duration = total; f.__omit = true; }
    } else {
      const fresh = !live || c.chance(0.8, "fresh"); if (fresh) f.input = load(genDoc(c, { tall: true })); m.settle(); const acts = []; const list = []; const max = Math.max(0, m.doc.height - cfg.height);
      m.scroll(0); const k = 1 + c.below(4, "segs"); let t = 0; const rest = (ms) => { list.push({ t, ms, items: shown(m.doc) }); t += ms; };
      for (let j = 0; j < k; j++) { if (j === 0 || c.chance(0.8, "pause")) { const p = c.pick([500, 800], "p"); acts.push(`pause:${p}ms`); rest(p); } const ms = c.pick([400, 600, 1000], "sd"); const px = c.pick([120, 300, 333, 50], "px"); const up = j > 0 && c.chance(0.3, "up"); acts.push(`${up ? "up:" : ""}${px}px/${ms}ms`); const from = m.doc.sy; const to = Math.max(0, Math.min(max, from + (up ? -px : px))); m.scroll(to); t += ms; }
      acts.push("pause:600ms"); rest(600); f.scroll = { pattern: acts.join(","), ...(c.chance(0.3, "noprescroll") ? { prescroll: false } : {}) }; if (f.scroll.prescroll === false && !fresh) f.scroll.prescroll = true;
      const end = t; at = (tau) => { if (tau >= end - 600 + 4) return { items: list[list.length - 1].items }; const q = list.find((r) => tau > r.t + 4 && tau < r.t + r.ms - 4); return q ? { items: q.items } : null; }; edges = list.flatMap((r) => [r.t, r.t + r.ms]);
      f.duration = Math.max(400, end + c.pick([0, 0, 500, -100], "slack"));
    }
    if (tr) f.transition = tr; cfg.frames.push(f); parts.push({ kind, hold: f.duration, tr: adv(f) - f.duration, type: tr?.type ?? "crossfade", at, edges });
    if (f.__omit) { delete f.__omit; delete f.duration; }
  }
  return { cfg, parts };
}
export const clipBoth = (a, b) => [Math.max(a[0], b[0]), Math.max(a[1], b[1]), Math.min(a[2], b[2]), Math.min(a[3], b[3])];
/** Screens shown one after the other, the last one for good; null near a change. */
export function screens(list, guard = 3) {
  const edges = []; let t = 0; const spans = list.map((q) => { const s = t; t += q.hold; edges.push(s); return { s, e: t, items: q.items }; });
  return { edges, at: (tau) => { const i = spans.findIndex((q) => tau < q.e); const q = i < 0 ? spans[spans.length - 1] : spans[i]; if (i >= 0) { if (tau < q.s + 3 && i > 0) return null; if (i < spans.length - 1 && tau > q.e - guard) return null; } return { items: q.items }; } };
}
/** Which items show at t of a composition (null: in motion). */
export function playAt(parts, t, total, after) {
  let s = 0; for (let i = 0; i < parts.length; i++) { const p = parts[i]; const last = i === parts.length - 1; if (last || t < s + p.hold + p.tr) { if (after) return parts[parts.length - 1].at(total - s); if (t - s > p.hold - 3 && !last && p.tr > 0) return null; if (t - s < 3 || (!last && t - s > p.hold - 3)) return null; return p.at(t - s); } s += p.hold + p.tr; }
  return null;
}

export const norm = (s) => s.replace(/\s+/g, "").toLowerCase();
export const lineOf = (l) => [...l].filter((q) => q.ch).sort((p, q) => Math.round(p.y - q.y) || p.x - q.x).map((q) => q.ch).join("").slice(0, 140);

/** The composing process: files, programs (none), templates, fonts. */
export function makeStudio({ sim, c, load }) {
  uniq = 0; const proc = new SimProcess(sim, { name: "cli" }); proc.cwd = "/work";
  const world = { dir: "/work", g: null, sites: new Map(), files: new Map(), templates: new Map(), delayed: c.chance(0.35, "page-reacts-late") };
  const enoent = (p) => Object.assign(new Error(`ENOENT: no such file or directory, open '${p}'`), { code: "ENOENT" }); let tmp = 0; const dirs = new Set(); const ctl = { failTmp: false };
  const fs = { existsSync: (p) => world.files.has(String(p)), readFileSync: (p) => { if (!world.files.has(String(p))) throw enoent(p); return world.files.get(String(p)); }, readdirSync: () => [], statSync: (p) => { throw enoent(p); }, mkdirSync() {}, writeFileSync() {}, chmodSync() {}, mkdtempSync: (p) => { if (ctl.failTmp) { sim.fired("no space for a temporary directory"); throw Object.assign(new Error("ENOSPC: no space left on device, mkdtemp"), { code: "ENOSPC" }); } const d = `${p}${tmp++}`; dirs.add(d); return d; }, rmSync: (p) => { dirs.delete(String(p)); } };
  const dead = () => { throw enoent("program"); };
  const g = makeGlobals(sim, proc, { modules: { fs, child_process: { spawnSync: () => ({ status: 127, error: new Error("ENOENT"), stdout: "", stderr: "" }), execFileSync: dead, execSync: dead, spawn: dead, execFile: dead }, os: { platform: () => "linux", homedir: () => "/home/u", tmpdir: () => "/tmp", cpus: () => [] } } });
  g.globalThis.__simTemplates = () => ({ name: "sim", paramsSchema: { shape: {}, safeParse: (v) => ({ success: true, data: v }) }, render: async (p, ctx) => { const t = world.templates.get(p.key); if (t.bad) throw new Error("template failed"); return { svg: await ctx.runAnimateConfig(t.cfg), width: t.width, height: t.height, ...(t.durationMs != null ? { durationMs: t.durationMs } : {}) }; } });
  world.g = g; const m = load(g);
  const register = (f) => { for (const w of [400, 700]) m.ttp.registerWebfont(f, w, "normal", fontBuffer(f)); };
  return { proc, world, g, m, register, dirs, ctl };
}
