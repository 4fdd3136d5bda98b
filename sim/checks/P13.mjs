// P13 — composites and storyboards play every layer and scene as it plays by itself.
import { short } from "../core/sim.mjs";
import { StageBrowser, stubCapture, fontBuffer, ADV } from "../worlds/stage.mjs";
import { stubRegistry, genConfig, genDoc, shown, Model, makeStudio, lineOf, WORDS } from "../worlds/studio.mjs";
import { Viewer } from "../worlds/viewer.mjs";

const EASE = ["linear", "linear", "ease", "ease-in-out"];
export default {
  id: "P13",
  entries: { an: "src/cli/animate.ts", co: "src/cli/composite.ts", sb: "src/cli/storyboard.ts", tr: "src/templates/render.ts", te: "src/terminal/index.ts", dc: "src/render/device-chrome.ts", pp: "src/post-processing/index.ts", ttp: "src/render/text-to-path.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture], [/src\/templates\/registry\.ts$/, stubRegistry]] },
  quick: { runs: 3000, cap: 75 }, thorough: { runs: 60000, cap: 840 },
  rule: "at every moment of every loop each layer (scene) shows what it shows by itself at its own local time, at its own place and under its own layer animations; a failing source rejects the whole and leaves nothing open",
  assumptions: ["pages are laid out on a fixed grid of text lines"],
  real: ["src/cli/composite.ts", "src/cli/storyboard.ts", "src/cli/animate.ts", "src/animation", "src/terminal", "src/templates/render.ts", "src/render", "src/post-processing/optimize.ts (with svgo)"],
  stub: ["Chromium pages (documents of text lines)", "src/capture", "template registry", "file system holding sources"],
  simOpts: {},
  warmup() { for (const f of ["SimA", "SimB", "SimC", "SimMono"]) fontBuffer(f); },
  async run({ sim, choices: c, load }) {
    const { proc, world, m, register, dirs } = makeStudio({ sim, c, load });
    const faulty = c.chance(0.2, "faults"); let ops = 0, failAt = -1;
    const b = new StageBrowser({ proc, sites: world.sites, register, lat: () => 1 + c.below(5, "lat"), fault: (l) => { if (ops++ === failAt) { sim.fired("page operation fails"); throw new Error(`${l}: Target crashed`); } } });
    const settle = (p) => sim.settle(p, { maxTime: sim.now + 3600_000, maxSteps: 200000 });
    const must = async (p, what) => { const r = await settle(p); if (r.status !== "ok") { sim.violate("source-failed", `${what}: ${r.status} ${short(r.error ?? r.why)}`); return null; } return r.value; };
    const ctx = { sim, c, m, b, world, settle, must };
    const put = (name, text) => { world.files.set(`${world.dir}/${name}`, text); return name; };
    let n = 0; const keys = []; const made = [];

    // ---- sources: {svg, w, h, period (0 = still), text} plus how a config names them ----
    const sources = [];
    const newSource = async () => {
      const kind = c.weighted([[5, "anim"], [2, "cast"], [2, "template"], [1, "still"], [made.length ? 4 : 0, "made"], [1.5, "hand"]], "source");
      if (kind === "anim" || kind === "still" || kind === "template") {
        const w = c.pick([400, 200, 300], "w"), h = c.pick([300, 150], "h"); const { cfg, parts } = genConfig(c, world, { nested: true, max: kind === "still" ? 1 : 3, w, h }); const still = parts.length === 1 && ["load", "continue"].includes(parts[0].kind); const total = parts.reduce((a, p) => a + p.hold + p.tr, 0);
        if (kind === "template") { const key = `k${n++}`; world.templates.set(key, { cfg, width: w, height: h, durationMs: still ? undefined : total }); const tpl = world.g.globalThis.__simTemplates(); const out = await must(m.tr.renderTemplateToSvg(tpl, { key }, { browser: b, log: () => {} }), "template"); if (!out) return null; return { kind, ref: { template: "sim", params: { key } }, svg: out.svg, w, h, period: still ? 0 : total }; }
        let svg = await must(m.an.composeAnimateConfig(b, m.an.validateAnimateConfig(cfg), { configDir: world.dir, log: () => {} }), "animation"); if (svg == null) return null; const opt = c.chance(0.35, "optimised"); if (opt) svg = m.pp.optimizeSvg(svg);
        return { kind: kind + (opt ? "/opt" : ""), ref: { svg: put(`src${n++}.svg`, svg) }, svg, w, h, period: +(total / 1000).toFixed(2) * 1000, total };
      }
      if (kind === "cast") {
        const lines = Array.from({ length: 1 + c.below(4, "lines") }, () => c.pick(WORDS, "w")); let t = 0; const ev = lines.map((s) => { const e = [t / 1000, "o", `${s}\r\n`]; t += c.pick([420, 500, 800], "gap"); return e; }); const name = put(`rec${n++}.cast`, JSON.stringify({ version: 2, width: 20, height: 6 }) + "\n" + ev.map((e) => JSON.stringify(e)).join("\n") + "\n");
        const term = { fontFamily: "SimMono, monospace", fontSize: c.pick([14, 10], "fs"), padding: 4, tailMs: 1000, mode: c.chance(0.4, "full") ? "full" : "incremental", cursor: "none" };
        const r = await must(m.te.castToAnimatedSvg(world.files.get(`${world.dir}/${name}`), b, { ...term, log: () => {} }), "cast"); if (!r) return null; return { kind, ref: { cast: name, term }, svg: r.svg, w: r.width, h: r.height, period: r.totalDurationMs };
      }
      if (kind === "made") { const q = c.pick(made, "made"); return { kind: "made", ref: { svg: q.name, period: q.period }, svg: q.svg, w: q.w, h: q.h, period: q.period }; }
      const words = [c.pick(["card", "v1.card", "spin", "g1", "#g1 url(#g1)", "box.card {a}"], "hand"), c.pick(WORDS, "w")]; const e = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;");
      const svg = `<svg xmlns="http://www.w3.org/2000/svg" width="160" height="80" viewBox="0 0 160 80"><defs><clipPath id="g1"><rect x="0" y="0" width="160" height="80"/></clipPath></defs><style>.card{fill:${c.pick(["#112233", "#445566"], "fill")}}</style><g clip-path="url(#g1)"><text class="card" x="10" y="30" font-size="16" font-family="Arial">${e(words[0])}</text><text x="10" y="60" font-size="16" font-family="Arial">${e(words[1])}</text></g></svg>`;
      return { kind: "hand", ref: { svg: put(`hand${n++}.svg`, svg) }, svg, w: 160, h: 80, period: 0 };
    };
    const nSrc = 1 + c.below(3, "sources"); for (let i = 0; i < nSrc; i++) { const s = await newSource(); if (!s) return { key: "v" }; sources.push(s); }

    const rounds = 1 + c.below(3, "rounds");
    for (let r = 0; r < rounds; r++) {
      if (made.length && c.chance(0.8, "another")) { const s = await newSource(); if (!s) return { key: "v" }; sources.push(s); if (s.kind !== "made" && c.chance(0.7, "both")) { const q = c.pick(made, "made"); sources.push({ kind: "made", ref: { svg: q.name, period: q.period }, svg: q.svg, w: q.w, h: q.h, period: q.period }); } }
      const story = c.chance(0.4, "storyboard"); const job = story ? this.storyboard(ctx, sources) : this.composite(ctx, sources);
      let bad = null; failAt = -1; const cfg = structuredClone(job.cfg); const list = cfg.layers ?? cfg.scenes;
      if (faulty && c.chance(0.6, "this-one")) bad = c.pick(["page", "file", "cast"], "fault");
      if (bad === "page") failAt = ops + c.below(30, "at");
      if (bad === "file") { const q = list.filter((x) => x.svg); if (q.length) { c.pick(q, "f").svg = "gone.svg"; sim.fired("source file missing"); } else bad = null; }
      if (bad === "cast") { const q = list.filter((x) => x.cast); if (q.length) { c.pick(q, "f").cast = "gone.cast"; sim.fired("recording missing"); } else bad = null; }
      let valid; try { valid = story ? m.sb.validateStoryboardConfig(cfg) : m.co.validateCompositeConfig(cfg); } catch (e) { sim.violate("valid-config-refused", short(e)); return { key: "refused" }; }
      const desc = `${story ? "storyboard" : "composite"} of ${job.items.map((q) => q.src.kind).join("+")} (${r + 1})`; this.last = { raw: cfg, sources };
      const start = ops; const res = await settle(story ? m.sb.composeStoryboardConfig(b, valid, world.dir, () => {}) : m.co.composeCompositeConfig(b, valid, world.dir, () => {}));
      const faultAt = failAt; failAt = -1;
      if (res.status === "pending") { sim.violate("never-ends", `${desc}: ${res.why}`); return { key: "pending" }; }
      if (b.open.length > 0 || dirs.size) { sim.violate("left-open", `${desc}: ${b.open.length} context(s), ${dirs.size} temporary directory(ies) (${res.status})`); return { key: "leak" }; }
      const hit = bad === "page" ? ops > faultAt && faultAt >= start : bad != null;
      if (res.status === "error") { if (!hit) sim.violate("spurious-error", `${desc}: ${short(res.error)}`); keys.push("err"); continue; }
      if (hit) { sim.violate("failure-swallowed", `${desc}: ${bad} failed and it reported success`); return { key: "swallow" }; }
      let svg = res.value; this.svg = svg; if (c.chance(0.2, "optimise-result")) svg = m.pp.optimizeSvg(svg);
      this.play({ sim, c, svg, job, desc }); if (sim.violations.length) return { key: "v" };
      keys.push((story ? "s" : "c") + job.items.map((q) => q.src.kind[0] + (q.mode ?? "")[0]).join(""));
      if (!job.free) { const name = `made${n++}.svg`; put(name, svg); made.push({ name, svg, w: cfg.width, h: cfg.height, period: job.period, src: job }); }
    }
    return { nontrivial: keys.length > 0, key: keys.join() };
  },

  /** Layers stacked on one another, each with its own start and pace. */
  composite({ c, m, sim }, sources) {
    const W = c.pick([600, 400], "W"), H = c.pick([400, 300], "H"); const cfg = { width: W, height: H, layers: [] }; const items = []; let free = false;
    const k = 1 + c.below(4, "layers");
    for (let i = 0; i < k; i++) {
      const src = c.pick(sources, "src"); const l = { ...src.ref }; if (src.ref.svg && src.period && c.chance(0.6, "given-period")) l.period = src.period; else if (src.kind !== "made") delete l.period; else if (src.period) l.period = src.period;
      let { svg, w, h } = src; if (c.chance(0.12, "chrome")) { l.chrome = { device: c.pick(["window", "browser", "phone"], "device"), theme: "dark", label: "app" }; const f = m.dc.wrapInDeviceChrome(svg, l.chrome.device, w, h, { label: "app", theme: "dark" }); svg = f.svg; w = f.width; h = f.height; }
      if (c.chance(0.7, "placed")) { l.x = c.pick([0, 20, 55.5, 200], "x"); l.y = c.pick([0, 10, 33.25, 150], "y"); } if (c.chance(0.3, "sized")) { l.width = w * c.pick([0.5, 1, 1.5], "sx"); l.height = h * c.pick([0.5, 1, 1.25], "sy"); } if (c.chance(0.3, "clip")) l.clip = true;
      if (c.chance(0.6, "start")) l.start = c.pick([0, 300, 1000, 1234, 2500.5], "start"); if (c.chance(0.5, "mode")) { l.mode = c.pick(["hold", "stretch", "loop"], "mode"); if (l.mode === "stretch" && c.chance(0.8, "dur")) l.duration = c.pick([500, 2000, 3333, 5000], "stretch"); }
      if (src.period && l.mode === "loop") free = true;
      const anims = []; if (c.chance(0.45, "animated")) for (const p of c.pick([["translateX"], ["translateY"], ["opacity"], ["translateX", "opacity"], ["clipScaleX"], ["clipScaleX", "clipScaleY"], ["opacity", "clipScaleY"], ["translateX", "translateY"]], "props")) { const s = c.pick([0, 200, 900, 1500], "as"), d = c.pick([300, 700, 1200], "ad"); const share = /clip/.test(p) && anims.find((q) => /clip/.test(q.property)); const [from, to] = { translateX: [c.pick([-40, 0, "30px"], "from"), c.pick([0, 25], "to")], translateY: [c.pick([-20, "10px"], "from"), 0], opacity: c.pick([[0, 1], [1, 0], [0.4, 0.9]], "fade"), clipScaleX: c.pick([[1, 0.5], [0.25, 1]], "clip"), clipScaleY: [1, 0.5] }[p]; anims.push({ property: p, from, to, start: share ? share.start : s, duration: share ? share.duration : d, easing: c.pick(EASE, "easing") }); }
      if (anims.length) l.animations = anims;
      cfg.layers.push(l); items.push({ src, l, w, h, mode: src.period ? l.mode ?? "hold" : undefined, start: l.start ?? 0, anims, solo: new Viewer(svg), P: l.period ?? src.period, win: l.mode === "stretch" ? l.duration ?? src.period : src.period });
    }
    const end = Math.max(...items.map((q) => Math.max(q.start + (q.mode === "loop" ? q.P : q.win || 0), ...q.anims.map((a) => a.start + a.duration)))); if (c.chance(0.5, "duration")) cfg.duration = Math.max(1000, Math.ceil(end) + c.pick([0, 0, 700, 1500.5], "more"));
    const period = cfg.duration ?? Math.max(1, Math.ceil(end)); sim.count("composite");
    return { cfg, items, period, free, kind: "composite", W, H };
  },
  storyboard({ c, sim, world }, sources) {
    const W = 400, H = 300; const cfg = { width: W, height: H, scenes: [] }; const items = []; const k = 1 + c.below(4, "scenes"); let s = 0;
    for (let i = 0; i < k; i++) {
      const sc = {}; let it;
      if (c.chance(0.25, "capture")) { const mdl = new Model(); const spec = genDoc(c, {}); const url = `https://sim/sb${i}-${world.sites.size}`; world.sites.set(url, spec); mdl.load(spec); sc.capture = { url }; sc.duration = c.pick([500, 900, 1250], "dur"); it = { src: { kind: "page", period: 0 }, items: shown(mdl.doc), w: W, h: H, P: 0 }; }
      else { const src = c.pick(sources, "src"); Object.assign(sc, src.ref); if (src.period && src.ref.svg && c.chance(0.6, "given-period")) sc.period = src.period; const fit = c.pick([undefined, "center", "contain", "cover"], "fit"); if (fit) sc.fit = fit; if (!src.period || c.chance(0.6, "own-duration")) sc.duration = Math.max(300, (src.period || 800) + c.pick([0, 0, 400, -200, 777], "slack")); it = { src, w: src.w, h: src.h, solo: new Viewer(src.svg), P: src.period, fit: fit ?? "center" }; }
      const t = c.weighted([[2, null], [4, { type: "cut", duration: 0 }], [2, { type: "crossfade", duration: c.pick([200, 333], "td") }], [1, { type: c.pick(["push-left", "wipe", "zoom-in", "shine", "iris"], "type"), duration: 300 }]], "transition"); if (t) sc.transition = t;
      it.start = s; it.hold = sc.duration ?? it.P; it.tr = t == null ? 300 : t.type === "cut" ? 0 : t.duration; s += it.hold + it.tr; cfg.scenes.push(sc); items.push(it);
    }
    sim.count("storyboard"); return { cfg, items, period: +(s / 1000).toFixed(2) * 1000, total: s, kind: "storyboard", W, H };
  },

  play({ sim, c, svg, job, desc }) {
    let v; try { v = new Viewer(svg); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    if (v.dupIds.size) { sim.violate("duplicate-ids", `${desc}: ${[...v.dupIds].slice(0, 3)}`); return; }
    const P = job.period; const tol = 6 + P * 1.15e-3; const loops = [0, c.pick([0, 1, 2, 7, 40], "loop")]; const still = job.items.every((q) => !q.P && !(q.anims?.length)) && job.kind === "composite";
    const times = []; const edges = job.items.flatMap((q) => [q.start, q.start + (q.win ?? q.hold ?? 0), ...(q.anims ?? []).flatMap((a) => [a.start, a.start + a.duration])]);
    for (let i = 0; i < 6; i++) times.push(P * c.below(10000, "at") / 10000); for (let i = 0; i < 3; i++) times.push(c.pick(edges, "edge") + c.pick([-40, -tol - 1, tol + 1, 60], "d"));
    for (const t0 of times) for (const k of new Set(loops)) {
      if (t0 < (k ? tol : 0) || t0 >= P - tol || (still && k)) continue; const T = t0 + k * P; const exp = [];
      let skip = false; const only = job.kind === "storyboard" ? job.items.find((q, i) => t0 >= q.start + tol && t0 <= q.start + q.hold + (i === job.items.length - 1 ? q.tr : 0) - tol) : null; if (job.kind === "storyboard" && !only) continue;
      for (const q of only ? [only] : job.items) { const e = this.layer(q, t0, T, P, tol, job); if (e == null) { skip = true; break; } exp.push(...e); }
      if (skip) { sim.count("moment-in-motion"); continue; }
      this.compare({ sim, v, T, exp, W: job.W, H: job.H, desc: `${desc} at ${t0.toFixed(1)} of ${P} ms${k ? `, loop ${k + 1}` : ""}`, job }); if (sim.violations.length) return; sim.count("moment");
    }
  },
  /** What one layer contributes at time t0 of the loop (T overall); null when that cannot be pinned down. */
  layer(q, t0, T, P, tol, job) {
    let pts, place;
    if (q.items) { pts = q.items.map((it) => ({ ch: it.ch, x: it.x, y: it.y, op: 1, fill: it.fill, edge: it.clip && !(it.x > it.clip[0] && it.x + it.size * ADV < it.clip[2] && it.y - it.size * 0.8 >= it.clip[1] && it.y + it.size * 0.2 <= it.clip[3]), hard: true })); }
    else {
      const doc = +(q.P / 1000).toFixed(2) * 1000; const own = q.src.kind === "template" ? doc : q.P; const end = Math.min(doc, q.P) - 1e-3; // a loop runs at the length its document states
      const local = (tt, TT) => { if (!q.P) return 0; let u; if (q.mode === "loop") { u = TT < q.start ? 0 : (TT - q.start) % own; } else if (q.mode === "stretch") u = (tt - q.start) * q.P / q.win; else u = tt - q.start; return Math.max(0, Math.min(u, end)); };
      const scale = q.mode === "stretch" ? q.P / q.win : 1; const d = tol * Math.max(1, scale) * (q.mode === "loop" ? 1 : 1); const mid = local(t0, T); const a = Math.max(0, mid - d), z = Math.min(q.P ? end : 0, mid + d); if (q.mode === "loop" && T >= q.start && (mid < d || mid > q.P - d)) return null;
      const cut = q.mode !== "loop" && q.P && q.start + (q.win ?? q.P) > P + 1; // cut off by the end of the loop
      const L = [a, mid, z].map((u) => q.solo.at(u, { open: true, minOpacity: 0.004, cut: true }).filter((g) => g.kind === "glyph")); if (L[0].length !== L[1].length || L[1].length !== L[2].length || L[1].some((g, i) => g.ch !== L[0][i].ch || g.ch !== L[2][i].ch)) return null;
      pts = L[1].map((g, i) => { const g0 = L[0][i], g2 = L[2][i]; return { ch: g.ch, x: g.x, y: g.y, dx: Math.max(Math.abs(g.x - g0.x), Math.abs(g.x - g2.x)), dy: Math.max(Math.abs(g.y - g0.y), Math.abs(g.y - g2.y)), edge: g.cut || g0.cut || g2.cut, op: g.op, dop: Math.max(Math.abs(g.op - g0.op), Math.abs(g.op - g2.op)), fill: g.fill }; });
      if (pts.some((p) => p.dx > 10 || p.dy > 10)) return null; // moving too fast to tell letters apart
      if (cut && pts.some((p) => p.dx || p.dy || p.dop)) return null;
    }
    if (job.kind === "storyboard") { const k = q.items || q.fit === "center" ? 1 : q.fit === "contain" ? Math.min(job.W / q.w, job.H / q.h) : Math.max(job.W / q.w, job.H / q.h); const ox = (job.W - q.w * k) / 2, oy = (job.H - q.h * k) / 2; place = { kx: k, ky: k, x: ox, y: oy, box: [ox, oy, ox + q.w * k, oy + q.h * k] }; }
    else { const w = q.l.width ?? q.w, h = q.l.height ?? q.h; place = { kx: w / q.w, ky: h / q.h, x: q.l.x ?? 0, y: q.l.y ?? 0 }; if (q.l.clip) place.box = [place.x, place.y, place.x + w, place.y + h]; }
    let op = 1, dx = 0, dy = 0; let cs = null;
    for (const a of q.anims ?? []) { const near = (e) => Math.abs(t0 - e) < tol; let f; if (t0 <= a.start) f = 0; else if (t0 >= a.start + a.duration) f = 1; else if (a.easing === "linear" && !near(a.start) && !near(a.start + a.duration)) f = (t0 - a.start) / a.duration; else return null; if (near(P) || (a.duration && near(0) && a.start === 0)) return null; const at = (x, y) => parseFloat(x) + (parseFloat(y) - parseFloat(x)) * f; if (a.property === "opacity") op *= at(a.from, a.to); else if (a.property === "translateX") dx += at(a.from, a.to); else if (a.property === "translateY") dy += at(a.from, a.to); else { if (f > 0 && f < 1) return null; cs ??= [1, 1]; cs[a.property === "clipScaleX" ? 0 : 1] = at(a.from, a.to); } }
    const boxes = place.box ? [place.box] : []; if (cs) { const w = (q.l.width ?? q.w) * cs[0], h = (q.l.height ?? q.h) * cs[1]; boxes.push([place.x, place.y, place.x + w, place.y + h]); }
    return pts.map((p) => { const x = place.x + p.x * place.kx, y = place.y + p.y * place.ky; let edge = p.edge ?? false, out = false; for (const bx of boxes) { if (x < bx[0] - 12 || x > bx[2] + 2 || y < bx[1] - 3 || y > bx[3] + 30) out = true; else if (!(x > bx[0] + 2 && x < bx[2] - 2 && y - 14 > bx[1] && y < bx[3] - 2)) edge = true; } return { ...p, x: x + dx, y: y + dy, dx: (p.dx ?? 0) * place.kx, dy: (p.dy ?? 0) * place.ky, op: p.op * op, dop: p.dop ?? 0, edge, out }; }).filter((p) => !p.out);
  },
  compare({ sim, v, T, exp, W, H, desc, job }) {
    const all = v.at(T, { minOpacity: 0.004, cut: true }); const bad = all.find((q) => q.kind === "missing-ref"); if (bad) { sim.violate("dangling-reference", `${desc}: #${bad.id}`); return; }
    const left = all.filter((q) => q.kind === "glyph");
    for (const e of [...exp].sort((a, z) => (!!a.edge || a.op < 0.03 + a.dop) - (!!z.edge || z.op < 0.03 + z.dop) || a.dx + a.dy - z.dx - z.dy)) {
      if (e.op + e.dop < 0.004) continue; // invisible: if it shows after all, it is stray
      const tx = 0.7 + e.dx * 1.3, ty = 0.7 + e.dy * 1.3; let j = -1, best = 1e9; left.forEach((q, i) => { if (q.ch === e.ch && Math.abs(q.x - e.x) < tx && Math.abs(q.y - e.y) < ty) { const d = Math.abs(q.x - e.x) + Math.abs(q.y - e.y) + 10 * Math.abs(q.op - e.op) + (e.fill && q.fill && norm(q.fill) !== norm(e.fill) ? 500 : 0); if (d < best) { best = d; j = i; } } });
      const faint = e.op < 0.03 + e.dop; const edge = e.edge || (j >= 0 && left[j].cut) || !(e.x > 2 && e.x < W - 4 && e.y - 16 > 0 && e.y < H - 6);
      if (j < 0) { if (edge || faint) continue; const near = left.find((q) => Math.abs(q.x - e.x) < 3 && Math.abs(q.y - e.y) < 3); sim.violate("layer-missing", `${desc}: "${e.ch}" belongs at (${e.x.toFixed(1)}, ${e.y.toFixed(1)})${near ? ` where "${near.ch}" is` : ""}; view: ${lineOf(all)}; parts: ${lineOf(exp)}`); return; }
      const q = left[j]; left.splice(j, 1); const twin = all.some((p) => p !== q && p.ch === e.ch && Math.abs(p.x - e.x) < tx && Math.abs(p.y - e.y) < ty); if (twin) continue; // the same letter twice in one place: which is whose cannot be told
      if (Math.abs(q.op - e.op) > 0.03 + e.dop * 1.3 && !edge) { sim.violate("wrong-opacity", `${desc}: "${e.ch}" shows at ${q.op.toFixed(3)}, by itself ${e.op.toFixed(3)}`); return; }
      if (!edge && !faint && e.fill && q.fill && norm(q.fill) !== norm(e.fill)) { sim.violate("wrong-colour", `${desc}: "${e.ch}" is ${q.fill}, by itself ${e.fill}`); return; }
    }
    const stray = left.filter((q) => !q.cut && q.op > 0.03 && q.x > 2 && q.x < W - 4 && q.y - 16 > 0 && q.y < H - 6 && !(job.kind === "storyboard" && /scroll/.test("")));
    if (stray.length) { const q = stray[0]; sim.violate("stray-text", `${desc}: "${q.ch}" at (${q.x.toFixed(1)}, ${q.y.toFixed(1)}) opacity ${q.op.toFixed(2)} is in no layer (${stray.length}); view: ${lineOf(all)}; parts: ${lineOf(exp)}`); }
  },
};
const HEX = (s) => { const q = /^#([0-9a-f]{3}|[0-9a-f]{6})$/.exec(s); if (!q) return s; const h = q[1].length === 3 ? [...q[1]].map((x) => x + x).join("") : q[1]; return `rgb(${[0, 2, 4].map((i) => parseInt(h.slice(i, i + 2), 16)).join(",")})`; };
const norm = (s) => HEX(s.replace(/\s+/g, "").toLowerCase());
