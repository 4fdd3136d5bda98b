// P12 — an animation config composes into an SVG that plays every frame as authored.
import { short } from "../core/sim.mjs";
import { StageBrowser, stubCapture, fontBuffer, ADV } from "../worlds/stage.mjs";
import { W, H, stubRegistry, genConfig, clipBoth, makeStudio, norm, lineOf } from "../worlds/studio.mjs";
import { Viewer } from "../worlds/viewer.mjs";

export default {
  id: "P12",
  entries: { an: "src/cli/animate.ts", ttp: "src/render/text-to-path.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture], [/src\/templates\/registry\.ts$/, stubRegistry]] },
  quick: { runs: 4000, cap: 75 }, thorough: { runs: 80000, cap: 840 },
  rule: "each frame of the config, computed by replaying its page session independently, is what a viewer sees during its hold, in every loop; only the two neighbours show during a transition; a failing step rejects the composition, closes its contexts and leaves later ones alone",
  assumptions: ["pages are laid out on a fixed grid of text lines", "page reactions settle within the default readiness wait", "the composer does not stall between an action and its capture on pages that react late"],
  real: ["src/cli/animate.ts (validation, collapse pre-passes, frame loop, nesting)", "src/templates/render.ts", "src/animation (animator, compressed runs, magic move, transitions, embedding, namespacing)", "src/terminal", "src/scroll", "src/render (text, embedded fonts)"],
  stub: ["Chromium pages (documents of text lines)", "src/capture (element tree of those documents)", "template registry", "file system holding the recordings"],
  simOpts: {},
  warmup() { for (const f of ["SimA", "SimB", "SimC", "SimMono"]) fontBuffer(f); },
  async run({ sim, choices: c, load }) {
    const { proc, world, m, register, dirs, ctl } = makeStudio({ sim, c, load });
    if (world.delayed) sim.stallProb = 0; // a stall of the composer decides whether a late reaction is on the captured page
    const faulty = c.chance(0.2, "faults"); let ops = 0, failAt = -1; const lat = world.delayed ? 2 : c.pick([1, 20], "lat");
    const b = new StageBrowser({ proc, sites: world.sites, register, lat: () => 1 + c.below(lat, "lat"), fault: (l) => { if (ops++ === failAt) { sim.fired("page operation fails"); throw new Error(`${l}: Target crashed`); } }, reacted: () => sim.fired("page reacts after the action returned") });
    const nComp = c.weighted([[5, 1], [2, 2], [1, 3]], "compositions"); const keys = [];
    for (let k = 0; k < nComp; k++) {
      const { cfg: raw, parts } = genConfig(c, world, { cut: c.pick([2, 10], "cuts") });
      let bad = null; failAt = -1; ctl.failTmp = false;
      if (faulty && c.chance(0.7, "this-one")) bad = c.weighted([[5, "page"], [1, "site"], [1, "cast"], [1, "selector"], [1, "tmp"]], "fault");
      const clean = structuredClone(raw);
      if (bad === "page") failAt = ops + c.below(60, "at");
      if (bad === "site") { const f = clean.frames.filter((q) => q.input); if (f.length) c.pick(f, "f").input = "https://sim/gone"; else bad = null; }
      if (bad === "cast") { const f = clean.frames.filter((q) => q.cast); if (f.length) c.pick(f, "f").cast = "gone.cast"; else bad = null; }
      if (bad === "selector") { const f = clean.frames.filter((q) => q.actions); if (f.length) c.pick(f, "f").actions.push({ type: "setText", selector: "#nowhere", value: "x" }); else bad = null; }
      if (bad === "tmp") { if (clean.frames.some((q) => q.template)) ctl.failTmp = true; else bad = null; }
      if (bad && bad !== "page") sim.fired({ site: "page does not load", cast: "recording missing", selector: "selector matches nothing", tmp: "temporary directory refused" }[bad]);
      let cfg; try { cfg = m.an.validateAnimateConfig(clean); } catch (e) { sim.violate("valid-config-refused", short(e)); return { key: "refused" }; }
      const desc = `${parts.map((p) => p.kind[0] + (p.kind === "load" || p.kind === "continue" ? "" : p.kind[1])).join(">")} auto=${raw.autoCompress} (composition ${k + 1})`; this.last = { world, raw, parts };
      const start = ops; const res = await sim.settle(m.an.composeAnimateConfig(b, cfg, { configDir: world.dir, log: () => {} }), { maxTime: sim.now + 3600_000, maxSteps: 200000 });
      if (res.status === "pending") { sim.violate("never-ends", `${desc}: ${res.why}`); return { key: "pending" }; }
      if (b.open.length > 0) { sim.violate("context-leaked", `${desc}: ${b.open.length} browser context(s) open afterwards (${res.status}, fault ${bad ?? "none"})`); return { key: "leak" }; }
      if (dirs.size) { sim.violate("temp-dir-left", `${desc}: ${[...dirs]}`); return { key: "tmp" }; }
      const hit = bad === "page" ? failAt >= start && ops > failAt : bad != null;
      if (res.status === "error") {
        if (/sets `compress: true` but the run cannot be collapsed/.test(String(res.error?.message)) && raw.frames.some((f) => f.compress === true)) { sim.count("marker-refused"); keys.push("mr"); continue; }
        if (!hit) sim.violate("spurious-error", `${desc}: ${short(res.error)}`); keys.push("err"); continue;
      }
      if (hit) { sim.violate("failure-swallowed", `${desc}: ${bad} failed and the composition reported success`); return { key: "swallow" }; }
      this.play({ sim, c, svg: res.value, parts, desc, cfg: raw }); if (sim.violations.length) return { key: "v", svg: res.value };
      keys.push(parts.map((p) => p.kind[0] + p.type.slice(0, 2)).join(""));
      if (c.chance(0.1, "again")) { const r2 = await sim.settle(m.an.composeAnimateConfig(b, m.an.validateAnimateConfig(structuredClone(raw)), { configDir: world.dir }), { maxTime: sim.now + 3600_000, maxSteps: 200000 }); if (r2.status === "ok" && r2.value !== res.value) { let i = 0; while (r2.value[i] === res.value[i]) i++; sim.violate("not-repeatable", `${desc}: composing the same config again gave another SVG: ${JSON.stringify(res.value.slice(i - 40, i + 40))} / ${JSON.stringify(r2.value.slice(i - 40, i + 40))}`); } }
    }
    return { nontrivial: keys.length > 0, key: keys.join() };
  },
  play({ sim, c, svg, parts, desc, cfg }) {
    this.svg = svg; let v; try { v = new Viewer(svg); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    if (v.dupIds.size) { sim.violate("duplicate-ids", `${desc}: ${[...v.dupIds].slice(0, 3)}`); return; }
    const total = parts.reduce((a, p) => a + p.hold + p.tr, 0); const P = +(total / 1000).toFixed(2) * 1000; const q = 6 + total * 1.15e-3; // hand-overs are padded by a thousandth of the loop, whose length is written in hundredths of a second
    const still = parts.length === 1 && ["load", "continue"].includes(parts[0].kind);
    const loops = [0, c.pick([0, 1, 2, 7, 40, 300], "loop")];
    let s = 0;
    for (let i = 0; i < parts.length; i++) {
      const p = parts[i]; const last = i === parts.length - 1; const lo = s + q, hi = s + p.hold + (last ? p.tr : 0) - q;
      if (hi > lo) {
        const ts = [lo + (hi - lo) * c.below(1000, "at") / 1000]; if (c.chance(0.4, "edge")) ts.push(c.chance(0.5, "e") ? lo : hi);
        if (p.edges.length) for (let z = 0; z < 3; z++) { const e = s + c.pick(p.edges, "edge") + c.pick([q, 10, 60], "d"); if (e > lo && e < hi) ts.push(e); }
        for (const t of ts) for (const k of new Set(still ? [0] : loops)) {
          const drift = q + 0; const a = p.at(t - s - drift * 0.9), z = p.at(t - s), d = p.at(t - s + drift * 0.9); if (a == null || z == null || d == null || a.items !== z.items && p.kind !== "template" || z.items !== d.items && p.kind !== "template") continue;
          this.frame({ sim, v, t: t + k * P, items: z.items, kind: p.kind, W: cfg.width, H: cfg.height, desc: `${desc}, frame ${i + 1}/${parts.length} (${p.kind}) ${(t - s).toFixed(1)} of ${p.hold} ms${k ? `, loop ${k + 1}` : ""}` }); if (sim.violations.length) return;
        }
      }
      if (p.tr > 0 && !last && p.type !== "custom" && c.chance(0.6, "mid")) {
        const n = parts[i + 1]; const t = s + p.hold + p.tr * (1 + c.below(18, "tt")) / 20; const x = p.at(t - s - q) && p.at(t - s + q) && p.at(t - s), y = n.at(4) ?? n.at(8);
        if (x && y && p.tr >= 40) { this.between({ sim, v, t, a: x.items, b: y.items, type: p.type, scroll: p.kind === "scroll" || n.kind === "scroll", desc: `${desc}, ${p.type} after frame ${i + 1} at ${(t - s - p.hold).toFixed(0)} of ${p.tr} ms` }); if (sim.violations.length) return; }
      }
      s += p.hold + p.tr;
    }
    sim.count("played-back"); for (const p of parts) sim.count(`frame:${p.kind}`);
  },
  frame({ sim, v, t, items, kind, W: w, H: h, desc }) {
    const got = v.at(t); const bad = got.find((q) => q.kind === "missing-ref"); if (bad) { sim.violate("dangling-reference", `${desc}: #${bad.id}`); return; }
    const left = got.filter((q) => q.kind === "glyph"); const n0 = left.length;
    for (const it of items) {
      const box = it.clip ? clipBoth(it.clip, [0, 0, w, h]) : [0, 0, w, h]; const top = it.y - it.size * 0.8, bot = it.y + it.size * 0.2, r = it.x + it.size * ADV;
      const inside = it.x >= box[0] + 0.6 && r <= box[2] - 0.6 && top >= box[1] - 0.1 && bot <= box[3] + 0.1, outside = it.x >= box[2] - 0.1 || r <= box[0] + 0.1 || top >= box[3] - 0.1 || bot <= box[1] + 0.1;
      const j = left.findIndex((q) => q.ch === it.ch && Math.abs(q.x - it.x) < 0.6 && Math.abs(q.y - it.y) < 0.6);
      if (j < 0) { if (!inside) continue; const near = left.find((q) => Math.abs(q.x - it.x) < 3 && Math.abs(q.y - it.y) < 3); sim.violate(near ? "wrong-text" : "text-missing", `${desc}: "${it.ch}" at (${it.x.toFixed(1)}, ${it.y.toFixed(1)}) ${near ? `is "${near.ch}"` : "is not shown"}; view: ${lineOf(got)}; frame: ${lineOf(items)}`); return; }
      const q = left[j]; if (q.op < 0.97 && inside) { sim.violate("faded", `${desc}: "${it.ch}" shows at opacity ${q.op.toFixed(2)}`); return; }
      if (it.fill && q.fill && norm(q.fill) !== norm(it.fill)) { sim.violate("wrong-colour", `${desc}: "${it.ch}" is ${q.fill}, the page has ${it.fill}`); return; }
      if (Math.abs(q.size - it.size) > 0.1) { sim.violate("wrong-size", `${desc}: "${it.ch}" at ${q.size}, the page has ${it.size}`); return; }
      if (outside && q.op > 0.02) { /* beyond the edge: nothing to see */ } left.splice(j, 1);
    }
    const again = kind === "scroll" ? (q) => items.some((it) => it.ch === q.ch && Math.abs(q.x - it.x) < 0.6 && Math.abs(q.y - it.y) < 0.6) : () => false; // overlapping captures of one page repaint the same text
    const stray = left.filter((q) => !again(q)); if (stray.length) { const q = stray[0]; sim.violate("stray-text", `${desc}: "${q.ch}" at (${q.x.toFixed(1)}, ${q.y.toFixed(1)}) is not in the frame (${left.length} of ${n0}); view: ${lineOf(got)}; frame: ${lineOf(items)}`); }
  },
  between({ sim, v, t, a, b, type, scroll, desc }) {
    const all = v.at(t).filter((q) => q.kind === "glyph"); let got = all; if (scroll) got = got.filter((q, i) => !got.some((r, j) => j < i && r.ch === q.ch && Math.abs(r.x - q.x) < 0.6 && Math.abs(r.y - q.y) < 0.6)); const bag = new Map(); for (const list of [a, b]) for (const it of list) bag.set(it.ch, (bag.get(it.ch) ?? 0) + 1);
    if (type !== "magic-move") for (const q of got) { const k = (bag.get(q.ch) ?? 0) - 1; if (k < 0) { sim.violate("stray-text", `${desc}: "${q.ch}" is in neither frame that often; view: ${lineOf(got)}`); return; } bag.set(q.ch, k); }
    else for (const q of got) if (!bag.has(q.ch)) { sim.violate("stray-text", `${desc}: "${q.ch}" is in neither frame`); return; }
    const inView = (l) => l.some((q) => q.y > 24 && q.y < 270 && q.x > 5 && q.x < 300);
    if (["crossfade", "wipe", "iris", "wipe-radial", "wipe-clock", "zoom-in", "zoom-out", "shine", "magic-move"].includes(type) && inView(a) && inView(b)) { if (!all.some((q) => q.op > 0.3)) sim.violate("blank-between", `${desc}: nothing is visible`); }
    sim.count(`transition:${type}`);
  },
};
