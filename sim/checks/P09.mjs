// P09 — frames of pages that live: waited for, driven and shown as they were.
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { stubCapture, fontBuffer, ADV } from "../worlds/stage.mjs";
import { stubRegistry, genTransition, adv } from "../worlds/studio.mjs";
import { LiveBrowser, LInput, keyOf, CARET, SIZE } from "../worlds/live.mjs";
import { Viewer } from "../worlds/viewer.mjs";

const W = 400, H = 960;
let uniq = 0; const uid = () => (uniq++).toString(36);
const word = (c) => `${c.pick(["alpha", "beta", "go", "a<b", "x&y", "Next"], "w")} ${uid()}`;
const COL = ["rgb(200, 10, 10)", "rgb(10, 120, 10)", "rgb(0, 0, 200)"];

/** A page: what is on it, what it does by itself and what it does when touched. */
function genPage(c, o = {}) {
  const id = uid(); const body = []; const rules = [{ sel: ".on", props: { color: "rgb(200, 10, 10)" } }, { sel: ".moved", props: { transform: "translate(30px, 0px)" } }, { sel: ".dim", props: { opacity: "0.5" } }, { sel: ".gone", props: { display: "none" } }, { sel: ".veiled", props: { visibility: "hidden" } }]; const handlers = []; const script = [];
  const ms = (a) => c.pick(a, "ms"); const late = o.late ? 38000 : 0;
  body.push({ id: "title", text: word(c) }, { id: "side2", text: `aa ${uid()}` }, { id: "extra", text: `extra ${uid()}` });
  const ticks = c.chance(o.ticks ?? 0.35, "ticks") ? { ms: 40, n: 250 } : null; if (ticks) body.push({ id: "tick", text: "t0" });
  body.push({ id: "status", text: c.chance(0.3, "pad") ? " loading " : "loading" });
  const spins = c.below(4, "spins"); for (let i = 0; i < spins; i++) body.push({ id: `spin${i}`, cls: ["spin"], text: `sp${i}` });
  body.push({ id: "list", text: "rows", kids: Array.from({ length: c.below(2, "rows0") }, (_, i) => ({ cls: ["row"], text: `r0${i}` })) });
  body.push({ id: "panel", text: `panel ${id}`, css: { display: "none" } });
  const rest = {}; for (const t of ["card", "btn"]) if (c.chance(0.25, "rest")) rest[t] = c.pick(["dim", "moved"], "as");
  body.push({ id: "card", text: `card ${id}`, cls: rest.card ? [rest.card] : [], kids: [{ id: "label", text: `lab ${id}` }, { id: "tip", text: `tip ${id}`, cls: ["gone"] }] });
  body.push({ id: "btn", text: `btn ${id}`, cls: rest.btn ? [rest.btn] : [] }); body.push({ id: "side", text: `side ${id}` });
  const field = { tag: "input", id: "field", value: c.chance(0.3, "prefilled") ? "old" : "", placeholder: c.chance(0.5, "placeholder") ? "type!" : "", mask: c.pick(["none", "none", "upper", "group", "max"], "mask") }; body.push(field); body.push({ id: "count", text: "0/9" }); body.push({ id: "go", text: "GO" });
  const busy = (base, out) => { // work that ends with everything there
    const t = () => base + ms([30, 90, 200, 410, 700, 1100, 2300]) + (late && c.chance(0.5, "very-late") ? late : 0);
    const t1 = t(), t2 = t1 + ms([60, 150, 400]); if (c.chance(0.6, "almost")) out.push([t1, { k: "text", sel: "#status", v: "almost ready?" }]); out.push([t2, { k: "text", sel: "#status", v: c.chance(0.3, "spaces") ? "  ready " : "ready" }]);
    if (c.chance(0.25, "flap")) out.push([t2 + 150, { k: "text", sel: "#status", v: "loading" }], [t2 + 150 + ms([120, 300, 900]), { k: "text", sel: "#status", v: "ready" }]);
    for (let i = 0; i < spins; i++) out.push([t(), c.pick([{ k: "remove", sel: `#spin${i}` }, { k: "style", sel: `#spin${i}`, props: { display: "none" } }, { k: "class", sel: `#spin${i}`, cls: "veiled", on: true }], "away")]);
    const n = c.below(4, "rows"); for (let i = 0; i < n; i++) out.push([t(), { k: "add", to: "#list", el: { cls: ["row"], text: `r${uid()}` } }]);
    if (c.chance(0.4, "row-leaves")) out.push([base + 2700, { k: "text", sel: "#side", v: `s ${uid()}` }]);
    out.push([t(), { k: "style", sel: "#panel", props: { display: "block" } }]);
  };
  busy(0, script);
  if (c.chance(0.7, "go")) { const h = []; h.push([0, { k: "text", sel: "#status", v: "loading" }, { k: "style", sel: "#panel", props: { display: "none" } }]); if (c.chance(0.5, "respin")) { const s = uid(); h.push([0, { k: "add", to: "#list", el: { id: `sp${s}`, cls: ["spin"], text: `sp${s}` } }], [ms([100, 333, 900]), { k: "remove", sel: `#sp${s}` }]); } busy(0, h); handlers.push({ sel: "#go", type: "go", script: h }); }
  // hover and focus styling
  const mv = { props: { transform: "translate(0px, -6px)" } }, dim = { props: { opacity: "0.6" } }, red = { props: { color: c.pick(COL, "col") } }; const hov = [];
  for (const target of ["#card", "#btn"]) { const kind = c.pick(["move", "fade", "paint", "kid", "tip", "move+tip", "none", "outside", "move+fade"], "hover-rule"); const on = (sel, props) => rules.push({ sel, when: { sel: target, state: "hover" }, ...props }); if (/move/.test(kind)) on(target, mv); if (/fade/.test(kind)) on(target, dim); if (kind === "paint") on(target, red); if (kind === "kid" && target === "#card") on("#label", red); if (/tip/.test(kind) && target === "#card") on("#tip", { props: c.chance(0.5, "how") ? { display: "block" } : { display: "block", color: "rgb(0, 0, 200)" } }); if (kind === "outside") on("#side", red); hov.push({ target, kind, rest: rest[target.slice(1)] }); }
  if (c.chance(0.5, "focus")) rules.push({ sel: "#field", when: { sel: "#field", state: "focus" }, props: { color: "rgb(90, 0, 90)" } }); if (c.chance(0.4, "active")) rules.push({ sel: "#btn", when: { sel: "#btn", state: "active" }, props: { color: "rgb(90, 90, 0)" } });
  // what pointer events do
  for (const target of ["#card", "#btn"]) for (const type of c.pick([["click"], ["mouseover"], ["mouseenter"], ["pointerdown", "click"], ["mousedown"]], "evs")) {
    if (c.chance(0.15, "no-handler")) continue; const h = []; const n = 1 + c.below(3, "steps"); let t = c.pick([0, 0, 37, 90, 333], "first");
    for (let i = 0; i < n; i++) { h.push([t, ...(c.weighted([[3, () => [{ k: "add", to: c.pick(["#card", "#list", "#btn"], "to"), el: { cls: ["menu"], text: `m${uid()}` } }]], [2, () => [{ k: "text", sel: c.pick(["#side", "#label", "#count"], "t"), v: `new ${uid()}` }]], [4, () => [{ k: "class", sel: target, cls: "moved", on: true }]], [2, () => [{ k: "class", sel: c.pick([target, "#side", "#label"], "t"), cls: c.pick(["on", "dim"], "cl"), on: true }]], [2, () => [{ k: "class", sel: "#tip", cls: "gone", on: false }]], [1, () => [{ k: "remove", sel: "#side" }]], [1, () => [{ k: "attr", sel: target, name: "aria-expanded", v: "true" }]], [1, () => [{ k: "style", sel: "#panel", props: { display: c.pick(["block", "none"], "d") } }]]], "do")())]); t += c.pick([0, 20, 60, 100, 151, 260, 701], "gap"); }
    handlers.push({ sel: target, type, script: h });
  }
  // what typing does
  if (c.chance(0.7, "counter")) handlers.push({ sel: "#field", type: "input", script: [[c.pick([0, 0, 30, 90], "cd"), { k: "text", sel: "#count", v: "%n/9" }]] });
  if (c.chance(0.4, "validates")) handlers.push({ sel: "#field", type: "input", script: [[0, { k: "class", sel: "#field", cls: "on", from: 3 }]] });
  return { body, rules, handlers, script, ticks, loadMs: c.pick([5, 40, 250], "load"), hov, field };
}
const CONDS = [
  (c) => ({ key: "waitForText", v: { selector: "#status", ...(c.chance(0.5, "eq") ? { equals: "ready" } : { contains: c.pick(["ready", "almost", "ad"], "has") }) } }),
  () => ({ key: "waitForGone", v: ".spin" }),
  (c) => ({ key: "waitForCount", v: { selector: ".row", ...c.pick([{ atLeast: 1 }, { atLeast: 2 }, { equals: 2 }, { atMost: 3 }, { atLeast: 1, atMost: 2 }, { equals: 0 }], "n") } }),
  () => ({ key: "waitFor", v: "#panel" }),
];
const NEVER = [{ key: "waitForText", v: { selector: "#status", equals: "never" } }, { key: "waitForText", v: { selector: "#nowhere", contains: "" } }, { key: "waitForGone", v: "#title" }, { key: "waitForCount", v: { selector: ".row", atLeast: 50 } }, { key: "waitFor", v: "#nowhere" }];
/** Whether a condition holds on a page right now (the author's reading of it). */
const holds = (k) => (d) => {
  if (k.key === "waitForText") { const e = d.find(k.v.selector)[0]; if (!e) return false; return k.v.equals != null ? e.textContent.trim() === k.v.equals : e.textContent.includes(k.v.contains); }
  if (k.key === "waitForGone") return d.find(k.v).every((e) => !d.visible(e));
  if (k.key === "waitForCount") { const n = d.find(k.v.selector).length; return (k.v.equals == null || n === k.v.equals) && (k.v.atLeast == null || n >= k.v.atLeast) && (k.v.atMost == null || n <= k.v.atMost); }
  const e = d.find(k.v)[0]; return e != null && d.visible(e);
};

export default {
  id: "P09",
  entries: { an: "src/cli/animate.ts", ttp: "src/render/text-to-path.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture], [/src\/templates\/registry\.ts$/, stubRegistry]] },
  quick: { runs: 4000, cap: 70 }, thorough: { runs: 80000, cap: 840 },
  rule: "what each frame plays back is one state the page really was in, after everything the frame waits for and does and before anything of the next frame; reveals show the page before the event and once it settled, typing shows the page after each keystroke, forced states show the page's own styling until reset; a condition that never comes true is a reported error",
  assumptions: ["pages are lines of text in one font", "conditions hold long enough to be polled, or either outcome is accepted", "a page's own styles are not changing while hoverDetect compares them"],
  real: ["src/cli/animate.ts (frame loop, readiness, actions, forced states, hover expansion)", "src/cli/common.ts (readiness waits)", "src/cli/mutation-detect.ts", "src/cli/type-resample.ts", "src/cli/hover-detect.ts", "src/animation", "src/render (text, embedded fonts)"],
  stub: ["Chromium: pages as live element models with timers, events, observers, forced states, polling", "src/capture (element tree of those pages)", "template registry"],
  simOpts: {},
  warmup() { fontBuffer("SimA"); },
  async run({ sim, choices: c, load }) {
    uniq = 0; const proc = new SimProcess(sim, { name: "cli" }); const dead = () => { throw Object.assign(new Error("ENOENT"), { code: "ENOENT" }); };
    const g = makeGlobals(sim, proc, { modules: { fs: { existsSync: () => false, readFileSync: dead, readdirSync: () => [], statSync: dead, mkdirSync() {}, writeFileSync() {}, chmodSync() {}, mkdtempSync: dead, rmSync() {} }, child_process: { spawnSync: () => ({ status: 127, error: new Error("ENOENT"), stdout: "", stderr: "" }), execFileSync: dead, execSync: dead, spawn: dead, execFile: dead }, os: { platform: () => "linux", homedir: () => "/home/u", tmpdir: () => "/tmp", cpus: () => [] } } });
    g.globalThis.__simTemplates = () => { throw new Error("no templates"); };
    const m = load(g); const lat = c.pick([2, 10, 60], "lat"); sim.stallProb = c.pick([0, 0, 0.005], "stall");
    const sites = new Map(); const watch = []; let ops = 0, failAt = c.chance(0.12, "fault") ? c.below(70, "fail-at") : -1;
    const b = new LiveBrowser({ sim, proc, sites, watch, lat: () => 0.5 + c.below(lat * 4, "lat") / 4, register: (f) => m.ttp.registerWebfont(f, 400, "normal", fontBuffer(f)), fault: (l) => { if (ops++ >= failAt && failAt >= 0 && l !== "newContext") { if (ops === failAt + 1) sim.fired("page crashes"); throw new Error(`${l}: Target crashed`); } } });
    const { cfg: raw, plan, needs } = this.gen({ c, sites, watch });
    const desc = plan.map((p) => p.kind).join(">"); this.last = { raw, plan, sites };
    let cfg; try { cfg = m.an.validateAnimateConfig(structuredClone(raw)); } catch (e) { sim.violate("valid-config-refused", short(e, 300)); return { key: "refused" }; }
    const res = await sim.settle(m.an.composeAnimateConfig(b, cfg, { configDir: "/work", log: () => {} }), { maxTime: 1800_000, maxSteps: 300000 });
    if (res.status === "pending") { sim.violate("never-ends", `${desc}: ${res.why}`); return { key: "pending" }; }
    if (b.open.length > 0) { sim.violate("context-leaked", `${desc}: ${b.open.length} browser context(s) open afterwards (${res.status})`); return { key: "leak" }; }
    const hit = failAt >= 0 && ops > failAt; const page = b.pages.filter((p) => p.docs.length).pop(); void needs;
    if (res.status === "error") {
      if (hit) return { nontrivial: true, key: "fault" }; const msg = String(res.error?.message);
      // an author's reason to be refused: something waited for is not there (on the page being waited for when it gave up)
      const doc = page?.doc; const last = doc?.hist[doc.hist.length - 1]; const mine = plan.filter((p) => p.url === doc?.url); const unmet = mine.flatMap((p) => p.conds.filter((k) => last && !last.conds[k.watch]).map((k) => ({ p, k })));
      const timedOut = /timed out|Timeout/i.test(msg);
      if (plan.some((p) => p.absent) && (/matched no element/.test(msg) || timedOut && msg.includes("#nowhere"))) { sim.count("selector-matches-nothing"); return { nontrivial: true, key: "absent" }; }
      if (timedOut && unmet.length) { sim.count("condition-never-true"); const named = unmet.some(({ k }) => msg.includes(typeof k.v === "string" ? k.v : k.v.selector)); if (!named) sim.violate("error-unhelpful", `${desc}: gave up without naming what never came: ${short(res.error, 240)}`); const n = doc.hist.length; void n; return { nontrivial: true, key: `unmet:${unmet.map((u) => u.k.key)}` }; }
      sim.violate("spurious-error", `${desc}: ${short(res.error, 300)}`); return { key: "err" };
    }
    if (hit) sim.count("outlived-a-crash");
    if (plan.some((p) => p.absent)) { sim.violate("missing-target-accepted", `${desc}: a selector matches nothing and the composition succeeded`); return { key: "absent" }; }
    this.svg = res.value; this.page = page; this.judge({ sim, c, svg: res.value, page, plan, raw, desc });
    for (const p of plan) sim.count(`frame:${p.kind}`); sim.count("page-versions", page.docs.reduce((a, d) => a + d.hist.length, 0));
    return { nontrivial: true, key: plan.map((p) => p.kind + p.conds.map((k) => k.key[7] ?? "V").join("")).join() };
  },

  gen({ c, sites, watch }) {
    const cfg = { width: W, height: H, frames: [] }; const plan = []; const n = 1 + c.below(4, "frames"); let spec = null, url = null, gone = new Set(); const forced = new Map();
    const cond = (k) => { k.watch = watch.length; watch.push(holds(k)); return k; };
    for (let i = 0; i < n; i++) {
      const f = {}; const p = { i, conds: [], acts: [], special: [] }; const fresh = spec == null || c.chance(0.3, "load");
      let kind = c.weighted([[4, "plain"], [3, "reveal"], [2, "type"], [2, "hoverReveal"], [fresh ? 2 : 0, "hoverDetect"], [2, "force"]], "kind");
      if (fresh && spec != null && c.chance(0.3, "reload")) { f.input = url; gone = new Set(); forced.clear(); p.load = true; } else if (fresh) { const late = c.chance(0.06, "late"); spec = genPage(c, { late, ticks: kind === "reveal" ? 0.12 : 0.4 }); url = `https://sim/${uid()}`; sites.set(url, spec); f.input = url; gone = new Set(); forced.clear(); p.load = true; } else if (c.chance(0.4, "explicit")) f.continue = true;
      p.url = url; p.spec = spec; p.kind = kind;
      if (c.chance(0.6, "conds")) { const list = [...CONDS]; const k = 1 + c.below(3, "n"); for (let j = 0; j < k; j++) { const q = list.splice(c.below(list.length, "which"), 1)[0](c); p.conds.push(q); } }
      if (c.chance(0.05, "never")) { const q = structuredClone(c.pick(NEVER, "never")); p.conds = [...p.conds.filter((k) => k.key !== q.key), q]; }
      for (const q of p.conds) { cond(q); f[q.key] = q.v; }
      if (c.chance(0.5, "wait")) f.wait = c.pick([0, 100, 500, 900], "w"); p.wait = f.wait ?? 200;
      // actions
      const acts = []; const k = c.chance(0.45, "acts") ? 1 + c.below(3, "k") : 0;
      for (let j = 0; j < k; j++) {
        const a = c.weighted([[2, () => ({ type: "dispatch", selector: "#go", event: "go" })], [2, () => ({ type: "setText", selector: "#title", value: word(c) })], [1, () => ({ type: "addClass", selector: "#title", class: c.pick(["on", "dim"], "cl") })], [1, () => ({ type: "wait", ms: c.pick([80, 300], "ms") })], [1, () => ({ type: "click", selector: c.pick(["#btn", "#go"], "t") })], [1, () => ({ type: "hover", selector: c.pick(["#btn", "#card"], "t") })], [1, () => ({ type: "fill", selector: "#field", value: c.pick(["abc", "12"], "v") })], [2, () => c.pick([{ type: "setText", value: `both ${uid()}` }, { type: "toggleClass", class: "on" }, { type: "removeClass", class: "on" }, { type: "setStyle", props: { color: c.pick(COL, "col"), opacity: "0.8" } }, { type: "setAttribute", name: "title", value: "x" }, { type: "replaceText", pattern: "a", flags: "g", replacement: "o" }].map((x) => ({ ...x, selector: "#title, #side2" })), "all")], [1, () => c.pick([{ type: "setValue", selector: "#field", value: "set" }, { type: "clear", selector: "#field" }], "val")], [gone.has("extra") ? 0 : 1, () => { gone.add("extra"); return { type: "remove", selector: "#extra" }; }]], "act")();
        acts.push(a); const s = a.selector?.slice(1); if (a.type === "dispatch") p.acts.push({ op: "event", type: "go", id: "go" }); else if (a.type === "click") p.acts.push({ op: "click", id: s }, { op: "event", type: "click", id: s }); else if (a.type === "hover") p.acts.push({ op: "hover", id: s }); else if (a.type === "fill") p.acts.push({ op: "fill", id: s, v: a.value }); else if (a.type === "remove") p.acts.push({ op: "script", id: "" }); else if (a.type !== "wait") p.acts.push({ op: "script", id: s.replace(", #", ",") }); else p.acts.push({ op: "pause", ms: a.ms });
      }
      if (acts.length) f.actions = acts;
      f.duration = c.pick([700, 1000, 1333, 1600], "dur"); let tr = genTransition(c, { cut: 5 }); if (tr?.type === "custom" || tr?.type === "magic-move") tr = null; if (tr) f.transition = tr;
      const absent = c.chance(0.02, "absent"); const target = absent ? "#nowhere" : c.pick(["#card", "#btn"], "target");
      if (kind === "reveal") {
        const types = spec.handlers.filter((h) => h.sel === target && h.type !== "input").map((h) => h.type); const ev = types.length && c.chance(0.85, "heard") ? c.pick(types, "ev") : c.pick(["mouseover", "click", "mousedown"], "ev");
        const r = { selector: target, event: ev }; if (ev === "mouseover" && c.chance(0.5, "default")) delete r.event; if (c.chance(0.5, "tuned")) { r.settleMs = c.pick([300, 600, 1200], "settle"); r.debounceMs = c.pick([50, 120, 200], "deb"); r.holdMs = c.pick([400, 700], "hold"); r.crossfadeMs = c.pick([100, 300], "xf"); }
        f.jsReveal = r; p.reveal = { settle: r.settleMs ?? 600, debounce: r.debounceMs ?? 120, hold: r.holdMs ?? 700, xf: r.crossfadeMs ?? 300, type: ev, id: target.slice(1) }; p.special.push({ op: "event", type: ev, id: target.slice(1), as: "D" }); f.duration = p.reveal.hold * 2 + p.reveal.xf + c.pick([0, 200, 300, 900], "slack"); if (absent) p.absent = true;
      } else if (kind === "type") {
        const text = c.pick(["ab", "cat", "1234567", "x y", "Hello"], "text"); const r = { selector: absent ? "#nowhere" : "#field", text }; if (c.chance(0.6, "tuned")) { r.speed = c.pick([60, 120, 200], "speed"); r.delay = c.pick([0, 150, 400], "delay"); r.tailMs = c.pick([300, 700, 1100], "tail"); } if (c.chance(0.3, "keep")) r.clear = false; if (c.chance(0.35, "region")) r.regionOnly = true; if (c.chance(0.3, "no-caret")) r.caret = false;
        f.typeResample = r; const speed = r.speed ?? 60, delay = r.delay ?? 0, tail = r.tailMs ?? 700; p.typing = { text: [...text], durs: [delay + speed, ...[...text].slice(1).map(() => speed), tail], region: r.regionOnly === true, caret: r.caret !== false, clear: r.clear !== false }; if (p.typing.clear) p.special.push({ op: "fill", id: "field", v: "", as: "cleared" }); p.special.push({ op: "focus", id: "field", as: "focused" }); for (const [j, k2] of p.typing.text.entries()) p.special.push({ op: "key", k: k2, id: "field", as: `k${j + 1}` }); f.duration = p.typing.durs.reduce((x, y) => x + y, 0) + c.pick([0, 200, 600], "slack"); if (absent) { p.absent = true; }
      } else if (kind === "hoverReveal") {
        const r = { selector: target }; if (c.chance(0.3, "states")) r.states = c.pick([["hover"], ["active"], ["hover", "active"]], "st"); if (c.chance(0.4, "xf")) r.crossfadeMs = c.pick([200, 500], "x"); if (c.chance(0.4, "hm")) r.hoverMs = c.pick([600, 900], "h"); if (c.chance(0.3, "nocursor")) r.cursor = false; if (c.chance(0.15, "region")) { f.selector = target; p.selector = target; }
        f.hoverReveal = r; p.hover = { xf: r.crossfadeMs ?? 400, ms: r.hoverMs ?? f.duration, id: target.slice(1), states: r.states ?? ["hover"] }; p.special.push({ op: "force", id: target.slice(1), states: p.hover.states.join(), as: "F" }); if (absent) p.absent = true;
      } else if (kind === "hoverDetect") {
        const r = { selector: target }; if (c.chance(0.4, "tm")) r.transitionMs = c.pick([200, 500], "x"); if (c.chance(0.4, "hm")) r.hoverMs = c.pick([600, 900], "h"); if (c.chance(0.3, "nocursor")) r.cursor = false; f.hoverDetect = r; f.duration = Math.max(f.duration, 1333);
        const rule = spec.hov.find((q) => q.target === target)?.kind ?? "none"; const card = target === "#card"; const was = spec.hov.find((q) => q.target === target)?.rest; const mode = (was === "dim" && /fade/.test(rule)) || (was === "moved" && /move/.test(rule)) ? "paint" : ["none", "outside"].includes(rule) || (!card && ["kid", "tip"].includes(rule)) ? "none" : ["move", "fade", "move+fade"].includes(rule) || (!card && rule === "move+tip") ? "motion" : "paint";
        p.detect = { mode, xf: r.transitionMs ?? 400, ms: r.hoverMs ?? f.duration, cursor: r.cursor !== false, id: target.slice(1) }; if (mode === "paint") p.special.push({ op: "force", id: target.slice(1), states: "hover", as: "F" }); if (absent) p.absent = true;
        if (acts.some((a) => a.type === "hover" || a.type === "click")) { delete f.actions; p.acts = []; }
      } else if (kind === "force") {
        const list = []; const m = 1 + c.below(2, "m"); for (let j = 0; j < m; j++) { const s = absent && j === 0 ? "#nowhere" : c.pick(["#card", "#btn", "#field"], "s"); if (forced.has(s) && c.chance(0.6, "reset")) { list.push({ selector: s, reset: true }); forced.delete(s); p.special.push({ op: "force", id: s.slice(1), states: "" }); } else { const st = s === "#field" ? ["focus"] : c.pick([["hover"], ["active"], ["hover", "active"]], "st"); list.push({ selector: s, states: st }); forced.set(s, st); p.special.push({ op: "force", id: s.slice(1), states: st.join() }); } } f.forceState = list; if (absent) p.absent = true;
      }
      if (p.hover) forced.set(`#${p.hover.id}`, p.hover.states); if (p.detect?.mode === "paint") forced.set(`#${p.detect.id}`, ["hover"]);
      p.dur = f.duration; p.tr = adv(f) - f.duration; p.type = f.transition?.type ?? "crossfade"; cfg.frames.push(f); plan.push(p);
    }
    return { cfg, plan };
  },

  /** Read the page's own record and the played-back SVG against each other. */
  judge({ sim, c, svg, page, plan, raw, desc }) {
    let v; try { v = new Viewer(svg); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    if (v.dupIds.size) { sim.violate("duplicate-ids", `${desc}: ${[...v.dupIds].slice(0, 3)}`); return; }
    // timeline of the config frames
    let total = 0; for (const p of plan) { p.at = total; p.len = p.dur; if (p.hover) p.len = p.dur + p.hover.xf + p.hover.ms; if (p.detect?.mode === "paint") p.len = p.dur + p.detect.xf + p.detect.ms; total += p.len + p.tr; }
    const q = 6 + total * 1.15e-3, loopMs = +(total / 1000).toFixed(2) * 1000; const still = plan.length === 1 && ["plain", "force"].includes(plan[0].kind) || plan.length === 1 && plan[0].detect?.mode === "none";
    // where each frame's own operations are in the page's record
    let at = 0, loads = 0; const log = page.log; const end = sim.now;
    const find = (w) => { for (let j = at; j < log.length; j++) { const e = log[j]; if (e.op === w.op && (w.id == null || e.id === w.id) && (w.type == null || e.type === w.type) && (w.url == null || e.url === w.url) && (w.k == null || e.k === w.k) && (w.v == null || e.v === w.v) && (w.states == null || e.states === w.states)) { at = j + 1; return e.t; } } return null; };
    for (const p of plan) {
      p.ops = []; p.as = {}; const want = [...(p.load ? [{ op: "goto", url: p.url }] : []), ...p.acts, ...p.special];
      for (const w of want) { if (w.op === "pause") { p.ops.push({ pause: w.ms }); continue; } const t = find(w); if (t == null) { sim.violate("step-not-performed", `${desc}, frame ${p.i + 1} (${p.kind}): ${JSON.stringify(w)} does not happen on the page, in its turn; page: ${log.map((e) => e.op + (e.id ?? "")).join(" ").slice(-200)}`); return; } if (w.op === "goto") p.goto = t; else p.ops.push({ t, w }); if (w.as) p.as[w.as] = t; }
      if (p.load) { p.doc = page.docs[loads++]; if (p.doc?.url !== p.url) { sim.violate("step-not-performed", `${desc}, frame ${p.i + 1} (${p.kind}): ${p.url} is not loaded in its turn`); return; } } else p.doc = plan[p.i - 1].doc;
      for (let j = 0; j < p.ops.length; j++) if (p.ops[j].pause != null) { const a = p.ops.slice(0, j).filter((o) => o.t != null).pop()?.t, z = p.ops.slice(j).find((o) => o.t != null)?.t; if (a != null && z != null && z - a < p.ops[j].pause - 1) { sim.violate("pause-cut-short", `${desc}, frame ${p.i + 1}: a pause of ${p.ops[j].pause} ms lasted ${(z - a).toFixed(0)}`); return; } }
    }
    const first = (p) => p.goto ?? p.ops.find((o) => o.t != null)?.t; const nextOp = (i) => { for (let j = i + 1; j < plan.length; j++) { const t = first(plan[j]); if (t != null) return t; } return end; };
    let prev = 0;
    for (const p of plan) {
      const doc = p.doc, hist = doc.hist; const base = p.load ? p.goto + p.spec.loadMs - 1 : prev; const own = p.ops.filter((o) => o.t != null).map((o) => o.t); const hi = nextOp(p.i);
      const where = `${desc}, frame ${p.i + 1}/${plan.length} (${p.kind})`;
      // readiness: every condition held at some moment of this frame, and `wait` passed after it
      let ready = base; for (const k of p.conds) { const j = hist.findIndex((h, n) => h.conds[k.watch] && (hist[n + 1]?.t ?? end) > base); if (j < 0) { sim.violate("condition-ignored", `${where}: ${k.key} ${JSON.stringify(k.v)} never held and the frame was taken`); return; } ready = Math.max(ready, hist[j].t); }
      ready += p.wait - 1; const act0 = own[0];
      if (act0 != null && act0 < ready) { sim.violate("acted-too-early", `${where}: first step at ${act0.toFixed(0)} ms, the page is ready (${p.conds.map((k) => k.key)}, wait ${p.wait}) at ${ready.toFixed(0)}`); return; }
      if (p.ops.length && p.ops[p.ops.length - 1].pause != null) { /* a pause before the capture */ }
      let lo = Math.max(ready, prev, ...(own.length ? [own[own.length - 1]] : [])); let tailPause = 0; for (let j = p.ops.length - 1; j >= 0 && p.ops[j].pause != null; j--) tailPause += p.ops[j].pause; if (!p.special.length) lo += tailPause > 0 ? tailPause - 1 : 0;
      const segs = []; const seg = (from, to, lo2, hi2, what, x = {}) => segs.push({ from, to, lo: lo2, hi: hi2, what, ...x });
      const before = (t) => Math.max(ready, prev, ...own.filter((x) => x < t)); // after everything the frame did before t
      if (p.reveal) {
        const R = p.reveal, D = p.as.D; const ms = doc.muts.filter((x) => x.t >= D && x.t <= hi && !x.stamp && x.type !== "value").map((x) => x.t); const inT = ms.filter((t) => t < D + R.settle); let L = D + R.settle; for (let j = 0; j < inT.length; j++) { const nx = ms.find((t) => t > inT[j]); if (nx == null || nx > inT[j] + R.debounce) { L = Math.min(L, inT[j] + R.debounce); break; } }
        const edge = doc.muts.some((x) => !x.stamp && Math.abs(x.t - L) < 3) || ms.some((t) => Math.abs(t - D - R.settle) < 3 || (t > D + R.settle && t < D + R.settle + 80 && inT.length === 0)); const structural = doc.muts.some((x) => x.t >= D && x.t <= L + 3 && x.type === "childList");
        if (inT.length === 0 && !edge) { seg(0, p.len, before(D), D, "rest (nothing happened)"); sim.count("reveal:none"); }
        else if (!edge) {
          if (structural) seg(0, R.hold, before(D), D, "before the event"); else seg(0, 25, before(D), D, "before the event", { loose: true });
          const alone = doc.muts.filter((x) => x.t >= D && x.t <= L + 3 && !x.stamp && x.type !== "value").every((x) => x.type === "attributes" && x.target.id === R.id);
          seg(R.hold + R.xf, p.len, L - 1, hi, `${R.type} settled`, alone ? { tween: `#${R.id}`, rest: before(D), D } : {}); sim.count(L >= D + R.settle ? "reveal:timeout" : "reveal:settled");
        }
      } else if (p.typing) {
        const T = p.typing; let s = 0; for (let k = 0; k <= T.text.length; k++) { const a = k === 0 ? p.as.cleared ?? before(p.as.focused) : p.as[`k${k}`], z = k === T.text.length ? hi : p.as[`k${k + 1}`]; seg(s, k === T.text.length ? p.len : s + T.durs[k], a, z, `after ${k} keystroke(s)`, { k }); s += T.durs[k]; }
      } else if (p.hover || p.detect?.mode === "paint") {
        const h = p.hover ?? p.detect; seg(0, p.dur, before(p.as.F), p.as.F, "at rest", { sel: p.selector }); seg(p.dur + h.xf, p.len, p.as.F, hi, "with the state forced", { sel: p.selector });
      } else if (p.detect?.mode === "motion") {
        const d = p.detect.cursor ? 400 : 0; if (d) seg(0, d - 10, lo, hi, "at rest"); seg(d + p.detect.xf + 15, p.len, lo, hi, "hovered, in motion", { motion: p.detect });
      } else seg(0, p.len, lo, hi, "as captured");
      let v0 = null;
      for (const s of segs) {
        const a = p.at + s.from + q, z = p.at + s.to + (p.i === plan.length - 1 && s.to === p.len ? p.tr : 0) - q; if (z <= a) continue;
        let T = null; const loops = still ? [0] : [0, c.pick([0, 1, 3, 40], "loop")]; const ts = [a, z, a + (z - a) * c.below(1000, "at") / 1000]; const seen = new Map();
        for (const t of ts) for (const k of new Set(loops)) { const view = v.at(t + k * loopMs, { tag: caretTag }); const bad = view.find((x) => x.kind === "missing-ref"); if (bad) { sim.violate("dangling-reference", `${where}: #${bad.id}`); return; } const gl = view.filter((x) => x.kind === "glyph"); const key = keyOf(gl.map((x) => ({ ...x, fill: x.fill ?? "rgb(10, 20, 30)" }))); if (!seen.has(key)) seen.set(key, { t: t + k * loopMs, gl, carets: view.filter((x) => x.kind === "caret") }); }
        if (seen.size > 1 && !s.loose) { const [x, y] = [...seen.values()]; sim.violate("not-held", `${where}, ${s.what}: shows ${text(x.gl)} at ${x.t.toFixed(0)} ms and ${text(y.gl)} at ${y.t.toFixed(0)} ms; differs: ${diff(keyOf(norm(x.gl)), keyOf(norm(y.gl)))}`); return; }
        if (s.loose) continue;
        const got = [...seen.keys()][0]; const low = Math.max(s.lo, prev); let best = null;
        if (p.typing?.region && s.k === 0) v0 = hist.filter((h, j) => (hist[j + 1]?.t ?? end) >= low - 1e-6 && h.t <= s.hi + 1e-6).map((h) => h.items);
        for (let j = 0; j < hist.length; j++) {
          const from = hist[j].t, to = hist[j + 1]?.t ?? end; if (to < low - 1e-6 || from > s.hi + 1e-6) continue;
          let items = hist[j].items; if (s.sel) items = within(items, s.sel); if (s.motion) items = moved(items, s.motion, p.spec);
          const opts = []; if (p.typing?.region) { const fld = items.filter((x) => x.el instanceof LInput); for (const b0 of v0 ?? []) opts.push([...b0.filter((x) => !(x.el instanceof LInput)), ...fld]); } else opts.push(items);
          // a tween in place: the page as it rested, the target alone as it ended
          if (s.tween) for (const h of hist.filter((x, n) => (hist[n + 1]?.t ?? end) >= s.rest - 1e-6 && x.t <= s.D + 1e-6)) for (const [dx, k] of [[30, 1], [0, 0.5], [30, 0.5]]) opts.push(h.items.map((x) => (under(x.el, s.tween) ? { ...x, x: x.x + dx, op: x.op * k } : x)));
          for (const o of opts) if (keyOf(o) === got) { best = { j, from, to, items: o }; break; } if (best) break;
        }
        if (!best) {
          const any = hist.findIndex((h) => keyOf(s.motion ? moved(h.items, s.motion, p.spec) : s.sel ? within(h.items, s.sel) : h.items) === got); const ref = hist.filter((h, j) => (hist[j + 1]?.t ?? end) >= low && h.t <= s.hi).pop() ?? hist[hist.length - 1]; const refItems = s.motion ? moved(ref.items, s.motion, p.spec) : s.sel ? within(ref.items, s.sel) : ref.items;
          sim.violate(any >= 0 ? "state-of-another-moment" : "never-was", `${where}, ${s.what}: shows ${text([...seen.values()][0].gl)}, which the page ${any >= 0 ? `showed from ${hist[any].t.toFixed(0)} to ${(hist[any + 1]?.t ?? end).toFixed(0)} ms` : "never showed"}; window ${low.toFixed(0)}–${s.hi.toFixed(0)} ms, where e.g. ${text(refItems)}; differs: ${diff(got, keyOf(refItems))}`); return;
        }
        T = Math.max(best.from, low); prev = T;
        // caret beside the last character shown
        if (p.typing?.caret) { const fld = page.docs.find((d) => d === doc).find("#field")[0]; const its = best.items.filter((x) => x.el === fld && !/150, 150, 150/.test(x.fill)); const lay = its[0]; for (const st of seen.values()) for (const k of st.carets) { const vlen = its.length ? Math.max(...its.map((x) => x.x)) + SIZE * ADV : null; if (vlen != null && Math.abs(k.x - vlen) > SIZE * ADV + 1.1 || vlen != null && k.x < vlen - 1.1) { sim.violate("caret-astray", `${where}, ${s.what}: caret at ${k.x.toFixed(1)}, the text ends at ${vlen.toFixed(1)}`); return; } void lay; sim.count("caret-seen"); } }
      }
    }
    sim.count("played-back");
  },
};
const caretTag = (el, cx, get) => { if (el.tag !== "rect") return null; const f = String(get("fill") ?? el.attrs.fill ?? "").replace(/\s+/g, ""); if (f !== CARET.replace(/\s+/g, "")) return null; return { kind: "caret", x: cx.m[0] * +(el.attrs.x ?? 0) + cx.m[4], op: cx.op }; };
const norm = (gl) => gl.map((x) => ({ ...x, fill: x.fill ?? "rgb(10, 20, 30)" }));
const under = (el, sel) => { for (let e = el; e != null; e = e.parent) if (e.matches(sel)) return true; return false; };
const within = (items, sel) => items.filter((x) => under(x.el, sel));
const moved = (items, m, spec) => { const kind = spec.hov.find((h) => h.target === `#${m.id}`).kind; return items.map((x) => (under(x.el, `#${m.id}`) ? { ...x, y: /move/.test(kind) ? x.y - 6 : x.y, op: /fade/.test(kind) ? x.op * 0.6 : x.op } : x)); };
const text = (gl) => JSON.stringify([...gl].sort((a, b) => Math.round(a.y - b.y) || a.x - b.x).map((x, i, l) => (i && Math.abs(l[i - 1].y - x.y) > 3 ? "/" : "") + x.ch).join("").slice(0, 150));
const diff = (a, b) => { const x = a.split(" "), y = b.split(" "); const only = (p, r) => { const n = [...r]; return p.filter((k) => { const j = n.indexOf(k); if (j < 0) return true; n.splice(j, 1); return false; }); }; return `shown only ${only(x, y).slice(0, 4).join(" ") || "-"}; page only ${only(y, x).slice(0, 4).join(" ") || "-"}`; };
