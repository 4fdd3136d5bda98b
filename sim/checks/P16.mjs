// P16 — commands: the whole output where it was asked for, or an honest failure.
import { gunzipSync } from "node:zlib";
import { posix as path } from "node:path";
import { SimProcess, ProcessGone, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { repoRequire } from "../core/bundle.mjs";
import { Vfs, fsModule } from "../worlds/fs.mjs";
import { SimBrowser } from "../worlds/browser.mjs";
import { SvgPageModel, simSvg, decodeShots } from "../worlds/svgpage.mjs";
import { StageBrowser, stubCapture, fontBuffer, Doc, baselineOf } from "../worlds/stage.mjs";
import { stubRegistry, genConfig, genDoc, shown, resetNames, lineOf, WORDS } from "../worlds/studio.mjs";
import { Viewer } from "../worlds/viewer.mjs";
import { browserFaults, genAnims } from "./P04.mjs";

const NOFAULT = new Set(["event-loop-stall"]);
const containSize = (w, h, tw, th) => { if (tw == null && th == null) return [Math.round(w), Math.round(h)]; const k = tw != null && th != null ? Math.min(tw / w, th / h) : tw != null ? tw / w : th / h; return [w * k, h * k]; };

export default {
  id: "P16",
  entries: { tr: "src/templates/render.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture], [/src\/templates\/registry\.ts$/, stubRegistry]], bins: { domotion: "src/cli/index.ts", image: "src/cli/svg-to-image.ts" } },
  quick: { runs: 6000, cap: 75 }, thorough: { runs: 80000, cap: 840 },
  rule: "a run = one command line (capture, animate, composite, storyboard, term, template, svg-to-image) run undisturbed for reference, then once or twice more to another destination, with faults; non-trivial = a process ran to its end",
  assumptions: ["a browser dies with the process that launched it", "a closed browser's temporary profile is its own business"],
  real: ["src/cli/index.ts and every subcommand, from argv to exit code", "src/cli/svg-to-image.ts, svg-to-image-core.ts", "src/templates/render.ts", "src/animation, src/render, src/terminal, src/post-processing (with svgo)", "zod"],
  stub: ["Chromium pages (documents of text lines; an animation-clock page for svg-to-image)", "src/capture", "template registry", "file system, standard streams, process exit", "sharp"],
  simOpts: { stallProb: 0.002 },
  async warmup() { await repoRequire("wawoff2").compress(new Uint8Array(fontBuffer("SimA"))); for (const f of ["SimA", "SimB", "SimC", "SimMono"]) fontBuffer(f); },
  async run({ sim, choices: c, load }) {
    resetNames(); const vfs = new Vfs(sim); for (const d of ["/work/cfg", "/work/out", "/work/pages"]) vfs.mkdirs(d);
    const world = { dir: "/work/cfg", sites: new Map(), files: new Map(), templates: new Map(), delayed: false };
    const job = this.jobs[c.weighted([[4, "capture"], [4, "animate"], [3, "composite"], [3, "storyboard"], [2, "term"], [3, "template"], [4, "image"], [1.5, "library"], [1, "usage"]], "command")]({ c, world, vfs, sim });
    for (const [p, d] of world.files) vfs.put(p, d);
    const snap = () => new Map(vfs.files("/").map((p) => [p, Buffer.from(vfs.get(p).data)])); const dirs = () => vfs.list("/tmp").join();
    const ctx = { sim, c, vfs, world, load, job };
    if (job.kind === "library") return this.library(ctx);
    if (job.kind === "usage") return this.usage(ctx, snap);
    // --- the reference: undisturbed, to a named file
    const svgz = job.svgz && c.chance(0.4, "svgz"); const shrink = job.optimize && (svgz ? !c.chance(0.2, "no-optimize") : c.chance(0.2, "optimize")); const flags = [...job.args, ...(job.quiet && c.chance(0.3, "quiet") ? ["--quiet"] : [])];
    const ext = job.ext ?? ".svg"; const refPath = `/work/out/ref${ext}`; const before = snap();
    const r0 = await this.process(ctx, { argv: [...flags, ...(shrink ? ["--optimize"] : []), "-o", refPath], calm: true });
    const at0 = `${job.kind}, undisturbed`; if (!this.ended(sim, r0, at0)) return { key: "v" };
    if (r0.code !== 0 && /sets `compress: true` but the run cannot be collapsed/.test(r0.stderr)) { sim.count("marker-refused"); this.untouched({ sim, before, now: snap(), desc: at0, tmp: dirs() }); return { nontrivial: true, key: "refused" }; } // a lawful refusal
    if (r0.code !== 0) { sim.violate("fails-without-fault", `${at0}: exit ${r0.code}: ${short(r0.stderr)}`); return { key: "v" }; }
    const ref = vfs.get(refPath)?.data; if (ref == null) { sim.violate("output-missing", `${at0}: exit 0 without ${refPath}`); return { key: "v" }; }
    const refBytes = Buffer.from(ref); vfs.nodes.delete(refPath); if (!this.untouched({ sim, before, now: snap(), desc: at0, tmp: dirs() })) return { key: "v" };
    if (r0.stdout.length) { sim.violate("stray-stdout", `${at0}: ${short(r0.stdout.toString())}`); return { key: "v" }; }
    const wrong = job.judge?.(refBytes); if (wrong) { sim.violate("wrong-output", `${at0}: ${wrong}`); return { key: "v" }; }
    // --- the same command to its own destination, disturbed
    const rounds = 1 + c.below(2, "rounds"); const keys = [job.kind]; const d = job.dest({ c, svgz }); let calm = false;
    if (d.path && c.chance(0.5, "previous")) vfs.put(d.path, `previous ${c.below(9, "old")}`);
    for (let k = 0; k < rounds; k++) {
      const faulty = !calm && c.chance(0.6, "faults"); const plan = faulty ? this.plan(ctx, d) : { kind: "none" };
      const was = snap(); const old = d.path ? was.get(d.path) ?? null : null; const hadDir = !d.path || vfs.has(path.dirname(d.path)); vfs.capacity = plan.kind === "disk-full" ? vfs.used() + plan.room : Infinity;
      ctx.dest = d; const r = await this.process(ctx, { argv: [...flags, ...(svgz && !shrink ? ["--no-optimize"] : shrink && !svgz ? ["--optimize"] : []), ...d.args], plan, cfgOutput: d.cfg }); vfs.capacity = Infinity;
      const desc = `${job.kind} to ${d.name}${svgz ? " (svgz)" : ""}${old ? " over an earlier file" : ""}${plan.kind !== "none" ? `, ${plan.kind}${plan.hit ? "" : " (not reached)"}` : ""}`;
      if (!this.ended(sim, r, desc)) return { key: "v" };
      const now = snap(); const tmp = dirs(); if (d.cfg && job.setOutput) now.set(job.config, was.get(job.config)); const got = d.path ? now.get(d.path) ?? null : r.stdout; if (d.path) { now.delete(d.path); was.delete(d.path); }
      if (!this.untouched({ sim, before: was, now, desc, tmp: plan.hit && plan.kind === "clean-up fails" ? "/tmp" : tmp })) return { key: "v" };
      for (const p of vfs.list("/tmp")) if (p !== "/tmp") vfs.nodes.delete(p); // what a failed clean-up left
      const must = plan.hit && !plan.benign ? false : hadDir ? (plan.benign ? null : true) : false;
      if (r.code === 0) {
        if (must === false) { sim.violate("failure-swallowed", `${desc}: exit 0${plan.hit ? "" : " although its directory is missing"}`); return { key: "v" }; }
        const bytes = d.path ? got : Buffer.from(r.stdout); if (bytes == null) { sim.violate("output-missing", `${desc}: exit 0, nothing written`); return { key: "v" }; }
        let plain = bytes; if (svgz && job.svgz && d.named) { try { plain = gunzipSync(bytes); } catch { sim.violate("output-not-compressed", `${desc}: ${d.args.at(-1) ?? d.name} is not gzip`); return { key: "v" }; } }
        if (job.same ? job.same(plain, refBytes) : !plain.equals(refBytes)) { const i = diffAt(plain, refBytes); sim.violate("output-differs", `${desc}: ${plain.length} bytes for ${refBytes.length}; at ${i}: ${JSON.stringify(plain.subarray(Math.max(0, i - 30), i + 30).toString())} for ${JSON.stringify(refBytes.subarray(Math.max(0, i - 30), i + 30).toString())}`); return { key: "v" }; }
        if (d.path && r.stdout.length) { sim.violate("stray-stdout", `${desc}: ${short(r.stdout.toString())}`); return { key: "v" }; }
      } else {
        if (must === true) { sim.violate("fails-without-fault", `${desc}: exit ${r.code}: ${short(r.stderr)}`); return { key: "v" }; }
        if (!r.stderr.trim() || !/\w/.test(lastLine(r.stderr))) { sim.violate("silent-failure", `${desc}: exit ${r.code} without a word`); return { key: "v" }; }
        if (/^Wrote /m.test(r.stderr) && !plan.benign) { sim.violate("failure-announced-as-written", `${desc}: ${short(r.stderr)}`); return { key: "v" }; }
        if (d.path && !plan.writing && !(got == null ? old == null : old != null && got.equals(old))) { sim.violate("failure-touched-output", `${desc}: ${d.path} is ${got ? `${got.length} bytes` : "gone"}, was ${old ? `${old.length} bytes` : "absent"}`); return { key: "v" }; }
        if (!d.path && r.stdout.length && !plan.writing) { sim.violate("failure-wrote-output", `${desc}: ${r.stdout.length} bytes on stdout, exit ${r.code}`); return { key: "v" }; }
      }
      keys.push(`${d.name[0]}${svgz ? "z" : ""}${plan.kind[0]}${r.code}`); calm = true; if (!hadDir) break;
    }
    return { nontrivial: true, key: keys.join() };
  },

  /** What goes wrong this time. */
  plan({ c, vfs, job }, d) {
    const reads = [...(job.inputs ?? [])];
    const kind = c.weighted([[1, "no browser"], [4, "page operation fails"], [reads.length ? 2 : 0, "input unreadable"], [reads.length ? 1 : 0, "input missing"], [d.path ? 2 : 0, "output unwritable"], [d.path ? 1.5 : 0, "disk-full"], [job.temp ? 1.5 : 0, "no temporary directory"], [job.temp ? 1 : 0, "clean-up fails"]], "fault");
    return { kind, at: c.below(job.image ? 12 : 40, "at"), which: c.pick(reads.length ? reads : [""], "which"), room: c.pick([0, 0, 1, 200], "room"), code: c.pick(["EIO", "EACCES"], "errno"), wcode: c.pick(["EACCES", "EROFS", "ENOSPC"], "errno"), stage: c.pick(["open-w", "write"], "stage"), hit: false, benign: false, writing: false };
  },

  /** Run one command to its end. */
  async process(ctx, { argv, plan = { kind: "none" }, calm, cfgOutput }) {
    const { sim, c, vfs, world, load, job } = ctx; const proc = new SimProcess(sim, { name: job.kind, argv: ["/usr/bin/node", `/usr/bin/${job.bin}`, ...argv] }); proc.cwd = "/work"; proc.stdout.raw = [];
    const target = argv.includes("-o") ? path.resolve("/work", argv[argv.lastIndexOf("-o") + 1]) : ctx.target; const hit = (what) => { plan.hit = true; sim.fired(what); };
    if (job.setOutput) job.setOutput(cfgOutput ?? null);
    vfs.fault = (op, p, pr) => {
      if (pr !== proc) return null;
      if (plan.kind === "input unreadable" && !plan.hit && op === "read" && p === plan.which) { hit(plan.kind); return plan.code; }
      if (plan.kind === "input missing" && !plan.hit && op === "read" && p === plan.which) { hit(plan.kind); return "ENOENT"; }
      if (plan.kind === "output unwritable" && op === plan.stage && p === (ctx.dest?.path ?? target)) { hit(plan.kind); if (op === "write") plan.writing = true; return plan.wcode; }
      if (plan.kind === "no temporary directory" && op === "mkdtemp") { hit(plan.kind); return "ENOSPC"; }
      if (plan.kind === "clean-up fails" && op === "rm" && p.startsWith("/tmp/")) { hit(plan.kind); plan.benign = true; return "EBUSY"; }
      return null;
    };
    vfs.point = (op, p, pr, extra) => { if (plan.kind === "disk-full" && pr === proc && op === "write" && extra) { const have = vfs.get(p)?.data.length ?? 0; if (vfs.used() - have + extra.len > vfs.capacity) { plan.hit = true; plan.writing = true; } } };
    vfs.special.set(0, { readAll: (e) => { const b = Buffer.from(job.stdin ?? ""); return e ? b.toString(typeof e === "string" ? e : e.encoding) : b; } });
    const browsers = []; let ops = 0; let bin = null; const enoent = (p) => Object.assign(new Error(`spawn ${p} ENOENT`), { code: "ENOENT" }); const dead = (p) => { throw enoent(p); };
    const fs = fsModule(vfs, proc); const mods = { fs, "fs/promises": fs.promises, wawoff2: { compress: async (b) => { await proc.later(c.delay(1, 30, "woff2"), () => {}, "woff2"); return repoRequire("wawoff2").compress(b); } }, child_process: { spawnSync: () => ({ status: 127, error: enoent("x"), stdout: "", stderr: "" }), execFileSync: dead, execSync: dead, spawn: dead, execFile: dead }, os: { platform: () => "linux", homedir: () => "/home/u", tmpdir: () => "/tmp", cpus: () => [] }, ...(job.image ? { sharp: sharpStub, "@playwright/test": { chromium: {} } } : {}) };
    const g = makeGlobals(sim, proc, { modules: mods, ProcessGone });
    g.globalThis.__simTemplates = () => template(world, fs);
    g.globalThis.__simLaunch = () => proc.later(c.delay(5, 300, "launch"), () => {
      if (plan.kind === "no browser") { hit(plan.kind); throw new Error("browserType.launch: Executable doesn't exist"); }
      let b;
      if (job.image) { const f = plan.kind === "page operation fails" ? (op) => { if (/newContext|newPage|setContent|evaluate|screenshot|pdf/.test(op) && ops++ === plan.at) { hit(plan.kind); if (op === "page.evaluate") plan.benign = true; return c.pick(["before", "after", "crash"], "how"); } return null; } : null; b = new SimBrowser(sim, proc, { fault: f, makeModel: (p) => new SvgPageModel(p, { lateAnims: true, slowFrame: !calm && c.chance(0.3, "slow") }) }); }
      else b = new StageBrowser({ proc, sites: world.sites, register: (f) => { for (const w of [400, 700]) bin.ttp.registerWebfont(f, w, "normal", fontBuffer(f)); }, lat: () => 1 + c.below(5, "lat"), fault: (l) => { if (plan.kind === "page operation fails" && ops++ === plan.at) { hit(plan.kind); throw new Error(`${l}: Target crashed`); } } });
      browsers.push(b); return b;
    }, "launch");
    try { bin = load({ ...g, require: g.require }).__bin(job.image ? "image" : "domotion"); } catch (e) { if (!(e instanceof ProcessGone)) throw e; }
    const isOpen = (b) => (b instanceof SimBrowser ? b.connected : !b.closed); const lim = { maxTime: sim.now + 3600_000, maxSteps: sim.steps + 200000 };
    let why; do { why = await sim.run(() => !proc.alive, { ...lim, ignoreUnref: true }); if (why !== "idle" || !proc.alive || !browsers.some(isOpen)) break; await sim.run(() => !proc.alive || !browsers.some(isOpen), { ...lim, maxTime: sim.now + 120_000 }); } while (proc.alive && !browsers.some(isOpen)); // a browser keeps its process up
    const open = browsers.filter(isOpen).length; const natural = proc.alive; const res = { code: natural ? g.process.exitCode ?? 0 : proc.exitCode, natural, why, open, launched: browsers.length, uncaught: proc.uncaught.slice(), stdout: Buffer.concat(proc.stdout.raw), stderr: proc.stderr.join(""), plan };
    if (natural) proc.die("exit", res.code); vfs.fault = () => null; vfs.point = () => {}; return res;
  },
  /** It came to an end, with nothing of it left running. */
  ended(sim, r, desc) {
    if (r.natural && r.why !== "idle") { sim.violate("never-ends", `${desc}: ${r.why}`); return false; }
    if (r.natural && r.open) { sim.violate("browser-left-open", `${desc}: it is done, but ${r.open} browser(s) keep it running`); return false; }
    if (!r.natural && r.uncaught.length) { sim.violate("crashed", `${desc}: uncaught ${r.uncaught[0].kind}: ${short(r.uncaught[0].err)}`); return false; }
    return true;
  },
  untouched({ sim, before, now, desc, tmp }) {
    for (const [p, d] of before) { const n = now.get(p); if (n == null || !n.equals(d)) { sim.violate("file-damaged", `${desc}: ${p} ${n ? "was changed" : "is gone"}`); return false; } }
    for (const p of now.keys()) if (!before.has(p) && !(tmp === "/tmp" && p.startsWith("/tmp/"))) { sim.violate("stray-file", `${desc}: left ${p.replace(/[A-Za-z0-9]{6}(\/|$)/, "XXXXXX$1")}`); return false; }
    if (tmp !== "/tmp") { sim.violate("temporary-left", `${desc}: ${tmp.split(",")[1]?.replace(/.{6}$/, "XXXXXX")} is still there`); return false; }
    return true;
  },

  /** renderTemplateToSvg called by a program, with a browser of its own. */
  async library(ctx) {
    const { sim, c, vfs, world, load, job } = ctx; const proc = new SimProcess(sim, { name: "library" }); proc.cwd = "/work"; const plan = c.chance(0.7, "faults") ? this.plan(ctx, {}) : { kind: "none" }; const hit = (w) => { plan.hit = true; sim.fired(w); };
    vfs.fault = (op, p) => { if (plan.kind === "no temporary directory" && op === "mkdtemp") { hit(plan.kind); return "ENOSPC"; } if (plan.kind === "clean-up fails" && op === "rm" && p.startsWith("/tmp/")) { hit(plan.kind); plan.benign = true; return "EBUSY"; } return null; };
    const dead = () => { throw Object.assign(new Error("ENOENT"), { code: "ENOENT" }); }; const fs = fsModule(vfs, proc); const mods = { fs, "fs/promises": fs.promises, wawoff2: { compress: async (b) => { await proc.later(c.delay(1, 30, "woff2"), () => {}, "woff2"); return repoRequire("wawoff2").compress(b); } }, child_process: { spawnSync: () => ({ status: 127, stdout: "", stderr: "" }), execFileSync: dead, execSync: dead, spawn: dead, execFile: dead }, os: { platform: () => "linux", homedir: () => "/home/u", tmpdir: () => "/tmp", cpus: () => [] } };
    const g = makeGlobals(sim, proc, { modules: mods }); const browsers = []; let ops = 0;
    g.globalThis.__simLaunch = () => proc.later(c.delay(5, 300, "launch"), () => { if (plan.kind === "no browser") { hit(plan.kind); throw new Error("browserType.launch: failed"); } const b = new StageBrowser({ proc, sites: world.sites, register: () => {}, lat: () => 1 + c.below(5, "lat"), fault: (l) => { if (plan.kind === "page operation fails" && ops++ === plan.at) { hit(plan.kind); throw new Error(`${l}: Target crashed`); } } }); browsers.push(b); return b; }, "launch");
    const m = load(g); const res = await sim.settle(m.tr.renderTemplateToSvg(template(world, mods.fs), { key: job.key }, {}), { maxTime: sim.now + 3600_000, maxSteps: 200000 }); vfs.fault = () => null;
    const desc = `template rendered by a program${plan.kind !== "none" ? `, ${plan.kind}` : ""}`;
    if (res.status === "pending") sim.violate("never-ends", `${desc}: ${res.why}`);
    else if (browsers.some((b) => !b.closed)) sim.violate("browser-left-open", `${desc}: its browser is still running (${res.status})`);
    else if (vfs.list("/tmp").length > 1 && !plan.benign) sim.violate("temporary-left", `${desc}: ${vfs.list("/tmp")[1].replace(/.{6}$/, "XXXXXX")}`);
    else if (res.status === "error" && !plan.hit) sim.violate("fails-without-fault", `${desc}: ${short(res.error)}`);
    else if (res.status === "ok" && plan.hit && !plan.benign) sim.violate("failure-swallowed", desc);
    return { nontrivial: true, key: `lib/${plan.kind}/${plan.hit}` };
  },
  /** A command line that means nothing: it says so, and does nothing. */
  async usage(ctx, snap) {
    const { sim, job } = ctx; const before = snap(); const r = await this.process(ctx, { argv: job.args }); const desc = `"${job.args.join(" ")}"`; if (!this.ended(sim, r, desc)) return { key: "v" };
    if (r.code === 0) sim.violate("nonsense-accepted", `${desc}: exit 0`); else if (!r.stderr.trim()) sim.violate("silent-failure", `${desc}: exit ${r.code} without a word`); else if (r.stdout.length) sim.violate("stray-stdout", desc); else this.untouched({ sim, before, now: snap(), desc, tmp: ctx.vfs.list("/tmp").join() });
    return { nontrivial: true, key: `usage/${job.args.join(" ")}` };
  },

  jobs: {
    capture({ c, world, vfs }) {
      const spec = genDoc(c, {}); const src = c.pick(["url", "file", "stdin", "svg"], "source"); let input = "https://sim/page", stdin;
      if (src === "url") world.sites.set(input, spec); if (src === "stdin") { input = "-"; stdin = "<p>page</p>"; world.sites.set(stdin, spec); }
      if (src === "file" || src === "svg") { const name = src === "svg" ? "pages/logo.svg" : c.pick(["pages/page.html", "page.html"], "name"); input = c.chance(0.5, "abs") ? `/work/${name}` : name; vfs.put(`/work/${name}`, "<p>page</p>"); world.sites.set(`file:///work/${name}`, spec); }
      const W = c.pick([null, 400, 300], "w"), H = c.pick([null, 300], "h"); const args = [...(W ? ["--width", `${W}`] : []), ...(H ? ["--height", `${H}`] : [])]; let sy = 0; const w = W ?? 800, h = H ?? 600;
      if (c.chance(0.35, "scrolled")) { const y = c.pick([40, 150, 9000], "sy"); args.push("--scroll-to", `0,${y}`); sy = Math.max(0, Math.min(y, Math.max(0, spec.height - h))); }
      const title = c.chance(0.3, "title") ? c.pick(["A & B", "go <now>"], "t") : null; if (title) args.push("--title", title); if (c.chance(0.2, "framed")) args.push("--chrome", c.pick(["window", "phone", "browser"], "device"));
      const base = path.basename(input).replace(/\.[^.]+$/, ""); const beside = src === "file" ? path.resolve("/work", path.dirname(input), `${base}.svg`) : null; const framed = args.includes("--chrome");
      return { kind: `capture of ${src}`, bin: "domotion", args: ["capture", input, ...args], stdin, svgz: true, optimize: true, quiet: true, inputs: [], judge: (b) => {
        const v = new Viewer(b.toString()); const l = v.at(0, { open: true, minOpacity: 0.004 }).filter((q) => q.kind === "glyph"); const d = new Doc(spec); d.sy = sy; const exp = shown(d).filter((e) => e.y - 16 > 0 && e.y < h - 6 && e.x > 2 && e.x < w - 14 && (!e.clip || (e.x > e.clip[0] && e.x + 12 < e.clip[2] && e.y - 16 > e.clip[1] && e.y + 4 < e.clip[3])));
        for (const e of exp) { if (!l.some((q) => q.ch === e.ch && (framed || Math.abs(q.x - e.x) < 1 && Math.abs(q.y - e.y) < 1))) return `"${e.ch}" of the page belongs at (${e.x.toFixed(1)}, ${e.y.toFixed(1)}); view: ${lineOf(l)}; page: ${lineOf(exp)}`; } if (title && !b.toString().replace(/&gt;/g, ">").includes(title.replace(/&/g, "&amp;").replace(/</g, "&lt;"))) return `title ${title} is missing`; return null;
      }, dest: ({ svgz }) => named(c, svgz ? ".svgz" : ".svg", svgz ? [] : [[1.5, { name: "stdout (-o -)", args: ["-o", "-"] }], [1.5, beside ? { name: "its default file", args: [], path: beside } : src === "svg" ? { name: "a named file", args: ["-o", "copy.svg"], path: "/work/copy.svg", named: true } : { name: "stdout", args: [] }]]) };
    },
    animate({ c, world, vfs }) {
      const { cfg, parts } = genConfig(c, world, { max: 2, w: 400, h: 300 }); void parts; const inConfig = { svgz: c.chance(0.5, "named-in-config") };
      const put = (o) => { vfs.put("/work/cfg/demo.json", JSON.stringify(o ? { ...cfg, output: o } : cfg)); }; put(null);
      return { kind: "animate", bin: "domotion", args: ["animate", c.pick(["cfg/demo.json", "/work/cfg/demo.json"], "arg")], svgz: true, optimize: true, quiet: true, config: "/work/cfg/demo.json", inputs: ["/work/cfg/demo.json", ...[...world.files.keys()].filter((p) => p.endsWith(".cast"))], temp: false, setOutput: put, dest: ({ svgz }) => { const e = svgz ? ".svgz" : ".svg"; return inConfig.svgz ? { name: "the config's output", args: [], cfg: `out/demo${e}`, path: `/work/out/demo${e}`, named: true } : named(c, e, svgz ? [] : [[1, { name: "stdout (-o -)", args: ["-o", "-"] }], [1, { name: "a file, not the config's", args: ["-o", "out/mine.svg"], cfg: "out/other.svg", path: "/work/out/mine.svg" }]]); } };
    },
    composite({ c, world, vfs }) { return stacked(c, world, vfs, "composite"); },
    storyboard({ c, world, vfs }) { return stacked(c, world, vfs, "storyboard"); },
    term({ c, world }) {
      const text = castText(c); const stdin = c.chance(0.25, "stdin"); const name = c.pick(["rec.cast", "out/run.CAST", "my.cast.cast", "out.casts/run.cast"], "name"); if (!stdin) world.files.set(`/work/${name}`, text);
      const args = ["term", "--cast", stdin ? "-" : name, "--font-family", "SimMono, monospace", "--tail-ms", "1000", ...(c.chance(0.4, "full") ? ["--mode", "full"] : []), ...(c.chance(0.3, "fs") ? ["--font-size", "10"] : []), ...(c.chance(0.3, "cursor") ? ["--cursor", "none"] : [])]; const beside = `/work/${name.replace(/\.cast$/i, "")}.svg`; let theme = [];
      if (c.chance(0.3, "theme")) { world.files.set("/work/theme.json", JSON.stringify({ bg: "#101010", fg: "#eeeeee" })); args.push("--theme-file", "theme.json"); theme = ["/work/theme.json"]; }
      return { kind: `term${stdin ? " of stdin" : ""}`, bin: "domotion", args, stdin: stdin ? text : undefined, inputs: [...(stdin ? [] : [`/work/${name}`]), ...theme], judge: (b) => wordsIn(b, c.castWords, 1e7), dest: () => named(c, ".svg", [[2, stdin ? { name: "stdout", args: [] } : { name: "its default file", args: [], path: beside }]]) };
    },
    template({ c, world }) {
      const j = templateJob(c, world); const args = ["template", "sim"]; const inputs = []; const how = c.pick(["flag", "json", "file"], "params");
      if (how === "flag") args.push("--key", j.key); else if (how === "json") args.push("--params", JSON.stringify({ key: j.key })); else { world.files.set("/work/p.json", JSON.stringify({ key: c.chance(0.5, "loses") ? (args.push("--key", j.key), "nothing") : j.key })); args.push("--params-file", "p.json"); inputs.push("/work/p.json"); }
      return { kind: "template", bin: "domotion", args, svgz: true, optimize: true, quiet: true, temp: true, inputs, dest: ({ svgz }) => named(c, svgz ? ".svgz" : ".svg", svgz ? [] : [[1.5, { name: "stdout", args: [] }], [1, { name: "stdout (-o -)", args: ["-o", "-"] }]]) };
    },
    library({ c, world }) { return { kind: "library", temp: true, inputs: [], key: templateJob(c, world).key }; },
    usage({ c, world }) {
      world.files.set("/work/bad.json", "{ not json"); world.files.set("/work/empty.json", JSON.stringify({ width: 10, height: 10, frames: [], layers: [], scenes: [] })); world.files.set("/work/in.svg", "<svg/>"); world.files.set("/work/a.html", "<p/>"); world.files.set("/work/r.cast", "{}");
      world.sites.set("file:///work/in.svg", genDoc(c, {})); const l = [["capture"], ["capture", "in.svg"], ["capture", "./in.svg", "--optimize"], ["capture", "a.html", "b.html"], ["capture", "a.html", "--optimize", "--no-optimize"], ["capture", "a.html", "--chrome", "toaster"], ["capture", "a.html", "--width", "0"], ["capture", "a.html", "--clip", "1,2,3"], ["capture", "a.html", "--nope"], ["capture", "gone.html", "-o", "o.svg"], ["capture", "a.html", "--url", "https://x"], ["capture", "a.html", "--color-scheme", "blue"], ["capture", "a.html", "--brand", "gone.json", "-o", "o.svg"], ["animate"], ["animate", "gone.json"], ["animate", "bad.json"], ["animate", "empty.json"], ["animate", "empty.json", "--optimize", "--no-optimize"], ["composite"], ["composite", "gone.json"], ["composite", "bad.json"], ["composite", "empty.json"], ["storyboard"], ["storyboard", "bad.json"], ["storyboard", "empty.json"], ["term"], ["term", "--cast", "gone.cast"], ["term", "--cast", "r.cast", "--", "ls"], ["term", "--cast", "r.cast", "--cols", "x"], ["term", "--cast", "r.cast", "--mode", "odd"], ["term", "--cast", "r.cast", "--theme-file", "bad.json"], ["template", "sim", "--nope", "1"], ["template", "sim", "--params", "[1]"], ["template", "sim", "--params-file", "gone.json"], ["nonsense"]];
      const im = [["in.svg"], ["-o", "x.png"], ["gone.svg", "-o", "x.png"], ["in.svg", "-o", "x.bmp"], ["in.svg", "-o", "x.png", "--quality", "0"], ["in.svg", "-o", "x.png", "--scale", "0"], ["in.svg", "-o", "x.png", "--at", "-1"], ["in.svg", "b.svg", "-o", "x.png"], ["in.svg", "-o", "x.png", "--format", "bmp"], ["in.svg", "-o", "x.png"]];
      const image = c.chance(0.3, "image"); return { kind: "usage", bin: image ? "svg-to-image" : "domotion", image, args: c.pick(image ? im : l, "line"), inputs: [] };
    },
    image({ c, world }) {
      const anims = genAnims(c, { late: c.chance(0.4, "late") }); const smil = c.chance(0.25, "smil"); const sized = !c.chance(0.15, "unsized"); const size = sized ? c.pick([[40, 30], [40.5, 30], [120, 20]], "size") : null; world.files.set("/work/in.svg", simSvg({ anims, smil, tag: "in", size: sized ? `viewBox="0 0 ${size[0]} ${size[1]}"` : "", prolog: c.pick(["", "<?xml version=\"1.0\"?>\n"], "prolog") }));
      const fmt = c.pick(["png", "jpeg", "pdf", "webp", "avif", "tiff"], "format"); const forced = c.chance(0.3, "forced"); const exts = { png: ".png", jpeg: c.pick([".jpg", ".jpeg", ".JPG"], "e"), pdf: ".pdf", webp: ".webp", avif: ".avif", tiff: c.pick([".tiff", ".tif"], "e") }; const ext = forced ? c.pick([".img", ".png", ""], "other") : exts[fmt];
      const at = c.pick([null, 0, 150, 320.5, 5000], "at"), W = !sized || c.chance(0.3, "w") ? c.pick([80, 37], "W") : null, H = !sized || c.chance(0.2, "h") ? c.pick([60, 100], "H") : null, scale = c.pick([null, 1, 2, 3], "scale"), bg = c.pick([null, "transparent", "#123456"], "bg"), q = c.pick([null, 50, 100], "q");
      const args = ["in.svg", ...(forced ? ["--format", fmt] : []), ...(at != null ? ["--at", `${at}`] : []), ...(W ? ["--width", `${W}`] : []), ...(H ? ["--height", `${H}`] : []), ...(scale ? ["--scale", `${scale}`] : []), ...(bg ? ["--background", bg] : []), ...(q ? ["--quality", `${q}`] : [])];
      const judge = (b) => {
        let made = "png", st = b; const t = /^SHARP:(\w+):([^:]*):/.exec(b.toString("latin1")); if (t) { made = t[1]; st = b.subarray(t[0].length); } const s = decodeShots(st); if (s.length !== 1 || s[0].broken) return "not one whole picture"; const f = s[0]; if (!t) made = f.type;
        if (made !== fmt) return `a ${made} file, ${fmt} was asked for`; const want = at ?? 0; if (f.load !== 1 || f.tag !== "in") return "not the input document"; if (f.missing || f.anims.length !== anims.length) return `${anims.length - f.anims.length} animation(s) missing`;
        for (const a of f.anims) if (Math.abs(a.t - want) > 1e-6 || !a.paused) return `animation ${a.id} at ${a.t} ms${a.paused ? "" : " (running)"}, ${want} ms was asked for`; for (const x of f.smil ?? []) if (Math.abs(x.t * 1000 - want) > 1e-6 || !x.paused) return `SMIL clock at ${x.t * 1000} ms, ${want} ms was asked for`; if (f.animations !== "allow") return "animations are cancelled for the picture";
        const [ew, eh] = sized ? containSize(size[0], size[1], W ?? undefined, H ?? undefined) : [W, H]; const k = fmt === "pdf" ? 1 : scale ?? 1; const gw = fmt === "pdf" ? parseFloat(f.paper.width) : f.w / k, gh = fmt === "pdf" ? parseFloat(f.paper.height) : f.h / k; if (Math.abs(gw - ew) > 0.51 || Math.abs(gh - eh) > 0.51) return `${gw}x${gh} (times ${k}), expected ${ew}x${eh}`;
        const clear = bg == null || bg === "transparent"; const alpha = clear && !["jpeg", "pdf"].includes(fmt); if (f.alpha !== alpha) return `alpha ${f.alpha}, expected ${alpha}`; if (!alpha && !String(f.bg).includes(clear ? "#ffffff" : bg)) return `painted on ${f.bg}, expected ${clear ? "white" : bg}`; if (fmt === "pdf" && (f.media !== "screen" || !f.paper.printBackground)) return `printed for ${f.media}, backgrounds ${f.paper.printBackground}`;
        const qq = t ? t[2] : f.quality; if (["jpeg", "webp", "avif"].includes(fmt) && Number(qq) !== (q ?? 92)) return `quality ${qq}, expected ${q ?? 92}`; return null;
      };
      return { kind: "svg-to-image", bin: "svg-to-image", image: true, args, ext, quiet: true, inputs: ["/work/in.svg"], judge, same: (x, y) => judge(x) != null && !x.equals(y), dest: () => named(c, ext, []) };
    },
  },
};

const lastLine = (s) => s.trim().split("\n").at(-1) ?? "";
const diffAt = (a, b) => { let i = 0; while (i < a.length && i < b.length && a[i] === b[i]) i++; return i; };
function named(c, ext, more) { const p = c.pick([`o${ext}`, `out/o${ext}`, `/work/out/o${ext}`, `./out/../o.v2${ext}`], "path"); return c.weighted([[3, { name: "a named file", args: ["-o", p], path: path.resolve("/work", p), named: true }], [0.4, { name: "a directory that is not there", args: ["-o", `none/o${ext}`], path: `/work/none/o${ext}`, named: true }], ...more], "destination"); }
const sharpStub = (buf) => { const mk = (f) => (o = {}) => ({ toBuffer: async () => Buffer.concat([Buffer.from(`SHARP:${f}:${o.quality ?? o.compression ?? ""}:`), buf]) }); return { webp: mk("webp"), avif: mk("avif"), tiff: mk("tiff"), png: mk("png"), jpeg: mk("jpeg") }; };
let zod = null;
/** A third-party template: writes a working file, composes it, hands back the result. */
function template(world, fs) {
  zod ??= repoRequire("zod").z;
  return { name: "sim", description: "a template", paramsSchema: zod.object({ key: zod.string() }), render: async (p, ctx) => {
    const t = world.templates.get(p.key); if (!t) throw new Error(`no such card: ${p.key}`);
    fs.writeFileSync(`${ctx.workDir}/notes.txt`, "x"); const svg = t.shot ? (await ctx.captureToSvg({ input: t.shot, width: t.width, height: t.height })).svg : await ctx.runAnimateConfig(t.cfg); return { svg, width: t.width, height: t.height, ...(t.durationMs != null ? { durationMs: t.durationMs } : {}) };
  } };
}
function templateJob(c, world) {
  const key = `k${world.templates.size}`; const w = c.pick([400, 200], "w"), h = c.pick([300, 150], "h");
  if (c.chance(0.3, "shot")) { world.sites.set("https://sim/card", genDoc(c, { w, h })); world.templates.set(key, { shot: "https://sim/card", width: w, height: h }); return { key }; }
  const { cfg, parts } = genConfig(c, world, { nested: true, max: 2, w, h }); const total = parts.reduce((a, p) => a + p.hold + p.tr, 0); world.templates.set(key, { cfg, width: w, height: h, ...(parts.length > 1 ? { durationMs: total } : {}) }); return { key };
}
function castText(c) {
  const words = Array.from({ length: 1 + c.below(4, "lines") }, () => c.pick(WORDS, "w")); c.castWords = words; let t = 0; return JSON.stringify({ version: 2, width: 20, height: 6 }) + "\n" + words.map((s) => { const e = JSON.stringify([t / 1000, "o", `${s}\r\n`]); t += c.pick([420, 500, 800], "gap"); return e; }).join("\n") + "\n";
}
/** Every inked character of the words shows at the end of the first loop. */
function wordsIn(b, words) {
  const svg = b.toString(); const v = new Viewer(svg); const need = words.join("").replace(/ /g, ""); const period = Math.max(...[...svg.matchAll(/ ([\d.]+)s (?:linear|step-end|steps\([^)]*\)|ease[a-z-]*|infinite)/g)].map((m) => +m[1] * 1000), 1000); const l = v.at(period - 300, { open: true, minOpacity: 0.004 }).filter((q) => q.kind === "glyph"); const have = new Map(); for (const q of l) have.set(q.ch, (have.get(q.ch) ?? 0) + 1);
  for (const ch of need) { const n = have.get(ch) ?? 0; if (n <= 0) return `"${ch}" of the recording is not there at ${period - 300} ms; view: ${lineOf(l)}`; have.set(ch, n - 1); } return null;
}
function stacked(c, world, vfs, kind) {
  const list = []; const inputs = [`/work/cfg/${kind}.json`]; const n = 1 + c.below(3, "parts"); let temp = false;
  for (let i = 0; i < n; i++) {
    const k = c.weighted([[3, "svg"], [2, "cast"], [2, "template"], [kind === "storyboard" ? 2 : 0, "page"]], "source"); const at = kind === "composite" ? { x: 10 * i, y: 20 * i, ...(c.chance(0.4, "start") ? { start: 300 } : {}) } : { ...(c.chance(0.6, "duration") ? { duration: c.pick([700, 1000], "d") } : {}), ...(c.chance(0.5, "tr") ? { transition: { type: c.pick(["cut", "crossfade", "push-left"], "t"), duration: 200 } } : {}) };
    if (k === "svg") { const p = `/work/cfg/part${i}.svg`; world.files.set(p, `<svg xmlns="http://www.w3.org/2000/svg" width="160" height="80" viewBox="0 0 160 80"><text x="10" y="30" font-size="16" font-family="Arial">${c.pick(["card", "go", "part"], "w")}${i}</text></svg>`); inputs.push(p); list.push({ svg: `part${i}.svg`, ...at }); }
    else if (k === "cast") { const p = `/work/cfg/rec${i}.cast`; world.files.set(p, castText(c)); inputs.push(p); list.push({ cast: `rec${i}.cast`, term: { fontFamily: "SimMono, monospace", tailMs: 1000 }, ...at }); }
    else if (k === "page") { const u = `https://sim/scene${i}`; world.sites.set(u, genDoc(c, {})); list.push({ capture: { url: u }, ...at }); }
    else { temp = true; const { key } = templateJob(c, world); list.push({ template: "sim", params: { key }, ...at }); }
  }
  if (kind === "storyboard") for (const s of list) s.duration ??= 900; const cfg = { width: 400, height: 300, [kind === "composite" ? "layers" : "scenes"]: list }; const file = `/work/cfg/${kind}.json`; const put = (o) => { vfs.put(file, JSON.stringify(o ? { ...cfg, output: o } : cfg)); }; put(null);
  return { kind, bin: "domotion", args: [kind, c.pick([`cfg/${kind}.json`, file], "arg")], config: file, inputs, temp, setOutput: put, dest: () => named(c, ".svg", [[1.5, { name: "stdout", args: [] }], [1.5, { name: "the config's output", args: [], cfg: "out/demo.svg", path: "/work/out/demo.svg" }]]) };
}
