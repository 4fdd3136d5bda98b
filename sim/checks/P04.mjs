// P04 — video export: exact frames, honest outcome, nothing left behind.
import { resolve as resolvePath, dirname } from "node:path";
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { makeFs } from "../worlds/fs.mjs";
import { SimBrowser } from "../worlds/browser.mjs";
import { childModule } from "../worlds/child.mjs";
import { SvgPageModel, simSvg, decodeShots } from "../worlds/svgpage.mjs";

const gcd = (a, b) => (b ? gcd(b, a % b) : a);

/** A stand-in encoder: reads frames from stdin, writes the output file at end of input. */
export function ffmpegProgram(sim, vfs, plan, rec) {
  return (ch) => {
    rec.child = ch; rec.bytes = []; rec.started = true;
    let n = 0; const out = resolvePath(ch.proc.cwd, ch.args[ch.args.length - 1]);
    if (!vfs.has(dirname(out))) { rec.exit = 1; ch._exit(1); return; }
    vfs.put(out, "partial");
    const finish = (code) => { rec.exit = code; ch._exit(code); };
    const step = () => ch._read((b) => {
      if (b == null) {
        rec.sawEof = true;
        if (ch._parentGone) rec.orphanEof = true;
        ch._dev(sim.choices.delay(1, 2000, "mux"), () => {
          if (!ch._alive) return;
          if (plan.kind === "fail-at-end") { sim.fired("encoder-fails-at-end"); finish(1); return; }
          if (!vfs.has(out)) { finish(1); return; } vfs.put(out, `video:${rec.bytes.length}`); finish(0);
        }, "mux");
        return;
      }
      rec.bytes.push(b); n += b.length;
      if (plan.kind === "early-exit" && n >= plan.after) { sim.fired("encoder-exits-early"); finish(plan.code); return; }
      if (plan.kind === "early-close" && n >= plan.after) { sim.fired("encoder-closes-stdin"); ch._closeStdin(); ch._dev(plan.lag, () => ch._alive && finish(plan.code), "late-exit"); return; }
      if (plan.kind === "killed" && n >= plan.after) { sim.fired("encoder-killed"); rec.exit = "SIGKILL"; ch._exit(null, "SIGKILL"); return; }
      const again = () => ch._dev(plan.slow ? sim.choices.delay(1, 300, "encode") : 1, () => ch._alive && step(), "encode");
      if (plan.chatty) { sim.faults["encoder-chatty-stderr"] = (sim.faults["encoder-chatty-stderr"] ?? 0) + 1; ch._write("stderr", "frame= 1 fps=0.0 q=0.0 size=N/A time=N/A ".repeat(plan.chatty), again); } else again();
    }, plan.readSize);
    step();
  };
}
export function ffmpegPlan(sim, c, faulty) {
  const kind = faulty ? c.weighted([[4, "ok"], [1.2, "early-exit"], [1, "early-close"], [0.8, "killed"], [1, "fail-at-end"], [0.8, "spawn-error"]], "encoder") : "ok";
  return { kind, after: c.weighted([[2, 1], [3, 500], [3, 3000], [2, 90000]], "after"), code: c.pick([1, 234, 255], "code"), lag: c.delay(1, 3000, "lag"), slow: c.chance(0.4, "slow"), chatty: faulty && c.chance(0.25, "chatty") ? 200 : 0, readSize: c.pick([65536, 4096, 1000], "readsize"), spawnErr: c.pick(["ENOENT", "EACCES", "EAGAIN"], "spawnerr") };
}
const BROWSER_OPS = /newContext|newPage|setContent|evaluate|screenshot/;
export function browserFaults(sim, c, faulty, p = 0.02) {
  let left = 1;
  return (op) => {
    if (!faulty || left <= 0 || !sim.faultsEnabled || !BROWSER_OPS.test(op)) return null;
    if (!c.chance(p, `bf:${op}`)) return null;
    left--; return c.pick(["before", "after", "crash"], "bfk");
  };
}

export function genAnims(c, o = {}) {
  const n = c.weighted([[5, 1], [4, 2], [2, 3], [1, 0], [1, 5]], "anims");
  const anims = [];
  for (let i = 0; i < n; i++) {
    const inf = c.chance(0.6, "inf");
    anims.push({ d: c.pick([300, 100, 200, 250, 400, 150.4, 600, 0], "dur"), it: inf ? "inf" : c.pick([1, 2, 0.5, 3], "iter"), delay: c.pick([0, 0, 50, 120], "delay"), end: c.pick([0, 0, 30], "enddelay"), ...(o.late && c.chance(0.4, "late") ? { late: 1 } : {}), ...(c.chance(0.3, "kf") ? { kf: [{ offset: 0, opacity: "1" }, { offset: 0.3, opacity: "1" }, { offset: 0.3001, opacity: "0" }, { offset: 1, opacity: "0" }] } : {}), ...(c.chance(0.04, "noeff") ? { noEffect: 1 } : {}) });
  }
  return anims;
}
export function expectDuration(anims, overrideSec) {
  if (overrideSec != null) return Math.round(overrideSec * 1000);
  let fin = 0, cyc = 0;
  for (const a of anims) {
    if (a.noEffect) continue;
    if (a.it === "inf") { const p = Math.round(a.d); if (a.d > 0) cyc = cyc === 0 ? p : (cyc / gcd(cyc, p)) * p; } else fin = Math.max(fin, (a.delay ?? 0) + a.d * a.it + (a.end ?? 0));
  }
  return Math.max(fin, cyc);
}

export default {
  id: "P04",
  entries: { core: "src/cli/svg-to-video-core.ts" }, bundleOpts: { lazy: [/src\/index\.ts$/] },
  quick: { runs: 30000, cap: 150 }, thorough: { runs: 300000, cap: 1800 },
  rule: "a run = one video export of a generated animated SVG (0-5 CSS animations, SMIL, finite/infinite, late-registering) through a simulated browser compositor and a simulated encoder process; non-trivial = the encoder was started or a fault fired",
  assumptions: ["the compositor paints at vsync; a screenshot shows the last painted state", "CSS animations may join the document timeline only at the first style recalc", "an encoder that is told to stop, does"],
  real: ["src/cli/svg-to-video-core.ts (whole export path, page-side seek/timing functions re-evaluated from source)", "Node streams"], stub: ["Chromium (vsync/animation-clock model)", "ffmpeg process and pipes", "file system", "clock"],
  simOpts: { stallProb: 0.002 },
  async run({ sim, choices: c, load }) {
    const proc = new SimProcess(sim, { name: "svg-to-video" });
    const faulty = c.chance(0.7, "faulty");
    const { vfs, fs, promises } = makeFs(sim, proc);
    let fsLeft = 1;
    const fsFaults = [];
    vfs.fault = (op, p) => {
      if (!faulty || fsLeft <= 0 || !/frames|in\.svg|out/.test(p)) return null;
      if (!["mkdir", "open-w", "write", "read", "statfs"].includes(op)) return null;
      if (!c.chance(0.006, "fsf")) return null;
      fsLeft--; const code = op === "write" || op === "open-w" ? c.pick(["ENOSPC", "EIO", "EACCES"], "fse") : "EIO"; fsFaults.push(op); return code;
    };
    const plan = ffmpegPlan(sim, c, faulty); const rec = {};
    const cp = childModule(sim, proc, {
      programs: (file, args, o, ch) => { rec.spawned = true; rec.file = file; rec.args = args; rec.ch = ch; return plan.kind === "spawn-error" ? plan.spawnErr : ffmpegProgram(sim, vfs, plan, rec); },
      sync: () => ({ status: 0, stdout: "ffmpeg version 7" }),
    });
    const late = c.chance(0.3, "late-run");
    const anims = genAnims(c, { late }); const smil = c.chance(0.25, "smil");
    const hasLate = anims.some((a) => a.late);
    const fps = c.pick([25, 10, 30, 24, 50, 7], "fps");
    const longRun = (expectDuration(anims) / 1000) * fps > 100;
    const overrideSec = hasLate || longRun || c.chance(0.35, "override") ? c.pick([0.2, 0.5, 0.1, 0.85, 0.033], "dursec") : undefined;
    const transparentBg = c.chance(0.3, "transparent"); const format = c.pick(["h264", "vp9", "gif", "apng", "prores", "av1"], "format");
    const background = transparentBg ? c.pick(["transparent", "none", "rgba(0,0,0,0)"], "tbg") : c.pick(["#ffffff", "#123456"], "bg");
    const scale = c.pick([2, 1, 3], "scale");
    const prolog = c.pick(["", "<?xml version=\"1.0\"?>\n"], "prolog");
    vfs.put("/work/in.svg", simSvg({ anims, smil, tag: "in", prolog }));
    const keep = c.chance(0.4, "keep") ? "frames/x" : undefined;
    const bf = browserFaults(sim, c, faulty);
    let browser = null; let model = null;
    const launchFail = faulty && c.chance(0.03, "launchfail");
    const logs = [];
    const g = makeGlobals(sim, proc, { modules: { fs, "fs/promises": promises, child_process: cp.module, "@playwright/test": { chromium: {} }, os: { tmpdir: () => "/tmp", homedir: () => "/home/user", platform: () => "linux" } } });
    const mod = load(g);
    const opts = {
      input: "in.svg", output: "out.mp4", fps, durationSec: overrideSec, format, scale, background, burnCaptions: false, keepFrames: keep, ffmpegPath: "ffmpeg", quiet: c.chance(0.5, "quiet"),
      log: (m) => { logs.push(m); }, launchBrowser: async () => {
        await proc.later(c.delay(5, 500, "launch"), () => {}, "launch");
        if (launchFail) { sim.fired("browser-launch-failure"); throw new Error("browserType.launch: failed"); }
        browser = new SimBrowser(sim, proc, { fault: bf, makeModel: (p) => (model = new SvgPageModel(p, { lateAnims: true, slowFrame: c.chance(0.3, "slowframes"), framePad: c.pick([[0], [0, 3000], [70000, 100, 200000]], "pads") })) });
        return browser;
      },
    };
    const expMs = expectDuration(anims, overrideSec);
    const expErr = overrideSec == null && (anims.length === 0 || !(expMs > 0)) ? "no-duration" : expMs > 600000 ? "too-long" : null;
    const count = Math.max(1, Math.round((expMs / 1000) * fps));
    const res = await sim.settle(mod.core.runSvgToVideo(opts), { maxTime: 1800_000, maxSteps: 400000 });
    const faultKinds = Object.keys(sim.faults).filter((k) => !["event-loop-stall", "encoder-chatty-stderr"].includes(k));
    if (res.status === "pending") {
      sim.violate("export-never-finishes", `the export had not finished after ${Math.round(sim.now / 1000)} s of simulated time (encoder: ${plan.kind}${plan.chatty ? ", reporting progress on stderr" : ""}${opts.quiet ? ", quiet mode" : ""}; ${res.why})`);
    } else {
      const ch = rec.ch;
      const ok = res.status === "ok";
      if (expErr == null && faultKinds.length === 0) sim.check(ok, "export-fails-without-fault", () => `no fault occurred, but the export failed: ${short(res.error)}`);
      if (expErr != null) sim.check(!ok, "export-accepts-undeterminable-duration", "no finite duration can be derived, yet the export succeeded");
      // every frame handed to the encoder is the right one, in order
      const got = rec.bytes ? decodeShots(Buffer.concat(rec.bytes)) : [];
      const transparent = transparentBg && !["h264", "av1"].includes(format);
      const badFrame = (f, i) => {
        const t = ((i + 0.5) * 1000) / fps;
        if (f.load !== 1 || f.tag !== "in") return "not the input document";
        if (f.missing) return `${f.missing} animation(s) not yet on the timeline`;
        if (f.anims.length !== anims.length) return `${f.anims.length} of ${anims.length} animations`;
        for (const a of f.anims) { if (Math.abs(a.t - t) > 1e-6) return `animation ${a.id} painted at ${a.t} ms, expected ${t} ms`; if (!a.paused) return `animation ${a.id} still running`; }
        for (const s of f.smil ?? []) if (Math.abs(s.t * 1000 - t) > 1e-6 || !s.paused) return `SMIL clock at ${s.t * 1000} ms${s.paused ? "" : " (running)"}, expected ${t} ms`;
        if (f.alpha !== transparent) return `alpha ${f.alpha}, expected ${transparent}`;
        if (f.animations !== "allow") return "animations not allowed to show their seeked state";
        if (f.w !== 40 * scale || f.h !== 30 * scale) return `frame is ${f.w}x${f.h}, expected ${40 * scale}x${30 * scale}`;
        return null;
      };
      const whole = got.filter((f) => !f.broken);
      for (let i = 0; i < whole.length; i++) { const b = badFrame(whole[i], i); if (b) { sim.violate("wrong-frame", `frame ${i} at ${fps} fps: ${b}`); break; } }
      if (whole.length > count) sim.violate("too-many-frames", `${whole.length} frames sent, ${count} expected for ${expMs} ms at ${fps} fps`);
      if (ok) {
        sim.check(got.length === count && !got.some((f) => f.broken), "frame-stream-incomplete", () => `success reported, but the encoder received ${whole.length} of ${count} frames (${expMs} ms at ${fps} fps)`);
        sim.check(rec.exit === 0, "success-without-encoder-success", () => `success reported while the encoder ${rec.exit === undefined ? "had not finished" : `ended with ${rec.exit}`}`);
        if (rec.args) { const i = rec.args.indexOf("-framerate"), r = rec.args.indexOf("-r"); sim.check(i >= 0 && Number(rec.args[i + 1]) === fps && r >= 0 && Number(rec.args[r + 1]) === fps, "encoder-rate-wrong", () => `encoder told ${rec.args[i + 1]}/${rec.args[r + 1]} fps, requested ${fps}`); }
      } else {
        sim.check(!logs.some((l) => /^wrote /.test(l)), "failure-announced-as-written", () => `the export failed (${short(res.error)}) after announcing the file as written`);
        sim.check(res.error instanceof Error || typeof res.error?.message === "string", "failure-without-reason", "rejected without an Error");
      }
      if (keep != null) {
        const files = vfs.files("/work/frames/x"); 
        for (let i = 0; i < files.length; i++) {
          sim.check(files[i] === `/work/frames/x/frame_${String(i).padStart(6, "0")}.png`, "kept-frames-misnamed", () => `file ${i} is ${files[i]}`);
          const d = decodeShots(vfs.get(files[i]).data); const b = d.length === 1 && !d[0].broken ? badFrame(d[0], i) : "not a whole frame";
          if (b && (ok || i < files.length - 1)) { sim.violate("kept-frame-wrong", `${files[i]}: ${b}`); break; }
        }
        if (ok) sim.check(files.length === count, "kept-frames-incomplete", () => `${files.length} of ${count} frame files`);
      }
      sim.check(browser == null || browser.closeCalls > 0, "browser-left-open", () => `the export ${ok ? "succeeded" : `failed (${short(res.error)})`} and left the browser running`);
      // let everything that is still pending happen
      const t0 = sim.now; sim.faultsEnabled = false;
      await sim.run(() => sim.now > t0 + 20000 || (ch == null || !ch._alive) && !sim.queue.some((e) => e.ref), { maxTime: t0 + 20001, maxSteps: sim.steps + 20000 });
      if (ch) sim.check(!ch._alive, "encoder-left-running", () => `20 s after the export ${ok ? "succeeded" : `failed (${short(res.error)})`}, the encoder process is still running${ch._eof ? "" : ", waiting for input"}`);
      if (browser) sim.check(!browser.connected, "browser-left-open", "the browser is still running 20 s after the export settled");
    }
    for (const u of proc.uncaught) sim.violate("process-crashed", `uncaught ${u.kind}: ${short(u.err)} (encoder plan ${plan.kind})`);
    return { nontrivial: rec.spawned === true || faultKinds.length > 0, key: `${plan.kind}/${format}/${fps}/${anims.length}/${count}/${res.status}/${fsFaults}/${browser?.log.map((l) => l.label + l.f)}`, encoder: plan.kind, frames: count, fps, outcome: res.status, error: res.error ? short(res.error, 80) : undefined };
  },
};
