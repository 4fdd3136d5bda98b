// P05 — the svg-scrubber server: every answer belongs to its own request, and
// the server survives and recovers from anything its browser, encoder, disk or
// clients do.
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { makeFs } from "../worlds/fs.mjs";
import { SimBrowser, pwError } from "../worlds/browser.mjs";
import { childModule } from "../worlds/child.mjs";
import { httpModule } from "../worlds/http.mjs";
import { SvgPageModel, simSvg, decodeShots } from "../worlds/svgpage.mjs";
import { ffmpegProgram, ffmpegPlan, genAnims, expectDuration } from "./P04.mjs";

const even = (n) => Math.max(2, Math.floor(n / 2) * 2);
const clampC = (k, W, H) => { const x0 = Math.max(0, Math.min(k.x, W)), y0 = Math.max(0, Math.min(k.y, H)), x1 = Math.max(0, Math.min(k.x + k.w, W)), y1 = Math.max(0, Math.min(k.y + k.h, H)); return x1 - x0 > 0 && y1 - y0 > 0 ? { x: x0, y: y0, width: x1 - x0, height: y1 - y0 } : null; };

export default {
  id: "P05",
  entries: { server: "src/scrubber/server.ts" }, bundleOpts: { lazy: [/src\/index\.ts$/] },
  quick: { runs: 20000, cap: 150 }, thorough: { runs: 250000, cap: 1800 },
  rule: "a run = one scrubber server, 1-4 clients sending 1-5 requests each (page, timing, trim, frame, video, ticket, malformed), faults, then a fault-free tail and a shutdown; non-trivial = two requests overlapped or a fault fired",
  assumptions: ["Chromium never hangs for ever inside one protocol call", "an encoder that is told to stop, does"],
  real: ["src/scrubber/server.ts, crop.ts, trim.ts, src/utils/local-server.ts", "src/cli/svg-to-video-core.ts helpers and page-side functions", "zod"], stub: ["node:http sockets", "Chromium (vsync/animation-clock model)", "ffmpeg process and pipes", "file system", "clock"],
  simOpts: { stallProb: 0.003 },
  async run({ sim, choices: c, load }) {
    const proc = new SimProcess(sim, { name: "scrubber" });
    const faulty = c.chance(0.75, "faulty");
    const { vfs, fs, promises } = makeFs(sim, proc);
    vfs.mkdirs("/work/tickets");
    const http = httpModule(sim, proc, {});
    let budget = faulty ? c.weighted([[3, 1], [3, 2], [1, 4]], "budget") : 0;
    const spend = (p, kind) => { if (budget <= 0 || !sim.faultsEnabled || !c.chance(p, kind)) return false; budget--; return true; };
    vfs.fault = (op, p) => (["mkdtemp", "open-w", "write", "read"].includes(op) && /scrubber-mp4|tickets/.test(p) && spend(0.04, "fsf") ? c.pick(["ENOSPC", "EIO", "EACCES"], "fse") : null);
    const recs = [];
    const cp = childModule(sim, proc, {
      programs: (file, args, o, ch) => {
        const plan = ffmpegPlan(sim, c, false); plan.kind = spend(0.35, "encf") ? c.pick(["early-exit", "early-close", "killed", "fail-at-end", "spawn-error"], "enck") : "ok"; plan.chatty = c.chance(0.15, "chatty") ? 100 : 0;
        const rec = { plan, args, ch }; recs.push(rec);
        return plan.kind === "spawn-error" ? plan.spawnErr : ffmpegProgram(sim, vfs, plan, rec);
      },
      sync: () => ({ status: 0, stdout: "ffmpeg version 7" }),
    });
    const browsers = [];
    const OPS = /newContext|newPage|setContent|evaluate|screenshot|setViewportSize/;
    const fault = (op, page) => {
      if (!OPS.test(op) || !spend(/newContext|newPage/.test(op) ? 0.12 : 0.03, `bf:${op}`)) return null;
      return c.pick(["before", "after", "crash", "crash"], "bfk");
    };
    const idleDeath = () => {
      const b = browsers[browsers.length - 1]; if (b == null || !b.connected) return;
      const ctx = b._contexts.find((x) => !x._closed); const page = ctx?._pages.find((x) => !x._closed);
      const k = c.below(3, "death");
      if (k === 0 || page == null) { sim.fired("browser-death"); b.crash("died"); } else if (k === 1) { sim.fired("page-death"); page._crash(); } else { sim.fired("context-death"); ctx._dead("context closed"); }
    };
    const review = c.chance(0.6, "review");
    const logs = []; let launches = 0, overlapping = 0;
    const g = makeGlobals(sim, proc, { modules: { fs, "fs/promises": promises, child_process: cp.module, http: http.module, "@playwright/test": { chromium: {} }, os: { tmpdir: () => "/tmp", homedir: () => "/home/user", platform: () => "linux" } } });
    const mod = load(g);
    const srvP = mod.server.startScrubberServer({
      port: 0, review, ticketDir: "/work/tickets", initialSvg: "<svg/>", log: (m) => logs.push(m),
      launchBrowser: async () => {
        launches++;
        await proc.later(c.delay(5, 800, "launch"), () => {}, "launch");
        if (spend(0.12, "launchf")) { sim.fired("browser-launch-failure"); throw pwError("browserType.launch: Failed to launch chromium because executable doesn't exist"); }
        const b = new SimBrowser(sim, proc, { fault, makeModel: (p) => new SvgPageModel(p, { lateAnims: true, framePad: c.pick([[0], [0, 3000], [70000, 100]], "pads") }) });
        browsers.push(b); return b;
      },
    });
    const st = await sim.settle(srvP, { maxTime: 60000 });
    if (st.status !== "ok") { sim.violate("server-does-not-start", st.status === "error" ? short(st.error) : "pending"); return { nontrivial: false }; }
    const srv = st.value;
    let serial = 0;
    let doc = null; // an SVG a user keeps working on
    const mkReq = (probe) => {
      let tag = `r${++serial}`;
      const kind = probe ?? c.weighted([[4, "frame"], [3, "timing"], [2.2, "video"], [3, "ticket"], [1, "trim"], [1, "bad"], [0.5, "page"], [0.4, "nowhere"]], "kind");
      let anims, smil, svg;
      if (doc && c.chance(0.4, "same-svg")) ({ anims, smil, svg, tag } = doc);
      else { anims = genAnims(c, { late: kind !== "timing" && c.chance(0.3, "late") }); smil = c.chance(0.2, "smil"); svg = simSvg({ anims, smil, tag }); if (!anims.some((a) => a.late)) doc = { anims, smil, svg, tag }; }
      const r = { tag, kind, anims, smil, svg, sentAt: sim.now };
      const W = c.pick([40, 640, 333.4, 8], "w"), H = c.pick([30, 480, 101, 7.6], "h");
      const crop = c.chance(0.35, "crop") ? { x: c.pick([0, 5, 12.5, 900], "cx"), y: c.pick([0, 3, 7.25], "cy"), w: c.pick([10, 33, 21.5, 4000], "cw"), h: c.pick([8, 15, 3000], "ch") } : undefined;
      r.W = W; r.H = H; r.crop = crop;
      const post = (path, o) => { r.req = { method: "POST", path, body: typeof o === "string" ? o : JSON.stringify(o) }; };
      if (kind === "frame") { r.t = c.pick([0, 12.5, 250, 333.3, 2000], "t"); post("/export-frame", { svg, timeMs: r.t, width: W, height: H, crop }); }
      else if (kind === "timing") post("/timing", { svg });
      else if (kind === "video") { const a = c.pick([0, 100, 250.5], "t0"); r.t0 = a; r.t1 = a + c.pick([0.5, 1, 33.4, 100, 160, 300], "len"); const swap = c.chance(0.15, "swap"); post("/export-range-video", { svg, startMs: swap ? r.t1 : r.t0, endMs: swap ? r.t0 : r.t1, width: W, height: H, crop }); }
      else if (kind === "trim") { r.a = 100; r.b = 300; post("/trim", { svg, startMs: r.a, endMs: r.b, periodMs: 600 }); }
      else if (kind === "ticket") { r.attach = c.chance(0.5, "attach"); r.t = c.pick([0, 40, 333], "t"); r.name = c.pick(["anim.svg", "anim.svg", "b c.svg", "../evil", "---"], "name"); r.note = `note ${serial}`; r.id = `q${serial}`; r.regions = c.chance(0.5, "regions") ? [{ x: 1, y: 2, w: 3, h: 4 }, { x: 0, y: 0, w: serial, h: 1 }] : []; post("/ticket", { title: `  title ${r.id} `, note: r.note, svgName: r.name, frameTimeMs: r.t, rangeStartMs: 0, rangeEndMs: serial, regions: r.regions, attachFrame: r.attach, svg: r.attach ? svg : undefined }); }
      else if (kind === "bad") { const [p, b] = c.pick([["/timing", "{"], ["/export-frame", { svg, timeMs: -1, width: W, height: H }], ["/export-frame", { svg: "", timeMs: 0, width: W, height: H }], ["/export-range-video", { svg, startMs: 0, endMs: 100, width: 10001, height: H }], ["/trim", { svg, startMs: 0, endMs: 1, periodMs: 0 }], ["/timing", "[]"]], "badkind"); post(p, b); }
      else if (kind === "page") r.req = { path: c.pick(["/", "/client.js", "/index.html?x=1"], "pg") };
      else r.req = { method: c.pick(["GET", "POST", "PUT"], "m"), path: "/nowhere" };
      if (probe == null && faulty && c.chance(0.08, "abort")) r.req.abortIn = c.pick(["body", "wait"], "abortin");
      r.req.keepAlive = c.chance(0.5, "ka");
      return r;
    };
    const all = []; let inflight = 0;
    const send = (r) => { all.push(r); inflight++; if (inflight > 1) overlapping++; r.sentAt = sim.now; r.launchesAt = launches; return http.request(srv.port, r.req).then((x) => { inflight--; r.res = x; sim.log(`response ${r.tag} ${r.kind} ${x.status ?? Object.keys(x)[0]}`); return x; }); };
    const clients = 1 + c.below(4, "clients"); let done = 0;
    for (let k = 0; k < clients; k++) {
      const left = 1 + c.below(5, "reqs");
      const next = (n) => { if (n === 0) { done++; return; } sim.schedule(c.chance(0.4, "burst") ? 0 : c.delay(0.5, 3000, "think"), () => { send(mkReq()).then(() => next(n - 1)); }, { kind: "proc", label: `client${k}` }); };
      next(left);
    }
    if (faulty) for (let k = 0; k < 2; k++) if (spend(0.25, "idle-death")) sim.schedule(c.delay(200, 8000, "when"), idleDeath, { kind: "proc", label: "death" });
    if (faulty && spend(0.25, "clockjump")) sim.schedule(c.delay(1, 5000, "when"), () => { sim.fired("clock-step"); sim.skew = (sim.skew ?? 0) + c.pick([-5000, -50, 60000, -3600000], "skew"); }, { kind: "proc", label: "clock" });
    let why = await sim.run(() => done === clients, { maxTime: 1200_000, maxSteps: 400000 });
    const crashed = () => { for (const u of proc.uncaught) sim.violate("server-crashed", `uncaught ${u.kind}: ${short(u.err)}`); return proc.uncaught.length > 0; };
    if (crashed()) return { nontrivial: true, key: "crash", requests: all.length };
    if (why !== "done") for (const r of all.filter((x) => !x.res)) sim.violate("request-never-answered", `${r.kind} request still unanswered after ${Math.round((sim.now - r.sentAt) / 1000)} s (${why})`);
    const judge = (r) => {
      const x = r.res; if (x == null || x.aborted) return;
      if (x.refused || x.reset) { sim.violate("request-dropped", `${r.kind}: ${JSON.stringify(x)}`); return; }
      sim.check(!x.badLength, "response-truncated", () => `${r.kind}: content-length ${x.headers["content-length"]} but ${x.body.length} bytes`);
      let j = null; if (/json/.test(x.headers["content-type"] ?? "")) { try { j = JSON.parse(x.body.toString()); } catch { sim.violate("response-malformed", `${r.kind}: not JSON`); return; } }
      const paint = (f, t, W, H, clip, label) => {
        if (f.broken) return `${label}: not a whole image`;
        if (f.tag !== r.tag) return `${label}: shows the document of ${f.tag}, requested ${r.tag}`;
        if (f.missing) return `${label}: ${f.missing} animation(s) not on the timeline yet`;
        if (f.anims.length !== r.anims.length) return `${label}: ${f.anims.length} of ${r.anims.length} animations`;
        for (const a of f.anims) if (!a.paused || Math.abs(a.t - t) > 1e-6) return `${label}: animation at ${a.t} ms${a.paused ? "" : " (running)"}, requested ${t} ms`;
        for (const s of f.smil ?? []) if (!s.paused || Math.abs(s.t * 1000 - t) > 1e-6) return `${label}: SMIL clock at ${s.t * 1000} ms, requested ${t} ms`;
        if (f.w !== W || f.h !== H) return `${label}: viewport ${f.w}x${f.h}, requested ${W}x${H}`;
        if (JSON.stringify(f.clip) !== JSON.stringify(clip)) return `${label}: clipped to ${JSON.stringify(f.clip)}, requested ${JSON.stringify(clip)}`;
        return null;
      };
      const vw = Math.max(1, Math.round(r.W)), vh = Math.max(1, Math.round(r.H));
      const bad = (b) => { if (b) sim.violate("wrong-answer", `${r.kind} ${b}`); };
      if (x.status >= 500) { r.failed = true; if (Object.keys(sim.faults).every((k) => ["event-loop-stall", "client-disconnect", "clock-step"].includes(k))) sim.violate("request-fails-without-fault", `${r.kind}: ${x.status} ${x.body.toString().slice(0, 160)}`); if (typeof j?.error !== "string") sim.violate("response-malformed", `${r.kind}: ${x.status} without an error message`); return; }
      const expect = r.kind === "bad" ? 400 : r.kind === "nowhere" || (r.kind === "ticket" && !review) ? 404 : r.kind === "video" && !(r.t1 - r.t0 >= 1) ? 400 : 200;
      if (x.status !== expect) { sim.violate("wrong-status", `${r.kind}: ${x.status}, expected ${expect}: ${x.body.toString().slice(0, 120)}`); return; }
      if (expect !== 200) return;
      if (r.kind === "frame") { const d = decodeShots(x.body); bad(d.length === 1 ? paint(d[0], r.t, vw, vh, r.crop ? clampC(r.crop, vw, vh) : null, "frame") : "not exactly one image"); }
      else if (r.kind === "timing") {
        const e = expectDuration(r.anims); const exp = r.anims.length === 0 || !(e > 0) || e > 600000 ? null : e;
        bad(j.durationMs !== exp && !(exp == null && j.durationMs == null) && e <= 600000 ? `duration ${j.durationMs}, expected ${exp}` : null); bad(j.width !== 40 || j.height !== 30 ? `size ${j.width}x${j.height}` : null);
      } else if (r.kind === "video") {
        const cands = recs.filter((q) => q.exit === 0 && !q.used && q.bytes && decodeShots(Buffer.concat(q.bytes))[0]?.tag === r.tag);
        const fit = (q) => { const f = decodeShots(Buffer.concat(q.bytes)); return (f.length === Math.max(1, Math.round(((r.t1 - r.t0) / 1000) * 30)) ? 1 : 0) + (f.every((x, i) => paint(x, r.t0 + (i * 1000) / 30, x.w, x.h, x.clip, "") == null) ? 1 : 0) + (Math.abs(f[0].w - vw) <= 1 && Math.abs(f[0].h - vh) <= 1 ? 1 : 0) + ((f[0].clip == null) === (r.crop == null) ? 1 : 0) + (`video:${q.bytes.length}` === x.body.toString() ? 1 : 0); };
        const rec = cands.sort((a, b) => fit(b) - fit(a))[0]; if (rec) rec.used = true;
        if (rec == null) { sim.violate("wrong-answer", "video answered 200 but no encoder finished successfully with its frames"); return; }
        const fr = decodeShots(Buffer.concat(rec.bytes)); const n = Math.max(1, Math.round(((r.t1 - r.t0) / 1000) * 30));
        bad(fr.length !== n ? `${fr.length} frames, expected ${n}` : null);
        let ow = vw, oh = vh, clip = null; { const f = rec.args.indexOf("-framerate"); bad(Number(rec.args[f + 1]) !== 30 ? `encoder told ${rec.args[f + 1]} fps` : null); }
        if (fr[0]) { ow = fr[0].w; oh = fr[0].h; bad(ow % 2 || oh % 2 || Math.abs(ow - vw) > 1 || Math.abs(oh - vh) > 1 ? (vw >= 2 && vh >= 2 ? `viewport ${ow}x${oh} for ${vw}x${vh}` : null) : null); }
        const cc = r.crop ? clampC(r.crop, ow, oh) : null;
        if (cc) { const cx = Math.min(Math.floor(cc.x), ow - 2), cy = Math.min(Math.floor(cc.y), oh - 2); clip = { x: cx, y: cy, width: even(Math.min(cc.width, ow - cx)), height: even(Math.min(cc.height, oh - cy)) }; }
        fr.forEach((f, i) => bad(paint(f, r.t0 + (i * 1000) / 30, ow, oh, clip, `video frame ${i}`)));
        bad(x.body.toString() !== `video:${rec.bytes.length}` ? `returned bytes are not the encoder's output: ${x.body.toString().slice(0, 40)}` : null);
        r.rec = rec;
      } else if (r.kind === "ticket") { r.ack = j; }
      else if (r.kind === "page") bad(x.body.length < 50 ? "empty page" : null);
      else if (r.kind === "trim") bad(!j.svg.includes(`data-tag="${r.tag}"`) ? "trimmed another document" : null);
    };
    all.forEach(judge);
    // faults stop: the next requests must soon succeed again
    sim.faultsEnabled = false;
    if (why === "done" && sim.violations.length === 0) {
      let fails = 0, okRun = 0;
      for (let k = 0; k < 6 && okRun < 3; k++) {
        const r = mkReq(c.pick(["frame", "timing", "video"], "probe")); r.probe = true;
        if (r.kind === "video") { r.t1 = r.t0 + 100; r.req.body = JSON.stringify({ ...JSON.parse(r.req.body), startMs: r.t0, endMs: r.t1 }); }
        let fin = false; send(r).then(() => { fin = true; });
        const w2 = await sim.run(() => fin, { maxTime: sim.now + 300_000, maxSteps: sim.steps + 100000 });
        if (crashed()) return { nontrivial: true };
        if (!fin) { sim.violate("no-recovery", `after the faults stopped, a ${r.kind} request got no answer within 300 s (${w2})`); break; }
        if (r.res.status >= 500) { fails++; okRun = 0; if (fails > 2) { sim.violate("no-recovery", `after the faults stopped, ${fails} requests in a row still failed, last: ${r.res.body?.toString().slice(0, 150)}`); break; } } else { okRun++; judge(r); }
      }
    }
    // acknowledged tickets are all there, whole, and distinct
    const acked = all.filter((r) => r.ack);
    const seen = new Map();
    for (const r of acked) {
      const p = r.ack.path;
      if (seen.has(p)) sim.violate("ticket-overwritten", `two acknowledged tickets share ${p}`); seen.set(p, r);
      if (!p.startsWith("/work/tickets/") || p.slice(14).includes("/")) { sim.violate("ticket-outside-directory", p); continue; }
      let t = null; try { t = JSON.parse(vfs.text(p)); } catch { /* below */ }
      if (t == null) { sim.violate("ticket-lost", `acknowledged ticket ${p} is ${vfs.has(p) ? "not whole" : "missing"}`); continue; }
      sim.check(t.title === `title ${r.id}` && t.note === r.note && t.frameTimeMs === r.t && JSON.stringify(t.regions) === JSON.stringify(r.regions), "ticket-wrong-content", () => `${p} holds "${t.title}", acknowledged for title ${r.id}`);
      sim.check(t.framePng === (r.ack.framePng ?? null), "ticket-wrong-content", () => `${p}: framePng ${t.framePng} vs acknowledged ${r.ack.framePng}`);
      if (r.ack.framePng) { const d = vfs.get(r.ack.framePng); const s = d ? decodeShots(d.data) : []; sim.check(s.length === 1 && !s[0].broken && s[0].tag === r.tag && s[0].anims.every((a) => a.paused && Math.abs(a.t - r.t) < 1e-6), "ticket-wrong-frame", () => `${r.ack.framePng} does not show ${r.tag} at ${r.t} ms: ${JSON.stringify(s[0] ?? null).slice(0, 120)}`); }
    }
    // shutdown, possibly with work outstanding
    const inFlightAtClose = c.chance(0.35, "close-busy");
    if (inFlightAtClose) { const n = 1 + c.below(3, "n"); for (let k = 0; k < n; k++) { const r = mkReq(c.pick(["frame", "video", "timing"], "lk")); if (c.chance(0.6, "la")) r.req.abortIn = "wait"; r.late = true; send(r); } sim.faultsEnabled = true; await sim.run(null, { maxTime: sim.now + c.delay(1, 3000, "close-when"), maxSteps: sim.steps + 20000 }); sim.faultsEnabled = false; }
    if (c.chance(0.3, "silent")) { const n = 1 + c.below(2, "n"); const ks = []; for (let k = 0; k < n; k++) ks.push(http.connect(srv.port)); await sim.settle(Promise.all(ks), { maxTime: sim.now + 1000 }); } // a browser opens connections ahead of use
    const tClose = sim.now;
    const cl = await sim.settle(srv.close(), { maxTime: sim.now + 600_000, maxSteps: sim.steps + 200000 });
    sim.check(cl.status === "ok", "close-never-finishes", () => `close() ${cl.status === "error" ? `rejected: ${short(cl.error)}` : `still pending after ${Math.round((sim.now - tClose) / 1000)} s`}`);
    await sim.run(() => false, { maxTime: sim.now + 60_000, maxSteps: sim.steps + 40000, ignoreUnref: true });
    if (crashed()) return { nontrivial: true };
    all.filter((r) => r.late && r.res && r.res.status).forEach(judge);
    const live = browsers.filter((b) => b.connected);
    sim.check(live.length === 0, "browser-left-open", () => `${live.length} of ${browsers.length} browser(s) still running 60 s after the server closed`);
    for (const r of recs) if (r.ch._alive) sim.violate("encoder-left-running", `an encoder (${r.plan.kind}) is still running after the server closed`);
    const tmp = vfs.list("/tmp").filter((p) => p.startsWith("/tmp/scrubber-mp4"));
    sim.check(tmp.length === 0, "temporary-files-left", () => tmp.join(" "));
    return { nontrivial: overlapping > 0 || Object.keys(sim.faults).length > 0, key: `${all.map((r) => r.kind + (r.res?.status ?? "-")).join()}/${launches}`, requests: all.map((r) => `${r.kind}:${r.res?.status ?? Object.keys(r.res ?? { none: 1 })[0]}`), launches, browsers: browsers.length };
  },
};
