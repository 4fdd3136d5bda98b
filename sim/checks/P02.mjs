// P02 — the font-helper channel: every answer belongs to its own request.
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { childModule } from "../worlds/child.mjs";
import { makeFs, Vfs, errno } from "../worlds/fs.mjs";
import { A, ServeHelper, uni, h32 } from "../worlds/helper.mjs";

const BIN = "/opt/helper/domotion-glyph-paths";
const clone = (x) => JSON.parse(JSON.stringify(x ?? null));
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const sorted = (m) => [...m.entries()].sort((x, y) => x[0] - y[0]);

// What the outline text means, from its definition.
function commands(d, dy) {
  const out = []; const t = d.split(" "); let i = 0; const pt = (n) => Array.from({ length: 2 * n }, (_, k) => Number(t[i++]) + (k % 2 ? dy : 0));
  while (i < t.length && d) { const c = t[i++]; if (c === "M") out.push({ command: "moveTo", args: pt(1) }); else if (c === "L") out.push({ command: "lineTo", args: pt(1) }); else if (c === "Q") out.push({ command: "quadraticCurveTo", args: pt(2) }); else if (c === "C") out.push({ command: "bezierCurveTo", args: pt(3) }); else if (c === "Z") out.push({ command: "closePath", args: [] }); else break; }
  return out;
}

export default {
  id: "P02",
  entries: { gh: "src/render/glyph-helper.ts" },
  quick: { runs: 30000, cap: 100 }, thorough: { runs: 2000000, cap: 1500 },
  rule: "a run = one process asking 4-60 font questions (glyphs, outlines, shaping, per-character fallback, family and style matching, traits) on a simulated platform, in synchronous batches separated by event-loop turns, answered by a persistent helper stand-in that may crash before, in or after an answer, stall, answer late, split or delay bytes mid-character, refuse to serve or fail to start, with the one-shot program failing too; non-trivial = at least one helper fault or at least two helper processes",
  assumptions: ["the helper answers each query as a fixed function of that query", "a blocking named-pipe read returns once the helper answers or dies"],
  real: ["src/render/glyph-helper.ts", "src/render/host-platform.ts", "src/render/helper-acquire.ts (path override)"], stub: ["helper binaries", "pipes and file descriptors", "process spawn and exit events", "clock"],
  simOpts: { stallProb: 0.004 }, choiceLimit: 60000,
  async run({ sim, choices, load }) {
    const c = choices; const vfs = new Vfs(sim, { opCost: 0.02 });
    const platform = c.weighted([[5, "linux"], [3, "darwin"], [2, "win32"]], "platform");
    const noServe = c.chance(0.06, "noserve"), oldBinary = c.chance(0.1, "oldbin");
    const proc = new SimProcess(sim, { name: "domotion", env: { DOMOTION_HELPER_PATH: BIN, ...(noServe ? { DOMOTION_HELPER_NO_SERVE: "1" } : {}) }, tolerateUncaught: true });
    vfs.put(BIN, "ELF", 0o755);
    const faulty = c.chance(0.8, "faulty"); let budget = faulty ? 1 + c.below(6, "budget") : 0;
    const w = { sim, proc, vfs, nextPid: 7001, nextFd: 300, fault: (k, p) => faulty && sim.fault(k, p) };
    const spend = (k, p) => { if (budget > 0 && sim.fault(k, p)) { budget--; return true; } return false; };
    const helpers = []; let op = null; const noShape = platform === "win32" || c.chance(0.1, "noshape");
    let shortReply = false;
    w.garbled = (h, line) => { op.garbled = line; };
    w.plan = (req, h) => {
      op.serve++;
      const base = { ms: c.delay(0.05, 6, "think"), o: { noShape } };
      if (req.queries[0]?.type === "fallback" && spend("partial-batch", 0.06)) { op.partial = true; base.o.drop = (cp) => h32("drop" + cp) % 2 === 0; }
      if (spend("helper-crash-before-answer", 0.06)) return { ...base, kind: "crash-before" };
      if (spend("helper-crash-mid-answer", 0.06)) return { ...base, kind: "crash-mid", frac: c.below(100, "frac") / 100, pieces: 1 + c.below(3, "pieces") };
      if (spend("helper-crash-after-answer", 0.07)) return { ...base, kind: "crash-after", after: c.pick([0, 0.5, 20, 200], "after") };
      if (platform !== "win32" && spend("helper-stall", 0.04)) { op.stalled = true; return { ...base, kind: "stall", ms: c.pick([29000, 30500, 60000, 1e9], "stallms") }; }
      if (w.fault("answer-in-pieces", 0.1)) { base.pieces = 2 + c.below(5, "np"); base.gap = c.delay(0.02, 40, "gap"); }
      return { ...base, kind: "ok" };
    };
    const ch = childModule(sim, proc, {
      programs: () => "ENOENT",
      sync: (file, args, opts) => {
        op.oneshot++; sim.count("one-shot-runs");
        if (file !== BIN || args.length) { sim.violate("unexpected-command", `${file} ${args.join(" ")}`); return null; }
        let req; try { req = JSON.parse(String(opts.input)); } catch { sim.violate("malformed-request", String(opts.input).slice(0, 80)); return { status: 1 }; }
        const fail = (r) => { op.failed = true; for (const q of req.queries) failedKeys.add(JSON.stringify(q)); return r; };
        const p = 0.12;
        if (spend("one-shot-spawn-failure", p)) return fail({ error: errno("EAGAIN", "spawnSync") });
        if (spend("one-shot-exit-1", p)) return fail({ status: 1, stderr: "boom" });
        if (spend("one-shot-killed", p)) return fail({ status: null, signal: "SIGKILL", stdout: JSON.stringify(A.answer(req)).slice(0, 10) });
        if (spend("one-shot-truncated", 0.05)) return fail({ status: 0, stdout: JSON.stringify(A.answer(req)).slice(0, -3) });
        if (spend("one-shot-hang", 0.08)) { const t = opts.timeout; if (!(t > 0)) { sim.violate("call-never-returns", `one-shot helper started without a time limit hangs, and so does the ${op.name} call`); return fail({ status: 1 }); } return fail({ status: null, signal: "SIGTERM", error: errno("ETIMEDOUT", "spawnSync"), ms: t }); }

        return { status: 0, stdout: JSON.stringify(A.answer(req, { noShape })), ms: c.delay(8, 60, "oneshot") };
      },
    });
    const failedKeys = new Set();
    let sysFailed = false, everServed = false, noChannel = false;
    const canServe = !oldBinary;
    const start = (args) => {
      const pipe = args[0] === "--serve-pipe" ? args[1] : null;
      const live = helpers.filter((h) => h.alive && !h.killSent);
      if (live.length > 0) sim.violate("second-helper-started", `${live.length} persistent helper(s) still running unattended when another is started`);
      if (spend("spawn-failure", 0.05)) { noChannel = true;
        const e = Object.assign(new Error("spawn EAGAIN"), { code: "EAGAIN" });
        if (c.chance(0.5, "throws")) throw e;
        const h = new ServeHelper(w, pipe); h.pid = undefined; h.alive = false; h.out = []; if (c.chance(0.5, "emfile")) h.stdin = h.stdout = undefined; helpers.push(h); noChannel = true; proc.io(0.1, () => h.emit("error", e), "spawn-error"); return h;
      }
      const h = new ServeHelper(w, pipe); helpers.push(h); sim.log(`spawn ${h.name} ${args[0]}`);
      if (noServe) sim.violate("persistent-helper-although-disabled", args[0]);
      if (!canServe) { sim.fired("old-binary"); h.dev(c.delay(0.2, 30, "die"), () => h.end(2, null), "usage"); h.busy = true; return h; }
      if (pipe != null) { const ms = c.delay(0.5, 80, "pipe-ready"); if (spend("helper-dies-before-pipe", 0.05)) { noChannel = true; h.dev(ms, () => h.end(1, null), "die"); } else h.dev(ms, () => { h.ready = true; }, "pipe"); }
      if (spend("helper-dies-at-once", 0.04)) { noChannel ||= pipe != null; h.dev(c.delay(0.1, 5, "die"), () => h.end(null, "SIGKILL"), "die"); }
      return h;
    };
    const cpm = { ...ch.module, spawn: (file, args, o) => { proc.guard(); sim.advanceSync(1); if (file !== BIN) sim.violate("unexpected-command", file); return start(args, o); } };
    const fsx = makeFs(sim, proc, { vfs, devices: (p) => {
      if (!p.includes("\\pipe\\")) return null;
      const h = helpers.find((x) => x.pipeName != null && p.endsWith(x.pipeName) && x.alive && x.ready);
      if (h == null) { sim.advanceSync(0.1); throw errno("ENOENT", "open", p); }
      return { writeSync: (b) => h.write(b), readSync: (b, o, l) => h.read(b, o, l) };
    } });
    const g = makeGlobals(sim, proc, { platform, modules: { fs: fsx.fs, "child_process": cpm, os: { homedir: () => "/home/user", tmpdir: () => "/tmp", platform: () => platform, arch: () => "x64" } }, kill: (pid, sig) => { sim.advanceSync(0.02); const h = helpers.find((x) => x.pid === pid); if (h == null || !h.alive) throw errno("ESRCH", "kill"); if (sig !== 0) h.kill(sig); return true; } });
    const { gh } = load(g);

    // ── workload ──
    const FAM = ["Helvetica", "ヒラギノ明朝", "Größe Sans", "Noto Sans CJK"]; const TEXT = ["Hello", "añ", "日本語テスト", "a𝒮b", "ครับ", "fi fl"];
    const cpsOf = (s) => [...s].map((x) => x.codePointAt(0));
    const fontSpecs = [0, 1, 2].map((i) => ({ postscriptName: `PS-é${i * 7 + 1}`, ...(i === 1 ? { fontPath: "/fonts/ü.ttf" } : {}), ...(i === 2 ? { variations: { wght: 650 } } : {}) }));
    const fonts = new Map(); let scope = null; let scopeDepth = 0; const scopes = new Map(); const fcMemo = new Map();
    const asked = [];
    const mk = () => {
      const kinds = [[3, "glyph"], [1.5, "gid"], [2.5, "layout"], [1, "warm"], [3, "fallback"], [2.5, "family"], [1, "trait"], [0.5, "clear"], [0.3, "clearcp"]];
      if (platform === "linux") kinds.push([3, "fc"], [1, "fcdiag"], [1.5, "linuxmatch"], [0.7, "scope"]);
      if (platform === "darwin") kinds.push([2, "stylematch"]);
      if (platform === "win32") kinds.push([0.7, "sysui"]);
      return c.weighted(kinds, "op");
    };
    const wantGlyph = (spec, ps, q) => {
      const upem = A.upem(spec), f = { ...spec, size: upem }, gl = A.glyph(f, q);
      const probed = spec.variations == null && !spec.postscriptName.startsWith("."); const dy = probed && !fonts.get(spec).noProbe ? Math.round(A.offset(ps) * upem / 1000) : 0;
      const far = Math.abs(dy) >= upem * 0.01 ? dy : 0;
      return { id: gl.id, advanceWidth: gl.advance, commands: commands(gl.d, far), bbox: { minX: gl.bbox.x, minY: gl.bbox.y + far, maxX: gl.bbox.x + gl.bbox.w, maxY: gl.bbox.y + gl.bbox.h + far } };
    };
    const near = (a, b) => Math.abs(a - b) <= 1.01;
    const glyphOk = (got, want) => got.id === want.id && got.advanceWidth === want.advanceWidth && got.path.commands.length === want.commands.length && got.path.commands.every((x, i) => x.command === want.commands[i].command && x.args.every((v, k) => near(v, want.commands[i].args[k]))) && (got.bbox == null || ["minX", "minY", "maxX", "maxY"].every((k) => near(got.bbox[k], want.bbox[k])));
    const blankOk = (got, id) => got.id === id && got.advanceWidth === 0 && got.path.commands.length === 0;
    const bad = (msg) => sim.violate("wrong-answer", `${op.name}: ${msg}`);
    const doOp = () => {
      const kind = mk(); op = { name: kind, serve: 0, oneshot: 0, failed: false, partial: false, stalled: false, t0: sim.now };
      const servedBefore = helpers.reduce((n, h) => n + h.served, 0), deadBefore = helpers.filter((h) => !h.alive).length, nHelpers = helpers.length; const f0 = { ...sim.faults };
      const cps = () => Array.from({ length: 1 + c.below(4, "ncps") }, () => c.pick([0x41, 0x3042, 0x1f600, 0x0e01, 0x4e00, 0x20bf, 0xe9, 0x10ffff], "cp"));
      try {
        if (["glyph", "gid", "layout", "warm"].includes(kind)) {
          const i = c.below(3, "spec"), spec = fontSpecs[i]; let ent = fonts.get(spec);
          if (ent == null || c.chance(0.1, "reopen")) {
            const inst = gh.createGlyphHelperFont({ ...spec });
            if (inst == null) { if (!op.failed) bad("no font instance although the helper answered"); return; }
            ent = { inst }; fonts.set(spec, ent);
            const m = A.meta(spec);
            if (inst.unitsPerEm !== m.unitsPerEm || inst.ascent !== m.ascent || inst.descent !== m.descent || inst.underlinePosition !== m.underlinePosition || inst["OS/2"].yStrikeoutPosition !== m.strikeoutPosition) bad(`metrics of ${spec.postscriptName}: upem ${inst.unitsPerEm}, the helper says ${m.unitsPerEm}`);
          }
          const { inst } = ent, ps = spec.postscriptName;
          const cpGlyph = (cp) => wantGlyph(spec, ps, { cp });
          if (kind === "glyph") { const cp = cps()[0]; const got = inst.glyphForCodePoint(cp); if (!glyphOk(got, cpGlyph(cp))) bad(`glyph for U+${cp.toString(16)} of ${ps} is #${got.id} (advance ${got.advanceWidth}), the helper says #${cpGlyph(cp).id} (advance ${cpGlyph(cp).advanceWidth})`); }
          else if (kind === "gid") { const id = c.pick([1, 7, 33, 900], "gid"); const got = inst.getGlyph(id); const want = wantGlyph(spec, ps, { id }); if (!glyphOk(got, want)) bad(`glyph #${id} of ${ps} came back as #${got.id} advance ${got.advanceWidth}, the helper says advance ${want.advanceWidth}`); }
          else if (kind === "warm") { const t = [c.pick(TEXT, "t"), c.pick(TEXT, "t")]; inst.warmGlyphs(cpsOf(t.join(""))); inst.warmShapes(t); }
          else {
            const t = c.pick(TEXT, "t"); const got = inst.layout(t); const cp = cpsOf(t);
            const full = cp.every((x) => A.covers(ps, x)); const sh = full && !noShape ? A.shape({ ...spec, size: A.upem(spec) }, t) : null;
            const naive = got.clusters == null;
            if (naive) {
              if (sh != null && sh.length > 0 && !failedKeys.has(JSON.stringify({ type: "shape", fontRef: "f", text: t }))) bad(`"${t}" laid out without shaping although the helper can shape it`);
              if (got.glyphs.length !== cp.length) bad(`"${t}" laid out as ${got.glyphs.length} glyphs for ${cp.length} characters`);
              else got.glyphs.forEach((gl, k) => { const want = cpGlyph(cp[k]); if (!glyphOk(gl, want) || got.positions[k].xAdvance !== want.advanceWidth) bad(`"${t}" glyph ${k}: #${gl.id}, the helper says #${want.id}`); });
            } else {
              const base = (sh ?? []).some((x) => x.ax > 0);
              if (sh == null || sh.length !== got.glyphs.length) bad(`"${t}" shaped into ${got.glyphs.length} glyphs, the helper says ${sh?.length}`);
              else sh.forEach((x, k) => { const p = got.positions[k]; const want = wantGlyph(spec, ps, { id: x.id }); if (got.glyphs[k].id !== x.id || got.clusters[k] !== x.cluster || p.xAdvance !== x.ax || p.yAdvance !== x.ay || p.yOffset !== x.dy || p.xOffset !== (base || x.ax !== 0 ? x.dx : 0) || !got.glyphs[k].path.commands.every((q, z) => q.args.every((v, y) => near(v, want.commands[z]?.args[y])))) bad(`"${t}" shaped glyph ${k} is not the helper's`); });
            }
          }
        } else if (kind === "fallback") {
          const list = cps(), base = c.pick(["Helvetica", "SFPro", ".SFNS"], "base"); const req = c.chance(0.6, "style") ? { weight: c.pick([400, 700], "wt"), italic: c.chance(0.4, "it"), fontSize: c.pick([16, 32], "fs"), ...(platform === "win32" ? { baseFamilyName: c.pick(["", "Ségoe"], "bfn"), locale: c.pick(["ja", "zh-Hans"], "loc") } : {}) } : undefined;
          const got = gh.resolveSystemFallbackFonts(list, base, req);
          const fnt = platform === "win32" ? undefined : { postscriptName: base, size: req?.fontSize ?? 16 };
          const q = req ? { cssWeight: req.weight, italic: req.italic, ...(req.baseFamilyName ? { baseFamilyName: req.baseFamilyName } : {}), ...(req.locale ? { locale: req.locale } : {}) } : {};
          for (const cp of list) {
            const e = A.fallback(fnt, q, cp); const want = e.found ? { postscriptName: e.postscriptName, familyName: e.familyName, path: e.path, covered: e.covered } : null;
            if (!got.has(cp)) { if (!op.partial && !op.failed) bad(`no entry for U+${cp.toString(16)}`); continue; }
            const v = clone(got.get(cp));
            if (!same(v, want) && !(v == null && op.failed)) bad(`U+${cp.toString(16)} from ${base}: ${JSON.stringify(v)}, the helper says ${JSON.stringify(want)}`);
          }
          for (const k of got.keys()) if (!list.includes(k)) bad(`unasked U+${k.toString(16)}`);
          gh.takeFallbackResponseAnomalies();
        } else if (kind === "fc") {
          const list = cps(), lang = c.pick(["en", "ja", "zh"], "lang"); const got = gh.resolveFcFallbackFonts(list, lang);
          const memo = scope != null ? scopes.get(scope) : null;
          const view = (e) => (e.found ? { path: e.path, index: e.index, isBold: e.isBold, isItalic: e.isItalic, family: e.family } : null);
          const fin = new Map();
          for (const cp of list) {
            if (!got.has(cp)) { if (!op.failed) bad(`no entry for U+${cp.toString(16)}`); continue; }
            const want = memo?.has(cp) ? memo.get(cp) : view(A.fc(lang, cp)); fin.set(cp, want);
            if (!same(clone(got.get(cp)), want)) bad(`U+${cp.toString(16)} (${lang}): ${JSON.stringify(got.get(cp))}, the helper says ${JSON.stringify(want)}`);
          }
          if (memo) for (const [k, v] of fin) if (!memo.has(k)) memo.set(k, v);
        } else if (kind === "fcdiag") { const list = cps(); const got = gh.resolveFcFallbackDiagnostic(list, "en"); const d = A.fcdiag("en", list); if (got == null ? !op.failed : !same(clone(got), { before: d.before, after: d.after, fingerprint: d.fingerprint, candidates: d.candidates })) bad(`diagnostic ${JSON.stringify(got)?.slice(0, 80)}`); }
        else if (kind === "family") {
          const name = c.pick(FAM, "fam"); const style = c.chance(0.5, "style") ? { weight: c.pick([400, 700], "wt"), italic: c.chance(0.3, "it"), slant: 0, stretch: 100 } : undefined;
          const q = { type: "family", name, ...(style ? { cssWeight: style.weight, italic: style.italic, cssSlant: 0, cssStretch: 100 } : {}) };
          const got = gh.resolveInstalledFont(name, style); const e = A.family(q); const want = e.found ? { postscriptName: e.postscriptName, familyName: e.familyName, path: e.path, ...(e.axes ? { resolvedAxes: e.axes } : {}) } : null;
          if (!same(clone(got), want) && !(got == null && failedKeys.has(JSON.stringify(q)))) bad(`family ${name}: ${JSON.stringify(got)}, the helper says ${JSON.stringify(want)}`);
        } else if (kind === "linuxmatch" || kind === "stylematch") {
          const family = c.pick(FAM, "fam"), weight = c.pick([400, 700], "wt"), italic = c.chance(0.3, "it"), stretch = c.pick([100, 75], "st"); const q = { type: "familyMatch", family, cssWeight: weight, italic, cssWidth: stretch };
          const e = A.familyMatch(q); const fails = failedKeys;
          if (kind === "linuxmatch") { const got = gh.resolveLinuxFamilyMatch(family, { weight, italic, stretch }); const want = e.found ? { path: e.path, index: e.index, postscriptName: e.postscriptName, family: e.family, weight: e.weight, italic: e.italic } : null; if (!same(clone(got), want) && !(got == null && fails.has(JSON.stringify(q)))) bad(`${family}: ${JSON.stringify(got)}, the helper says ${JSON.stringify(want)}`); }
          else { const got = gh.resolveFamilyStyleMatch(family, { weight, italic, stretch }); const want = e.found ? { postscriptName: e.postscriptName, weight: e.weight, italic: (e.candidates[1].traits & 1) !== 0 } : null; if (!same(clone(got), want) && !(got == null && fails.has(JSON.stringify(q)))) bad(`${family}: ${JSON.stringify(got)}, the helper says ${JSON.stringify(want)}`); }
        } else if (kind === "trait") {
          const ps = c.pick(["Arial-Böld", "PingFang-SC", "X"], "ps"); const it = c.chance(0.5, "which"); const got = it ? gh.resolveFaceTraitItalic(ps) : gh.resolveFaceTraitBold(ps); const want = h32((it ? "i" : "b") + ps) % 2 === 0;
          if (got == null) { if (!failedKeys.has(JSON.stringify({ type: "meta", fontRef: "f" }))) bad(`trait of ${ps}: null, the helper says ${want}`); } else if (got !== want) bad(`trait of ${ps}: ${got}, the helper says ${want}`);
        } else if (kind === "sysui") { const got = gh.resolveSystemUiFamily(); sysFailed ||= op.failed; if (got !== "Segoe 界 UI" && !(got == null && sysFailed)) bad(`system-ui family ${got}`); }
        else if (kind === "scope") { if (scope == null) { scope = "default"; scopes.clear(); scopes.set("default", new Map()); gh.beginFcFallbackRendererScope(); } else if (c.chance(0.5, "sel")) { scope = c.pick(["default", "b"], "sk"); if (!scopes.has(scope)) scopes.set(scope, new Map()); gh.selectFcFallbackRendererScope(scope); } else { gh.endFcFallbackRendererScope(); scope = null; scopes.clear(); } }
        else if (kind === "clearcp") gh.clearGlyphHelperCodepointMemos();
        else { gh.clearGlyphHelperCache(); for (const k of [...failedKeys]) if (!k.includes('"shape"')) failedKeys.delete(k); sim.count("cache-clear"); }
      } catch (e) {
        if (e?.code === "SIM_PROCESS_GONE") throw e;
        if (!["glyph", "gid", "layout", "warm"].includes(kind) || !op.failed) sim.violate("resolver-throws", `${kind}: ${short(e)}`);
      }
      if (op.garbled != null) sim.violate("garbled-request", `the helper received ${op.garbled.slice(0, 60)}`);
      if (helpers.reduce((n, h) => n + h.served, 0) > servedBefore) everServed = true;
      const dt = sim.now - op.t0, calls = op.serve + op.oneshot, newFaults = Object.keys(sim.faults).filter((k) => (sim.faults[k] ?? 0) > (f0[k] ?? 0));
      const benign = newFaults.every((k) => ["short-write", "short-read", "eagain-write", "answer-in-pieces", "partial-batch"].includes(k));
      if (dt > 5000 && benign && !op.failed) sim.violate("call-stalls", `${kind} took ${Math.round(dt / 1000)} s although the helper answered promptly (${newFaults.join()})`);
      if (dt > (calls + 1) * 200_000) sim.violate("call-exceeds-time-limit", `${kind} took ${Math.round(dt / 1000)} s for ${calls} helper calls`);
      asked.push(`${kind}:${op.serve}/${op.oneshot}${op.failed ? "!" : ""}`);
      op.died = helpers.filter((h) => !h.alive).length > deadBefore; op.spawned = helpers.length - nHelpers; op.benign = benign;
      return op;
    };
    const batches = 1 + c.below(6, "batches");
    let fin = false;
    const runBatch = (k) => {
      if (k === 0) { fin = true; return; }
      const n = 1 + c.below(10, "n"); for (let i = 0; i < n && sim.violations.length === 0; i++) doOp();
      proc.io(c.pick([0, 1, 30, 500], "turn"), () => runBatch(k - 1), "next-batch");
    };
    proc.io(0, () => runBatch(batches), "start");
    const why = await sim.run(() => fin || sim.violations.length > 0, { maxTime: 7200_000, maxSteps: 60000 });
    if (why !== "done") { sim.violate("never-finishes", why); }
    // faults stop: a channel that has worked is used again
    if (sim.violations.length === 0) {
      budget = 0; sim.faultsEnabled = false;
      let shots = 0, serves = 0; fin = false;
      const probe = (k) => { if (k === 0) { fin = true; return; } for (let i = 0; i < 2; i++) { doOp(); if (i + (5 - k) * 2 >= 3) { shots += op.oneshot; serves += op.serve; } } proc.io(30, () => probe(k - 1), "probe"); };
      proc.io(400, () => probe(5), "probe"); await sim.run(() => fin || sim.violations.length > 0, { maxTime: sim.now + 3600_000, maxSteps: sim.steps + 20000 });
      if (everServed && !noChannel && sim.notes["cache-clear"] == null && shots > 0 && !helpers.some((h) => h.alive)) sim.violate("channel-not-restored", `after the faults stopped ${shots} queries ran as separate processes and none over the persistent helper`);
      if (shots > 0 && everServed && !noChannel && serves > 0 && sim.notes["cache-clear"] == null) sim.violate("channel-not-restored", `after the faults stopped ${shots} queries still ran as separate processes`);
    }
    // process end: no helper survives it
    for (const u of proc.uncaught) sim.violate("process-crashed", short(u.err));
    if (sim.violations.length === 0) {
      proc.io(c.pick([0, 100], "endturn"), () => { for (const f of g.process._listeners.exit ?? []) f(0); proc.die("exit", 0); }, "exit"); await sim.run(() => !proc.alive, { maxTime: sim.now + 1000 });
      for (const h of helpers) if (h.alive && !h.killSent) sim.violate("helper-left-running", `${h.name} was not ended with the process`);
    }
    return { nontrivial: Object.keys(sim.faults).length > 0 || helpers.length > 1, key: `${platform}/${asked.join()}`, platform, helpers: helpers.length, asked: asked.length };
  },
};
