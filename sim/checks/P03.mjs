// P03 — on-demand helper installation: whole or absent, for every process sharing the cache, at every instant.
import { createHash } from "node:crypto";
import { join } from "node:path";
import { short } from "../core/sim.mjs";
import { ThreadProc } from "../core/threads.mjs";
import { Vfs, fsModule, errno } from "../worlds/fs.mjs";
import { REPO } from "../core/bundle.mjs";
import { readFileSync } from "node:fs";

const APP = "/app/node_modules/domotion-svg/dist/render";
const VERSION = "9.9.9", ICUV = "78.2-domotion.1";
const REL = "https://github.com/brianwestphal/domotion/releases/download";
const bytesOf = (name, n) => { const out = Buffer.alloc(n); let h = createHash("sha256").update(name).digest(); for (let i = 0; i < n; i += 32) { h.copy(out, i); h = createHash("sha256").update(h).digest(); } return out; };
const sha = (b) => createHash("sha256").update(b).digest("hex");
const GA = { "linux/x64": "domotion-glyph-paths-linux-x64", "linux/arm64": "domotion-glyph-paths-linux-arm64", "darwin/arm64": "domotion-glyph-paths-darwin-universal", "darwin/x64": "domotion-glyph-paths-darwin-universal", "win32/x64": "domotion-glyph-paths-win32-x64.exe", "win32/arm64": "domotion-glyph-paths-win32-arm64.exe" };

export default {
  id: "P03",
  entries: { glyph: "src/render/helper-acquire.ts", icu: "src/render/icu-helper-acquire.ts" },
  // the published form: modules live in dist/ as JavaScript
  bundleOpts: { patch: [(p, s) => (/\/(icu-)?helper-acquire\.ts$/.test(p) ? s.replaceAll("import.meta.url", JSON.stringify(`file://${APP}/${p.split("/").pop().replace(/\.ts$/, ".js")}`)) : s)] },
  quick: { runs: 30000, cap: 110 }, thorough: { runs: 1000000, cap: 1500 },
  rule: "a run = 1-4 user processes (and their download workers) sharing one cache directory, each with its own call stack so that their file operations interleave one by one, asking for the glyph helper and/or the ICU companion 1-3 times synchronously or asynchronously, over a network that may fail, stall, truncate or corrupt any response and a disk that may fill, refuse or tear any operation, with kills at any operation, power loss, and reused process ids; non-trivial = at least one download worker or async download ran",
  assumptions: ["a rename is atomic", "processes alive at the same time have different ids", "after power loss a file's unsynced content may be lost or truncated while its directory entry survives"],
  real: ["src/render/helper-acquire.ts", "src/render/icu-helper-acquire.ts", "src/render/host-platform.ts"], stub: ["GitHub releases", "file system", "child process spawn", "clock"],
  simOpts: { stallProb: 0 }, choiceLimit: 60000,
  async run({ sim, choices, load }) {
    const c = choices; const vfs = new Vfs(sim, { opCost: 0 });
    const plat = c.weighted([[5, "linux"], [2, "darwin"], [3, "win32"]], "platform"); const arch = c.weighted([[5, "x64"], [2, "arm64"], [0.4, "riscv64"]], "arch");
    const home = plat === "darwin" ? "/Users/u" : "/home/user"; vfs.mkdirs(home);
    const xdg = plat === "linux" && c.chance(0.3, "xdg") ? "/data/xdg" : null;
    const env = {}; if (xdg) { env.XDG_DATA_HOME = xdg; vfs.mkdirs(xdg); } if (plat === "win32" && c.chance(0.5, "lad")) { env.LOCALAPPDATA = "/home/user/AppData/Local"; vfs.mkdirs(env.LOCALAPPDATA); }
    const base = plat === "darwin" ? `${home}/Library/Caches` : plat === "win32" ? env.LOCALAPPDATA ?? `${home}/AppData/Local` : xdg ?? `${home}/.local/share`;
    const gAsset = GA[`${plat}/${arch}`] ?? null; const gDir = `${base}/domotion/${VERSION}/bin`; const gExe = gAsset && `${gDir}/${gAsset}`;
    const known = arch !== "riscv64"; const stem = `domotion-icu-${plat}-${arch}`; const iDir = `${base}/domotion/icu/${ICUV}`;
    const iExe = known ? `${iDir}/${plat === "win32" ? "domotion-icu.exe" : "domotion-icu"}` : null;
    const served = new Map(); const content = new Map(); // url → bytes, path → bytes
    const asset = (rel, name, path, n) => { const b = bytesOf(name, n); served.set(`${REL}/${rel}/${name}`, b); const style = c.pick(["std", "bare", "upper"], "sha"); const h = style === "upper" ? sha(b).toUpperCase() : sha(b); served.set(`${REL}/${rel}/${name}.sha256`, Buffer.from(style === "bare" ? h : `${h}  ${name}\n`)); content.set(path, b); };
    if (gAsset) asset(`v${VERSION}`, gAsset, gExe, 700);
    const iFiles = [];
    if (known) { asset(`icu-v${ICUV}`, plat === "win32" ? `${stem}.exe` : stem, iExe, 500); asset(`icu-v${ICUV}`, `${stem}.icudtl.dat`, `${iDir}/icudtl.dat`, 900); iFiles.push(`${iDir}/icudtl.dat`); if (plat === "win32") for (const d of ["icuuc78.dll", "icudt78.dll"]) { asset(`icu-v${ICUV}`, `${stem}.${d}`, `${iDir}/${d}`, 300); iFiles.push(`${iDir}/${d}`); } }
    const whole = (p) => { const n = vfs.get(p); return n != null && n.type === "file" && n.data.equals(content.get(p)); };
    const inst = { glyph: () => gExe != null && vfs.has(gExe), icu: () => iExe != null && vfs.has(iExe) && iFiles.every((f) => vfs.has(f)) };
    let powerLost = false;
    const invariants = (who) => {
      if (gExe && vfs.has(gExe)) { if (!whole(gExe)) sim.violate("helper-not-whole", `the installed glyph helper has ${vfs.get(gExe).data.length} of ${content.get(gExe).length} bytes or other content (${who})`); else if (plat !== "win32" && (vfs.get(gExe).mode & 0o755) !== 0o755) sim.violate("helper-not-executable", `installed with mode ${vfs.get(gExe).mode.toString(8)} (${who})`); }
      if (iExe && vfs.has(iExe)) {
        if (!whole(iExe)) sim.violate("companion-not-whole", `the installed ICU companion has ${vfs.get(iExe).data.length} of ${content.get(iExe).length} bytes or other content (${who})`);
        else if (plat !== "win32" && (vfs.get(iExe).mode & 0o755) !== 0o755) sim.violate("companion-not-executable", `mode ${vfs.get(iExe).mode.toString(8)} (${who})`);
        for (const f of iFiles) if (!vfs.has(f)) sim.violate("companion-without-data", `the ICU companion is installed without ${f.split("/").pop()} (${who})`);
      }
      for (const f of iFiles) if (vfs.has(f) && !whole(f)) sim.violate("companion-data-not-whole", `${f.split("/").pop()} has ${vfs.get(f).data.length} of ${content.get(f).length} bytes (${who})`);
    };
    // what earlier history left behind
    const pre = (files) => { for (const f of files) { const n = vfs.put(f, content.get(f), 0o755); n.synced = n.data; n.mtime -= 1e7; } };
    if (gExe && c.chance(0.12, "pre-glyph")) pre([gExe]);
    if (iExe && c.chance(0.2, "pre-icu")) { const k = c.below(3, "pre-icu-n"); pre(k === 0 ? [...iFiles, iExe] : iFiles.slice(0, k)); }
    const PIDS = [4242, 4243, 4250, 4251, 4260, 4261, 4270, 4271, 4280, 4281];
    if (c.chance(0.2, "litter") && gExe) vfs.put(`${gExe}.tmp-${c.pick(PIDS, "lp")}`, bytesOf("old", 1500));
    const litter0 = new Set(vfs.files("/"));
    // faults
    const faulty = c.chance(0.85, "faulty"); let budget = faulty ? 1 + c.below(4, "budget") : 0;
    const spend = (k, p) => { if (budget > 0 && sim.fault(k, p)) { budget--; return true; } return false; };
    const procs = []; const nets = new Map(); let nextKey = 1; let kills = 0;
    vfs.fault = (op, p, proc) => {
      const code = { mkdir: "EACCES", "open-w": c.faultsOff ? null : "EACCES", write: "ENOSPC", rename: plat === "win32" ? "EPERM" : "EIO", chmod: "EPERM" }[op];
      if (code == null || budget <= 0 || !sim.faultsEnabled || !c.chance(0.05, `fs:${op}`)) return null;
      budget--; proc.hadFault = true; if (proc.parent) proc.parent.hadFault = true; return code;
    };
    const pids = () => { const live = new Set(procs.filter((p) => p.alive).map((p) => p.pid)); const free = PIDS.filter((x) => !live.has(x)); return c.pick(free, "pid"); };
    const file = load.file; const launch = (name, argv, parent) => {
      const p = new ThreadProc(sim, { name, pid: pids(), file, env: { ...env, ...(parent?.env ?? {}) }, argv, platform: plat, arch, home, json: { "package.json": { version: VERSION } }, cost: () => 0.05, syscall, asyncCall, spawnSync, onIdle, after: (q, n) => invariants(`${q.name} after ${n}`) });
      p.parent = parent ?? null; p.fs = fsModule(vfs, p, {}); p.attempts = { glyph: 0, icu: 0 }; procs.push(p); return p;
    };
    const onIdle = (p) => { if (p.isWorker && p.alive && !p.waiting) p.io(0.01, () => { if (!p.waiting) p.die("event loop empty", 0); }, `${p.name}:end`); };
    const maybeKill = (p) => { if (p.mayDie && sim.faultsEnabled && spend("kill-process", 0.015)) { kills++; p.crash("SIGKILL"); } };
    function* syscall(name, args, p) {
      const op = name.slice(3); if (!name.startsWith("fs.")) throw errno("ENOSYS", name);
      maybeKill(p); p.guard();
      if (op === "writeFileSync") {
        const o = args[2]; const flag = (typeof o === "object" && o?.flag) || "w"; const data = Buffer.from(args[1]);
        const fd = p.fs.openSync(args[0], flag, typeof o === "object" ? o?.mode : undefined); yield;
        let at = 0; const parts = 1 + c.below(3, "parts");
        try { for (let i = 0; i < parts; i++) { const to = i === parts - 1 ? data.length : Math.min(data.length, at + 1 + c.below(data.length - at, "cut")); maybeKill(p); p.guard(); p.fs.writeSync(fd, data.subarray(at, to)); at = to; yield; } }
        catch (e) { if (p.alive) p.fs.closeSync(fd); throw e; }
        if (typeof o === "object" && o?.flush) { p.fs.fsyncSync(fd); yield; }
        p.fs.closeSync(fd); return undefined;
      }
      const f = p.fs[op]; if (typeof f !== "function") { sim.harnessError ??= new Error(`fs operation not simulated: ${op}`); throw errno("ENOSYS", op); }
      const r = f(...args);
      return r != null && typeof r.isFile === "function" ? { $stat: 1, kind: r.isFile() ? "file" : "dir", size: r.size, mode: r.mode, mtimeMs: r.mtimeMs } : r;
    }
    const mark = (p) => { p.hadFault = true; if (p.parent) p.parent.hadFault = true; };
    function asyncCall(p, name, args, fin, a) {
      if (name === "fetch") {
        const url = args[0]; const body = served.get(url); (p.root ?? p).fetched = true; p.fetches = (p.fetches ?? 0) + 1;
        const ms = c.delay(1, 300, "rtt"); const at = (d, r, l) => p.io(d, () => fin(r), `${p.name}:net-${l}`);
        if (spend("net-refused", 0.05)) { mark(p); at(ms, { err: { name: "TypeError", message: "fetch failed", cause: { name: "Error", message: "ECONNREFUSED", code: "ECONNREFUSED" } } }, "refused"); return; }
        if (spend("net-stall", 0.05)) { mark(p); return; }
        if (body == null) { sim.count("unknown-url"); at(ms, { val: { key: 0, status: 404, headers: {} } }, "404"); return; }
        if (spend("http-error", 0.06)) { mark(p); const key = nextKey++; nets.set(key, { parts: [Buffer.from("<html>busy</html>")], i: 0 }); at(ms, { val: { key, status: c.pick([404, 500, 503, 403], "status"), headers: {} } }, "status"); return; }
        let b = body; const d = { i: 0 };
        if (spend("corrupt-body", 0.05)) { mark(p); b = Buffer.from(body); b[c.below(b.length, "flip")] ^= 1 + c.below(255, "bits"); if (url.endsWith(".sha256")) b = c.pick([Buffer.from("<!DOCTYPE html><html>not found</html>"), Buffer.alloc(0), b], "badsha"); if (b.equals(body) || sha(Buffer.from(b.toString().trim())) === sha(Buffer.from(body.toString().trim())) && url.endsWith(".sha256")) sim.count("corruption-without-effect"); }
        if (spend("short-body", 0.04)) { mark(p); b = b.subarray(0, c.below(b.length, "short")); }
        const cut = spend("cut-body", 0.04), stall = !cut && spend("stall-body", 0.04); if (cut || stall) mark(p);
        const n = 1 + c.below(3, "chunks"), sz = Math.ceil(b.length / n) || 1; d.parts = []; for (let k = 0; k < n; k++) { const x = b.subarray(k * sz, (k + 1) * sz); if (x.length) d.parts.push(x); }
        if (cut) { d.parts.pop(); d.cut = true; } if (stall) { d.parts.pop(); d.stall = true; }
        const key = nextKey++; nets.set(key, d); at(ms, { val: { key, status: 200, headers: { "content-type": "application/octet-stream" } } }, "head"); return;
      }
      if (name === "fetch.body") {
        const d = nets.get(args[0]) ?? { parts: [], i: 0 }; const ms = c.delay(0.5, 40, "chunk");
        p.io(ms, () => { if (d.i < d.parts.length) fin({ val: Buffer.from(d.parts[d.i++]) }); else if (d.cut) fin({ err: { name: "TypeError", message: "terminated" } }); else if (!d.stall) fin({ val: null }); }, `${p.name}:net-body`); return;
      }
      throw new Error(`async call not simulated: ${name}`);
    }
    function spawnSync(p, f, args, opts, cb) {
      let a = args.slice(); while (a[0] === "--import" || a[0] === "--loader") a.splice(0, 2); while (a[0]?.startsWith("--")) a.shift();
      const kind = a[0] === `${APP}/helper-acquire.js` ? "glyph" : a[0] === `${APP}/icu-helper-acquire.js` ? "icu" : null;
      if (f !== "/usr/bin/node" || kind == null) { sim.violate("unexpected-command", `${f} ${args.join(" ").slice(0, 100)}`); cb({ status: 127, stdout: "", stderr: "" }); return; }
      p.attempts[kind]++; sim.count("download-workers");
      if (spend("worker-spawn-failure", 0.03)) { p.hadFault = true; cb({ status: null, signal: null, error: { name: "Error", message: "spawnSync EAGAIN", code: "EAGAIN" }, stdout: null, stderr: null }); return; }
      const w = launch(`${p.name}.w`, ["/usr/bin/node", ...a], p); w.isWorker = true; w.mayDie = true; w.root = p;
      let over = false; const end = (r) => { if (over) return; over = true; p.presentAtEnd = { glyph: inst.glyph(), icu: inst.icu() }; if (p.alive) cb(r); };
      w.onDeath.push((reason, code) => { if (code == null) p.hadFault = true; sim.schedule(0.1, () => end({ status: code, signal: code == null ? "SIGKILL" : null, stdout: w.stdout.join(""), stderr: w.stderr.join("") }), { kind: "dev", label: "reap" }); });
      if (opts.timeout > 0) sim.schedule(opts.timeout, () => { if (over) return; if (w.alive) { p.hadFault = true; over = true; p.presentAtEnd = { glyph: inst.glyph(), icu: inst.icu() }; w.crash("SIGTERM (time limit)"); if (p.alive) cb({ status: null, signal: "SIGTERM", error: { name: "Error", message: "spawnSync ETIMEDOUT", code: "ETIMEDOUT" }, stdout: "", stderr: "" }); } }, { kind: "dev", label: "spawn-timeout" });
      else p.unlimited = true;
    }
    // users
    const FN = { glyph: ["acquireGlyphHelperSync", "acquireGlyphHelper"], icu: ["acquireIcuCompanionSync", "acquireIcuCompanion"] }; const LIMIT = { glyph: 30_000, icu: 60_000 }; const EXE = { glyph: gExe, icu: iExe };
    const log = [];
    const user = (name, script, mayDie) => {
      const p = launch(name, ["/usr/bin/node", "/work/app.js"], null); p.mayDie = mayDie; p.script = script; p.recs = []; p.failedKind = {}; p.conc = [];
      const next = () => {
        if (!p.alive) return; const s = p.script.shift(); if (s == null) { p.finished = true; return; }
        const go = (q) => { const [kind, sync] = q; const had = inst[kind](); const rec = p.call(kind, FN[kind][sync ? 0 : 1], []); Object.assign(rec, { kind, sync, had, f0: p.fetches ?? 0, a0: p.attempts[kind], fault0: !!p.hadFault }); p.recs.push(rec); return rec; };
        const recs = s.conc ? s.conc.map(go) : [go(s)];
        p.cur = recs;
      };
      p.tick = () => { if (p.cur && p.cur.every((r) => r.done)) { for (const r of p.cur) judge(p, r); p.cur = null; p.io(c.pick([0, 5, 400], "pause"), next, `${p.name}:next`); } };
      p.io(c.delay(0, 400, "start"), next, `${p.name}:begin`); return p;
    };
    const judge = (p, r) => {
      const ex = EXE[r.kind], n = `${FN[r.kind][r.sync ? 0 : 1]}`; log.push(`${r.kind}${r.sync ? "s" : "a"}${r.val ? 1 : 0}`);
      if (r.err) { sim.violate("acquire-throws", `${n} threw ${r.err.message}`); return; }
      if (ex == null) { if (r.val != null) sim.violate("asset-for-unsupported-platform", String(r.val)); return; }
      if (r.val != null && r.val !== ex) sim.violate("wrong-path-returned", `${n} returned ${r.val}`);
      if (r.val === ex && !inst[r.kind]()) sim.violate("returned-path-not-installed", `${n} returned ${ex}, which is not completely there`);
      if (r.had && r.val == null) sim.violate("installed-helper-ignored", `${n} returned nothing although the helper was installed before the call`);
      if (r.had && (p.attempts[r.kind] > r.a0)) sim.violate("needless-download", `${n} downloaded although the helper was installed`);
      if (r.val == null && !p.hadFault) sim.violate("installation-fails-without-fault", `${n} returned nothing although nothing failed`);
      if (r.sync) {
        if (r.val == null && r.a0 < p.attempts[r.kind] && p.presentAtEnd?.[r.kind]) sim.violate("installed-helper-ignored", `${n} returned nothing although the helper was installed when its download attempt ended`);
        if (r.at - r.t0 > LIMIT[r.kind] + 500) sim.violate("acquire-exceeds-time-limit", `${n} blocked for ${Math.round((r.at - r.t0) / 1000)} s`);
        if (r.val == null) p.failedKind[r.kind] = true;
        if (p.attempts[r.kind] > 1) sim.violate("several-attempts", `${p.attempts[r.kind]} download attempts for ${r.kind} in one process`);
      }
      const warns = p.stderr.filter((t) => /WARNING/.test(t) && (r.kind === "glyph" ? /glyph helper/ : /ICU companion/).test(t)).length;
      if (warns > 1) sim.violate("warned-repeatedly", `${warns} warnings about ${r.kind}`);
      if (r.sync && r.val == null && warns === 0) sim.violate("degraded-without-warning", `${n} returned nothing and nothing was said`);
    };
    const nUsers = 1 + c.below(4, "users"); const only = c.pick(["glyph", "icu", "both"], "kinds");
    const users = [];
    for (let i = 0; i < nUsers; i++) {
      const script = Array.from({ length: 1 + c.below(3, "calls") }, () => { const k = () => (only === "both" ? c.pick(["glyph", "icu"], "kind") : only); if (c.chance(0.15, "conc")) return { conc: Array.from({ length: 2 + c.below(2, "nconc") }, () => [k(), false]) }; return [k(), c.chance(0.7, "sync")]; });
      users.push(user(`u${i}`, script, c.chance(0.25, "mortal")));
    }
    const settled = () => users.every((u) => !u.alive || u.finished || (u.cur ?? []).some((r) => !r.done && !r.sync));
    let stuckAt = null; const tick = () => { for (const u of users) if (u.alive) u.tick(); return sim.violations.length > 0 || users.every((u) => !u.alive || u.finished); };
    const powerAt = faulty && c.chance(0.12, "power") ? c.delay(1, 900, "power-at") : null;
    if (powerAt != null) sim.schedule(powerAt, () => {
      if (!sim.faultsEnabled) return; sim.fired("power-loss"); powerLost = true; for (const p of procs) if (p.alive) p.crash("power loss");
      for (const f of vfs.files("/")) { const n = vfs.get(f); if (n.synced && n.synced.equals(n.data)) continue; if (sim.wall - n.mtime > 35_000) continue; const how = c.pick(["kept", "empty", "prefix", "zeros", "gone"], "lost"); if (how === "empty") n.data = Buffer.alloc(0); else if (how === "prefix") n.data = n.data.subarray(0, c.below(n.data.length, "len")); else if (how === "zeros") n.data = Buffer.alloc(n.data.length); else if (how === "gone") vfs.nodes.delete(f); }
      invariants("after power loss");
    }, { kind: "dev", label: "power-loss" });
    const t0 = sim.now;
    const why = await sim.run(tick, { maxTime: 250_000, maxSteps: 20000 });
    if (why !== "done" && sim.violations.length === 0) {
      // an async download on a network that never answers may wait; a sync one may not
      for (const u of users) for (const r of u.cur ?? []) if (!r.done && u.alive) { if (r.sync) sim.violate("acquire-never-returns", `${FN[r.kind][0]} had not returned after ${Math.round((sim.now - r.t0) / 1000)} s`); else if (!u.hadFault) sim.violate("installation-fails-without-fault", `${FN[r.kind][1]} never settled`); }
    }
    // faults stop: the next process finds or installs the helper
    if (sim.violations.length === 0) {
      sim.faultsEnabled = false; budget = 0;
      for (const u of users) if (u.alive) u.crash("end");
      const script = []; for (const k of only === "both" ? ["glyph", "icu"] : [only]) script.push([k, true]);
      if (c.chance(0.3, "async-rec")) for (const s of script) s[1] = false;
      const r = user("late", script, false); users.length = 0; users.push(r);
      const why2 = await sim.run(() => { r.tick(); return sim.violations.length > 0 || !r.alive || r.finished; }, { maxTime: sim.now + 100_000, maxSteps: sim.steps + 5000 });
      if (sim.violations.length === 0 && !r.finished) sim.violate("no-recovery", `with the faults gone a new process does not finish acquiring the helper (${why2}, ${r.deathReason ?? "alive"})`);
      if (r.finished) for (const rec of r.recs) if (rec.val == null && EXE[rec.kind] != null) sim.violate("no-recovery", `with the faults gone a new process gets no ${rec.kind} helper`);
      invariants("at the end");
      const orphan = procs.some((p) => p.isWorker && p.alive);
      if (kills === 0 && !powerLost && !orphan && !(sim.faults["spawn-timeout"] > 0) && !procs.some((p) => p.deathReason?.startsWith("SIGTERM"))) for (const f of vfs.files("/")) if (!content.has(f) && !litter0.has(f)) sim.violate("temporary-file-left", `${f.split("/").pop()} is left behind although no process was killed`);
    }
    for (const p of procs) { for (const u of p.uncaught) sim.violate("process-crashed", `${p.name}: ${short(u.err)}`); if (p.alive) p.crash("end"); }
    return { nontrivial: procs.some((p) => p.isWorker || p.fetches), key: `${plat}/${arch}/${log.join()}/${nUsers}`, plat, users: nUsers, log: log.slice(0, 10), procs: procs.length };
  },
};
