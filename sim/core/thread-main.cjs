// A simulated process with a call stack of its own: the code under test runs in
// this thread, and every system call blocks here until the scheduler answers it.
"use strict";
const { workerData } = require("node:worker_threads");
const vm = require("node:vm");
const nodePath = require("node:path").posix, nodeUrl = require("node:url"), nodeUtil = require("node:util"), nodeModule = require("node:module");
const { readFileSync } = require("node:fs");
const ctl = new Int32Array(workerData.sab, 0, 4), data = new Uint8Array(workerData.sab, 16);
const dec = new TextDecoder(), encoder = new TextEncoder();
let dead = false, deadCalls = 0;
class ProcessGone extends Error { constructor() { super("simulated process is gone"); this.code = "SIM_PROCESS_GONE"; } }

const pack = (k, v) => (v && v.type === "Buffer" && Array.isArray(v.data) ? { $b: Buffer.from(v.data).toString("base64") } : v === undefined ? { $u: 1 } : v);
const unpack = (k, v) => (v && v.$b !== undefined ? Buffer.from(v.$b, "base64") : v && v.$u === 1 ? undefined : v);
const buf8 = (v) => (v instanceof Uint8Array && !Buffer.isBuffer(v) ? Buffer.from(v) : v);
function raw(msg) {
  const t = Buffer.from(JSON.stringify(msg, (k, v) => pack(k, v)));
  if (t.length > data.length) throw new Error("message too large");
  data.set(t); ctl[1] = t.length;
  Atomics.store(ctl, 0, 1); Atomics.notify(ctl, 0);
  while (Atomics.load(ctl, 0) === 1) Atomics.wait(ctl, 0, 1); // a late notify may wake us early
  return JSON.parse(dec.decode(data.slice(0, ctl[1])), unpack);
}
const mkErr = (e) => { const x = e.dom ? new DOMException(e.message, e.name) : e.name === "TypeError" ? new TypeError(e.message) : new Error(e.message); for (const k of ["code", "errno", "syscall", "path"]) if (e[k] !== undefined && !e.dom) x[k] = e[k]; if (e.cause) x.cause = mkErr(e.cause); return x; };
function rpc(msg) {
  if (dead) { if (++deadCalls > 5000) { raw({ t: "runaway" }); for (;;) Atomics.wait(ctl, 3, 0); } throw new ProcessGone(); }
  const r = raw(msg);
  if (r.die) { dead = true; throw new ProcessGone(); }
  if (r.err) throw mkErr(r.err);
  return r.val;
}
const sys = (name, ...args) => rpc({ t: "sys", name, args: args.map(buf8) });

let pending, nextId, inst, onExit;
const later = (name, ...args) => new Promise((res, rej) => { const id = nextId++; pending.set(id, { res, rej }); rpc({ t: "async", id, name, args: args.map(buf8) }); });

function globalsFor(o) {
  const timers = new Map();
  const mk = (fn, ms, args, repeat) => {
    const id = nextId++; const h = { id, ref() { return h; }, unref() { rpc({ t: "unref", id }); return h; }, hasRef: () => true, [Symbol.toPrimitive]: () => id, close() { clear(h); return h; } };
    let d = Number(ms); if (!(d >= 1)) d = 1; if (d > 2147483647) d = 1;
    const arm = () => rpc({ t: "async", id, name: "timer", args: [d] });
    pending.set(id, { res: () => { if (repeat) arm(); else { pending.delete(id); } fn(...args); }, keep: true }); arm(); return h;
  };
  const clear = (h) => { if (h == null) return; const id = typeof h === "object" ? h.id : Number(h); if (pending.delete(id)) rpc({ t: "cancel", id }); };
  const RealDate = Date;
  const now = () => sys("now");
  class SimDate extends RealDate { constructor(...a) { if (a.length) super(...a); else super(now()); } static now() { return now(); } }
  const MathS = {}; for (const k of Object.getOwnPropertyNames(Math)) MathS[k] = Math[k]; MathS.random = () => sys("random");
  const out = (fd) => ({ write: (s, e, cb) => { rpc({ t: "out", fd, text: typeof s === "string" ? s : Buffer.from(s).toString() }); const f = typeof e === "function" ? e : cb; if (f) queueMicrotask(f); return true; }, isTTY: false, on() { return this; }, once() { return this; }, fd });
  const listeners = {};
  const procS = {
    env: o.env, argv: o.argv, pid: o.pid, platform: o.platform, arch: o.arch, version: process.version, versions: process.versions, execPath: "/usr/bin/node", execArgv: [], exitCode: undefined,
    cwd: () => o.cwd, stdout: out(1), stderr: out(2), stdin: { isTTY: false, on() { return this; } },
    exit: (code) => { const c = code ?? procS.exitCode ?? 0; for (const f of listeners.exit ?? []) { try { f(c); } catch { /* node prints it */ } } rpc({ t: "exit", code: c }); throw new ProcessGone(); },
    on: (e, f) => { (listeners[e] ??= []).push(f); return procS; }, once: (e, f) => { (listeners[e] ??= []).push(f); return procS; }, off: (e, f) => { listeners[e] = (listeners[e] ?? []).filter((x) => x !== f); return procS; }, removeListener: (e, f) => procS.off(e, f), listeners: (e) => listeners[e] ?? [], listenerCount: (e) => (listeners[e] ?? []).length,
    nextTick: (f, ...a) => process.nextTick(f, ...a), hrtime: Object.assign(() => { const n = sys("mono"); return [Math.floor(n / 1000), Math.round((n % 1000) * 1e6)]; }, { bigint: () => BigInt(Math.round(sys("mono") * 1e6)) }),
    kill: (pid, sig) => sys("kill", pid, sig), emitWarning() {}, getuid: () => 1000, umask: () => 0o22, uptime: () => sys("mono") / 1000, memoryUsage: () => ({ rss: 1e8, heapUsed: 4e7 }),
  };
  onExit = listeners;
  const con = (fd) => (...a) => { rpc({ t: "out", fd, text: nodeUtil.format(...a) + "\n" }); };
  const fsP = {}; const fs = new Proxy({}, { get(_, k) {
    if (k === "promises") return fsP1; if (k === "constants") return require("node:fs").constants; if (k === "default") return fs; if (k === "__esModule") return undefined; if (typeof k !== "string") return undefined;
    if (k === "existsSync") return (p) => { try { return sys("fs.existsSync", String(p instanceof URL ? nodeUrl.fileURLToPath(p) : p)); } catch (e) { if (e.code === "SIM_PROCESS_GONE") throw e; return false; } };
    const fix = (a) => a.map((x) => (x instanceof URL ? nodeUrl.fileURLToPath(x) : x));
    if (k.endsWith("Sync")) return (...a) => { const r = sys("fs." + k, ...fix(a)); return statify(r); };
    return (...a) => { const cb = a.pop(); later("fs." + k + "Sync", ...fix(a)).then((v) => cb(null, statify(v)), (e) => cb(e)); };
  } });
  const statify = (r) => { if (r && r.$stat) return { ...r, isFile: () => r.kind === "file", isDirectory: () => r.kind === "dir", isSymbolicLink: () => false, mtime: new Date(r.mtimeMs) }; return r; };
  const fsP1 = new Proxy(fsP, { get(_, k) { if (k === "constants") return require("node:fs").constants; if (k === "default") return fsP1; if (typeof k !== "string" || k === "then" || k === "__esModule") return undefined; return (...a) => later("fs." + k + "Sync", ...a.map((x) => (x instanceof URL ? nodeUrl.fileURLToPath(x) : x))).then(statify); } });
  const fetchS = (input, init = {}) => {
    const url = typeof input === "string" ? input : input.url ?? String(input); const signal = init.signal;
    if (signal?.aborted) return Promise.reject(signal.reason);
    let bodyCtl = null, id2 = null, over = false; const id1 = nextId;
    const head = later("fetch", url, init.method ?? "GET");
    return new Promise((res, rej) => {
      signal?.addEventListener("abort", () => { if (over) return; over = true; try { rpc({ t: "cancel", id: id1 }); if (id2 != null) rpc({ t: "cancel", id: id2 }); } catch { /* gone */ } rej(signal.reason); bodyCtl?.error(signal.reason); }, { once: true });
      head.then((h) => {
        if (over) return;
        const stream = new ReadableStream({ start(c) { bodyCtl = c; }, pull(c) { id2 = nextId; return later("fetch.body", h.key).then((p) => { if (over) return; if (p == null) { over = true; c.close(); } else c.enqueue(new Uint8Array(p)); }, (e) => { over = true; c.error(e); }); }, cancel() { over = true; } }, { highWaterMark: 0 });
        const r = new Response(h.status === 204 || h.status === 304 ? null : stream, { status: h.status, headers: h.headers }); Object.defineProperty(r, "url", { value: url }); res(r);
      }, (e) => { over = true; rej(e); });
    });
  };
  const mods = {
    fs, "fs/promises": fsP1, os: { homedir: () => o.home, tmpdir: () => "/tmp", platform: () => o.platform, arch: () => o.arch, EOL: "\n", cpus: () => [{}] },
    child_process: { spawnSync: (file, args, opts) => { if (!Array.isArray(args)) { opts = args; args = []; } const r = sys("spawnSync", file, args, { ...opts, env: opts?.env }); if (r.error) r.error = mkErr(r.error); const enc = opts?.encoding && opts.encoding !== "buffer"; for (const k of ["stdout", "stderr"]) if (r[k] != null) r[k] = enc ? Buffer.from(r[k]).toString() : Buffer.from(r[k]); return r; } },
    module: { ...nodeModule, createRequire: () => (n) => { if (n in (o.json ?? {})) return o.json[n]; for (const k of Object.keys(o.json ?? {})) if (n.endsWith(k)) return o.json[k]; throw new Error("no module " + n); } },
    path: Object.assign({}, nodePath, { resolve: (...a) => nodePath.resolve(o.cwd, ...a) }), url: nodeUrl, util: nodeUtil,
  };
  mods.path.default = mods.path; mods.path.posix = mods.path;
  const requireS = (n) => { const k = n.replace(/^node:/, ""); if (mods[k] !== undefined) return mods[k]; if (["crypto", "buffer", "string_decoder", "events", "assert", "zlib", "stream", "timers/promises"].includes(k)) return require("node:" + k); throw new Error("module not simulated: " + n); };
  requireS.resolve = (n) => "/node_modules/" + n;
  const g = { require: requireS, process: procS, setTimeout: (f, ms, ...a) => mk(f, ms, a, false), clearTimeout: clear, setInterval: (f, ms, ...a) => mk(f, ms, a, true), clearInterval: clear, setImmediate: (f, ...a) => mk(f, 0, a, false), clearImmediate: clear, queueMicrotask, Date: SimDate, Math: MathS, performance: { now: () => sys("mono") }, fetch: fetchS, AbortController, AbortSignal: Object.assign(Object.create(AbortSignal), { timeout: (ms) => { const c = new AbortController(); mk(() => c.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms, [], false).unref(); return c.signal; } }), console: { log: con(1), info: con(1), debug: con(1), warn: con(2), error: con(2) }, Atomics: globalThis.Atomics, crypto: globalThis.crypto };
  const A = {}; for (const k of Object.getOwnPropertyNames(Atomics)) A[k] = typeof Atomics[k] === "function" ? Atomics[k].bind(Atomics) : Atomics[k];
  A.wait = (arr, i, v, ms) => { if (Atomics.load(arr, i) !== v) return "not-equal"; sys("sleep", Number.isFinite(ms) ? ms : 60000); return "timed-out"; }; g.Atomics = A;
  const gt = Object.create(globalThis); for (const k of Object.keys(g)) Object.defineProperty(gt, k, { value: g[k], writable: true, configurable: true }); g.globalThis = g.global = gt;
  return g;
}

const compiled = new Map();
function instantiate(m) {
  if (!compiled.has(m.file)) compiled.set(m.file, new vm.Script(`(function(${m.params.join(",")}){"use strict";${readFileSync(m.file, "utf8")}\n})`, { filename: m.file }).runInThisContext());
  const g = globalsFor(m.o); const mod = { exports: {} };
  compiled.get(m.file).apply(undefined, m.params.map((p) => (p === "module" ? mod : p === "exports" ? mod.exports : g[p])));
  return mod.exports;
}
const errOut = (e) => ({ name: e?.name ?? "Error", message: String(e?.message ?? e), code: e?.code });
process.on("unhandledRejection", (e) => { if (!dead && e?.code !== "SIM_PROCESS_GONE") { try { rpc({ t: "uncaught", kind: "rejection", err: errOut(e) }); } catch { /* gone */ } } });
process.on("uncaughtException", (e) => { if (!dead && e?.code !== "SIM_PROCESS_GONE") { try { rpc({ t: "uncaught", kind: "exception", err: errOut(e) }); } catch { /* gone */ } } });
const drain = () => new Promise((r) => setImmediate(() => setImmediate(r)));

(async () => {
  while (Atomics.load(ctl, 0) === 0) Atomics.wait(ctl, 0, 0); // the first message is already ours to read
  let ev = JSON.parse(dec.decode(data.slice(0, ctl[1])), unpack).val;
  for (;;) {
    const wrap = (f) => { try { f(); } catch (e) { if (e?.code !== "SIM_PROCESS_GONE") { if (dead) return; try { rpc({ t: "uncaught", kind: "exception", err: errOut(e) }); } catch { /* gone */ } } } };
    if (ev.ev === "boot") { dead = false; deadCalls = 0; pending = new Map(); nextId = 1; inst = null; wrap(() => { inst = instantiate(ev); }); }
    else if (ev.ev === "settle") { const p = pending?.get(ev.id); if (p) { if (!p.keep) pending.delete(ev.id); wrap(() => (ev.err ? p.rej(mkErr(ev.err)) : p.res(ev.val))); } }
    else if (ev.ev === "call") wrap(() => {
      const callId = ev.id; const done = (m) => rpc({ t: "done", id: callId, ...m });
      let r; try { r = inst[ev.mod][ev.fn](...ev.args); } catch (e) { if (e?.code === "SIM_PROCESS_GONE") throw e; done({ err: errOut(e) }); return; }
      if (r != null && typeof r.then === "function") r.then((val) => done({ val }), (e) => { if (e?.code !== "SIM_PROCESS_GONE") done({ err: errOut(e) }); }).catch(() => {}); else done({ val: r });
    });
    else if (ev.ev === "signal") wrap(() => { for (const f of onExit?.[ev.sig] ?? []) f(ev.sig); });
    await drain();
    if (dead) { inst = null; pending = new Map(); }
    const r = raw({ t: "idle" });
    if (r.die) { dead = true; inst = null; pending = new Map(); ev = { ev: "none" }; } else ev = r.val;
  }
})();
