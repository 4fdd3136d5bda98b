// Simulated globals of one process: timers, clocks, randomness.
import { repoRequire, shared } from "./bundle.mjs";
import { createRequire, isBuiltin } from "node:module";
import * as nodePath from "node:path";
import * as nodeUrl from "node:url";
import * as nodeUtil from "node:util";

const RealDate = Date, RealMath = Math;

class SimTimer {
  constructor(t, id) { this._t = t; this.id = id; this._ref = true; }
  ref() { this._ref = true; if (this._ev) this._ev.ref = true; return this; }
  unref() { this._ref = false; if (this._ev) this._ev.ref = false; return this; }
  hasRef() { return this._ref; }
  refresh() { this._t.refresh(this); return this; }
  close() { this._t.clear(this); return this; }
  [Symbol.toPrimitive]() { return this.id; }
}

export function makeTimers(sim, proc) {
  const live = new Map(); let nextId = 1;
  const api = {};
  const arm = (h) => {
    h._ev = sim.schedule(h.ms, () => {
      if (!h.repeat) live.delete(h.id); else arm(h);
      h.fn(...h.args);
    }, { kind: "proc", proc, cls: "timer", label: `${proc.name}:timer(${Math.round(h.ms)})`, ref: h._ref });
  };
  const mk = (fn, ms, args, repeat) => {
    if (!proc.alive) return new SimTimer(api, 0);
    let d = Number(ms); if (!(d >= 1)) d = 1; if (d > 2147483647) d = 1;
    const h = new SimTimer(api, nextId++); h.fn = fn; h.ms = d; h.args = args; h.repeat = repeat;
    live.set(h.id, h); arm(h); return h;
  };
  api.clear = (h) => {
    if (h == null) return;
    const t = typeof h === "object" ? h : live.get(Number(h));
    if (t == null || t._ev == null) return;
    sim.cancel(t._ev); live.delete(t.id); t.repeat = false;
  };
  api.refresh = (h) => { if (h._ev) sim.cancel(h._ev); live.set(h.id, h); arm(h); };
  api.setTimeout = (fn, ms, ...a) => mk(fn, ms, a, false);
  api.setInterval = (fn, ms, ...a) => mk(fn, ms, a, true);
  api.setImmediate = (fn, ...a) => {
    const h = new SimTimer(api, nextId++);
    h._ev = sim.schedule(0, () => fn(...a), { kind: "proc", proc, cls: "imm", label: `${proc.name}:immediate` });
    return h;
  };
  api.live = live;
  api.setTimeout[nodeUtil.promisify.custom] = (ms, v) => new Promise((r) => api.setTimeout(() => r(v), ms));
  return api;
}

export function makeDate(sim) {
  // Every clock read costs a little virtual time, so a busy loop that polls
  // the clock makes progress instead of spinning forever.
  const read = () => { sim.advanceSync(sim.clockReadCost ?? 0.002); return RealMath.floor(sim.wall); };
  class SimDate extends RealDate {
    constructor(...a) { if (a.length === 0) super(read()); else super(...a); }
    static now() { return read(); }
  }
  Object.defineProperty(SimDate, "name", { value: "Date" });
  return SimDate;
}

export function makeGlobals(sim, proc, o = {}) {
  const timers = makeTimers(sim, proc);
  const DateS = makeDate(sim);
  const MathS = {};
  for (const k of Object.getOwnPropertyNames(RealMath)) MathS[k] = RealMath[k];
  MathS.random = () => (sim.choices.below(1 << 20, "Math.random") + 0.5) / (1 << 20);
  const perf = { now: () => { sim.advanceSync(sim.clockReadCost ?? 0.002); return sim.now; }, timeOrigin: sim.epoch, mark() {}, measure() {} };

  class AbortSignalS extends EventTarget {
    constructor() { super(); this.aborted = false; this.reason = undefined; this.onabort = null; }
    throwIfAborted() { if (this.aborted) throw this.reason; }
    static timeout(ms) { const c = new AbortControllerS(); timers.setTimeout(() => c.abort(mkErr("TimeoutError", "The operation was aborted due to timeout")), ms); return c.signal; }
    static abort(r) { const c = new AbortControllerS(); c.abort(r); return c.signal; }
    static any(sigs) { const c = new AbortControllerS(); for (const s of sigs) { if (s.aborted) { c.abort(s.reason); break; } s.addEventListener("abort", () => c.abort(s.reason), { once: true }); } return c.signal; }
  }
  class AbortControllerS {
    constructor() { this.signal = new AbortSignalS(); }
    abort(reason) {
      if (this.signal.aborted) return;
      this.signal.aborted = true;
      this.signal.reason = reason ?? mkErr("AbortError", "This operation was aborted");
      const ev = new Event("abort"); this.signal.onabort?.(ev); this.signal.dispatchEvent(ev);
    }
  }

  const mkStream = (sink, tty) => ({
    write: (s, enc, cb) => { if (!proc.alive) return true; sink.push(typeof s === "string" ? s : Buffer.from(s).toString("utf8")); sink.raw?.push(Buffer.from(s)); const f = typeof enc === "function" ? enc : cb; if (f) queueMicrotask(f); return true; },
    isTTY: tty, columns: tty ? 80 : undefined, rows: tty ? 24 : undefined, on() { return this; }, off() { return this; }, once() { return this; }, end() {}, fd: 1,
  });
  const listeners = {};
  const procS = {
    env: proc.env, argv: proc.argv, pid: proc.pid, platform: o.platform ?? "linux", arch: o.arch ?? "x64",
    version: process.version, versions: process.versions, execPath: "/usr/bin/node", execArgv: [], title: "node",
    exitCode: undefined,
    cwd: () => proc.cwd, chdir: (d) => { proc.cwd = d; },
    stdout: mkStream(proc.stdout, false), stderr: mkStream(proc.stderr, false),
    stdin: { isTTY: false, on() { return this; }, off() { return this; }, once() { return this; }, resume() {}, pause() {}, unref() {}, setEncoding() {}, [Symbol.asyncIterator]: async function* () { yield* (o.stdin ?? []); } },
    exit: (code) => { proc.guard(); const c = code ?? procS.exitCode ?? 0; for (const f of listeners.exit ?? []) { try { f(c); } catch { /* node prints it */ } } proc.die(`exit(${c})`, c); throw new (o.ProcessGone ?? Error)("exit"); },
    on: (ev, f) => { (listeners[ev] ??= []).push(f); return procS; }, once: (ev, f) => { (listeners[ev] ??= []).push(f); return procS; },
    off: (ev, f) => { listeners[ev] = (listeners[ev] ?? []).filter((x) => x !== f); return procS; },
    removeListener: (ev, f) => procS.off(ev, f), listeners: (ev) => (listeners[ev] ?? []).slice(), listenerCount: (ev) => (listeners[ev] ?? []).length,
    emit: (ev, ...a) => { for (const f of (listeners[ev] ?? []).slice()) f(...a); return (listeners[ev] ?? []).length > 0; },
    nextTick: (f, ...a) => process.nextTick(f, ...a),
    hrtime: Object.assign((prev) => { sim.advanceSync(0.002); const ns = BigInt(RealMath.round(sim.now * 1e6)); const s = Number(ns / 1000000000n), n = Number(ns % 1000000000n); if (!prev) return [s, n]; let ds = s - prev[0], dn = n - prev[1]; if (dn < 0) { ds--; dn += 1e9; } return [ds, dn]; }, { bigint: () => BigInt(RealMath.round(sim.now * 1e6)) }),
    uptime: () => sim.now / 1000, memoryUsage: () => ({ rss: 1e8, heapTotal: 5e7, heapUsed: 4e7, external: 1e6, arrayBuffers: 1e5 }),
    kill: (pid, sig) => { const f = o.kill; if (f) return f(pid, sig); const e = new Error("kill ESRCH"); e.code = "ESRCH"; throw e; },
    getuid: () => 1000, geteuid: () => 1000, umask: () => 0o22, emitWarning: (w) => proc.warned.push(String(w)),
    _listeners: listeners,
  };
  const consoleS = {};
  for (const k of ["log", "info", "debug", "dir", "table", "time", "timeEnd", "group", "groupEnd", "trace"]) consoleS[k] = (...a) => { if (proc.alive) proc.stdout.push(nodeUtil.format(...a) + "\n"); };
  for (const k of ["warn", "error", "assert"]) consoleS[k] = (...a) => { if (proc.alive) proc.stderr.push(nodeUtil.format(...a) + "\n"); };

  const g = {
    process: procS, setTimeout: timers.setTimeout, clearTimeout: timers.clear, setInterval: timers.setInterval,
    clearInterval: timers.clear, setImmediate: timers.setImmediate, clearImmediate: timers.clear, queueMicrotask,
    Date: DateS, Math: MathS, performance: perf, AbortController: AbortControllerS, AbortSignal: AbortSignalS,
    console: consoleS, Atomics, crypto: globalThis.crypto,
    fetch: o.fetch ?? (() => Promise.reject(new TypeError("fetch failed"))),
  };
  const gt = Object.create(globalThis);
  for (const k of Object.keys(g)) Object.defineProperty(gt, k, { value: g[k], writable: true, configurable: true, enumerable: false });
  g.globalThis = gt; g.global = gt; gt.globalThis = gt; gt.global = gt;
  const AtomicsS = {};
  for (const k of Object.getOwnPropertyNames(Atomics)) { const v = Atomics[k]; AtomicsS[k] = typeof v === "function" ? v.bind(Atomics) : v; }
  AtomicsS.wait = (arr, i, v, ms) => { // synchronous sleep
    if (Atomics.load(arr, i) !== v) return "not-equal";
    sim.advanceSync(Number.isFinite(ms) ? ms : 60_000); return "timed-out";
  };
  g.Atomics = AtomicsS; gt.Atomics = AtomicsS;

  const posix = nodePath.posix;
  const pathS = { ...posix, resolve: (...a) => posix.resolve(proc.cwd, ...a), relative: (a, b) => posix.relative(posix.resolve(proc.cwd, a), posix.resolve(proc.cwd, b)) };
  pathS.posix = pathS; pathS.default = pathS; pathS.win32 = nodePath.win32;
  const urlS = { ...nodeUrl, pathToFileURL: (p, oo) => nodeUrl.pathToFileURL(posix.resolve(proc.cwd, p), oo) };
  const mods = o.modules ?? {};
  const bare = (n) => (n.startsWith("node:") ? n.slice(5) : n);
  const req = (name) => {
    const b = bare(name);
    if (Object.prototype.hasOwnProperty.call(mods, b)) { const m = mods[b]; return typeof m === "function" && m.__lazy ? m() : m; }
    if (b === "path" || b === "path/posix") return pathS;
    if (b === "url") return urlS;
    if (shared.has(name)) return shared.get(name);
    if (b === "timers/promises") return { setTimeout: (ms, v) => new Promise((r) => timers.setTimeout(() => r(v), ms)), setImmediate: (v) => new Promise((r) => timers.setImmediate(() => r(v))) };
    if (b === "timers") return timers;
    if (b === "process") return procS;
    if (b === "perf_hooks") return { performance: perf };
    if (b === "module") return { createRequire: (from) => { const rr = createRequire(from); return Object.assign((n) => (n.startsWith(".") ? rr(n) : req(n)), { resolve: (n) => rr.resolve(n) }); } };
    if (o.strictBuiltins !== false && isBuiltin(name) && !SAFE_BUILTINS.has(b)) throw new Error(`simulated process asked for builtin "${name}", which has no simulated stand-in here`);
    return repoRequire(name);
  };
  req.resolve = (n) => repoRequire.resolve(n);
  g.require = req;
  g.timers = timers;
  return g;
}
const SAFE_BUILTINS = new Set(["path", "path/posix", "url", "util", "events", "stream", "buffer", "string_decoder", "querystring", "zlib", "crypto", "assert", "stream/promises", "punycode", "constants", "tty", "v8", "vm"]);

export function mkErr(name, msg, code) { const e = new Error(msg); e.name = name; if (code != null) e.code = code; return e; }
