// Simulated processes that may block: each runs in a thread, and exactly one
// thread runs at a time, from one system call to the next, when the seeded
// scheduler lets it.  Calls of different processes interleave in any order.
import { Worker } from "node:worker_threads";
import { fileURLToPath } from "node:url";
import { SimProcess, ProcessGone } from "./sim.mjs";
import { PARAMS } from "./bundle.mjs";

const FILE = fileURLToPath(new URL("./thread-main.cjs", import.meta.url));
const pool = []; const BYTES = 4 << 20;
const pack = (k, v) => (v && v.type === "Buffer" && Array.isArray(v.data) ? { $b: Buffer.from(v.data).toString("base64") } : v === undefined ? { $u: 1 } : v);
const unpack = (k, v) => (v && v.$b !== undefined ? Buffer.from(v.$b, "base64") : v && v.$u === 1 ? undefined : v);
const dec = new TextDecoder();

class Thread {
  constructor() {
    this.sab = new SharedArrayBuffer(BYTES); this.ctl = new Int32Array(this.sab, 0, 4); this.data = new Uint8Array(this.sab, 16);
    this.w = new Worker(FILE, { workerData: { sab: this.sab } }); this.w.unref(); this.fresh = true;
  }
  /** Let the thread run until its next call. */
  turn(reply) {
    this.fresh = false; const t = Buffer.from(JSON.stringify(reply, (k, v) => pack(k, v))); this.data.set(t); this.ctl[1] = t.length;
    Atomics.store(this.ctl, 0, 2); Atomics.notify(this.ctl, 0);
    while (Atomics.load(this.ctl, 0) === 2) { if (Atomics.wait(this.ctl, 0, 2, 60000) === "timed-out") throw new Error("simulated process made no call for 60 s (endless loop?)"); }
    return JSON.parse(dec.decode(this.data.slice(0, this.ctl[1])), unpack);
  }
}

export class ThreadProc extends SimProcess {
  /** o: {file, env, argv, platform, arch, home, json, syscalls: (name,args,proc)=>value, spawnSync:(proc,file,args,opts,cb)=>void, asyncCall:(proc,name,args,cb)=>void} */
  constructor(sim, o) {
    super(sim, { ...o, tolerateUncaught: false }); this.o = o;
    this.th = pool.pop() ?? new Thread(); this.state = "idle"; this.inbox = []; this.asyncs = new Map(); this.calls = new Map(); this.nextCall = 1; this.cost = o.cost ?? (() => 0.05);
    this.onDeath.push(() => this._reap());
    this._deliver({ ev: "boot", file: o.file, params: PARAMS, o: { env: this.env, argv: this.argv, pid: this.pid, cwd: this.cwd, platform: o.platform ?? "linux", arch: o.arch ?? "x64", home: o.home ?? "/home/user", json: o.json } }, "boot");
  }
  _deliver(ev, label) {
    if (!this.alive) return;
    this.inflight = (this.inflight ?? 0) + 1;
    this.io(this.cost(), () => { this.inflight--; if (this.state === "idle") this._resume({ val: ev }); else this.inbox.push(ev); }, `${this.name}:${label}`, { fifo: this });
  }
  /** Call an exported function; resolves to {val}|{err} or stays null. */
  call(mod, fn, args = []) { const rec = { id: this.nextCall++, t0: this.sim.now, at: null, val: undefined, err: null, done: false }; this.calls.set(rec.id, rec); this._deliver({ ev: "call", id: rec.id, mod, fn, args }, `call:${fn}`); return rec; }
  _resume(reply) {
    this.state = "running";
    for (;;) {
      const m = this.th.turn(reply);
      if (!this.alive && m.t !== "idle") { reply = { die: true }; if (m.t === "runaway") { this.th.w.terminate(); this.th = null; return; } continue; }
      if (m.t === "idle") { this.state = "idle"; if (!this.alive) { this._release(); return; } const ev = this.inbox.shift(); if (ev) this._deliver(ev, "next"); this.o.onIdle?.(this); return; }
      if (m.t === "done") { const r = this.calls.get(m.id); r.done = true; r.at = this.sim.now; r.val = m.val; r.err = m.err ?? null; this.sim.log(`${this.name} call ${m.id} → ${m.err ? "throws " + m.err.message : JSON.stringify(m.val)?.slice(0, 80)}`); reply = {}; continue; }
      if (m.t === "out") { (m.fd === 2 ? this.stderr : this.stdout).push(m.text); reply = {}; continue; }
      if (m.t === "async") { reply = {}; this._async(m); continue; }
      if (m.t === "cancel") { const a = this.asyncs.get(m.id); if (a) { a.cancelled = true; if (a.ev) this.sim.cancel(a.ev); a.abort?.(); this.asyncs.delete(m.id); } reply = {}; continue; }
      if (m.t === "unref") { reply = {}; const a = this.asyncs.get(m.id); if (a?.ev) a.ev.ref = false; continue; }
      if (m.t === "uncaught") { this.sim.log(`${this.name} uncaught ${m.err.message}`); const e = Object.assign(new Error(m.err.message), m.err); this.uncaught.push({ kind: m.kind, err: e }); this.die(`uncaught ${m.kind}: ${m.err.message}`, 1); reply = { die: true }; continue; }
      if (m.t === "exit") { this.die(`exit(${m.code})`, m.code); reply = { die: true }; continue; }
      if (m.t === "sys") {
        this.state = "sys";
        if (m.name === "now" || m.name === "mono") { this.state = "running"; reply = { val: m.name === "now" ? Math.floor(this.sim.wall) : this.sim.now }; continue; }
        if (m.name === "random") { reply = { val: (this.sim.choices.below(1 << 20, "Math.random") + 0.5) / (1 << 20) }; continue; }
        if (m.name === "sleep") { this.io(m.args[0], () => this._resume({ val: null }), `${this.name}:sleep`); return; }
        if (m.name === "spawnSync") { const [file, args, opts] = m.args; this.o.spawnSync(this, file, args, opts ?? {}, (r) => { if (this.alive) this.io(this.cost(), () => this._resume({ val: r }), `${this.name}:spawnSync-returns`); }); return; }
        const gen = this.o.syscall(m.name, m.args, this);
        const step = () => this.io(this.cost(), () => {
          let r; try { r = gen.next(); } catch (e) { if (e instanceof ProcessGone && !this.alive) { this._unwind(); return; } if (!(typeof e?.code === "string")) { this.sim.harnessError ??= e; } this._resume({ err: errOf(e) }); return; }
          if (!this.alive) { this._unwind(); return; }
          this.o.after?.(this, m.name);
          if (r.done) this._resume({ val: r.value }); else step();
        }, `${this.name}:${m.name}`);
        step(); return;
      }
      throw new Error(`unknown message ${m.t}`);
    }
  }
  _async(m) {
    const a = { cancelled: false }; this.asyncs.set(m.id, a);
    const fin = (r) => { if (a.cancelled || !this.alive) return; this.asyncs.delete(m.id); this._deliver({ ev: "settle", id: m.id, ...r }, `settle:${m.name}`); };
    if (m.name === "timer") { a.ev = this.io(m.args[0], () => { if (!a.cancelled) { this.asyncs.delete(m.id); if (this.state === "idle") this._resume({ val: { ev: "settle", id: m.id } }); else this.inbox.push({ ev: "settle", id: m.id }); } }, `${this.name}:timer`, { cls: "timer" }); return; }
    if (m.name.startsWith("fs.")) {
      const gen = this.o.syscall(m.name, m.args, this);
      const step = () => { a.ev = this.io(this.cost(), () => { let r; try { r = gen.next(); } catch (e) { if (e instanceof ProcessGone) return; fin({ err: errOf(e) }); return; } this.o.after?.(this, m.name); if (r.done) fin({ val: r.value }); else step(); }, `${this.name}:${m.name}`); };
      step(); return;
    }
    this.o.asyncCall(this, m.name, m.args, fin, a);
  }
  /** Something is still running, due or awaited. */
  get waiting() { return this.state !== "idle" || this.inflight > 0 || this.asyncs.size > 0 || this.inbox.length > 0; }
  // Death: a thread blocked in a call is unwound, an idle one is put back.
  _reap() { if (this.th == null) return; if (this.state === "idle") { this._release(); return; } if (this.state === "sys") this._unwind(); }
  _unwind() { if (this.th == null || this.state === "running") return; this._resume({ die: true }); }
  _release() { if (this.th != null && !this.released) { this.released = true; const m = this.th.turn(this.th.fresh ? { val: { ev: "none" } } : { die: true }); if (m.t === "idle") pool.push(this.th); else this.th.w.terminate(); this.th = null; } }
}
const errOf = (e) => ({ name: e?.name, message: String(e?.message ?? e), code: e?.code, errno: e?.errno, syscall: e?.syscall, path: e?.path, dom: e instanceof DOMException, cause: e?.cause ? errOf(e.cause) : undefined });
export { errOf };
