// Simulated child processes (node:child_process).  A program is a function
// (child) => void that drives the child's side of its pipes.
import { EventEmitter } from "node:events";
import { Writable, Readable } from "node:stream";
import { errno } from "./fs.mjs";

const PIPE = 65536;

/** One spawned child. Parent side = Node's ChildProcess surface; program side = the `_` methods. */
export class SimChild extends EventEmitter {
  constructor(world, file, args, opts) {
    super();
    const { sim, proc } = world; this._w = world; this.sim = sim; this.proc = proc;
    this.spawnfile = file; this.spawnargs = [file, ...args]; this.args = args; this.opts = opts ?? {};
    this.pid = world.nextPid++; this.exitCode = null; this.signalCode = null; this.killed = false; this.connected = false;
    this._alive = true; this._exitSeen = false; this._inQ = []; this._inBytes = 0; this._eof = false; this._stdinOpen = true; this._readers = []; this._openOut = 0;
    const st = Array.isArray(opts?.stdio) ? opts.stdio : Array(3).fill(opts?.stdio ?? "pipe");
    const mode = (i) => st[i] ?? "pipe";
    this._mode = [mode(0), mode(1), mode(2)];
    this.stdin = mode(0) === "pipe" ? this._mkStdin() : null;
    this.stdout = mode(1) === "pipe" ? this._mkOut("stdout") : null;
    this.stderr = mode(2) === "pipe" ? this._mkOut("stderr") : null;
    this.stdio = [this.stdin, this.stdout, this.stderr];
    if (mode(0) !== "pipe") { this._eof = true; this._stdinOpen = false; }
    this.name = `${file.split("/").pop()}#${this.pid}`;
    proc.onDeath.push(() => { this._eof = true; this._parentGone = true; this._wake(); });
  }
  _dev(delay, fn, label) { return this.sim.schedule(delay, () => { fn(); }, { kind: "dev", label: `${this.name}:${label}`, fifo: `${this.name}:${label.split(" ")[0]}` }); }
  _mkStdin() {
    const self = this;
    const s = new Writable({
      highWaterMark: 16384, decodeStrings: true,
      write(chunk, enc, cb) { self._offer(Buffer.from(chunk), 0, cb); },
      final(cb) { self._dev(0.05, () => { self._eof = true; self._wake(); }, "stdin-eof"); cb(); },
      destroy(err, cb) { self._eof = true; self._wake(); const w = self._blocked; self._blocked = null; if (w) { self.proc.alive && self.proc.io(0, () => w.cb(Object.assign(new Error("write ECANCELED"), { code: "ECANCELED" })), `${self.name}:cancel`); } cb(err); },
    });
    s.fd = 100 + this.pid; s.ref = () => s; s.unref = () => s;
    return s;
  }
  _offer(chunk, at, cb) {
    const { sim, proc } = this;
    if (!proc.alive) return;
    if (!this._stdinOpen) { proc.io(0.05, () => cb(Object.assign(new Error("write EPIPE"), { code: "EPIPE", syscall: "write", errno: -32 })), `${this.name}:epipe`); sim.fired("broken-pipe"); return; }
    const room = PIPE - this._inBytes;
    const n = Math.min(room, chunk.length - at);
    if (n > 0) { this._inQ.push(chunk.subarray(at, at + n)); this._inBytes += n; at += n; this._wake(); }
    if (at >= chunk.length) { proc.io(0.05, () => cb(), `${this.name}:wrote`); return; }
    sim.count("pipe-backpressure");
    this._blocked = { chunk, at, cb };
  }
  _wake() { for (const r of this._readers.splice(0)) this._dev(0, r, "wake"); }
  _mkOut(which) {
    const self = this; this._openOut++;
    const buf = { q: [], bytes: 0, ended: false, flowing: false, waiters: [] };
    this[`_${which}`] = buf;
    const r = new Readable({
      highWaterMark: 16384,
      read() { buf.flowing = true; self._pump(which); },
      destroy(err, cb) { buf.closed = true; buf.q = []; buf.bytes = 0; for (const w of buf.waiters.splice(0)) w(); cb(err); },
    });
    r.once("close", () => { self._openOut--; self._maybeClose(); });
    r.ref = () => r; r.unref = () => r;
    buf.stream = r;
    return r;
  }
  _pump(which) {
    const b = this[`_${which}`];
    if (b.pumping || !this.proc.alive) return;
    if (b.q.length === 0 && !b.ended) return;
    b.pumping = true;
    this.proc.io(this.sim.choices.delay(0.05, 3, "pipe-read"), () => {
      b.pumping = false;
      if (b.closed) return;
      if (b.q.length === 0) { if (b.ended && !b.sentEof) { b.sentEof = true; b.stream.push(null); } return; }
      let all = Buffer.concat(b.q); const cut = all.length > 1 && this._w.splitReads && this.sim.choices.chance(0.4, "short-read") ? 1 + this.sim.choices.below(all.length, "read-at") : all.length;
      const got = all.subarray(0, cut); all = all.subarray(cut); b.q = all.length ? [all] : []; b.bytes = all.length;
      for (const w of b.waiters.splice(0)) this._dev(0, w, "out-room");
      const more = b.stream.push(got);
      if (more || (b.ended && b.q.length === 0)) this._pump(which);
    }, `${this.name}:${which}`, { fifo: `${this.name}:${which}-rd` });
  }
  // ── program side ──
  /** Take up to max bytes; cb(chunk) or cb(null) at end of input. */
  _read(cb, max = PIPE) {
    const go = () => {
      if (!this._alive) return;
      if (this._inQ.length > 0) {
        let b = this._inQ.shift(); if (b.length > max) { this._inQ.unshift(b.subarray(max)); b = b.subarray(0, max); }
        this._inBytes -= b.length;
        const w = this._blocked; if (w) { this._blocked = null; this._offer(w.chunk, w.at, w.cb); }
        cb(b); return;
      }
      if (this._eof) { cb(null); return; }
      this._readers.push(go);
    };
    go();
  }
  /** Write to stdout/stderr; cb when accepted (blocks when the pipe is full and unread). */
  _write(which, data, cb = () => {}) {
    const b = this[`_${which}`]; const d = Buffer.from(data);
    if (b == null || b.closed) { this._dev(0.05, () => this._alive && cb(), `${which}-w`); return; }
    let at = 0;
    const go = () => {
      if (!this._alive) return;
      if (b.closed) { cb(); return; }
      const n = Math.min(PIPE - b.bytes, d.length - at);
      if (n > 0) { b.q.push(d.subarray(at, at + n)); b.bytes += n; at += n; if (b.flowing) this._pump(which); }
      if (at >= d.length) { this._dev(0.02, () => this._alive && cb(), `${which}-w`); return; }
      this.sim.count("child-blocked-on-output"); b.waiters.push(go);
    };
    go();
  }
  _closeStdin() { this._stdinOpen = false; this._inQ = []; this._inBytes = 0; const w = this._blocked; this._blocked = null; if (w && this.proc.alive) { this.sim.fired("broken-pipe"); this.proc.io(0.05, () => w.cb(Object.assign(new Error("write EPIPE"), { code: "EPIPE", syscall: "write" })), `${this.name}:epipe`); } }
  _exit(code, signal = null) {
    if (!this._alive) return;
    this._alive = false; this._endAt = this.sim.now; this.sim.log(`child ${this.name} exits ${code ?? signal}`);
    this._closeStdin();
    for (const w of ["stdout", "stderr"]) { const b = this[`_${w}`]; if (b) { b.ended = true; if (b.flowing) this._pump(w); } }
    if (!this.proc.alive) return;
    this.proc.io(this.sim.choices.delay(0.1, 20, "sigchld"), () => {
      this._exitSeen = true; this.exitCode = signal ? null : code; this.signalCode = signal;
      this.stdin?.destroy();
      this.emit("exit", this.exitCode, this.signalCode);
      for (const w of ["stdout", "stderr"]) { const b = this[`_${w}`]; if (b && !b.closed && !b.stream.readableFlowing && b.stream.listenerCount("readable") === 0) { b.stream.resume(); b.flowing = true; this._pump(w); } }
      this._maybeClose();
    }, `${this.name}:exit`);
  }
  _maybeClose() { if (this._exitSeen && this._openOut === 0 && !this._closeSent) { this._closeSent = true; this.proc.io(0, () => this.emit("close", this.exitCode, this.signalCode), `${this.name}:close`); } }
  _failSpawn(code) {
    this._alive = false; this.pid = undefined; this._stdinOpen = false;
    const e = Object.assign(new Error(`spawn ${this.spawnfile} ${code}`), { code, syscall: `spawn ${this.spawnfile}`, path: this.spawnfile, spawnargs: this.args, errno: -2 });
    process.nextTick(() => {
      if (!this.proc.alive) return;
      this.stdin?.destroy(); this.exitCode = -2;
      try { if (!this.emit("error", e)) { /* unreachable: emit throws without a listener */ } } finally {
        this.stdout?.push(null); this.stdout?.resume(); this.stderr?.push(null); this.stderr?.resume();
        this._exitSeen = true; this._maybeClose();
      }
    });
  }
  // ── parent side ──
  kill(sig = "SIGTERM") {
    this.killed = true; if (!this._alive) return false;
    this.sim.log(`kill ${this.name} ${sig}`);
    this._dev(this.sim.choices.delay(0.1, 15, "kill"), () => this._exit(null, typeof sig === "string" ? sig : "SIGTERM"), "killed");
    return true;
  }
  ref() { return this; } unref() { return this; } disconnect() {}
}

/** o.programs(file, args, opts, child) → "ENOENT" | (child)=>void ; o.sync(file,args,opts) → spawnSync result */
export function childModule(sim, proc, o) {
  const world = { sim, proc, nextPid: 5001, children: [], splitReads: o.splitReads ?? true };
  const spawn = (file, args, opts) => {
    proc.guard(); if (!Array.isArray(args)) { opts = args; args = []; }
    sim.log(`spawn ${file} ${args.length}`);
    const ch = new SimChild(world, file, args, opts); world.children.push(ch);
    const prog = o.programs(file, args, opts, ch);
    if (typeof prog === "string") { sim.fired(`spawn-${prog}`); ch._failSpawn(prog); } else { process.nextTick(() => proc.alive && ch.emit("spawn")); ch._dev(sim.choices.delay(0.2, 40, "startup"), () => ch._alive && prog(ch), "start"); }
    return ch;
  };
  const spawnSync = (file, args, opts) => {
    proc.guard(); if (!Array.isArray(args)) { opts = args; args = []; }
    const r = o.sync(file, args, opts) ?? { status: null, error: errno("ENOENT", `spawnSync ${file}`), signal: null };
    sim.advanceSync(r.ms ?? 3);
    const enc = opts?.encoding && opts.encoding !== "buffer"; const cv = (x) => (x == null ? (r.error ? null : enc ? "" : Buffer.alloc(0)) : enc ? String(x) : Buffer.from(x));
    return { pid: 0, status: r.status ?? null, signal: r.signal ?? null, error: r.error, stdout: cv(r.stdout), stderr: cv(r.stderr), output: [null, cv(r.stdout), cv(r.stderr)] };
  };
  const execFileSync = (file, args, opts) => {
    if (!Array.isArray(args)) { opts = args; args = []; }
    const r = spawnSync(file, args, opts);
    if (r.error) throw r.error;
    if (r.status !== 0) throw Object.assign(new Error(`Command failed: ${file} ${args.join(" ")}`), r);
    return r.stdout;
  };
  const execFile = (file, args, opts, cb) => {
    if (typeof opts === "function") { cb = opts; opts = {}; } if (typeof args === "function") { cb = args; args = []; opts = {}; }
    const ch = spawn(file, args, opts); let so = [], se = [], done = false;
    ch.stdout?.on("data", (d) => so.push(d)); ch.stderr?.on("data", (d) => se.push(d));
    const fin = (e) => { if (done) return; done = true; cb?.(e, Buffer.concat(so).toString(), Buffer.concat(se).toString()); };
    ch.on("error", fin); ch.on("close", (code, sig) => fin(code === 0 ? null : Object.assign(new Error(`Command failed: ${file}`), { code, signal: sig })));
    return ch;
  };
  return { world, module: { spawn, spawnSync, execFileSync, execFile, execSync: (c, op) => execFileSync("sh", ["-c", c], op) } };
}
