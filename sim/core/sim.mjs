// The deterministic scheduler: one virtual clock, one event set, every order
// and delay drawn from Choices.
import { createHash } from "node:crypto";
import { Choices, mix32 } from "./choices.mjs";

export class SimStop extends Error { constructor(m) { super(m); this.name = "SimStop"; } }

/** Raised by a simulated primitive used by a process that is no longer alive. */
export class ProcessGone extends Error {
  constructor(why) { super(`simulated process is gone (${why})`); this.name = "ProcessGone"; this.code = "SIM_PROCESS_GONE"; }
}

const realSetImmediate = setImmediate;
export const drainMicrotasks = () => new Promise((r) => realSetImmediate(r));

let currentSim = null;
process.on("unhandledRejection", (reason) => {
  if (reason instanceof ProcessGone) return;
  if (currentSim != null) currentSim._unhandledRejection(reason);
  else { console.error("unhandledRejection outside a run:", reason); process.exit(3); }
});
process.on("uncaughtException", (err) => {
  if (err instanceof ProcessGone) return;
  if (currentSim != null) currentSim._uncaught(err);
  else { console.error("uncaughtException outside a run:", err); process.exit(3); }
});

export class Sim {
  constructor(choices, o = {}) {
    this.choices = choices;
    this.now = 0;
    this.epoch = o.epoch ?? Date.UTC(2026, 0, 15, 9, 30, 0);
    this.seq = 0;
    this.queue = [];
    this.steps = 0;
    this.hash = createHash("sha256");
    this.traceOn = o.trace === true;
    this.trace = [];
    this.faults = {};         // kind -> times fired
    this.notes = {};          // free counters
    this.violations = [];
    this.processes = [];
    this.currentProc = null;
    this.faultsEnabled = true;
    this.stallProb = o.stallProb ?? 0.01;
    this.interleave = 0;      // rolling hash over the order of executed events
    this.unhandled = [];
    currentSim = this;
  }
  dispose() {
    if (currentSim === this) currentSim = null;
    this.queue.length = 0;
  }
  log(msg) {
    this.hash.update(`${this.now.toFixed(3)} ${msg}\n`);
    if (this.traceOn) this.trace.push(`${this.now.toFixed(1).padStart(9)}ms  ${msg}`);
  }
  digest() { return this.hash.copy().digest("hex").slice(0, 32); }
  count(name, n = 1) { this.notes[name] = (this.notes[name] ?? 0) + n; }
  /** Offer a fault. Only counted when it fires. */
  fault(kind, p) {
    if (!this.faultsEnabled || p <= 0) return false;
    if (!this.choices.chance(p, `fault:${kind}`)) return false;
    this.fired(kind);
    return true;
  }
  fired(kind) { this.faults[kind] = (this.faults[kind] ?? 0) + 1; this.log(`FAULT ${kind}`); }
  violate(sig, detail) {
    if (this.violations.some((v) => v.sig === sig && v.detail === detail)) return;
    this.violations.push({ sig, detail, at: this.now });
    this.log(`VIOLATION ${sig}: ${detail}`);
  }
  check(cond, sig, detail) { if (!cond) this.violate(sig, typeof detail === "function" ? detail() : detail); return cond; }

  /** Schedule fn. kind "proc" runs only from the top-level loop; "dev" also
   *  runs while some process is blocked inside a synchronous call. */
  schedule(delay, fn, o = {}) {
    const ev = { at: this.now + Math.max(0, delay), seq: this.seq++, fn, kind: o.kind ?? "proc", proc: o.proc ?? null, label: o.label ?? "event", cls: o.cls ?? "io", fifo: o.fifo ?? null, ref: o.ref !== false };
    this.queue.push(ev);
    return ev;
  }
  cancel(ev) { const i = this.queue.indexOf(ev); if (i >= 0) { this.queue.splice(i, 1); return true; } return false; }

  _next(devOnly, horizon) {
    let tmin = Infinity;
    for (const e of this.queue) { if (devOnly && e.kind !== "dev") continue; if (e.at < tmin) tmin = e.at; }
    if (tmin === Infinity || tmin > horizon) return null;
    const cut = Math.max(tmin, this.now);
    const cands = []; const seenTimer = new Map();
    const due = this.queue.filter((e) => e.at <= cut && (!devOnly || e.kind === "dev")).sort((a, b) => a.at - b.at || a.seq - b.seq);
    for (const e of due) {
      // timers of one process, and events of one ordered channel, stay in order
      const key = e.cls === "timer" ? e.proc : e.fifo;
      if (key != null) {
        if (seenTimer.has(key)) continue;
        seenTimer.set(key, true);
      }
      cands.push(e);
    }
    return cands;
  }
  /** A synchronous call that takes dt: devices progress, nothing else does. */
  advanceSync(dt) {
    const end = this.now + Math.max(0, dt);
    for (;;) {
      const c = this._next(true, end);
      if (c == null) break;
      const e = c[this.choices.below(c.length, "dev-order")];
      this.queue.splice(this.queue.indexOf(e), 1);
      if (e.at > this.now) this.now = e.at;
      try { e.fn(); } catch (err) { if (err instanceof ProcessGone) throw err; this.harnessError ??= err; }
    }
    if (end > this.now) this.now = end;
  }
  /** Jump the wall clock (not the monotonic one). */
  get wall() { return this.epoch + this.now + (this.skew ?? 0); }

  _runAs(proc, fn) {
    const prev = this.currentProc; this.currentProc = proc;
    try { return fn(); } finally { this.currentProc = prev; }
  }
  _uncaught(err) {
    if (err instanceof SimStop) throw err;
    const p = this.currentProc ?? this.processes[this.processes.length - 1] ?? null;
    this.log(`uncaught exception in ${p?.name ?? "?"}: ${short(err)}`);
    if (p != null) p.onUncaught("exception", err); else this.unhandled.push(err);
  }
  _unhandledRejection(err) {
    const p = this.lastProc ?? this.processes[this.processes.length - 1] ?? null;
    this.log(`unhandled rejection in ${p?.name ?? "?"}: ${short(err)}`);
    if (p != null && p.alive) p.onUncaught("rejection", err); else this.unhandled.push(err);
  }

  /** Run until `done()` or nothing is left, the step bound or the time bound. */
  async run(done, o = {}) {
    const maxSteps = o.maxSteps ?? 200000, maxTime = o.maxTime ?? 3600_000;
    await drainMicrotasks();
    for (;;) {
      if (done?.()) return "done";
      if (this.steps >= maxSteps) return "steps";
      if (o.ignoreUnref && !this.queue.some((e) => e.ref)) return "idle";
      const c = this._next(false, maxTime);
      if (c == null) return this.queue.length > 0 ? "time" : "idle";
      const e = c.length === 1 ? c[0] : c[this.choices.below(c.length, "order")];
      this.queue.splice(this.queue.indexOf(e), 1);
      if (e.at > this.now) this.now = e.at;
      if (this.stallProb > 0 && e.kind === "proc" && this.faultsEnabled && this.choices.chance(this.stallProb, "stall?")) {
        const d = this.choices.delay(1, 400, "stall");
        this.faults["event-loop-stall"] = (this.faults["event-loop-stall"] ?? 0) + 1;
        this.advanceSync(d);
      }
      this.steps++;
      this.interleave = mix32(this.interleave ^ hashStr(e.label));
      if (e.proc != null && !e.proc.alive) continue;
      this.hash.update(`${this.now.toFixed(3)}>${e.label}\n`);
      if (this.traceOn) this.trace.push(`${this.now.toFixed(1).padStart(9)}ms  > ${e.label}`);
      this.lastProc = e.proc ?? this.lastProc;
      const prev = this.currentProc; this.currentProc = e.proc;
      try { e.fn(); } catch (err) {
        if (!(err instanceof ProcessGone)) { if (e.kind === "dev") this.harnessError ??= err; else this._uncaught(err); }
      } finally { this.currentProc = prev; }
      this.currentProc = e.proc ?? prev;
      await drainMicrotasks();
      this.currentProc = prev;
    }
  }
  /** Run until a promise settles; returns {status, value|error, why}. */
  async settle(promise, o = {}) {
    let st = null;
    promise.then((v) => { st = { status: "ok", value: v, at: this.now }; }, (e) => { st = { status: "error", error: e, at: this.now }; });
    const why = await this.run(() => st != null, o);
    return st ?? { status: "pending", why, at: this.now };
  }
}

export function hashStr(s) { let h = 0x811c9dc5; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193); return h >>> 0; }
export function short(e, n = 160) {
  const s = e instanceof Error ? `${e.name}: ${e.message}` : String(e);
  return s.replace(/\s+/g, " ").slice(0, n);
}

/** An operating-system process of the simulated world. */
export class SimProcess {
  constructor(sim, o = {}) {
    this.sim = sim; this.name = o.name ?? `p${sim.processes.length}`;
    this.pid = o.pid ?? 1000 + sim.processes.length * 7 + 1;
    this.env = o.env ?? {}; this.cwd = o.cwd ?? "/work"; this.argv = o.argv ?? [];
    this.alive = true; this.exitCode = null; this.deathReason = null;
    this.uncaught = []; this.stdout = []; this.stderr = []; this.onDeath = [];
    this.warned = [];
    this.tolerateUncaught = o.tolerateUncaught === true;
    sim.processes.push(this);
  }
  guard() { if (!this.alive) throw new ProcessGone(this.deathReason ?? "dead"); }
  die(reason, code = null) {
    if (!this.alive) return;
    this.alive = false; this.deathReason = reason; this.exitCode = code;
    this.sim.log(`process ${this.name} ends: ${reason}`);
    this.sim.queue = this.sim.queue.filter((e) => e.proc !== this);
    for (const f of this.onDeath.splice(0)) f(reason, code);
  }
  crash(reason = "SIGKILL") { this.die(reason, null); }
  onUncaught(kind, err) {
    this.uncaught.push({ kind, err });
    if (!this.tolerateUncaught) this.die(`uncaught ${kind}: ${short(err)}`, 1);
  }
  /** Schedule a callback in this process (I/O completion). */
  io(delay, fn, label, o = {}) { return this.sim.schedule(delay, fn, { kind: "proc", proc: this, label, ...o }); }
  /** A promise the simulator completes after delay. */
  later(delay, fn, label) {
    this.guard();
    return new Promise((res, rej) => {
      this.io(delay, () => { try { res(fn()); } catch (e) { rej(e); } }, label);
    });
  }
}
