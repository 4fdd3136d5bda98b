// Simulated Playwright browser.  Every remote operation takes simulated time,
// completes through the scheduler, and can fail before or after its effect.
// Page-side functions really run, from their source text, against a page model.
import vm from "node:vm";
import { EventEmitter } from "node:events";
import { SimProcess, short } from "../core/sim.mjs";
import { makeTimers, makeDate } from "../core/globals.mjs";

export function pwError(msg, name = "Error") { const e = new Error(msg); e.name = name; return e; }
export const closedErr = (what) => pwError(`${what}: Target page, context or browser has been closed`, "Error");

export class SimBrowser extends EventEmitter {
  /** o.makeModel(page) → page model; o.fault(op, page) → null | "before" | "after" | "crash" | "hang" */
  constructor(sim, proc, o = {}) {
    super();
    this.sim = sim; this.proc = proc; this.o = o; this._contexts = []; this.connected = true; this.closeCalls = 0; this.ops = 0;
    this.lat = o.latency ?? [0.5, 12]; this.launchOptions = o.launchOptions; this.log = [];
    sim.browsers ??= []; sim.browsers.push(this);
    proc.onDeath.push(() => { this.connected = false; });
  }
  contexts() { return this._contexts.slice(); }
  isConnected() { return this.connected; }
  version() { return "143.0.0.0"; }
  browserType() { return { name: () => "chromium" }; }
  crash(why = "browser crash") {
    if (!this.connected) return;
    this.connected = false; this.crashed = true; this.sim.log(`browser ${why}`);
    for (const c of this._contexts) c._dead(why);
    this.emit("disconnected", this);
  }
  /** One protocol round trip. */
  op(label, page, effect, o = {}) {
    const { sim, proc } = this;
    proc.guard();
    const who = page?._id ?? "browser";
    return new Promise((resolve, reject) => {
      const gone = () => !this.connected || (page != null && page._closed);
      if (gone()) { proc.io(0.1, () => reject(closedErr(label)), `${who}:${label}!closed`); return; }
      this.ops++;
      const pend = { reject: (e) => reject(e), label };
      const owner = page ?? this; (owner._pending ??= new Set()).add(pend);
      const finish = (f) => { if (!owner._pending.delete(pend)) return; f(); };
      const f = o.noFault ? null : this.o.fault?.(label, page) ?? null;
      if (f) { this.log.push({ label, f }); }
      const d = sim.choices.delay(o.min ?? this.lat[0], o.max ?? this.lat[1], `lat:${label}`);
      const to = o.timeout;
      if (f === "hang") {
        sim.fired(`browser-hang`);
        proc.io(to ?? 30000, () => finish(() => reject(pwError(`${label}: Timeout ${to ?? 30000}ms exceeded.`, "TimeoutError"))), `${who}:${label}!timeout`);
        return;
      }
      proc.io(d, () => {
        if (!owner._pending.has(pend)) return;
        if (gone()) { finish(() => reject(closedErr(label))); return; }
        if (f === "crash") { sim.fired("page-crash"); if (page != null && sim.choices.chance(0.5, "crash-scope")) page._crash(); else this.crash("crash"); finish(() => reject(closedErr(label))); return; }
        if (f === "before") { sim.fired("browser-op-error"); finish(() => reject(pwError(`${label}: Protocol error (simulated)`))); return; }
        let r;
        try { r = effect(); } catch (e) { finish(() => reject(e)); return; }
        const done = (v) => {
          if (!owner._pending.has(pend)) return;
          if (f === "after") { sim.fired("browser-op-error-after-effect"); finish(() => reject(pwError(`${label}: Protocol error (simulated, response lost)`))); return; }
          finish(() => resolve(v));
        };
        if (r != null && typeof r.then === "function") r.then((v) => { if (proc.alive) proc.io(sim.choices.delay(0.1, 2, "resp"), () => done(v), `${who}:${label}.done`); }, (e) => { if (proc.alive) proc.io(0.1, () => finish(() => reject(e)), `${who}:${label}.err`); });
        else done(r);
      }, `${who}:${label}`);
    });
  }
  newContext(opts = {}) { return this.op("browser.newContext", null, () => { const c = new SimContext(this, opts); this._contexts.push(c); return c; }); }
  async newPage(opts = {}) { const c = await this.newContext(opts); const p = await c.newPage(); p._ownedContext = c; return p; }
  close() {
    this.closeCalls++; this.sim.log("browser.close()");
    if (!this.connected) return this.proc.later(0.5, () => {}, "browser.close(again)");
    return this.proc.later(this.sim.choices.delay(1, 30, "close"), () => {
      if (!this.connected) return;
      this.connected = false; this.closed = true;
      for (const c of this._contexts) c._dead("browser closed");
      for (const p of this._pending ?? []) p.reject(closedErr(p.label)); this._pending?.clear();
      this.emit("disconnected", this);
    }, "browser.close");
  }
}

export class SimContext extends EventEmitter {
  constructor(b, opts) { super(); this._b = b; this._opts = opts; this._pages = []; this._closed = false; this._init = []; this._routes = []; this._sessions = []; this.closeCalls = 0; this.request = b.o.request?.(this) ?? {}; }
  browser() { return this._b; }
  pages() { return this._pages.filter((p) => !p._closed); }
  setDefaultTimeout() {} setDefaultNavigationTimeout() {}
  newPage() { return this._b.op("context.newPage", null, () => { if (this._closed) throw closedErr("context.newPage"); const p = new SimPage(this); this._pages.push(p); this.emit("page", p); return p; }); }
  async addInitScript(s, arg) { this._init.push({ s, arg }); await this._b.op("context.addInitScript", null, () => {}); }
  route(u, h) { this._routes.push([u, h]); return this._b.op("context.route", null, () => {}); }
  routeFromHAR(f, o) { return this._b.op("context.routeFromHAR", null, () => { this._har = f; }); }
  addCookies() { return this._b.op("context.addCookies", null, () => {}); }
  newCDPSession(page) {
    return this._b.op("context.newCDPSession", page, () => { const s = new SimCdp(this, page); this._sessions.push(s); return s; });
  }
  close() { this.closeCalls++; return this._b.op("context.close", null, () => this._dead("context closed"), { noFault: true }); }
  _dead(why) { if (this._closed) return; this._closed = true; for (const p of this._pages) p._die(why); for (const s of this._sessions) s._detached = true; this.emit("close", this); }
}

export class SimCdp extends EventEmitter {
  constructor(ctx, page) { super(); this._ctx = ctx; this._page = page; this._detached = false; }
  send(method, params) {
    return this._ctx._b.op(`cdp.${method}`, this._page, () => {
      if (this._detached) throw pwError(`cdpSession.send: Session closed`);
      return this._page.model.cdp?.(method, params ?? {}, this) ?? {};
    });
  }
  detach() { return this._ctx._b.op("cdp.detach", this._page, () => { this._detached = true; this._page.model.cdpDetached?.(this); }, { noFault: true }); }
}

let pageSerial = 0;
export class SimPage extends EventEmitter {
  constructor(ctx) {
    super();
    this._ctx = ctx; this._b = ctx._b; this._closed = false; this._id = `page${(this._b.pageN = (this._b.pageN ?? 0) + 1)}`;
    this._defaultTimeout = 30000; this._url = "about:blank";
    this.renderer = new SimProcess(this._b.sim, { name: this._id, tolerateUncaught: true });
    this.model = this._b.o.makeModel(this);
    this.keyboard = { press: (k) => this._op("keyboard.press", () => this.model.input?.("press", k)), type: (k) => this._op("keyboard.type", () => this.model.input?.("type", k)) };
    this.mouse = { move: (x, y) => this._op("mouse.move", () => this.model.input?.("move", x, y)), click: (x, y) => this._op("mouse.click", () => this.model.input?.("click", x, y)), wheel: (x, y) => this._op("mouse.wheel", () => this.model.input?.("wheel", x, y)) };
    pageSerial++;
  }
  _op(label, f, o) { return this._b.op(`page.${label}`, this, f, o); }
  _die(why) { if (this._closed) return; this._closed = true; this.renderer.die(why); for (const p of this._pending ?? []) { if (this._b.proc.alive) this._b.proc.io(0.1, () => p.reject(closedErr(p.label)), `${this._id}:${p.label}!gone`); } this._pending?.clear(); this.emit("close", this); }
  _crash() { this.emit("crash", this); this._crashed = true; this._die("page crash"); }
  context() { return this._ctx; }
  isClosed() { return this._closed; }
  url() { return this._url; }
  viewportSize() { return this._viewport ?? this._ctx._opts.viewport ?? { width: 1280, height: 720 }; }
  setViewportSize(v) { return this._op("setViewportSize", () => { this._viewport = { ...v }; this.model.resized?.(v); }); }
  setDefaultTimeout(t) { this._defaultTimeout = t; } setDefaultNavigationTimeout() {}
  mainFrame() { return (this._frame ??= { url: () => this._url, evaluate: (f, a) => this.evaluate(f, a), childFrames: () => [], page: () => this, parentFrame: () => null, name: () => "" }); }
  frames() { return [this.mainFrame()]; }
  setContent(html, o = {}) { return this._op("setContent", () => this.model.setContent(html, o), { max: 60, timeout: o.timeout ?? this._defaultTimeout }); }
  goto(url, o = {}) { return this._op("goto", () => { this._url = url; return this.model.goto?.(url, o) ?? null; }, { max: 200, timeout: o.timeout ?? this._defaultTimeout }); }
  content() { return this._op("content", () => this.model.content?.() ?? ""); }
  evaluate(fn, arg) { return this._op("evaluate", () => this.model.evaluate(fn, arg), { max: 6, timeout: this.evalHangMs ?? 30000 }); }
  async evaluateHandle(fn, arg) { return this._op("evaluateHandle", () => this.model.evaluateHandle?.(fn, arg)); }
  screenshot(o = {}) { return this._op("screenshot", () => this.model.screenshot(o), { min: 2, max: 80, timeout: o.timeout ?? this._defaultTimeout }); }
  waitForTimeout(ms) { return this._op("waitForTimeout", () => this._b.proc.later(ms, () => {}, `${this._id}:waitForTimeout`)); }
  waitForLoadState(s, o = {}) { return this._poll("waitForLoadState", () => this.model.loadState?.(s) ?? true, o.timeout ?? this._defaultTimeout); }
  waitForSelector(s, o = {}) { return this._poll("waitForSelector", () => this.model.hasSelector?.(s, o) ?? true, o.timeout ?? this._defaultTimeout); }
  waitForFunction(fn, arg, o = {}) { return this._poll("waitForFunction", () => this.model.evaluate(fn, arg), o?.timeout ?? this._defaultTimeout); }
  _poll(label, pred, timeout) {
    const { sim, proc } = this._b; const end = timeout > 0 ? sim.now + timeout : Infinity;
    return this._op(label, () => new Promise((res, rej) => {
      const tick = async () => {
        let ok = false; try { ok = await pred(); } catch (e) { rej(e); return; }
        if (ok) { res({ asElement: () => null, dispose() {} }); return; }
        if (sim.now >= end) { rej(pwError(`page.${label}: Timeout ${timeout}ms exceeded.`, "TimeoutError")); return; }
        if (this._closed) { rej(closedErr(label)); return; }
        proc.io(Math.min(50, Math.max(0.1, end - sim.now)), tick, `${this._id}:${label}.poll`);
      };
      tick();
    }), { timeout });
  }
  click(s, o) { return this._op("click", () => this.model.input?.("click", s), { timeout: this._defaultTimeout }); }
  fill(s, v) { return this._op("fill", () => this.model.input?.("fill", s, v)); }
  hover(s) { return this._op("hover", () => this.model.input?.("hover", s)); }
  focus(s) { return this._op("focus", () => this.model.input?.("focus", s)); }
  selectOption(s, v) { return this._op("selectOption", () => this.model.input?.("select", s, v)); }
  addStyleTag(o) { return this._op("addStyleTag", () => this.model.addStyleTag?.(o)); }
  addScriptTag(o) { return this._op("addScriptTag", () => this.model.addScriptTag?.(o)); }
  addInitScript(s, a) { return this._op("addInitScript", () => {}); }
  emulateMedia(o) { return this._op("emulateMedia", () => { this._media = { ...(this._media ?? {}), ...o }; }); }
  route(u, h) { return this._op("route", () => {}); } unroute() { return this._op("unroute", () => {}); }
  exposeFunction(n, f) { return this._op("exposeFunction", () => { this.model.expose?.(n, f); }); }
  exposeBinding(n, f) { return this._op("exposeBinding", () => { this.model.expose?.(n, f); }); }
  bringToFront() { return this._op("bringToFront", () => {}); }
  $(s) { return this._op("$", () => (this.model.hasSelector?.(s, {}) ? this._el(s) : null)); }
  locator(s) { const self = this; const l = { first: () => l, nth: () => l, count: () => self._op("locator.count", () => (self.model.hasSelector?.(s, {}) ? 1 : 0)), screenshot: (o) => self.screenshot(o), boundingBox: () => self._op("locator.boundingBox", () => self.model.box?.(s) ?? null), click: () => self.click(s), evaluate: (f, a) => self.evaluate(f, a), waitFor: (o) => self.waitForSelector(s, o ?? {}) }; return l; }
  _el(s) { return { boundingBox: () => this._op("el.boundingBox", () => this.model.box?.(s) ?? null), screenshot: (o) => this.screenshot(o), dispose: async () => {} }; }
  pdf(o = {}) { return this._op("pdf", () => this.model.pdf?.(o) ?? Buffer.alloc(0)); }
  async close() { if (this._closed) return; await this._op("close", () => { this._die("page closed"); }, { noFault: true }); }
}

/** Evaluate page-side code from its source text with page globals. */
const fnCache = new Map();
export function pageEval(globals, fn, arg) {
  const names = Object.keys(globals).sort();
  const src = typeof fn === "function" ? `(${fn.toString()})` : String(fn);
  const key = names.join() + "\0" + typeof fn + src;
  let f = fnCache.get(key);
  if (f == null) {
    const body = typeof fn === "function" ? `return ${src}` : `return eval(__src)`;
    f = typeof fn === "function" ? vm.compileFunction(body, names) : vm.compileFunction(`"use strict"; return (${src.replace(/;\s*$/, "")})`, names);
    fnCache.set(key, f); if (fnCache.size > 4000) fnCache.clear();
  }
  const v = f(...names.map((n) => globals[n]));
  const a = arg === undefined ? undefined : structuredClone(arg);
  const r = typeof fn === "function" ? v(a) : v;
  if (r != null && typeof r.then === "function") return r.then((x) => cloneOut(x));
  return cloneOut(r);
}
function cloneOut(x) { if (x == null || typeof x !== "object") return typeof x === "function" ? undefined : x; try { return structuredClone(x); } catch { return JSON.parse(JSON.stringify(x)); } }

export function pageGlobals(sim, page) {
  const t = makeTimers(sim, page.renderer); const D = makeDate(sim);
  return { setTimeout: t.setTimeout, clearTimeout: t.clear, setInterval: t.setInterval, clearInterval: t.clear, Date: D, performance: { now: () => sim.now } };
}
