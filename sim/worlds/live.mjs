// Pages that live: they change on their own timers, in their own process, and
// react to events, keystrokes and forced states; every version they ever showed
// is on record.
import { SimProcess } from "../core/sim.mjs";
import { makeTimers } from "../core/globals.mjs";
import { pageEval } from "./browser.mjs";
import { textEl, boxEl, ADV } from "./stage.mjs";

const SIZE = 20, ROW = 28;
export const CARET = "rgb(1, 2, 3)";
const HIDE = 0.02;

export class LEl {
  constructor(doc, o) {
    this.doc = doc; this.tag = o.tag ?? "p"; this.id = o.id ?? ""; this.cls = new Set(o.cls ?? []); this._text = o.text ?? ""; this.css = { ...(o.css ?? {}) }; this.kids = []; this.parent = null; this.attrs = {}; this.anim = undefined;
    const me = this;
    this.dataset = new Proxy({}, { set(t, k, v) { t[k] = v; doc.mutated({ type: "attributes", target: me, stamp: k === "domotionAnim" }); return true; }, deleteProperty(t, k) { delete t[k]; doc.mutated({ type: "attributes", target: me, stamp: k === "domotionAnim" }); return true; } });
    this.style = { setProperty: (k, v) => { me.css[k] = v; doc.mutated({ type: "attributes", target: me }); }, removeProperty: (k) => { delete me.css[k]; doc.mutated({ type: "attributes", target: me }); } };
    this.classList = { add: (k) => me.klass(k, true), remove: (k) => me.klass(k, false), toggle: (k) => me.klass(k, !me.cls.has(k)), contains: (k) => me.cls.has(k) };
    for (const k of o.kids ?? []) this.put(makeEl(doc, k));
  }
  put(e) { e.parent = this; this.kids.push(e); return e; }
  klass(k, on) { if (on) this.cls.add(k); else this.cls.delete(k); this.doc.mutated({ type: "attributes", target: this }); }
  get tagName() { return this.tag.toUpperCase(); } get isContentEditable() { return false; } get childNodes() { const me = this; return this._text === "" ? [...this.kids] : [{ nodeType: 3, childNodes: [], get textContent() { return me._text; }, set textContent(v) { me._text = String(v); me.doc.mutated({ type: "characterData", target: me }); } }, ...this.kids]; } get children() { return this.kids; } get parentElement() { return this.parent; } get isConnected() { return this === this.doc.body || (this.parent?.isConnected ?? false); }
  get nodeType() { return 1; }
  get textContent() { return this._text + this.kids.map((k) => k.textContent).join(""); }
  set textContent(v) { const old = this.kids; for (const k of old) k.parent = null; this.kids = []; this._text = String(v); this.doc.mutated({ type: "childList", target: this, addedNodes: [{}], removedNodes: [{}, ...old] }); }
  getAttribute(k) { return k === "id" ? this.id : k === "class" ? [...this.cls].join(" ") : this.attrs[k] ?? (k.startsWith("data-") ? this.dataset[k.slice(5).replace(/-(.)/g, (_, x) => x.toUpperCase())] ?? null : null); }
  setAttribute(k, v) { if (k.startsWith("data-")) { this.dataset[k.slice(5).replace(/-(.)/g, (_, x) => x.toUpperCase())] = String(v); return; } this.attrs[k] = String(v); this.doc.mutated({ type: "attributes", target: this }); }
  removeAttribute(k) { if (k.startsWith("data-")) { delete this.dataset[k.slice(5).replace(/-(.)/g, (_, x) => x.toUpperCase())]; return; } delete this.attrs[k]; this.doc.mutated({ type: "attributes", target: this }); }
  hasAttribute(k) { return this.getAttribute(k) != null; }
  remove() { const p = this.parent; if (p == null) return; p.kids.splice(p.kids.indexOf(this), 1); this.parent = null; this.doc.mutated({ type: "childList", target: p, addedNodes: [], removedNodes: [this] }); }
  append(o) { const e = this.put(makeEl(this.doc, o)); this.doc.mutated({ type: "childList", target: this, addedNodes: [e], removedNodes: [] }); return e; }
  contains(e) { for (let p = e; p != null; p = p.parent) if (p === this) return true; return false; }
  matches(sel) { return sel.split(",").some((s) => { s = s.trim(); const d = /^\[data-([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(s); if (d) { const v = this.dataset[d[1].replace(/-(.)/g, (_, x) => x.toUpperCase())]; return v != null && (d[2] == null || v === d[2]); } return s === "*" || s === `#${this.id}` || s === this.tag || (s[0] === "." && this.cls.has(s.slice(1))); }); }
  closest(sel) { for (let p = this; p != null; p = p.parent) if (p.matches(sel)) return p; return null; }
  walk(out = []) { for (const k of this.kids) { out.push(k); k.walk(out); } return out; }
  querySelectorAll(sel) { return this.walk().filter((e) => e.matches(sel)); } querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; } getElementsByTagName(s) { return this.querySelectorAll(s); }
  getBoundingClientRect() { const b = this.doc.layout().get(this) ?? { x: 0, y: 0, width: 0, height: 0 }; return { ...b, left: b.x, top: b.y, right: b.x + b.width, bottom: b.y + b.height }; }
  dispatchEvent(ev) { this.doc.fire(this, ev); return true; }
  addEventListener() {} removeEventListener() {} blur() { if (this.doc.focused === this) { this.doc.focused = null; this.doc.bump(); } } focus() { this.doc.focused = this; this.doc.bump(); } scrollIntoView() {} click() { this.doc.fire(this, { type: "click", bubbles: true }); }
}
export class LInput extends LEl {
  constructor(doc, o) { super(doc, { ...o, tag: "input" }); this._value = o.value ?? ""; this.placeholder = o.placeholder ?? ""; this.mask = o.mask ?? "none"; this.selectionEnd = this._value.length; this.scrollLeft = 0; this.type = "text"; }
  get value() { return this._value; } set value(v) { this._value = String(v); this.selectionEnd = this._value.length; if (!this.doc.quiet) this.doc.muts.push({ t: this.doc.sim.now, type: "value", target: this }); this.doc.bump(); }
  /** The page's own handler of "input". */
  reformat() { const v = this._value; const m = { none: v, upper: v.toUpperCase(), group: v.replace(/ /g, "").replace(/(.{3})(?=.)/g, "$1 "), max: v.slice(0, 4) }[this.mask]; if (m !== v) this.value = m; }
}
const makeEl = (doc, o) => (o.tag === "input" ? new LInput(doc, o) : new LEl(doc, o));
const matrixOf = (t) => { if (t == null || t === "none") return [0, 0]; const m = /translate\(\s*(-?[\d.]+)px\s*,\s*(-?[\d.]+)px\s*\)/.exec(t); if (!m) throw new Error(`page transform ${t}`); return [+m[1], +m[2]]; };

/** spec: {body: [element…], rules: [{sel, when?: {sel, state}, props}], script: [[ms, mutation…]], handlers: [{sel, type, script}]} */
export class LiveDoc {
  constructor(page, spec) {
    this.page = page; this.sim = page.sim; this.spec = spec; this.observers = new Set(); this.forced = new Map(); this.hovered = null; this.focused = null; this.hist = []; this.muts = []; this._layout = null; this.fired = 0; this.quiet = true;
    this.body = new LEl(this, { tag: "body", kids: spec.body }); this.html = new LEl(this, { tag: "html" }); this.html.put(this.body); this.quiet = false;
    this.timers = makeTimers(this.sim, page.pproc); this.bump();
    this.play(spec.script ?? []);
    if (spec.ticks) { let n = 0; const tick = () => { n++; const e = this.find("#tick")[0]; if (e) { e.textContent = `t${n}`; } if (n < spec.ticks.n) this.timers.setTimeout(tick, spec.ticks.ms); }; this.timers.setTimeout(tick, spec.ticks.ms); }
  }
  get documentElement() { return this.html; }
  find(sel) { return [this.body, ...this.body.walk()].filter((e) => e.matches(sel)); }
  play(script) { for (const [ms, ...list] of script) { const run = () => { for (const m of list) this.mutate(m); }; if (ms === 0) run(); else this.timers.setTimeout(run, ms); } }
  mutate(m) {
    const els = m.sel ? this.find(m.sel) : [];
    switch (m.k) {
      case "text": for (const e of els) e.textContent = m.v; break;
      case "add": for (const e of this.find(m.to)) e.append(structuredClone(m.el)); break;
      case "remove": for (const e of els) e.remove(); break;
      case "class": for (const e of els) e.klass(m.cls, m.on); break;
      case "style": for (const e of els) for (const [k, v] of Object.entries(m.props)) e.style.setProperty(k, v); break;
      case "attr": for (const e of els) e.setAttribute(m.name, m.v); break;
      default: throw new Error(`mutation ${m.k}`);
    }
  }
  mutated(rec) {
    if (this.quiet) return; this.muts.push({ t: this.sim.now, type: rec.type, target: rec.target, stamp: rec.stamp === true }); this.bump();
    for (const o of this.observers) o._take({ addedNodes: [], removedNodes: [], ...rec });
  }
  fire(el, ev) {
    this.page.note("event", { type: ev.type, id: el.id });
    for (let e = el; e != null; e = e.parent) { for (const h of this.spec.handlers ?? []) if (h.type === ev.type && e.matches(h.sel)) this.play(h.script); if (ev.bubbles === false) break; }
  }
  input(el) { el.reformat(); for (const h of this.spec.handlers ?? []) if (h.type === "input" && el.matches(h.sel)) { const n = el.value.length; this.play(h.script.map(([ms, ...l]) => [ms, ...l.map((m) => (m.k === "text" ? { ...m, v: m.v.replace("%n", String(n)) } : m.k === "class" ? { ...m, on: n >= (m.from ?? 0) } : m))])); } }
  inState(el, s) { if (s === "hover" && this.hovered != null && el.contains(this.hovered)) return true; if (s === "focus" && this.focused === el) return true; for (const m of this.forced.values()) for (const f of m.values()) if (f.el === el && f.states.includes(s)) return true; return false; }
  styleOf(el) {
    const o = { display: "block", visibility: "visible", color: "rgb(10, 20, 30)", opacity: "1", transform: "none" };
    if (el.parent != null) { const p = this.styleOf(el.parent); o.visibility = p.visibility; o.color = p.color; }
    for (const r of this.spec.rules ?? []) if (el.matches(r.sel) && (r.when == null || this.find(r.when.sel).some((e) => this.inState(e, r.when.state)))) Object.assign(o, r.props);
    Object.assign(o, el.css); return o;
  }
  computed(el) {
    const s = this.styleOf(el); const [dx, dy] = matrixOf(s.transform);
    const cs = { ...s, transform: s.transform === "none" ? "none" : `matrix(1, 0, 0, 1, ${dx}, ${dy})`, backgroundColor: "rgba(0, 0, 0, 0)", backgroundImage: "none", boxShadow: "none", borderColor: s.color, borderTopColor: s.color, borderRightColor: s.color, borderBottomColor: s.color, borderLeftColor: s.color, outlineColor: s.color, cursor: "auto", userSelect: "auto", writingMode: "horizontal-tb", font: `${SIZE}px SimA`, fontSize: `${SIZE}px`, lineHeight: `${SIZE * 1.2}px`, letterSpacing: "normal", wordSpacing: "normal", caretColor: CARET };
    for (const k of ["Top", "Right", "Bottom", "Left"]) { cs[`border${k}Width`] = "0px"; cs[`padding${k}`] = k === "Left" && el instanceof LInput ? "4px" : "0px"; } cs.outlineWidth = "0px"; cs.getPropertyValue = (k) => cs[k.replace(/-(.)/g, (_, x) => x.toUpperCase())] ?? ""; return cs;
  }
  layout() {
    if (this._layout) return this._layout; const map = new Map(); let y = 8;
    const go = (el, x, dx, dy) => { const s = this.styleOf(el); if (s.display === "none") return; const [tx, ty] = matrixOf(s.transform); const y0 = y; if (el.tag !== "body" && el.tag !== "html" && !(el._text === "" && el.kids.length > 0 && !(el instanceof LInput))) y += ROW; for (const k of el.kids) go(k, x + 12, dx + tx, dy + ty); map.set(el, { x: x + dx + tx, y: y0 + dy + ty, width: 360, height: y - y0 }); };
    go(this.body, 0, 0, 0); return (this._layout = map);
  }
  visible(el) { if (!this.layout().has(el)) return false; const b = this.layout().get(el); return this.styleOf(el).visibility !== "hidden" && b.height > 0; }
  ink(el) { return el instanceof LInput ? (el.value === "" ? el.placeholder : el.value) : el._text; }
  /** What shows, as [{ch, x, y, size, fill, op, el}]. */
  items() {
    const out = []; const lay = this.layout();
    const go = (el, op) => { const b = lay.get(el); if (!b) return; const s = this.styleOf(el); const o = op * parseFloat(s.opacity); if (o < HIDE) return; if (s.visibility !== "hidden") { let x = b.x + (el instanceof LInput ? 4 : 0); const fill = el instanceof LInput && el.value === "" ? "rgb(150, 150, 150)" : s.color; for (const ch of this.ink(el)) { if (ch !== " ") out.push({ ch, x, y: b.y + SIZE * 0.8, size: SIZE, fill, op: o, el }); x += SIZE * ADV; } } for (const k of el.kids) go(k, o); };
    go(this.body, 1); return out;
  }
  bump() { this._layout = null; if (this.quiet) return; const items = this.items(); const conds = this.page.b.watch.map((w) => w(this)); const key = keyOf(items) + conds.map((b) => (b ? "1" : "0")).join(""); const last = this.hist[this.hist.length - 1]; if (last && last.key === key) return; this.hist.push({ t: this.sim.now, key, items, conds }); }
  tree(sel) {
    const lay = this.layout(); const [root] = this.find(sel); if (!root) throw new Error(`captureElementTree: selector "${sel}" matched no element`);
    const go = (el) => {
      const b = lay.get(el); if (!b) return null; const s = this.styleOf(el); const ink = this.ink(el); const field = el instanceof LInput; const fill = field && el.value === "" ? "rgb(150, 150, 150)" : s.color; const st = { color: fill, opacity: s.opacity, visibility: s.visibility };
      const anim = el.dataset.domotionAnim; const kids = el.kids.map(go).filter(Boolean);
      const own = ink.trim() === "" || s.visibility === "hidden" ? null : textEl({ text: ink, x: b.x + (field ? 4 : 0), y: b.y, size: SIZE, font: "SimA", color: fill, styles: { color: fill, visibility: s.visibility } });
      if (kids.length === 0 && own && anim == null && s.opacity === "1") { own.tag = el.tag; return own; }
      return boxEl([...(own ? [own] : []), ...kids], { tag: el.tag === "body" ? "body" : "section", x: b.x, y: b.y, width: b.width, height: b.height, anim, styles: st });
    };
    const t = go(root); return t ? [t] : [];
  }
}
export const keyOf = (items) => items.map((q) => `${q.ch}@${Math.round(q.x)},${Math.round(q.y)},${String(q.fill).replace(/\s+/g, "")},${q.op.toFixed(1)}`).sort().join(" ");

class Observer { constructor(doc, cb) { this.doc = doc; this.cb = cb; this.q = []; } observe() { this.doc.observers.add(this); } disconnect() { this.doc.observers.delete(this); this.q = []; } takeRecords() { const r = this.q; this.q = []; return r; } _take(rec) { this.q.push(rec); if (this.q.length === 1) queueMicrotask(() => { const r = this.takeRecords(); if (r.length) this.cb(r, this); }); } }

const timeoutErr = (what, ms, sel) => Object.assign(new Error(`page.${what}: Timeout ${ms}ms exceeded.${sel ? `\nCall log:\n  - waiting for locator('${sel}')` : ""}`), { name: "TimeoutError" });
const closedErr = (what) => new Error(`page.${what}: Target page, context or browser has been closed`);

/** o: {sim, proc, sites, register, lat(), fault(label), watch: [doc → bool]} */
export class LiveBrowser {
  constructor(o) { Object.assign(this, o); this.contexts = []; this.pages = []; this.watch ??= []; this.serial = 0; }
  op(label, fn) { return this.proc.later(this.lat(label), () => { this.fault?.(label); return fn(); }, `page:${label}`); }
  newContext(o) { return this.op("newContext", () => { const c = new LiveContext(this, o ?? {}); this.contexts.push(c); return c; }); }
  get open() { return this.contexts.filter((c) => !c.closed); }
  isConnected() { return true; }
}
class LiveContext {
  constructor(b, o) { this.b = b; this.o = o; this.closed = false; this.pages = []; this.timeout = 30000; }
  setDefaultTimeout(t) { this.timeout = t; } setDefaultNavigationTimeout() {}
  newPage() { return this.b.op("newPage", () => { const p = new LivePage(this); this.pages.push(p); this.b.pages.push(p); return p; }); }
  addInitScript() { return this.b.op("addInitScript", () => {}); } __brand() { return this.b.op("addInitScript", () => {}); }
  newCDPSession(page) { return this.b.op("newCDPSession", () => new Cdp(page)); }
  close() { return this.b.proc.later(1, () => { this.closed = true; for (const p of this.pages) p.unload(); }, "page:context-close"); }
}
class Cdp {
  constructor(page) { this.page = page; this.map = new Map(); this.open = true; page.sessions.push(this); }
  send(method, p = {}) {
    return this.page.op(`cdp.${method}`, () => {
      if (!this.open) throw new Error("cdpSession.send: Session closed"); const d = this.page.doc;
      if (method === "DOM.getDocument") { this.ids = new Map(); this.doc = d; const id = this.page.serial++; this.ids.set(id, d.html); return { root: { nodeId: id } }; }
      const at = (id) => { const e = this.doc === d ? this.ids?.get(id) : null; if (!e) throw new Error(`Protocol error (${method}): Could not find node with given id`); return e; };
      if (method === "DOM.querySelectorAll" || method === "DOM.querySelector") { const r = at(p.nodeId); const els = [r, ...r.walk()].filter((e) => e.matches(p.selector)); const ids = els.map((e) => { for (const [k, v] of this.ids) if (v === e) return k; const k = this.page.serial++; this.ids.set(k, e); return k; }); return method === "DOM.querySelector" ? { nodeId: ids[0] ?? 0 } : { nodeIds: ids }; }
      if (method === "CSS.forcePseudoState") { const e = at(p.nodeId); if (!d.forced.has(this)) d.forced.set(this, new Map()); const m = d.forced.get(this); if (p.forcedPseudoClasses.length) m.set(p.nodeId, { el: e, states: [...p.forcedPseudoClasses] }); else m.delete(p.nodeId); this.page.note("force", { id: e.id, states: p.forcedPseudoClasses.join() }); d.bump(); return {}; }
      if (method === "CSS.disable") { d.forced.delete(this); d.bump(); }
      return {};
    });
  }
  detach() { return this.page.op("cdp.detach", () => { this.open = false; this.page.doc?.forced.delete(this); this.page.doc?.bump(); }); }
}

class LivePage {
  constructor(ctx) { this.ctx = ctx; this.b = ctx.b; this.sim = ctx.b.sim; this.doc = null; this.docs = []; this.log = []; this.timeout = ctx.timeout; this.navTimeout = null; this.__trackers = 0; this.captures = 0; this.sessions = []; this.serial = 1; this.listeners = {}; this.frame = { url: () => this.doc?.url ?? "about:blank" }; this.n = ++this.b.serial; this.keyboard = { type: (t) => this.op("keyboard.type", () => { for (const ch of t) this.key(ch); }), press: (k) => this.op("keyboard.press", () => { this.note("press", { k }); if (k.length === 1) this.key(k); }) }; this.mouse = { move: () => this.op("mouse.move", () => {}) }; }
  note(op, x = {}) { this.log.push({ t: this.sim.now, op, ...x }); }
  op(l, f) { return this.b.op(l, () => { if (this.ctx.closed) throw closedErr(l); return f(); }); }
  context() { return this.ctx; } mainFrame() { return this.frame; } url() { return this.frame.url(); } isClosed() { return this.ctx.closed; }
  on(ev, f) { (this.listeners[ev] ??= []).push(f); return this; } off(ev, f) { this.listeners[ev] = (this.listeners[ev] ?? []).filter((x) => x !== f); return this; } once(ev, f) { return this.on(ev, f); }
  setDefaultTimeout(t) { this.timeout = t; } setDefaultNavigationTimeout(t) { this.navTimeout = t; }
  unload() { if (this.pproc?.alive) this.pproc.die("page unloaded"); }
  goto(url) {
    return this.op("goto", () => { const spec = this.b.sites.get(url); if (!spec) throw new Error(`page.goto: net::ERR_NAME_NOT_RESOLVED at ${url}`); this.unload(); this.pproc = new SimProcess(this.sim, { name: `page${this.n}.${this.docs.length}`, tolerateUncaught: true }); this.note("goto", { url }); this.doc = new LiveDoc(this, spec); this.doc.url = url; this.docs.push(this.doc); for (const f of this.listeners.framenavigated ?? []) f(this.frame); return this.b.proc.later(spec.loadMs ?? 20, () => null, "page:load-event"); });
  }
  waitForTimeout(ms) { return this.b.proc.later(Math.max(0, ms), () => {}, "page:wait"); }
  /** Poll inside the page until pred holds. */
  poll(what, pred, o = {}, sel) {
    const ms = o.timeout ?? this.timeout; const start = this.sim.now;
    return this.op(what, () => new Promise((res, rej) => {
      const pp = this.pproc; pp.onDeath.push(() => { if (this.b.proc.alive) this.b.proc.io(0.1, () => rej(closedErr(what)), `page:${what}!gone`); });
      const tick = () => { let ok; try { ok = pred(); } catch (e) { rej(e); return; } if (ok) { this.b.proc.io(this.b.lat("answer"), () => res(ok), `page:${what}.done`); return; } if (ms > 0 && this.sim.now - start >= ms) { this.b.proc.io(0.1, () => rej(timeoutErr(what, ms, sel)), `page:${what}.timeout`); return; } const left = ms > 0 ? ms - (this.sim.now - start) : 16; this.sim.schedule(this.sim.now - start > 8000 ? Math.min(Math.max(left, 0.1), 200) : Math.min(Math.max(left, 0.1), 16), tick, { proc: pp, cls: "timer", label: `page:raf` }); };
      tick();
    }));
  }
  act(what, sel, fn, o) { return this.poll(what, () => { const e = this.doc.find(sel)[0]; return e && this.doc.visible(e) ? e : null; }, o, sel).then((e) => fn(e)); }
  waitForSelector(sel, o = {}) { return this.poll("waitForSelector", () => { const els = this.doc.find(sel); const st = o.state ?? "visible"; const vis = els[0] != null && this.doc.visible(els[0]); return st === "attached" ? els.length > 0 : st === "detached" ? els.length === 0 : st === "hidden" ? !vis : vis; }, o, sel).then(() => null); }
  waitForFunction(fn, arg, o = {}) { return this.poll("waitForFunction", () => this.run(fn, arg), o).then(() => null); }
  click(sel, o) { return this.act("click", sel, (e) => { this.note("click", { id: e.id }); this.doc.hovered = e; this.doc.bump(); this.doc.fire(e, { type: "click", bubbles: true }); }, o); }
  hover(sel, o) { return this.act("hover", sel, (e) => { this.note("hover", { id: e.id }); this.doc.hovered = e; this.doc.bump(); }, o); }
  focus(sel, o) { return this.poll("focus", () => this.doc.find(sel)[0] ?? null, o, sel).then((e) => { this.note("focus", { id: e.id }); e.focus(); }); }
  fill(sel, v, o) { return this.act("fill", sel, (e) => { if (!(e instanceof LInput)) throw new Error("page.fill: Error: Element is not an <input>"); this.note("fill", { id: e.id, v }); this.doc.focused = e; e.value = v; this.doc.input(e); }, o); }
  key(ch) { const e = this.doc.focused; this.note("key", { k: ch, id: e?.id ?? "" }); if (e instanceof LInput) { e.value = e.value + ch; this.doc.input(e); } }
  globals() {
    const d = this.doc, me = this, t = d.timers; const cs = (e) => d.computed(e);
    const document = { fonts: { ready: Promise.resolve() }, documentElement: d.html, body: d.body, querySelector: (s) => d.find(s)[0] ?? null, querySelectorAll: (s) => d.find(s), createElement: () => ({ getContext: () => ({ font: "", letterSpacing: "", wordSpacing: "", measureText: (s) => ({ width: s.length * SIZE * ADV, fontBoundingBoxAscent: SIZE * 0.8, fontBoundingBoxDescent: SIZE * 0.2 }) }) }) };
    const window = { scrollTo() {}, scrollX: 0, scrollY: 0, innerWidth: me.ctx.o.viewport?.width ?? 1280, innerHeight: me.ctx.o.viewport?.height ?? 720 };
    const Ev = class { constructor(type, init = {}) { this.type = type; this.bubbles = init.bubbles === true; Object.assign(this, init); } };
    return { window, document, getComputedStyle: cs, HTMLElement: LEl, Element: LEl, HTMLInputElement: LInput, HTMLTextAreaElement: class {}, Node: { TEXT_NODE: 3 }, Event: Ev, MouseEvent: Ev, PointerEvent: Ev, MutationObserver: class extends Observer { constructor(cb) { super(d, cb); } }, setTimeout: t.setTimeout, clearTimeout: t.clear, requestAnimationFrame: (f) => t.setTimeout(() => f(me.sim.now), 16), performance: { now: () => me.sim.now } };
  }
  run(fn, arg) { return pageEval(this.globals(), fn, arg); }
  evaluate(fn, arg) { return this.op("evaluate", () => { const n0 = this.doc.muts.length; const r = this.run(fn, arg); const real = this.doc.muts.slice(n0).filter((x) => !x.stamp); if (real.length) this.note("script", { id: [...new Set(real.map((x) => x.target.id))].join() }); if (r == null || typeof r.then !== "function") return r; return new Promise((res, rej) => { const pp = this.pproc; pp.onDeath.push(() => { if (this.b.proc.alive) this.b.proc.io(0.1, () => rej(closedErr("evaluate")), "page:evaluate!gone"); }); r.then((v) => this.b.proc.io(this.b.lat("answer"), () => res(v), "page:evaluate.done"), (e) => this.b.proc.io(0.1, () => rej(e), "page:evaluate.err")); }); }); }
  __discover() { return this.op("discover", () => { this.b.register("SimA"); }); }
  __capture(sel) { return this.op("capture", () => { this.captures++; return this.doc.tree(sel ?? "body"); }); }
}
export { ROW, SIZE };
