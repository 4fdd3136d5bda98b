// A page that plays an animated SVG: a vsync-driven compositor over Web-Animations
// and SMIL clocks.  Animations are declared in the markup as
// data-sim='[{"d":1000,"it":"inf","delay":0,"end":0,"late":1,"kf":[...]}]' (+ data-smil).
import { pageEval, pageGlobals } from "./browser.mjs";

export function simSvg(o) {
  const js = JSON.stringify(o.anims).replace(/"/g, "&quot;");
  const size = o.size ?? 'viewBox="0 0 40 30" width="40" height="30"';
  return `${o.prolog ?? ""}<svg xmlns="http://www.w3.org/2000/svg" ${size} data-tag="${o.tag ?? "a"}" data-sim="${js}"${o.smil ? ' data-smil="1"' : ""}>${o.smil ? '<rect><animate attributeName="x" dur="1s"/></rect>' : ""}${o.body ?? ""}</svg>`;
}

class Anim {
  constructor(page, spec, paused) { this.page = page; this.spec = spec; this.start = paused ? null : page.now(); this.hold = paused ? 0 : null; this.live = true; }
  get playState() { return this.hold != null ? "paused" : "running"; }
  pause() { if (this.spec.refuse) throw new Error("InvalidStateError"); if (this.hold == null) { this.hold = this.currentTime; this.start = null; } }
  play() { if (this.hold != null) { this.start = this.page.now() - this.hold; this.hold = null; } }
  cancel() { this.live = false; } finish() {}
  get currentTime() { return this.hold != null ? this.hold : this.page.now() - this.start; }
  set currentTime(t) { if (this.hold != null) this.hold = t; else this.start = this.page.now() - t; }
  get effect() {
    const s = this.spec; const it = s.it === "inf" ? Infinity : s.it;
    if (s.noEffect) return null;
    return { target: null, getComputedTiming: () => { if (s.badTiming) throw new Error("timing"); return { duration: s.d, iterations: it, delay: s.delay ?? 0, endDelay: s.end ?? 0, activeDuration: s.d * it, endTime: (s.delay ?? 0) + s.d * it + (s.end ?? 0) }; }, getKeyframes: () => s.kf ?? [] };
  }
}

export class SvgPageModel {
  constructor(page, o = {}) {
    this.page = page; this.sim = page._b.sim; this.o = o; this.vsync = o.vsync ?? 1000 / 60; this.raf = []; this.rafId = 1;
    this.painted = null; this.loads = 0; this.doc = null; this.shots = [];
    this.g = pageGlobals(this.sim, page); this._tick();
  }
  now() { return this.sim.now; }
  _tick() {
    const { sim, page } = this;
    const d = this.o.slowFrame && sim.choices.chance(0.1, "slow-frame") ? sim.choices.delay(20, 300, "frame") : this.vsync;
    sim.schedule(d, () => { this._frame(); this._tick(); }, { kind: "proc", proc: page.renderer, label: `${page._id}:vsync`, cls: "io", fifo: `${page._id}:vsync`, ref: false });
  }
  _frame() {
    const cbs = this.raf; this.raf = [];
    for (const c of cbs) { try { c.f(this.sim.now); } catch { /* page error */ } }
    // style recalc: late animations join the timeline now
    const d = this.doc;
    if (d) for (const a of d.late.splice(0)) d.anims.push(new Anim(this, a.spec, d.paused));
    this.painted = d ? this._state() : null;
  }
  _state() {
    const d = this.doc;
    return { tag: d.tag, load: d.load, bg: d.bg, anims: d.anims.map((a) => ({ id: a.spec.id, t: a.currentTime, paused: a.hold != null })), missing: d.late.length, smil: d.smil ? d.smil.map((s) => ({ t: s.getCurrentTime(), paused: s.hold != null })) : null };
  }
  setContent(html) {
    this.loads++;
    const m = /data-sim="([^"]*)"/.exec(html); const specs = m ? JSON.parse(m[1].replace(/&quot;/g, '"')) : [];
    const tag = /data-tag="([^"]*)"/.exec(html)?.[1] ?? null; const smil = html.includes('data-smil="1"');
    const paused = /animation-play-state:\s*paused/.test(html); const bg = /background:([^}]*)\}/.exec(html)?.[1] ?? null;
    const self = this;
    const doc = { html, tag, bg, paused, load: this.loads, anims: [], late: [], root: {}, raw: specs };
    specs.forEach((spec, i) => { const s = { ...spec, id: i }; if (s.late && this.o.lateAnims) doc.late.push({ spec: s }); else doc.anims.push(new Anim(this, s, paused)); });
    const mkSvg = (hasSmil) => ({
      start: self.now(), hold: null,
      pauseAnimations() { if (this.hold == null) { this.hold = self.now() - this.start; } }, unpauseAnimations() { if (this.hold != null) { this.start = self.now() - this.hold; this.hold = null; } },
      setCurrentTime(s) { if (this.hold != null) this.hold = s * 1000; else this.start = self.now() - s * 1000; }, getCurrentTime() { return this.hold != null ? this.hold / 1000 : (self.now() - this.start) / 1000; },
      animationsPaused() { return this.hold != null; }, querySelector: (q) => (hasSmil && /animate/.test(q) ? {} : null), querySelectorAll: () => [],
    });
    doc.svgs = /<svg[\s>]/i.test(html) ? [mkSvg(smil)] : []; doc.smil = smil ? doc.svgs : null;
    this.doc = doc; this.raf = []; this.painted = null;
    this.g.document = { documentElement: doc.root, body: { style: {} }, getAnimations: () => doc.anims.filter((a) => a.live), querySelectorAll: (q) => (q === "svg" ? doc.svgs : []), querySelector: (q) => (/^svg/.test(q) ? doc.svgs[0] ?? null : null), fonts: { ready: Promise.resolve() }, timeline: { get currentTime() { return self.now(); } } };
    this.g.requestAnimationFrame = (f) => { const id = this.rafId++; this.raf.push({ id, f }); return id; };
    this.g.cancelAnimationFrame = (id) => { this.raf = this.raf.filter((r) => r.id !== id); };
    this.g.window = this.g; this.g.globalThis = this.g;
    return null;
  }
  evaluate(fn, arg) { if (this.doc == null) this.setContent(""); return pageEval(this.g, fn, arg); }
  /** What the compositor last painted (a first paint is forced if none happened yet). */
  screenshot(o) {
    if (this.doc == null) this.setContent("");
    if (this.painted == null) this._frame();
    const vp = this.page.viewportSize(); const dsf = this.page._ctx._opts.deviceScaleFactor ?? 1;
    const k = o.scale === "css" ? 1 : dsf;
    const st = { ...this.painted, alpha: o.omitBackground === true, animations: o.animations ?? "allow", w: vp.width * k, h: vp.height * k, n: this.shots.length, clip: o.clip ?? null, type: o.type ?? "png", quality: o.quality ?? null };
    this.shots.push(st);
    const pad = this.o.framePad ? this.sim.choices.pick(this.o.framePad, "frame-bytes") : 0;
    const buf = encodeShot(st, pad);
    this.lastShot = buf; this.o.onShot?.(st, buf);
    return buf;
  }
  /** A printed page: what the compositor shows, on the paper asked for. */
  pdf(o) { if (this.painted == null) this._frame(); return encodeShot({ ...this.painted, type: "pdf", alpha: false, paper: o, media: this.page._media?.media ?? "print", animations: "allow", quality: null }); }
}

// "PNG" stand-in: 8-byte signature, 4-byte length, JSON state, padding.
const SIG = Buffer.from([0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a]);
export function encodeShot(st, pad = 0) { const j = Buffer.from(JSON.stringify(st)); const h = Buffer.alloc(8); h.writeUInt32BE(j.length, 0); h.writeUInt32BE(pad, 4); return Buffer.concat([SIG, h, j, Buffer.alloc(pad, 7)]); }
export function decodeShots(buf) {
  const out = []; let i = 0;
  while (i < buf.length) {
    if (buf.length - i < 16 || !buf.subarray(i, i + 8).equals(SIG)) { out.push({ broken: true, at: i }); return out; }
    const n = buf.readUInt32BE(i + 8), pad = buf.readUInt32BE(i + 12);
    if (i + 16 + n + pad > buf.length) { out.push({ broken: true, truncated: true, at: i }); return out; }
    out.push(JSON.parse(buf.subarray(i + 16, i + 16 + n).toString())); i += 16 + n + pad;
  }
  return out;
}
