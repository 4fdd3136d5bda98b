// The platform font helper as a simulated program: what it answers is a fixed
// function of one query, so any answer can be checked against its own request.
import { EventEmitter } from "node:events";
import { errno } from "./fs.mjs";

export const h32 = (s) => { let h = 0x811c9dc5; s = String(s); for (let i = 0; i < s.length; i++) { h = Math.imul(h ^ s.charCodeAt(i), 0x01000193); } h ^= h >>> 15; h = Math.imul(h, 0x2c1b3c6d); h ^= h >>> 12; return h >>> 0; };
const WORDS = ["Sans", "ヒラギノ角ゴシック", "Große", "Émile", "苹方", "𝒮cript", "Noto", "ก"];
export const uni = (k) => WORDS[h32(k + "w") % WORDS.length] + "-" + (h32(k) % 997);
const fontKey = (f) => (f == null ? "?" : [f.postscriptName ?? "", f.fontPath ?? f.path ?? "", f.size, f.variations ? JSON.stringify(f.variations) : ""].join("|"));

export const A = {
  upem: (f) => [1000, 2048, 800, 256][h32("upem" + (f.postscriptName ?? "") + (f.fontPath ?? "")) % 4],
  offset: (ps) => (h32("off" + ps) % 5 === 0 ? -100 : 0),
  meta(f) {
    const k = fontKey({ ...f, size: 0 }), ps = f.postscriptName ?? uni(k);
    return { type: "meta", unitsPerEm: A.upem(f), ascent: 700 + h32(k) % 300, descent: -(100 + h32(k + "d") % 200), underlinePosition: -(h32(k + "u") % 90), underlineThickness: 30 + h32(k + "t") % 50, strikeoutPosition: h32(k + "s") % 400, strikeoutThickness: 20 + h32(k + "st") % 60, postscriptName: ps, nameMatched: true, traitBold: h32("b" + ps) % 2 === 0, traitItalic: h32("i" + ps) % 2 === 0 };
  },
  covers: (ps, cp) => h32(`cov${ps}${cp}`) % 6 !== 0,
  gidOf: (ps, cp) => (A.covers(ps, cp) ? 1 + h32(`gid${ps}${cp}`) % 5000 : 0),
  glyph(f, q) {
    const ps = f.postscriptName ?? uni(fontKey(f)), id = q.id ?? A.gidOf(ps, q.cp);
    const k = `${ps}#${id}`, s = f.size / 1000, h = h32(k), x = (h % 80) - 20, y = (h32(k + "y") % 300) - 150, w = 40 + h % 500, hh = 50 + h32(k + "h") % 600;
    const r = (v) => Math.round(v * s * 4) / 4;
    const blank = h % 13 === 0;
    const X = r(x), Y = r(y), W = r(w), H = r(hh);
    const off = r(A.offset(ps));
    return { id, advance: r(300 + h % 900), bbox: blank ? { x: 0, y: 0, w: 0, h: 0 } : { x: X, y: Y + off, w: W, h: H }, d: blank ? "" : `M ${X} ${Y} L ${X + W} ${Y} Q ${X + W} ${Y + H} ${X} ${Y + H} C ${X} ${Y + H} ${X} ${Y + 1.5} ${X} ${Y} Z` };
  },
  shape(f, text) {
    const ps = f.postscriptName ?? uni(fontKey(f)); const out = []; let at = 0;
    for (const ch of text) {
      const g = A.glyph(f, { cp: ch.codePointAt(0) });
      if (h32(ps + text + at) % 7 !== 0) out.push({ id: g.id, cluster: at, ax: g.advance + (h32(text + at) % 20), ay: 0, dx: (h32(text + at + "x") % 9) - 4, dy: 0, d: g.d });
      at += ch.length;
    }
    return out;
  },
  fallback(base, q, cp) {
    const k = ["fb", base?.postscriptName ?? "", base?.fontPath ?? "", base?.size ?? "", q.cssWeight ?? "", q.italic ?? "", q.baseFamilyName ?? "", q.locale ?? "", q.monoEmoji ?? "", cp].join("|");
    if (h32(k + "f") % 7 === 0) return { cp, found: false };
    return { cp, found: true, postscriptName: `PS-${h32(k)}`, familyName: uni(k), path: `/fonts/${uni(k + "p")}/${h32(k)}.ttf`, covered: h32(k + "c") % 2 === 0 };
  },
  fc(lang, cp) {
    const k = `fc|${lang}|${cp}`;
    if (h32(k + "f") % 7 === 0) return { cp, found: false };
    return { cp, found: true, path: `/fonts/${uni(k)}.ttc`, index: h32(k) % 4, isBold: h32(k + "b") % 2 === 0, isItalic: h32(k + "i") % 2 === 0, family: uni(k + "fam") };
  },
  fcdiag(lang, cps) { const k = `diag|${lang}|${cps.join()}`; return { type: "fcdiagnostic", before: h32(k) % 99, after: h32(k) % 99 + 1, fingerprint: uni(k), candidates: cps.map((cp) => ({ cp, name: uni(k + cp) })) }; },
  family(q) {
    const k = ["fam", q.name.toLowerCase(), q.cssWeight ?? "", q.italic ?? "", q.cssSlant ?? "", q.cssStretch ?? ""].join("|");
    if (h32(k + "f") % 5 === 0) return { type: "family", found: false };
    return { type: "family", found: true, postscriptName: `PS-${h32(k)}`, familyName: uni(k), path: `/fonts/${uni(k + "p")}.ttf`, ...(h32(k + "ax") % 3 === 0 ? { axes: { wght: h32(k) % 900 } } : {}) };
  },
  familyMatch(q) {
    const k = ["fm", q.family.toLowerCase(), q.cssWeight, q.italic, q.cssWidth].join("|");
    if (h32(k + "f") % 5 === 0) return { type: "familyMatch", found: false };
    const ps = `PS-${h32(k)}`;
    return { type: "familyMatch", found: true, postscriptName: ps, weight: 100 * (1 + h32(k) % 9), candidates: [{ name: "other", weight: 1, traits: 3 }, { name: ps, weight: 2, traits: h32(k + "t") % 4 }], path: `/fonts/${uni(k)}.otf`, index: h32(k + "i") % 3, family: uni(k + "fam"), width: 100, italic: h32(k + "it") % 2 === 0 };
  },
  systemfont: () => ({ type: "systemfont", found: true, family: "Segoe 界 UI" }),
  answer(req, o = {}) {
    const fonts = new Map((req.fonts ?? []).map((f) => [f.ref, f]));
    return { results: req.queries.map((q) => {
      const f = fonts.get(q.fontRef);
      switch (q.type) {
        case "meta": return A.meta(f);
        case "glyphs": return { type: "glyphs", glyphs: q.glyphs.map((g) => A.glyph(f, g)) };
        case "shape": return o.noShape ? { error: "unknown query type" } : { type: "shape", glyphs: A.shape(f, q.text) };
        case "fallback": return { type: "fallback", fonts: (o.drop ? q.cps.filter((c) => !o.drop(c)) : q.cps).map((cp) => A.fallback(f, q, cp)) };
        case "fcfallback": return { type: "fcfallback", fonts: q.cps.map((cp) => A.fc(q.lang, cp)) };
        case "fcdiagnostic": return A.fcdiag(q.lang, q.cps);
        case "family": return A.family(q);
        case "familyMatch": return A.familyMatch(q);
        case "systemfont": return A.systemfont();
        default: return { error: "unknown query type" };
      }
    }) };
  },
};

/** A running `--serve` helper, reached through file descriptors (or one named-pipe descriptor). */
export class ServeHelper extends EventEmitter {
  constructor(w, pipeName) {
    super(); this.w = w; this.sim = w.sim; this.proc = w.proc; this.pid = w.nextPid++; this.name = `helper#${this.pid}`;
    this.alive = true; this.killed = false; this.killSent = false; this.inBuf = Buffer.alloc(0); this.out = []; this.served = 0; this.pipeName = pipeName; this.exitCode = null; this.signalCode = null;
    this.inClosed = false; this.bornAt = this.sim.now;
    if (pipeName == null) {
      const fdI = w.nextFd++, fdO = w.nextFd++;
      w.vfs.special.set(fdI, { writeSync: (p) => this.write(p) }); w.vfs.special.set(fdO, { readSync: (b, o, l) => this.read(b, o, l) });
      const st = (fd) => ({ fd, unref() {}, ref() {}, on() { return this; }, once() { return this; }, destroy: () => { w.vfs.special.delete(fd); } });
      this.stdin = st(fdI); this.stdout = st(fdO);
    } else { this.stdin = this.stdout = null; }
    this.stderr = null;
    this.proc.onDeath.push(() => { this.parentGone = true; });
  }
  dev(delay, fn, label) { this.sim.schedule(delay, () => { if (this.alive) fn(); }, { kind: "dev", label: `${this.name}:${label}`, fifo: this.name }); }
  // ── the parent's end ──
  write(part) {
    const c = this.sim.choices;
    this.sim.advanceSync(0.02);
    if (!this.alive) { this.sim.count("epipe"); throw errno("EPIPE", "write"); }
    if (this.w.fault("eagain-write", 0.03)) { this.sim.advanceSync(c.delay(0.1, 60, "full")); throw errno("EAGAIN", "write"); }
    let n = Math.min(part.length, 65536);
    if (n > 1 && this.w.fault("short-write", 0.05)) n = 1 + c.below(n - 1, "short");
    this.inBuf = Buffer.concat([this.inBuf, part.subarray(0, n)]);
    this.dev(0.05, () => this.work(), "input");
    return n;
  }
  read(buf, off, len) {
    const c = this.sim.choices;
    this.sim.advanceSync(0.02);
    if (this.out.length === 0) {
      if (!this.alive) return 0;
      // blocked: let the helper get on with it for a while, as the busy loop would
      const next = this.sim.queue.reduce((m, e) => (e.kind === "dev" && e.at < m ? e.at : m), Infinity);
      if (this.pipeName != null) { for (let i = 0; this.out.length === 0 && this.alive; i++) { if (i > 3000) throw new Error("model: blocking read never ends"); this.sim.advanceSync(50); } if (this.out.length === 0) return 0; }
      else { this.sim.advanceSync(Math.min(200, Math.max(0.01, next - this.sim.now + 0.001))); throw errno("EAGAIN", "read"); }
    }
    let b = this.out[0]; let n = Math.min(len, b.length);
    if (n > 1 && this.w.fault("short-read", 0.06)) n = 1 + c.below(n - 1, "short");
    b.copy(buf, off, 0, n);
    if (n < b.length) this.out[0] = b.subarray(n); else this.out.shift();
    return n;
  }
  // ── the helper's side ──
  work() {
    const nl = this.inBuf.indexOf(10); if (nl < 0 || this.busy) return;
    const c = this.sim.choices; this.busy = true;
    const line = this.inBuf.subarray(0, nl).toString("utf8"); this.inBuf = this.inBuf.subarray(nl + 1);
    let req; try { req = JSON.parse(line); } catch { this.w.garbled?.(this, line); req = { queries: [] }; }
    const plan = this.w.plan(req, this);
    if (plan.kind === "crash-before") { this.dev(plan.ms, () => this.end(null, "SIGSEGV"), "crash"); return; }
    if (plan.kind === "stall") { this.dev(plan.ms, () => this.respond(req, plan), "late-answer"); return; }
    this.dev(plan.ms, () => this.respond(req, plan), "answer");
  }
  respond(req, plan) {
    const c = this.sim.choices; const body = Buffer.from(JSON.stringify(plan.result ?? A.answer(req, plan.o)) + "\n", "utf8");
    let limit = body.length;
    if (plan.kind === "crash-mid") limit = Math.floor(body.length * plan.frac);
    const pieces = []; let at = 0; const n = plan.pieces ?? 1;
    for (let i = 0; i < n && at < limit; i++) { const take = i === n - 1 ? limit - at : 1 + c.below(Math.max(1, limit - at), "piece"); pieces.push(body.subarray(at, at + take)); at += take; }
    let t = 0;
    pieces.forEach((p, i) => { this.dev(t, () => { this.out.push(p); if (i === pieces.length - 1 && limit === body.length) { this.served++; this.busy = false; if (plan.kind !== "crash-after") this.work(); } }, "out"); t += plan.gap ?? 0.02; });
    if (plan.kind === "crash-mid" || plan.kind === "crash-after") this.dev(t + (plan.kind === "crash-after" ? plan.after ?? 0 : 0), () => this.end(null, "SIGSEGV"), "crash");
  }
  end(code, signal) {
    if (!this.alive) return; this.alive = false; this.sim.log(`${this.name} ends ${code ?? signal}`);
    if (this.proc.alive) this.proc.io(this.sim.choices.delay(0.1, 40, "sigchld"), () => { this.exitCode = code; this.signalCode = signal; this.stdin?.destroy(); this.emit("exit", code, signal); this.emit("close", code, signal); }, `${this.name}:exit`);
  }
  kill(sig = "SIGTERM") { this.killed = true; this.killSent = true; if (!this.alive) return false; this.sim.log(`kill ${this.name}`); this.sim.schedule(this.sim.choices.delay(0.1, 30, "kill"), () => this.end(null, sig), { kind: "dev", label: `${this.name}:killed` }); return true; }
  unref() { return this; } ref() { return this; }
}
