// P11 — terminal sessions: recorded or live, played back screen by screen.
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { repoRequire } from "../core/bundle.mjs";
import { StageBrowser, stubCapture, fontBuffer, ADV, isWide } from "../worlds/stage.mjs";
import { Viewer } from "../worlds/viewer.mjs";

const ESC = "\x1b"; const CSI = "\x1b[";
const ANSI = ["#101010", "#c02020", "#20c020", "#c0c020", "#2020c0", "#c020c0", "#20c0c0", "#c0c0c0", "#505050", "#ff4040", "#40ff40", "#ffff40", "#4040ff", "#ff40ff", "#40ffff", "#f0f0f0"];
const THEME = { extends: "dark", bg: "#0b0c0d", fg: "#d1d2d3", ansi: ANSI };
const CUBE = [0, 95, 135, 175, 215, 255]; const hx = (n) => n.toString(16).padStart(2, "0");
const c256 = (n) => { if (n < 16) return ANSI[n]; if (n < 232) { const i = n - 16; return "#" + hx(CUBE[Math.floor(i / 36)]) + hx(CUBE[Math.floor(i / 6) % 6]) + hx(CUBE[i % 6]); } const g = 8 + (n - 232) * 10; return "#" + hx(g) + hx(g) + hx(g); };
const hex = (s) => { if (s == null) return null; let m = /^rgba?\((\d+)[ ,]+(\d+)[ ,]+(\d+)/.exec(s); if (m) return "#" + hx(+m[1]) + hx(+m[2]) + hx(+m[3]); m = /^#([0-9a-f])([0-9a-f])([0-9a-f])$/i.exec(s); if (m) return ("#" + m[1] + m[1] + m[2] + m[2] + m[3] + m[3]).toLowerCase(); return s.toLowerCase(); };

/** A program's session: bursts of output and resizes on a timeline (ms). */
function genSession(c, o) {
  const S = { cols: c.pick([12, 20, 32, 50], "cols"), rows: c.pick([3, 5, 8, 12], "rows"), acts: [] }; let t = c.pick([0, 10, 700], "t0"); let cols = S.cols, rows = S.rows; let n = 0;
  const gap = () => c.weighted([[5, () => 5 + c.below(50, "g")], [5, () => 130 + c.below(900, "g")], [1, () => 3000 + c.below(9000, "g")]], "gap")();
  const put = (data) => { if (data !== "") { S.acts.push({ t, data }); t += gap(); } };
  const word = () => c.pick(["ok", "done", "build", "test", "err", "a<b", "x&y", "foo-bar", "100%", "{}", "\u00e9t\u00e9"], "w");
  const text = (k) => Array.from({ length: k }, word).join(" ") + (o.unique ? ` ${n++}` : "");
  const sgr = () => c.weighted([[3, () => `${CSI}${30 + c.below(8, "fg")}m`], [2, () => `${CSI}1;${90 + c.below(8, "fg")}m`], [1, () => `${CSI}38;5;${c.below(256, "p")}m`], [1, () => `${CSI}38;2;${c.below(256, "r")};${c.below(256, "g")};${c.below(256, "b")}m`], [1, () => `${CSI}${40 + c.below(8, "bg")}m`], [1, () => `${CSI}2m`], [1, () => `${CSI}0m`]], "sgr")();
  const acts = [
    [4, () => { put("$ "); const cmd = text(1); if (c.chance(0.5, "typed")) { for (const ch of cmd) put(ch); } else put(cmd); put("\r\n"); }],
    [4, () => { const k = 1 + c.below(6, "lines"); let s = ""; for (let i = 0; i < k; i++) { s += text(1 + c.below(3, "ws")) + "\r\n"; if (c.chance(0.5, "flush")) { put(s); s = ""; } } put(s); }],
    [2, () => { const k = 2 + c.below(4, "bars"); for (let i = 1; i <= k; i++) put(`\r[${"#".repeat(i)}${".".repeat(k - i)}]`); if (c.chance(0.7, "nl")) put("\r\n"); }],
    [2, () => put(`${sgr()}${text(1)}${c.chance(0.7, "reset") ? `${CSI}0m` : ""}${c.chance(0.6, "nl") ? "\r\n" : ""}`)],
    [2, () => put(`${CSI}${1 + c.below(rows, "r")};${1 + c.below(cols, "c")}H${c.chance(0.7, "w") ? word() : ""}`)],
    [1, () => put(`${CSI}${c.pick(["", "1", "2"], "ed")}J`)], [1, () => put(`${CSI}${c.pick(["", "1", "2"], "el")}K`)],
    [1, () => put(c.chance(0.5, "alt") ? `${CSI}?1049h${CSI}H${text(2)}` : `${CSI}?1049l`)],
    [1, () => put(c.chance(0.6, "region") ? `${CSI}2;${Math.max(3, rows - 1)}r${CSI}${Math.max(3, rows - 1)};1H` : `${CSI}r`)],
    [1, () => put(c.pick([`${CSI}L`, `${CSI}M`, `${CSI}S`, `${CSI}T`, `${ESC}M`, `${CSI}2P`, `${CSI}3@`], "edit"))],
    [2, () => put(c.pick([`${CSI}?25l`, `${CSI}?25h`, `${CSI}?12;25h`, `${CSI}?25;12l`, `${CSI}?25l${CSI}?12h`, `${CSI}!p`, `${ESC}c`], "dectcem") + (c.chance(0.4, "w") ? word() : ""))],
    [1, () => put(`\u4f60\u597d${word()}${c.chance(0.5, "nl") ? "\r\n" : ""}`)],
    [1, () => put(`\ttab\b\b`)],
    [o.resizes ? 2 : 0, () => { cols = c.pick([10, 20, 28, 40], "rc"); rows = c.pick([3, 4, 6, 10], "rr"); S.acts.push({ t, resize: [cols, rows] }); t += c.pick([1, 20, 200], "rg"); }],
  ];
  const k = 1 + c.below(o.len, "acts"); for (let i = 0; i < k; i++) c.weighted(acts, "act")();
  if (!S.acts.some((a) => a.data)) put("x");
  if (o.resizes && c.chance(0.2, "tail-resize")) S.acts.push({ t, resize: [c.pick([10, 40], "rc"), c.pick([3, 10], "rr")] });
  return S;
}
/** Cuts each burst into chunks, as reads from a pty would: at any byte of the text, a few ms apart at most. */
function chunked(c, S, p) {
  const out = [];
  for (let i = 0; i < S.acts.length; i++) {
    const a = S.acts[i]; if (a.resize || !c.chance(p, "split")) { out.push(a); continue; }
    const next = S.acts[i + 1]?.t ?? Infinity; const parts = 1 + c.below(4, "parts"); let s = a.data, t = a.t; const room = Math.min(40, next - a.t - 1);
    for (let k = 0; k < parts && s.length > 1; k++) { let at = 1 + c.below(s.length - 1, "at"); if (/[\ud800-\udbff]/.test(s[at - 1])) at--; if (at === 0) break; out.push({ t, data: s.slice(0, at) }); s = s.slice(at); const step = room > 0 ? c.below(Math.max(1, Math.floor(room / parts)), "dt") : 0; t += step; }
    out.push({ t, data: s });
  }
  return out;
}
const castText = (S, evs) => JSON.stringify({ version: 2, width: S.cols, height: S.rows, timestamp: 1 }) + "\n" + evs.map((e) => JSON.stringify([e.t / 1000, e.data != null ? "o" : "r", e.data ?? `${e.resize[0]}x${e.resize[1]}`])).join("\n") + "\n";

/** Screens an independent terminal shows, at the pauses of the output. */
function model(S, evs, o) {
  const { Terminal } = repoRequire("@xterm/headless"); const term = new Terminal({ cols: o.cols ?? S.cols, rows: o.rows ?? S.rows, allowProposedApi: true, scrollback: 0, logLevel: "off" }); const core = term._core;
  const pinned = o.cols != null || o.rows != null; const outs = evs.filter((e) => e.data != null); const rz = pinned ? [] : evs.filter((e) => e.resize).sort((a, b) => a.t - b.t); let ri = 0;
  const upTo = (t) => { while (ri < rz.length && rz[ri].t <= t) { core.writeSync(""); term.resize(...rz[ri].resize); ri++; } };
  const color = (cell, k) => (cell[`is${k}RGB`]() ? "#" + cell[`get${k}Color`]().toString(16).padStart(6, "0") : cell[`is${k}Palette`]() ? c256(cell[`get${k}Color`]()) : null);
  const snap = () => { const b = term.buffer.active; const cells = []; let sig = "", bgsig = ""; for (let y = 0; y < term.rows; y++) { const l = b.getLine(y); for (let x = 0; x < term.cols; x++) { const q = l?.getCell(x); if (!q || q.getWidth() === 0) continue; const ch = q.getChars(); const bg = color(q, "Bg"), fg = color(q, "Fg"); if (ch.trim() !== "") { cells.push({ ch, x, y, fg, bg, dim: q.isDim() !== 0 }); sig += `${y},${x},${ch},${fg},${q.isDim()},${q.isBold()};`; } const st = `${q.isBold()},${q.isItalic()},${q.isDim()},${q.isUnderline()}`; if (bg != null || fg != null || st !== "0,0,0,0") bgsig += `${y},${x},${bg},${fg},${st};`; } } const lines = []; for (let y = 0; y < term.rows; y++) lines.push(b.getLine(y)?.translateToString(true).trimEnd() ?? ""); return { cells, lines, sig, styled: bgsig !== "", full: sig + bgsig, cols: term.cols, rows: term.rows, cur: { x: b.cursorX, y: b.cursorY, visible: all.lastIndexOf(`${ESC}c`) > Math.max(all.lastIndexOf(`${CSI}!p`), ...[...all.matchAll(/\x1b\[\?[0-9;]*[hl]/g)].filter((q) => q[0].includes("25")).map((q) => q.index)) || !core.coreService.isCursorHidden } /* xterm.js alone keeps the cursor hidden across RIS */ }; };
  let all = ""; const frames = []; let maxC = o.cols ?? S.cols, maxR = o.rows ?? S.rows; for (const r of rz) { maxC = Math.max(maxC, r.resize[0]); maxR = Math.max(maxR, r.resize[1]); }
  outs.forEach((e, i) => {
    upTo(e.t); core.writeSync(e.data); all += e.data; const last = i === outs.length - 1; const gap = last ? o.tail : outs[i + 1].t - e.t; if (gap < o.settle && !last) return;
    frames.push({ ...snap(), hold: Math.min(o.max, Math.max(o.min, Math.round(gap))) });
  });
  if (ri < rz.length) { const was = `${term.cols}x${term.rows}`; const before = frames[frames.length - 1]; upTo(Infinity); const s = snap(); if (`${term.cols}x${term.rows}` !== was || s.full !== before.full) frames.push({ ...s, hold: Math.max(o.min, Math.round(o.tail)), closing: true }); }
  term.dispose(); return { frames, maxC, maxR };
}

class FakePty {
  constructor(proc, acts, exit) { this.proc = proc; this.acts = acts; this.exit = exit; this.got = []; this.resizes = []; this.h = { data: [], exit: [] }; }
  spawn(file, args, o) { this.spawned = { file, args, o }; const t0 = this.proc.sim.now; this.t0 = t0; let i = 0; const step = () => { const a = this.acts[i++]; a.at = this.proc.sim.now - t0; if (a.data != null) { for (const f of this.h.data) f(a.data); } else this.onResize?.(a); if (i < this.acts.length) this.proc.later(Math.max(0, this.acts[i].t - (this.proc.sim.now - t0)), step, "pty:data"); else this.proc.later(Math.max(0, this.exit.t - (this.proc.sim.now - t0)), bye, "pty:exit"); }; const bye = () => { for (const f of this.h.exit) f({ exitCode: this.exit.code }); }; this.proc.later(this.acts[0].t, step, "pty:data"); return { onData: (f) => { this.h.data.push(f); }, onExit: (f) => { this.h.exit.push(f); }, write: (s) => { this.got.push(s); }, resize: (c, r) => { this.resizes.push([c, r]); }, kill: () => {} }; }
}
class Tty { // the operator's terminal
  constructor() { this.isTTY = true; this.isRaw = false; this.l = { data: [], resize: [] }; this.columns = 80; this.rows = 24; this.paused = true; this.modes = []; this.written = ""; }
  setRawMode(m) { this.isRaw = m; this.modes.push(m); return this; } on(e, f) { (this.l[e] ??= []).push(f); return this; } off(e, f) { this.l[e] = (this.l[e] ?? []).filter((x) => x !== f); return this; } resume() { this.paused = false; } pause() { this.paused = true; } write(s) { this.written += s; return true; } emit(e, ...a) { for (const f of this.l[e] ?? []) f(...a); }
}

export default {
  id: "P11",
  entries: { term: "src/terminal/index.ts", pty: "src/terminal/pty.ts", ttp: "src/render/text-to-path.ts" },
  bundleOpts: { stub: [[/src\/capture\/index\.ts$/, stubCapture]] },
  quick: { runs: 4000, cap: 60 }, thorough: { runs: 60000, cap: 840 },
  rule: "each settled screen of the session, computed by an independent terminal fed the uncut stream, is what a viewer of the SVG sees throughout its hold; the caret sits on the recorded cell; live recordings hold the bytes, times and sizes the program produced",
  assumptions: ["the page is laid out on an exact monospace grid, wide characters taking two cells", "reverse video, strikethrough and blinking text are outside the documented cell attributes"],
  real: ["src/terminal (cast, emulator, render, incremental, pty, theme)", "@xterm/headless with simulated timers", "src/render (text, embedded fonts)", "src/animation/animator.ts (full mode)"],
  stub: ["Chromium page (laid-out terminal grid)", "src/capture (element tree from that grid)", "node-pty and the operator's tty"],
  simOpts: {},
  warmup() { fontBuffer("SimMono"); repoRequire("@xterm/headless"); },
  async run({ sim, choices: c, load }) {
    const proc = new SimProcess(sim, { name: "cli" });
    const out = new Tty(), inp = new Tty();
    const g = makeGlobals(sim, proc, { modules: { fs: { existsSync: () => false, readFileSync: () => { throw Object.assign(new Error("ENOENT"), { code: "ENOENT" }); }, readdirSync: () => [], statSync: () => { throw Object.assign(new Error("ENOENT"), { code: "ENOENT" }); }, mkdirSync() {}, writeFileSync() {}, chmodSync() {} }, child_process: { spawnSync: () => ({ status: 127, error: new Error("ENOENT"), stdout: "", stderr: "" }), execFileSync: () => { throw new Error("ENOENT"); }, execSync: () => { throw new Error("ENOENT"); }, spawn: () => { throw new Error("ENOENT"); } }, os: { platform: () => "linux", homedir: () => "/home/u", tmpdir: () => "/tmp", cpus: () => [] } } });
    g.process.stdout = Object.assign(out, {});
    const m = load(g);
    const faulty = c.chance(0.12, "page-faults"); let failAt = -1;
    const registered = new Set(); const register = (f) => { if (!registered.has(f)) { registered.add(f); for (const w of [400, 700]) m.ttp.registerWebfont(f, w, "normal", fontBuffer(f)); } };
    let ops = 0; const lat = c.pick([1, 20], "lat");
    const b = new StageBrowser({ proc, sites: new Map(), register, lat: () => 1 + c.below(lat, "lat"), fault: (l) => { if (ops++ === failAt) { sim.fired("page operation fails"); throw new Error(`${l}: Target crashed`); } } });
    const nConv = c.weighted([[5, 1], [2, 2], [1, 3]], "conversions"); const keys = [];
    for (let k = 0; k < nConv; k++) {
      const S = genSession(c, { len: c.pick([4, 10, 18], "len"), resizes: c.chance(0.3, "resizes"), unique: c.chance(0.5, "unique") });
      let evs = chunked(c, S, c.pick([0, 0.5, 1], "chunking")); if (evs.length !== S.acts.length) sim.fired("output split mid-sequence");
      let text; const live = c.chance(0.3, "live");
      if (live) { const r = await this.record({ sim, c, m, S, evs, proc, out, inp }); if (r == null) return { key: "live" }; text = r.text; evs = r.evs; }
      else { text = castText(S, evs); const lines = text.split("\n"); // foreign events and torn recordings are part of the format's life
        if (c.chance(0.3, "noise")) { const at = 1 + c.below(lines.length - 1, "at"); lines.splice(at, 0, c.pick(['[0.1,"i","x"]', '[0.2,"m",""]', "", "[1]"], "noise")); text = lines.join("\n"); }
        if (c.chance(0.2, "torn")) { const body = text.indexOf("\n") + 1; const first = text.indexOf("\n", body) + 1; if (first < text.length - 1) { const at = first + c.below(text.length - first, "cut"); const kept = text.slice(0, at); const full = kept.slice(body).split("\n").map((l) => { try { return JSON.parse(l); } catch { return null; } }).filter((e) => Array.isArray(e) && e.length >= 3 && (e[1] === "o" || e[1] === "r")); if (full.some((e) => e[1] === "o")) { text = kept; evs = full.map((e) => (e[1] === "o" ? { t: e[0] * 1000, data: e[2] } : { t: e[0] * 1000, resize: e[2].split("x").map(Number) })); sim.fired("recording torn mid-write"); } } } }
      const o = { settle: c.pick([90.5, 60.5, 400.5], "settle"), min: c.pick([400, 50, 1000], "min"), max: c.pick([4000, 1500], "max"), tail: c.pick([1500, 200, 3000], "tail") };
      if (c.chance(0.15, "pinned")) { o.cols = c.pick([16, 30, 60], "pc"); o.rows = c.pick([4, 9], "pr"); }
      const opts = { theme: THEME, fontFamily: "SimMono, monospace", fontSize: c.pick([14, 20, 11.5], "fs"), padding: c.pick([16, 4, 30], "pad"), settleMs: o.settle, minFrameMs: o.min, maxFrameMs: o.max, tailMs: o.tail, mode: c.chance(0.35, "full") ? "full" : "incremental", cursor: c.pick(["block", "bar", "underline", "none"], "cursor"), cursorColor: "#fedcba", ...(o.cols ? { cols: o.cols, rows: o.rows } : {}) };
      failAt = faulty && c.chance(0.5, "fail") ? ops + c.below(10, "fail-at") : -1;
      const desc = `${opts.mode} ${S.cols}x${S.rows}${live ? " live" : ""} (conversion ${k + 1})`;
      const res = await sim.settle(m.term.castToAnimatedSvg(text, b, opts), { maxTime: sim.now + 3600_000, maxSteps: 40000 });
      if (b.open.length > 0 && res.status !== "pending") { sim.violate("context-leaked", `${desc}: ${b.open.length} browser context(s) open after the conversion`); return { key: "leak" }; }
      if (res.status === "pending") { sim.violate("never-ends", `${desc}: ${res.why}`); return { key: "pending" }; }
      const hit = failAt >= 0 && ops > failAt; const r = res.status === "error" ? null : res.value;
      if (r == null) { if (!hit) sim.violate("spurious-error", `${desc}: ${short(res.error)}`); keys.push("err"); continue; }
      if (hit) { sim.violate("failure-swallowed", `${desc}: a page operation failed and the conversion reported success`); return { key: "swallow" }; }
      if (evs.some((e, i) => e.resize && evs.some((q, j) => j < i && q.data != null && q.t >= e.t))) { sim.count("resize-and-output-in-the-same-ms"); keys.push("tie"); continue; } // the format's clock cannot order them
      const mod = model(S, evs, o); if (mod.frames.length === 0) continue;
      this.verify({ sim, c, svg: r.svg, r, mod, o, opts, desc }); if (sim.violations.length) return { key: "v", text };
      keys.push(`${opts.mode[0]}${mod.frames.length}`);
    }
    return { nontrivial: keys.length > 0, key: keys.join() };
  },
  /** Live capture through the real recorder; returns the recording and its true events. */
  async record({ sim, c, m, S, evs, proc, out, inp }) {
    inp.isRaw = c.chance(0.2, "was-raw"); inp.modes = []; inp.paused = true; const was = inp.isRaw; const useTty = c.chance(0.7, "stdin-tty"); out.written = ""; out.columns = S.cols; out.rows = S.rows;
    const end = evs[evs.length - 1].t; const exit = { t: end + 1 + c.below(200, "exit"), code: c.pick([0, 1, 130], "code") };
    const list = evs.map((e) => ({ ...e })).filter((e) => e.data != null || useTty); const pty = new FakePty(proc, list, exit);
    pty.onResize = (a) => { out.columns = a.resize[0]; out.rows = a.resize[1]; out.emit("resize"); };
    let typed = ""; if (useTty) { const keys = Buffer.from(c.pick(["ls\r", "h\u00e9llo \u4f60\u597d\r", "\u001b[A\r", "\ud83d\ude00ok"], "keys")); typed = keys.toString("utf8"); const cuts = []; for (let i = 0; i < keys.length;) { const n = 1 + c.below(Math.min(4, keys.length - i), "n"); cuts.push(keys.subarray(i, i + n)); i += n; } const room = Math.max(0, (exit.t - 1) / cuts.length); const key = () => { inp.emit("data", Buffer.from(cuts.shift())); if (cuts.length) proc.later(c.below(5, "kt") / 5 * room * 0.9, key, "tty:key"); }; proc.later(0.5 * Math.min(1, room), key, "tty:key"); sim.fired("keystrokes split across reads"); }
    const res = await sim.settle(m.pty.recordPtySession(["prog", "-x"], { ...(c.chance(0.5, "sized") || !useTty ? { cols: S.cols, rows: S.rows } : {}), input: useTty ? inp : null, env: { A: "1" } }, pty), { maxTime: sim.now + 3600_000, maxSteps: 20000 });
    if (res.status !== "ok" && res.value == null) { sim.violate("recording-fails", `${res.status} ${short(res.error)}`); return null; }
    const R = res.value; const lines = R.cast.trim().split("\n").map((l) => JSON.parse(l)); const head = lines.shift();
    if (head.width !== S.cols || head.height !== S.rows || R.exitCode !== exit.code) sim.violate("recording-header", `${head.width}x${head.height} exit ${R.exitCode}, session ${S.cols}x${S.rows} exit ${exit.code}`);
    const data = list.filter((e) => e.data != null); const got = lines.filter((l) => l[1] === "o");
    if (got.map((l) => l[2]).join("") !== data.map((e) => e.data).join("")) { sim.violate("recording-loses-output", `${got.length} events recorded of ${data.length}`); return null; }
    for (let i = 0; i < got.length; i++) if (Math.abs(got[i][0] * 1000 - data[i].at) > 3) { sim.violate("recording-times", `chunk ${i} came ${data[i].at} ms in, recorded at ${got[i][0] * 1000}`); return null; }
    if (out.written !== data.map((e) => e.data).join("")) sim.violate("echo-differs", "the operator saw something else than the program printed");
    const rs = list.filter((e) => e.resize); if (useTty && JSON.stringify(pty.resizes) !== JSON.stringify(rs.map((e) => e.resize))) sim.violate("resize-not-forwarded", `${JSON.stringify(pty.resizes)}`);
    if (useTty) {
      if (pty.got.join("") !== typed) sim.violate("keystrokes-garbled", `typed ${JSON.stringify(typed)}, the program received ${JSON.stringify(pty.got.join(""))}`);
      if (inp.isRaw !== was || !inp.paused || inp.l.data.length || (out.l.resize ?? []).length) sim.violate("tty-not-restored", `raw ${inp.isRaw} (was ${was}), paused ${inp.paused}, listeners ${inp.l.data.length}/${(out.l.resize ?? []).length}`);
    }
    if (sim.violations.length) return null;
    sim.count("live-recordings");
    // true events, on the recorder's clock where the two agree
    const rec = lines.filter((l) => l[1] === "r"); const evs2 = []; let gi = 0, ri = 0; for (const e of list) evs2.push(e.data != null ? { t: got[gi++][0] * 1000, data: e.data } : { t: rec[ri] && Math.abs(rec[ri][0] * 1000 - e.at) < 3 ? rec[ri++][0] * 1000 : e.at, resize: e.resize });
    return { text: R.cast, evs: evs2 };
  },
  verify({ sim, c, svg, r, mod, o, opts, desc }) {
    const full = opts.mode === "full"; const pad = opts.padding, adv = opts.fontSize * ADV, linePx = opts.fontSize * 1.4;
    let fs = mod.frames; // identical consecutive screens merge; a leading blank screen takes no time
    const merged = []; for (const f of fs) { const p = merged[merged.length - 1]; if (p && p.full === f.full && !f.closing) { p.hold = Math.min(o.max, p.hold + f.hold); p.curs.push(f.cur); p.cols = f.cols; p.rows = f.rows; } else merged.push({ ...f, curs: [f.cur] }); }
    while (merged.length > 1 && merged[0].full === "") merged.shift();
    // doc 67: the caret shows on input lines only — the prompt is what all typed-onto cursor lines share, or a line growing right now
    const grow = (i, j) => { const y = merged[i].curs[0].y; return [merged[i].lines[y] ?? "", merged[j].lines[y] ?? ""]; }; let prompt = null;
    for (let i = 0; i + 1 < merged.length; i++) { const [a, q] = grow(i, i + 1); if (a !== "" && q.length > a.length && q.startsWith(a)) { if (prompt == null) prompt = a; else { let k = 0; while (k < prompt.length && k < a.length && prompt[k] === a[k]) k++; prompt = prompt.slice(0, k); } } }
    merged.forEach((f, i) => { const cur = f.lines[f.curs[0].y] ?? ""; const prev = i > 0 ? merged[i - 1].lines[f.curs[0].y] ?? "" : ""; f.input = cur !== "" && ((prompt ?? "") !== "" && cur.startsWith(prompt) || (prev !== "" && cur.length > prev.length && cur.startsWith(prev))); f.plain = !merged.some((q) => q.styled || q.cells.some((x) => x.fg != null));  });
    const total = merged.reduce((a, f) => a + f.hold, 0);
    if (Math.abs(total - r.totalDurationMs) > 4) { sim.violate("play-length", `${desc}: reports ${r.totalDurationMs} ms, the screens hold for ${total} ms in ${merged.length} screens (${merged.map((f) => f.hold)})`); return; }
    const W = Math.ceil(2 * pad + mod.maxC * adv), H = Math.ceil(2 * pad + mod.maxR * linePx); if (Math.abs(r.width - W) > 1 || Math.abs(r.height - H) > 1) { sim.violate("canvas-size", `${desc}: ${r.width}x${r.height}, largest grid needs ${W}x${H}`); return; }
    let v; try { v = new Viewer(svg); } catch (e) { sim.violate("markup-broken", `${desc}: ${short(e)}`); return; }
    if (v.dupIds.size) { sim.violate("duplicate-ids", `${desc}: ${[...v.dupIds].slice(0, 3)}`); return; }
    let start = 0; const pick = new Set([0, merged.length - 1]); for (let i = 0; i < 6; i++) pick.add(c.below(merged.length, "frame"));
    for (let i = 0; i < merged.length; i++) {
      const f = merged[i]; const end = start + f.hold; const guard = !full && i < merged.length - 1 ? 135 : 0; const q = (full ? 6 : 2) + total * 1e-5, lo = start + q, hi = end - q - guard; // the scene's length is written in hundredths of a second
      if (pick.has(i) && hi > lo) {
        const ts = [lo + (hi - lo) * c.below(1000, "at") / 1000]; if (c.chance(0.5, "edge")) ts.push(c.chance(0.5, "e") ? lo : hi); if (!full && c.chance(0.2, "loop")) ts.push(ts[0] + total);
        const bl = ts[0] % 1060 < 520 ? ts[0] : null; if (bl == null) { const k = Math.ceil(ts[0] / 1060) * 1060 + 10; if (k < hi) ts.push(k); }
        for (const t of ts) { this.screen({ sim, v, t, f, last: i === merged.length - 1, pad, adv, linePx, opts, total, desc: `${desc}, screen ${i + 1} of ${merged.length} at ${t.toFixed(1)} of ${total} ms`, full }); if (sim.violations.length) return; }
      }
      start = end;
    }
    sim.count("played-back");
  },
  screen({ sim, v, t, f, pad, adv, linePx, opts, desc, full }) {
    const rects = []; const items = v.at(t, { tag: (el, cc, get) => { if (el.tag === "rect") { const fill = hex(get("fill") ?? el.attrs.fill ?? cc.inh.fill); const [x, y] = [cc.m[0] * +(el.attrs.x ?? 0) + cc.m[4], cc.m[3] * +(el.attrs.y ?? 0) + cc.m[5]]; rects.push({ fill, x, y, w: +el.attrs.width, h: +el.attrs.height, op: cc.op, cls: el.attrs.class }); } return null; } });
    const got = items.filter((q) => q.kind === "glyph"); const bad = items.find((q) => q.kind === "missing-ref"); if (bad) { sim.violate("dangling-reference", `${desc}: #${bad.id}`); return; }
    const key = (x, y) => `${Math.round((x - pad) / adv)},${Math.round((y - pad - linePx * 0.5) / linePx - 0.2)}`;
    const seen = new Map(); for (const q of got) { const k = key(q.x, q.y); const col = (q.x - pad) / adv; if (Math.abs(col - Math.round(col)) > 0.12) { sim.violate("off-grid", `${desc}: "${q.ch}" at x=${q.x.toFixed(2)}, between cells (${col.toFixed(2)})`); return; } if (seen.has(k) ) { sim.violate("overprinted", `${desc}: cell ${k} shows "${seen.get(k).ch}" and "${q.ch}"`); return; } seen.set(k, q); }
    const rowY = new Map();
    for (const cell of f.cells) {
      const k = `${cell.x},${cell.y}`; const q = seen.get(k); if (!q) { sim.violate("text-missing", `${desc}: cell ${k} should show "${cell.ch}"; the view has ${got.length} glyphs of ${f.cells.length}: ${textOf(got)}`); return; }
      if (q.ch !== cell.ch) { sim.violate("wrong-text", `${desc}: cell ${k} shows "${q.ch}", the terminal has "${cell.ch}"`); return; }
      const wantFill = cell.fg ?? hex("#d1d2d3"); if (hex(q.fill) !== wantFill && cell.fg != null) { sim.violate("wrong-colour", `${desc}: cell ${k} "${cell.ch}" is ${q.fill}, the terminal has ${wantFill}`); return; }
      if (cell.bg != null) { const px = pad + (cell.x + 0.5) * adv, py = pad + (cell.y + 0.5) * linePx; const top = rects.filter((R) => R.cls !== "tcur-b" && R.op > 0.3 && px >= R.x && px <= R.x + R.w && py >= R.y && py <= R.y + R.h && R.fill !== "none").pop(); if (top?.fill !== cell.bg) { sim.violate("wrong-background", `${desc}: cell ${k} is on ${top?.fill}, the terminal has ${cell.bg}`); return; } }
      rowY.set(cell.y, q.y); seen.delete(k);
    }
    if (seen.size) { const [k, q] = [...seen][0]; sim.violate("stray-text", `${desc}: cell ${k} shows "${q.ch}", the terminal is blank there`); return; }
    for (const q of got) { const r = Math.round((q.y - pad - linePx * 0.5) / linePx - 0.2); const off = q.y - pad - r * linePx; if (Math.abs(off - (linePx / 2 + opts.fontSize * 0.2)) > 0.6) { sim.violate("off-row", `${desc}: "${q.ch}" baseline at ${q.y.toFixed(2)}, ${off.toFixed(2)} into row ${r}`); return; } }
    const caret = rects.find((R) => R.cls === "tcur-b" && R.op > 0.5);
    if (!full && opts.cursor !== "none" && f.plain && (t % 1060) > 5 && (t % 1060) < 525 && f.curs.length === 1) {
      const want = f.input && f.cur.visible; if (want !== (caret != null)) { sim.violate(want ? "caret-missing" : "caret-off-input", `${desc}: cursor line ${JSON.stringify(f.lines[f.cur.y])}, caret ${caret ? "shown" : "not shown"}`); return; }
    }
    if (full && caret) { sim.violate("caret-in-full-mode", desc); return; }
    if (caret && !full) {
      if (f.curs.length === 1 || f.curs.every((q) => q.visible === f.curs[0].visible)) { if (!f.curs[f.curs.length - 1].visible) { sim.violate("hidden-caret-shown", `${desc}: the program has hidden its cursor`); return; } }
      const ok = f.curs.some((q) => Math.abs(caret.x - (pad + q.x * adv)) < 0.7 + adv * 0.05 && caret.y >= pad + q.y * linePx - 1 && caret.y + caret.h <= pad + (q.y + 1) * linePx + 1);
      if (!ok) { const q = f.curs[f.curs.length - 1]; sim.violate("caret-misplaced", `${desc}: caret at (${caret.x.toFixed(1)}, ${caret.y.toFixed(1)}), the cursor is in cell ${q.x},${q.y} = (${(pad + q.x * adv).toFixed(1)}, ${(pad + q.y * linePx).toFixed(1)})`); return; }
      sim.count("caret-seen");
    }
  },
};
const textOf = (list) => [...list].sort((a, b) => a.y - b.y || a.x - b.x).map((q) => q.ch).join("").slice(0, 120);
void isWide;
