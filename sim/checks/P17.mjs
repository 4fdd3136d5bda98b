// P17 — ICU companion queries: rows are the helper's, whatever was asked before and whatever failed.
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { childModule } from "../worlds/child.mjs";
import { makeFs, Vfs, errno } from "../worlds/fs.mjs";
import { h32 } from "../worlds/helper.mjs";

const DIR = "/opt/icu", BIN = `${DIR}/domotion-icu`, DATA = `${DIR}/icudtl.dat`;
const CAP = 65536; // documented size of the row memo
const row = (cp) => ({ cp, found: h32("f" + cp) % 9 !== 0, generalCategory: h32("g" + cp) % 30, script: h32("s" + cp) % 200, scriptName: "S" + (h32("s" + cp) % 200), binaryProperties: h32("b" + cp), scriptExtensions: [h32("x" + cp) % 50] });
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

export default {
  id: "P17",
  entries: { icu: "src/render/icu-helper.ts" },
  quick: { runs: 60000, cap: 90 }, thorough: { runs: 4000000, cap: 1500 },
  rule: "a run = one process asking the ICU companion 1-40 times for 1 to 20000 code points (valid, invalid, repeated, from few or many regions, in a few runs enough to overflow the row memo), whose program may fail to start, exit with an error, hang, be killed, answer truncated or with a wrong version; non-trivial = at least one query that launched the program",
  assumptions: ["the companion answers each code point as a fixed function of it", "the companion refuses a request naming a value that is no code point"],
  real: ["src/render/icu-helper.ts", "src/render/icu-helper-acquire.ts (path override)"], stub: ["ICU companion program", "process spawn", "clock"],
  simOpts: { stallProb: 0 }, choiceLimit: 60000,
  async run({ sim, choices, load }) {
    const c = choices; const vfs = new Vfs(sim, { opCost: 0.02 });
    const absent = c.chance(0.05, "absent"), dataEnv = c.chance(0.3, "dataenv");
    const env = { DOMOTION_ICU_HELPER_PATH: BIN, ...(dataEnv ? { DOMOTION_ICU_DATA: "/srv/icu/data.dat" } : {}) };
    if (absent) { delete env.DOMOTION_ICU_HELPER_PATH; env.DOMOTION_DISABLE_ICU_HELPER = "1"; }
    const proc = new SimProcess(sim, { name: "domotion", env });
    vfs.put(BIN, "ELF", 0o755); vfs.put(DATA, "data");
    const shuffled = c.chance(0.2, "row-order"); const wrong = c.chance(0.05, "wrongver"); const faulty = c.chance(0.6, "faulty"); let budget = faulty ? 1 + c.below(5, "budget") : 0;
    const hit = (k, p) => { if (budget > 0 && sim.fault(k, p)) { budget--; return true; } return false; };
    const known = new Set(); let launches = 0, failed = 0, probes = 0, probeFailed = false;
    const ch = childModule(sim, proc, {
      programs: () => "ENOENT",
      sync: (file, args, opts) => {
        let req = null; try { req = JSON.parse(String(opts.input)); } catch { /* below */ }
        if (file !== BIN || req == null || !Array.isArray(req.cps)) { sim.violate("malformed-request", `${file} ${String(opts?.input).slice(0, 60)}`); return { status: 1 }; }
        const probe = req.cps.length === 0; launches++; if (probe) probes++;
        const bad = (r) => { failed++; if (probe) probeFailed = true; return r; };
        const data = (opts.env ?? {}).DOMOTION_ICU_DATA;
        if (data !== (dataEnv ? env.DOMOTION_ICU_DATA : DATA)) { sim.violate("data-image-not-passed", `the companion was started with data image ${data}`); }
        const odd = req.cps.find((x) => !Number.isInteger(x) || x < 0 || x > 0x10ffff);
        if (odd !== undefined) { sim.violate("invalid-code-point-sent", String(odd)); return bad({ status: 2 }); }
        if (new Set(req.cps).size !== req.cps.length) sim.count("duplicate-request");
        const rows = req.cps.map(row); if (shuffled) { rows.reverse(); if (rows.length > 2) rows.push(rows.shift()); }
        const body = { protocolVersion: "1", icuVersion: wrong ? "77.1" : "78.2", unicodeVersion: "17", properties: rows };
        if (hit("spawn-failure", 0.1)) return bad({ status: null, error: errno(c.pick(["EAGAIN", "ENOENT", "EACCES", "ETXTBSY"], "errno"), "spawnSync") });
        if (hit("exit-1", 0.1)) return bad({ status: 1, stderr: "data image damaged" });
        if (hit("killed", 0.08)) return bad({ status: null, signal: "SIGKILL", stdout: JSON.stringify(body).slice(0, c.below(200, "cut")) });
        if (hit("hang", 0.08)) { if (!(opts.timeout > 0)) sim.violate("call-never-returns", "the companion was started without a time limit and hangs"); return bad({ status: null, signal: "SIGTERM", error: errno("ETIMEDOUT", "spawnSync"), ms: opts.timeout ?? 1e6 }); }
        if (hit("truncated", 0.08)) return bad({ status: 0, stdout: JSON.stringify(body).slice(0, -(1 + c.below(8, "cut"))) });
        if (hit("foreign-version", 0.05)) return bad({ status: 0, stdout: JSON.stringify({ ...body, icuVersion: "70.1", properties: rows.map((r) => ({ ...r, script: r.script + 1 })) }) });
        const text = JSON.stringify(body); const max = opts.maxBuffer ?? 1024 * 1024;
        if (text.length > max) { sim.violate("answer-exceeds-buffer", `${req.cps.length} rows, ${text.length} bytes, buffer ${max}`); return bad({ status: null, error: errno("ENOBUFS", "spawnSync"), stdout: text.slice(0, max) }); }
        if (wrong) { if (probe) probeFailed = true; failed++; return { status: 0, stdout: text }; }
        for (const x of req.cps) known.add(x);
        return { status: 0, stdout: text, ms: 5 + req.cps.length / 200 };
      },
    });
    const fsx = makeFs(sim, proc, { vfs });
    const g = makeGlobals(sim, proc, { modules: { fs: fsx.fs, child_process: ch.module, os: { homedir: () => "/home/user", tmpdir: () => "/tmp", platform: () => "linux", arch: () => "x64" } } });
    const { icu } = load(g);
    const big = c.chance(0.003, "big"); const n = 1 + c.below(big ? 14 : 14, "n"); const ops = [];
    const asked = [];
    for (let i = 0; i < n && sim.violations.length === 0; i++) {
      let kind = c.weighted([[6, "few"], [2, "old"], [1.5, "odd"], [1, "regions"], [big ? 30 : 0, "bulk"], [1, "avail"], [2, "single"], [0.15, "spread"]], "op");
      const l0 = launches, f0 = failed, p0 = probes, t0 = sim.now; let cps = [];
      const any = () => c.pick([0x41, 0x61, 0x1f600, 0x10ffff, 0x10ff00, 0xd800, 0x4e00, 0x3042, 0, 0xff, 0x100, 0xe0001, 0x2a6d6], "base") + 0;
      const k = 1 + c.below(6, "k");
      if (kind === "few" || kind === "single") cps = Array.from({ length: kind === "single" ? 1 : k }, () => Math.min(0x10ffff, any() + c.below(3, "off")));
      else if (kind === "old") cps = asked.length ? Array.from({ length: k }, () => asked[c.below(asked.length, "old")]) : [0x41];
      else if (kind === "odd") { const pool = [-1, 0x110000, 1.5, NaN, Infinity, 0x42, 0x1f601]; cps = Array.from({ length: k }, () => c.pick(pool, "oddcp")); }
      else if (kind === "regions") { const m = 14 + c.below(6, "m"); const b = c.below(2000, "b"); cps = Array.from({ length: m }, (_, j) => ((b + j * 3) % 4000) * 256 + c.below(256, "o")); }
      else if (kind === "bulk") { const m = c.pick([4096, 9000, 20000, 70000], "bulk"); const b = c.below(0x90000, "b"); cps = Array.from({ length: m }, (_, j) => b + j); if (asked.length) cps.unshift(asked[0], asked[c.below(asked.length, "old")]); sim.count("bulk-query"); }
      else if (kind === "spread") { const b = c.below(256, "b"); cps = Array.from({ length: 300 }, (_, j) => j * 256 + b); }
      if (c.chance(0.2, "dup") && cps.length) cps.push(cps[0]);
      ops.push(`${kind}${cps.length}`);
      const wasKnown = new Set(known), fits = known.size <= CAP;
      const valid = [...new Set(cps)].filter((x) => Number.isInteger(x) && x >= 0 && x <= 0x10ffff);
      try {
        if (kind === "avail") {
          const a = icu.isIcuHelperAvailable(); const want = !absent && !wrong && !probeFailed;
          sim.check(a === want, "availability-wrong", () => `availability reported ${a}, the companion ${want ? "answered" : "did not answer"} its check`);
        } else {
          let res;
          if (kind === "single") { const r = icu.icuCodepointProperties(cps[0]); res = new Map(r === undefined ? [] : [[cps[0], r]]); }
          else res = icu.queryIcuCodepoints(cps);
          if (res.size > 0 && cps.length < 50) for (const x of res.keys()) if (!valid.includes(x)) sim.violate("unrequested-row", `row for ${x}`);
          const dead = absent || wrong || probeFailed;
          const callFailed = failed > f0;
          let missing = 0, first = null;
          for (const x of valid) {
            const r = res.get(x);
            if (r == null) { const excused = dead || (callFailed && !(wasKnown.has(x) && fits)); if (!excused) { missing++; first ??= x; } continue; }
            if (r.cp !== x || (valid.length < 500 || x % 97 === 0) && !same(r, row(x))) { sim.violate("wrong-row", `U+${x.toString(16)} answered with the row of U+${Number(r.cp).toString(16)} (script ${r.script}, the companion says ${row(x).script})`); break; }
          }
          if (missing > 0) sim.violate("row-missing", `${missing} of ${valid.length} requested code points (first U+${first.toString(16)}) have no row although ${callFailed ? "they were answered before and only this call's launch failed" : "the companion answers"}`);
          if (!dead && fits && valid.every((x) => wasKnown.has(x)) && launches > l0) sim.violate("relaunch-for-known-rows", `${valid.length} known code points launched the companion again`);
          for (const x of valid.slice(0, 20)) asked.push(x);
        }
      } catch (e) { if (e?.code === "SIM_PROCESS_GONE") throw e; sim.violate("query-throws", `${kind}: ${short(e)}`); }
      if (launches - l0 - (probes - p0) > 1) sim.violate("several-launches-per-query", `${launches - l0}`);
      if (probes > 1) sim.violate("probed-again", `${probes} availability checks in one process`);
      const lim = 10_000 * (launches - l0) + 3000 * (kind === "bulk" ? 1 : 0.1);
      if (sim.now - t0 > lim) sim.violate("query-exceeds-time-limit", `${kind} took ${Math.round(sim.now - t0)} ms for ${launches - l0} launches`);
    }
    if (big && known.size > CAP) sim.count("memo-overflowed");
    return { nontrivial: launches > 0, key: `${ops.join()}/${launches}/${absent}${wrong}`, launches, failed, ops: ops.slice(0, 10) };
  },
};
