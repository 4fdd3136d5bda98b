// Check driver: seeded search over simulated runs, determinism self-check,
// minimisation, replay files, evidence.
import { fork } from "node:child_process";
import { mkdirSync, readFileSync, writeFileSync, existsSync, writeSync } from "node:fs";
import { join, dirname, resolve } from "node:path";
import { fileURLToPath } from "node:url";
import { cpus } from "node:os";
import { Choices, ChoiceLimit, mix32 } from "./choices.mjs";
import { Sim, short, hashStr } from "./sim.mjs";
import { bundleToFile, compileBundle, preloadShared } from "./bundle.mjs";

const VERIF = resolve(dirname(fileURLToPath(import.meta.url)), "../..");

/** Synchronous stdout, complete even when the process exits right after. */
function say(text) {
  let b = Buffer.from(text + "\n");
  while (b.length > 0) { try { b = b.subarray(writeSync(1, b)); } catch (e) { if (e.code !== "EAGAIN") throw e; Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 5); } }
}

export function loadKnown() {
  const f = join(VERIF, "known-findings.json");
  if (!existsSync(f)) return [];
  return JSON.parse(readFileSync(f, "utf8")).findings ?? [];
}

async function loadCheck(id) { return (await import(`../checks/${id}.mjs`)).default; }

/** One simulated run. */
export async function oneRun(check, compiled, { seed, replay, trace, labels, tier, index = 0 }) {
  const choices = new Choices({ seed, replay, labels, limit: check.choiceLimit });
  const sim = new Sim(choices, { trace, ...(check.simOpts ?? {}) });
  let info = null, crash = null;
  try {
    info = await check.run({ sim, choices, load: compiled, tier, index });
  } catch (e) {
    if (e instanceof ChoiceLimit) sim.count("choice-limit");
    else crash = e;
  }
  if (sim.harnessError && crash == null) crash = sim.harnessError;
  for (const e of sim.unhandled) sim.violate("unattributed-exception", short(e));
  const out = {
    violations: sim.violations, digest: sim.digest(), vals: choices.vals, labels: choices.labels,
    faults: sim.faults, notes: sim.notes, steps: sim.steps, now: sim.now, interleave: sim.interleave,
    info: info ?? {}, crash, trace: sim.trace,
  };
  sim.dispose();
  return out;
}

const runSeed = (seed, i) => mix32((mix32(seed >>> 0) ^ Math.imul(i + 1, 0x9e3779b1)) >>> 0);

async function worker() {
  const [, , , id, file, seedS, wS, nS, runsS, capS, tier] = process.argv;
  const check = await loadCheck(id);
  const compiled = await compiledFrom(file);
  if (check.warmup) await check.warmup(compiled);
  const seed = Number(seedS), w = Number(wS), n = Number(nS), runs = Number(runsS), deadline = Date.now() + Number(capS) * 1000;
  const agg = { runs: 0, nontrivial: 0, keys: new Set(), inter: new Set(), faults: {}, notes: {}, steps: 0, simMs: 0, determinism: { checked: 0, mismatched: 0 }, faultedRuns: 0 };
  let stop = false;
  process.on("message", (m) => { if (m === "stop") stop = true; });
  let lastBeat = 0;
  for (let i = w; i < runs && !stop && Date.now() < deadline; i += n) {
    if (Date.now() - lastBeat > 1000) { lastBeat = Date.now(); process.send({ t: "beat", i }); }
    const s = runSeed(seed, i);
    const r = await oneRun(check, compiled, { seed: s, tier, index: i });
    if (r.crash) { process.send({ t: "crash", i, seed: s, err: String(r.crash.stack ?? r.crash) }); break; }
    agg.runs++; agg.steps += r.steps; agg.simMs += r.now;
    if (r.info.nontrivial !== false) { agg.nontrivial++; agg.keys.add(hashStr(`${r.info.key ?? ""}|${r.interleave}|${JSON.stringify(r.faults)}`)); }
    agg.inter.add(r.interleave);
    let fk = 0;
    for (const k in r.faults) { agg.faults[k] = (agg.faults[k] ?? 0) + r.faults[k]; fk++; }
    if (fk > 0) agg.faultedRuns++;
    for (const k in r.notes) agg.notes[k] = (agg.notes[k] ?? 0) + r.notes[k];
    if (i < 3 || (agg.runs % 16) === 0 || r.violations.length > 0) {
      const r2 = await oneRun(check, compiled, { replay: r.vals, tier, index: i });
      agg.determinism.checked++;
      if (r2.digest !== r.digest) { agg.determinism.mismatched++; process.send({ t: "mismatch", i, seed: s }); }
    }
    if (i < 2) process.send({ t: "sample", i, seed: s, info: r.info, faults: r.faults, steps: r.steps, simMs: Math.round(r.now), choices: r.vals.length });
    if (r.violations.length > 0) process.send({ t: "violation", i, seed: s, vals: r.vals, violations: r.violations });
  }
  process.send({ t: "done", agg: { ...agg, keys: [...agg.keys], inter: [...agg.inter] } }, () => process.exit(0));
}

async function compiledFrom(file) { if (file === "-") return () => ({}); const text = readFileSync(file, "utf8"); await preloadShared(text); return compileBundle(text, file); }

function knownMatch(known, id, v) {
  return known.find((k) => k.property === id && k.status !== "fixed" && new RegExp(k.match).test(`${v.sig}: ${v.detail}`)) ?? null;
}

/** Shrink the choice sequence while the same violation signature persists. */
async function minimise(check, compiled, vals, sig, tier, index, budgetMs) {
  const end = Date.now() + budgetMs; let tries = 0;
  const test = async (v) => {
    tries++;
    const r = await oneRun(check, compiled, { replay: v, tier, index });
    if (r.crash) return null;
    return r.violations.some((x) => x.sig === sig) ? r.vals : null;
  };
  let best = vals.slice();
  const strip = (v) => { let n = v.length; while (n > 0 && v[n - 1] === 0) n--; return v.slice(0, n); };
  best = strip(best);
  let improved = true;
  const score = (v) => [v.length, v.reduce((a, b) => a + (b !== 0 ? 1 : 0), 0), v.reduce((a, b) => a + b, 0)];
  const better = (a, b) => { const x = score(a), y = score(b); for (let i = 0; i < 3; i++) if (x[i] !== y[i]) return x[i] < y[i]; return false; };
  while (improved && Date.now() < end) {
    improved = false;
    for (let size = Math.max(1, best.length >> 1); size >= 1 && Date.now() < end; size >>= 1) {
      for (let i = 0; i < best.length && Date.now() < end; i += size) {
        for (const mode of ["delete", "zero"]) {
          if (mode === "zero" && best.slice(i, i + size).every((x) => x === 0)) continue;
          const c = mode === "delete" ? best.slice(0, i).concat(best.slice(i + size))
            : best.map((x, j) => (j >= i && j < i + size ? 0 : x));
          const got = await test(c);
          if (got != null) { const g = strip(got); if (better(g, best)) { best = g; improved = true; } }
        }
      }
    }
    for (let i = 0; i < best.length && Date.now() < end; i++) {
      for (const nv of [1, best[i] >> 1, best[i] - 1]) {
        if (!(best[i] > nv && nv > 0)) continue;
        const c = best.slice(); c[i] = nv;
        const got = await test(c);
        if (got != null) { const g = strip(got); if (better(g, best)) { best = g; improved = true; break; } }
      }
    }
  }
  return { vals: best, tries };
}

export async function main(argv) {
  if (argv[0] === "--worker") return worker();
  const id = argv[0];
  const opt = (n) => { const i = argv.indexOf(n); return i >= 0 ? argv[i + 1] : undefined; };
  const tier = opt("--tier") ?? process.env.VERIF_TIER ?? "quick";
  const seed = Number(opt("--seed") ?? process.env.VERIF_SEED ?? 1) | 0;
  const check = await loadCheck(id);
  const t0 = Date.now();
  const bundle = check.entries ? await bundleToFile(check.entries, check.bundleOpts) : { file: "-", dispose() {} };
  const cleanup = () => { try { bundle.dispose(); } catch { /* best effort */ } };
  process.on("exit", cleanup);
  for (const s of ["SIGINT", "SIGTERM"]) process.on(s, () => process.exit(130));

  if (opt("--replay") != null) {
    const rep = JSON.parse(readFileSync(opt("--replay"), "utf8"));
    const compiled = await compiledFrom(bundle.file); if (check.warmup) await check.warmup(compiled);
    const r = await oneRun(check, compiled, { seed: rep.run_seed, replay: rep.choices, trace: true, labels: true, tier: rep.tier ?? tier, index: rep.index ?? 0 });
    if (r.crash) { console.error(r.crash); process.exit(2); }
    say(r.trace.slice(-Number(opt("--tail") ?? 4000)).join("\n"));
    say(`info ${JSON.stringify(r.info)}`);
    say(`digest ${r.digest}${rep.digest ? (rep.digest === r.digest ? " (as recorded)" : ` (recorded ${rep.digest})`) : ""}`);
    for (const v of r.violations) say(`violated: ${v.sig}: ${v.detail}`);
    process.exit(r.violations.length > 0 ? 1 : 0);
  }
  if (opt("--one") != null) {
    const compiled = await compiledFrom(bundle.file); if (check.warmup) await check.warmup(compiled);
    const i = Number(opt("--one"));
    const r = await oneRun(check, compiled, { seed: runSeed(seed, i), trace: true, labels: true, tier, index: i });
    say(r.trace.slice(-Number(opt("--tail") ?? 4000)).join("\n")); say(JSON.stringify({ info: r.info, faults: r.faults, notes: r.notes, steps: r.steps, choices: r.vals.length }));
    if (r.crash) console.error(r.crash);
    for (const v of r.violations) say(`violated: ${v.sig}: ${v.detail}`);
    process.exit(0);
  }

  const plan = { ...(check[tier] ?? check.quick) };
  if (opt("--runs") != null) plan.runs = Number(opt("--runs"));
  if (opt("--cap") != null) plan.cap = Number(opt("--cap"));
  const W = Math.max(1, Math.min(Number(opt("--workers") ?? process.env.SIM_WORKERS ?? 8), cpus().length, plan.runs));
  const known = loadKnown();
  const found = []; const samples = []; const aggs = []; let mismatches = []; let crash = null; const knownHits = new Map();
  const workers = [];
  const stopAll = () => { for (const w of workers) if (w.connected) { w.send("stop", () => {}); } };
  await Promise.all(Array.from({ length: W }, (_, w) => new Promise((res) => {
    const c = fork(fileURLToPath(import.meta.url), ["--worker", id, bundle.file, String(seed), String(w), String(W), String(plan.runs), String(plan.cap), tier], { stdio: ["ignore", "inherit", "inherit", "ipc"], execArgv: ["--no-warnings", "--max-old-space-size=3500", "--stack-size=4000"] });
    workers.push(c); c.on("error", () => {});
    let last = Date.now(), lastI = w, done = false;
    const dog = setInterval(() => {
      if (Date.now() - last > 150_000) {
        found.push({ i: lastI, seed: runSeed(seed, lastI), vals: null, violations: [{ sig: "run-never-ends", detail: `a simulated run spun without using simulated time for 150 s (near run index ${lastI})` }] });
        c.kill("SIGKILL"); stopAll();
      }
    }, 2000);
    c.on("message", (m) => {
      last = Date.now();
      if (m.t === "beat") lastI = m.i;
      else if (m.t === "sample") samples.push(m);
      else if (m.t === "mismatch") mismatches.push(m);
      else if (m.t === "crash") { crash ??= m; stopAll(); }
      else if (m.t === "violation") {
        const fresh = m.violations.filter((v) => { const k = knownMatch(known, id, v); if (k) knownHits.set(k.id, (knownHits.get(k.id) ?? 0) + 1); return !k; });
        if (fresh.length > 0) { found.push({ ...m, violations: fresh }); stopAll(); }
      } else if (m.t === "done") { done = true; aggs.push(m.agg); }
    });
    c.on("exit", (code, sig) => {
      clearInterval(dog);
      if (!done && found.length === 0 && crash == null) crash = { i: lastI, err: `worker ${w} ended (${code ?? sig}) without a result` };
      res();
    });
  })));

  const wall = (Date.now() - t0) / 1000;
  if (crash != null && found.length === 0) {
    console.error(`harness error in ${id} at run ${crash.i} (seed ${crash.seed}): ${crash.err}`);
    process.exit(2);
  }
  const sum = (k) => aggs.reduce((a, g) => a + g[k], 0);
  const merge = (k) => { const o = {}; for (const g of aggs) for (const x in g[k]) o[x] = (o[x] ?? 0) + g[k][x]; return o; };
  const keys = new Set(aggs.flatMap((g) => g.keys)); const inter = new Set(aggs.flatMap((g) => g.inter));
  const runsDone = sum("runs");

  let violationLine = null;
  if (found.length > 0) {
    found.sort((a, b) => a.i - b.i);
    const f = found[0]; const sig = f.violations[0].sig;
    const dir = join(VERIF, "evidence", "replay"); mkdirSync(dir, { recursive: true });
    const path = join(dir, `${id}-${seed}-${f.i}.json`);
    let rec = { property: id, tier, seed, index: f.i, run_seed: f.seed, violation: f.violations[0] };
    if (f.vals != null) {
      const compiled = await compiledFrom(bundle.file); if (check.warmup) await check.warmup(compiled);
      const m = await minimise(check, compiled, f.vals, sig, tier, f.i, plan.minimiseMs ?? 40_000);
      const r = await oneRun(check, compiled, { replay: m.vals, trace: true, labels: true, tier, index: f.i });
      const again = await oneRun(check, compiled, { replay: m.vals, tier, index: f.i });
      rec = { ...rec, violation: r.violations.find((v) => v.sig === sig) ?? f.violations[0], choices: m.vals, labels: (r.labels ?? []).slice(0, m.vals.length), digest: r.digest, reproduces: again.digest === r.digest && again.violations.some((v) => v.sig === sig), minimised_from: f.vals.length, minimise_runs: m.tries, faults: r.faults, scenario: r.info, trace: r.trace.slice(-400), original_choices: f.vals };
    }
    writeFileSync(path, JSON.stringify(rec, null, 1));
    say(`property ${id}: ${rec.violation.sig}: ${rec.violation.detail}`);
    say(`seed ${seed}, run ${f.i}; replay with: node sim/check.mjs ${id} --replay ${path}`);
    violationLine = `VIOLATION property=${id} replay=${path}`;
  }

  const ev = {
    property: id, tier, seed, level: "exploration",
    coverage: {
      evaluations: runsDone, distinct_nontrivial: keys.size,
      rule: check.rule,
      samples: samples.sort((a, b) => a.i - b.i).slice(0, 4),
      simulated_runs: runsDone, runs_nontrivial: sum("nontrivial"), runs_with_a_fault: sum("faultedRuns"),
      runs_and_seeds_per_hour: Math.round(runsDone / Math.max(0.001, wall) * 3600),
      simulated_time_s: Math.round(sum("simMs") / 1000),
      scheduler_steps: sum("steps"),
      faults_injected: merge("faults"), counters: merge("notes"),
      distinct_interleavings: inter.size,
      interleaving_measure: "hash of the ordered labels of every event the scheduler executed",
      determinism: { rerun_and_compared: aggs.reduce((a, g) => a + g.determinism.checked, 0), mismatched: mismatches.length },
      real_components: check.real, stub_components: check.stub,
      known_findings_hit: Object.fromEntries(knownHits),
    },
    assumptions: check.assumptions ?? [],
    wall_s: Math.round(wall * 10) / 10, violations: found.length,
  };
  mkdirSync(join(VERIF, "evidence"), { recursive: true });
  writeFileSync(join(VERIF, "evidence", `${id}.json`), JSON.stringify(ev, null, 1));
  for (const k of known) if (k.property === id && k.status !== "fixed") say(`KNOWN-FINDING: property=${id} ${k.what}`);
  if (mismatches.length > 0) console.error(`note: ${mismatches.length} rerun digest mismatches (runs ${mismatches.slice(0, 5).map((m) => m.i).join(", ")})`);
  say(`${id} ${tier} seed=${seed}: ${runsDone} runs, ${keys.size} distinct, ${Math.round(sum("simMs") / 1000)} s simulated, ${wall.toFixed(1)} s wall, faults ${JSON.stringify(ev.coverage.faults_injected)}`);
  if (violationLine) { say(violationLine); process.exit(1); }
  if (runsDone === 0) { console.error("no run completed"); process.exit(2); }
  process.exit(0);
}

if (process.argv[1] === fileURLToPath(import.meta.url)) main(process.argv.slice(2));
