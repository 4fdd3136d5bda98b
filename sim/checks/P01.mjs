// P01 — remote images are embedded exactly, or reported, within bounded time.
import { SimProcess, short } from "../core/sim.mjs";
import { makeGlobals } from "../core/globals.mjs";
import { SimNet } from "../worlds/net.mjs";
import { makeFs } from "../worlds/fs.mjs";

const MIME = ["image/png", "image/jpeg", "image/gif", "image/webp", "image/svg+xml", "image/avif"];
const EXT = { png: "image/png", jpg: "image/jpeg", jpeg: "image/jpeg", gif: "image/gif", webp: "image/webp", svg: "image/svg+xml", avif: "image/avif" };

function el(tag, i, extra = {}) {
  return {
    tag, text: "", x: 10 + i, y: 20 + i, width: 40, height: 30, children: [],
    styles: { backgroundImage: "none", maskImage: "none", borderImageSource: "none", listStyleImage: "none", ...(extra.styles ?? {}) },
    ...Object.fromEntries(Object.entries(extra).filter(([k]) => k !== "styles")),
  };
}

export default {
  id: "P01",
  entries: { embed: "src/capture/embed.ts", warnings: "src/capture/warnings.ts" },
  quick: { runs: 6000, cap: 75 }, thorough: { runs: 400000, cap: 1500 },
  rule: "a run = one process doing 1-3 embed passes (sequential or overlapping) over generated trees whose image references (img, pseudo, background, mask, border-image, list-style; quoted/unquoted; shared URLs) are served by a simulated network that decides each attempt; non-trivial = at least one remote URL fetched",
  assumptions: ["fetch is the only path to the network; Node's Response/stream implementation is real", "a late timer (event-loop stall) is charged to the environment, not to the pass"],
  real: ["src/capture/embed.ts", "src/capture/warnings.ts", "Node Response/ReadableStream"], stub: ["fetch transport and remote servers", "clock and timers", "file system"],
  simOpts: { stallProb: 0.002 },
  async run({ sim, choices, load }) {
    const proc = new SimProcess(sim, { name: "domotion" });
    const c = choices;
    const nUrls = c.int(1, 7, "urls");
    const urls = [];
    for (let i = 0; i < nUrls; i++) {
      const ext = c.pick(["png", "jpg", "jpeg", "gif", "webp", "svg", "avif", ""], "ext");
      const q = c.pick(["", "?v=1", "?format=pjpg&w=20", "?u=a.gif"], "query");
      const scheme = c.pick(["https", "http"], "scheme");
      const len = c.weighted([[4, 0], [6, 1], [6, 17], [3, 300], [1, 5000]], "len");
      const body = Buffer.from(Array.from({ length: len }, (_, k) => (k * 131 + i * 17 + len) & 255));
      const ct = c.pick(["image", "image;charset", "none", "octet", "html"], "ctype");
      const mime = c.pick(MIME, "mime");
      const headers = ct === "image" ? { "content-type": mime } : ct === "image;charset" ? { "content-type": `${mime}; charset=utf-8` } : ct === "octet" ? { "content-type": "application/octet-stream" } : ct === "html" ? { "content-type": "text/html" } : {};
      const expectMime = ct.startsWith("image") ? mime : (EXT[ext] ?? "application/octet-stream");
      urls.push({ url: `${scheme}://h${i}.example/${"p".repeat(1 + (i % 3))}/img${i}${ext ? "." + ext : ""}${q}`, body, headers, expectMime });
    }
    const byUrl = new Map(urls.map((u) => [u.url, u]));
    const faulty = c.chance(0.8, "faulty-run");
    let bodyFaults = 0;
    const net = new SimNet(sim, proc, (url) => {
      const u = byUrl.get(url);
      const base = { headMs: c.delay(1, 4000, "head"), bodyMs: c.delay(1, 3000, "body"), chunks: c.int(1, 4, "chunks"), body: u?.body, headers: u?.headers };
      if (u == null) return { ...base, kind: "status", status: 404 };
      const kind = faulty && sim.faultsEnabled ? c.weighted([[5, "ok"], [1.2, "5xx"], [0.8, "4xx"], [1, "error"], [1, "stall-head"], [0.7, "stall-body"], [0.7, "cut-body"], [0.4, "slow-head"], [0.3, "slow-body"]], "outcome") : "ok";
      switch (kind) {
        case "ok": return { ...base, kind: "ok", status: c.weighted([[20, 200], [1, 203], [1, 206]], "status2xx") };
        case "5xx": return { ...base, kind: "status", fault: "http-5xx", status: c.pick([500, 502, 503, 504, 599], "5xx") };
        case "4xx": return { ...base, kind: "status", fault: "http-4xx", status: c.pick([404, 403, 400, 401, 410, 429], "4xx") };
        case "error": return { ...base, kind: "error", fault: "connection-error", code: c.pick(["ECONNRESET", "ENOTFOUND", "ECONNREFUSED"], "code") };
        case "stall-head": return { ...base, kind: "stall-head", fault: "stalled-before-headers" };
        case "stall-body": bodyFaults++; return { ...base, kind: "stall-body", fault: "stalled-mid-body", chunks: Math.max(2, base.chunks) };
        case "cut-body": return { ...base, kind: "cut-body", fault: "connection-cut-mid-body", chunks: Math.max(2, base.chunks) };
        case "slow-head": return { ...base, kind: "ok", status: 200, fault: "slow-headers", headMs: c.delay(5000, 60000, "slowhead") };
        default: return { ...base, kind: "ok", status: 200, fault: "slow-body", bodyMs: c.delay(5000, 60000, "slowbody") };
      }
    });
    const { fs } = makeFs(sim, proc);
    const mod = load(makeGlobals(sim, proc, { fetch: net.fetch, modules: { fs } }));
    const passes = c.weighted([[5, 1], [3, 2], [1, 3]], "passes");
    const overlap = passes > 1 && c.chance(0.5, "overlap");
    const results = [];
    const startPass = (p) => {
      const opts = {};
      if (c.chance(0.6, "opt-timeout")) opts.timeoutMs = c.pick([10000, 200, 1500, 5000], "timeoutMs");
      if (c.chance(0.6, "opt-retries")) opts.retries = c.pick([1, 0, 2, 3], "retries");
      if (c.chance(0.6, "opt-backoff")) opts.retryBackoffMs = c.pick([500, 0, 50, 2000], "backoff");
      const own = c.chance(0.7, "own-warnings") || overlap;
      const sink = own ? [] : mod.warnings.getLastCaptureWarnings();
      if (own) opts.warnings = sink;
      const base = sink.length;
      const used = urls.filter(() => c.chance(0.8, "use"));
      if (used.length === 0) used.push(urls[0]);
      const tree = []; const refs = [];
      used.forEach((u, i) => {
        const times = c.weighted([[5, 1], [2, 2]], "refs");
        for (let k = 0; k < times; k++) {
          const way = c.pick(["img", "bg", "pseudo", "mask", "border", "list"], "way");
          const quote = c.pick(['"', "'", ""], "quote");
          const css = `${c.pick(["", "linear-gradient(red, blue), "], "pre")}url(${quote}${u.url}${quote})`;
          const e = way === "img" ? el("img", i, { imageSrc: u.url }) : way === "pseudo" ? el("div", i, { pseudoImages: [{ url: u.url, x: 0, y: 0, width: 4, height: 4 }] })
            : el("div", i, { styles: { [{ bg: "backgroundImage", mask: "maskImage", border: "borderImageSource", list: "listStyleImage" }[way]]: css } });
          refs.push(e);
          if (tree.length > 0 && c.chance(0.4, "nest")) tree[c.below(tree.length, "parent")].children.push(e); else tree.push(e);
        }
      });
      if (c.chance(0.3, "local")) tree.push(el("img", 9, { imageSrc: "data:image/png;base64,AA==" }));
      const cachedAtStart = new Set(used.filter((u) => mod.embed._dataUriCache?.has?.(u.url)).map((u) => u.url));
      const att0 = net.attempts.length;
      const rec = { used, opts, sink, base, start: sim.now, tree, cachedAtStart, att0, stall0: sim.faults["event-loop-stall"] ?? 0, settled: null };
      results.push(rec);
      rec.promise = mod.embed.embedRemoteImages(tree, opts).then(() => { rec.settled = { ok: true, at: sim.now }; }, (e) => { rec.settled = { ok: false, at: sim.now, e }; });
      return rec;
    };
    const bound = (r) => {
      const t = r.opts.timeoutMs ?? 10000, n = r.opts.retries ?? 1, b = r.opts.retryBackoffMs ?? 500;
      return t * (n + 1) + b * n + 5 * (n + 2) + 401 * ((sim.faults["event-loop-stall"] ?? 0) - r.stall0) ;
    };
    const judge = (r) => {
      if (!r.settled) { sim.violate("embed-never-finishes", `an embed pass (timeout ${r.opts.timeoutMs ?? 10000} ms, retries ${r.opts.retries ?? 1}) had not finished ${Math.round(sim.now - r.start)} ms after it started`); return; }
      sim.check(r.settled.ok, "embed-rejects", () => `the pass rejected: ${short(r.settled.e)}`);
      const took = r.settled.at - r.start;
      sim.check(took <= bound(r), "embed-over-time-bound", () => `took ${Math.round(took)} ms, documented bound ${Math.round(bound(r))} ms`);
      const warns = r.sink.slice(r.base);
      for (const u of r.used) {
        const uri = mod.embed.embedResizedDataUri(u.url, 40, 30);
        const good = `data:${u.expectMime};base64,${u.body.toString("base64")}`;
        const mine = warns.filter((w) => w.feature === "remote-image" && new RegExp(`(^|\\s)${u.url.replace(/[.*+?^${}()|[\]\\]/g, "\\$&")}(\\s|$)`).test(w.detail));
        const ok = uri === good;
        sim.check(ok || uri === u.url, "embedded-bytes-wrong", () => `${u.url}: resolved to ${uri.slice(0, 80)}… instead of the served bytes (${good.slice(0, 80)}…) or the original URL`);
        if (!ok) sim.check(mine.length >= 1, "failure-not-reported", () => `${u.url} was not embedded and no warning names it`);
        sim.check(mine.length <= 1, "failure-reported-twice", () => `${u.url}: ${mine.length} warnings in one pass`);
        if (!overlap) {
          const mineAtt = net.attempts.slice(r.att0).filter((a) => a.url === u.url && a.start >= r.start);
          const max = (r.opts.retries ?? 1) + 1;
          sim.check(mineAtt.length <= max, "too-many-attempts", () => `${u.url}: ${mineAtt.length} attempts, at most ${max} allowed`);
          if (r.cachedAtStart.has(u.url)) sim.check(mineAtt.length === 0, "refetch-of-embedded", () => `${u.url} was already embedded and was fetched again`);
          const i4 = mineAtt.findIndex((a) => a.kind === "status" && a.status < 500 && !a.aborted);
          sim.check(i4 < 0 || i4 === mineAtt.length - 1, "4xx-retried", () => `${u.url}: HTTP ${mineAtt[i4].status} was retried`);
          const anyOk = mineAtt.some((a) => a.kind === "ok" && !a.aborted && a.bodyRead);
          if (anyOk) { sim.check(ok, "success-not-embedded", () => `${u.url}: an attempt served the whole image, but it is not embedded`); sim.check(mine.length === 0, "success-warned", () => `${u.url}: embedded and also reported as failed`); }
          else if (!r.cachedAtStart.has(u.url)) {
            sim.check(!ok || u.body.length === 0, "embedded-without-success", () => `${u.url} embedded although no attempt served it whole`);
            const last = mineAtt[mineAtt.length - 1];
            if (last == null) sim.violate("never-attempted", `${u.url}: no fetch was attempted`);
            else {
              if (last.kind !== "status" || last.status >= 500) sim.check(mineAtt.length === max, "gave-up-early", () => `${u.url}: transient failures, ${mineAtt.length} of ${max} attempts made`);
              if (last.kind === "status" && !last.aborted && mine.length === 1) sim.check(mine[0].detail.includes(String(last.status)), "warning-hides-status", () => `${u.url}: final outcome HTTP ${last.status}, warning says "${mine[0].detail}"`);
            }
          }
        }
      }
      const foreign = warns.filter((w) => w.feature === "remote-image" && !r.used.some((u) => w.detail.includes(u.url)));
      sim.check(foreign.length === 0 || overlap, "foreign-warning", () => `warning about a URL not in this tree: ${foreign[0].detail}`);
    };
    const horizon = () => sim.now + 600_000;
    if (overlap) {
      for (let p = 0; p < passes; p++) {
        startPass(p);
        if (p + 1 < passes) { const d = c.delay(0, 4000, "gap"); const h = sim.now + d; proc.io(d, () => {}, "gap"); await sim.run(() => sim.now >= h, { maxTime: h + 1 }); }
      }
      await sim.run(() => results.every((r) => r.settled), { maxTime: horizon() });
      for (const r of results) judge(r);
    } else {
      for (let p = 0; p < passes; p++) { const r = startPass(p); await sim.run(() => r.settled != null, { maxTime: horizon() }); judge(r); }
    }
    // Once faults stop, one more pass embeds everything that is left.
    if (results.every((r) => r.settled)) {
      sim.faultsEnabled = false;
      const tree = urls.map((u, i) => el("img", i, { imageSrc: u.url })); const w = [];
      const st = await sim.settle(mod.embed.embedRemoteImages(tree, { warnings: w }), { maxTime: horizon() });
      sim.check(st.status === "ok", "embed-never-finishes", () => `fault-free pass: ${st.status} ${st.error ? short(st.error) : st.why}`);
      for (const u of urls) {
        const good = `data:${u.expectMime};base64,${u.body.toString("base64")}`; const uri = mod.embed.embedResizedDataUri(u.url, 40, 30);
        sim.check(uri === good, "not-embedded-after-recovery", () => `${u.url}: still ${uri.slice(0, 80)} after a fault-free pass`);
      }
      sim.check(w.length === 0, "warned-after-recovery", () => `fault-free pass warned: ${w[0]?.detail}`);
    }
    for (const u of proc.uncaught) sim.violate("process-crashed", short(u.err));
    return { nontrivial: net.attempts.length > 0, key: `${nUrls}/${passes}/${overlap}/${net.attempts.map((a) => a.kind).join()}`, urls: nUrls, passes, overlap, attempts: net.attempts.slice(0, 12).map((a) => `${a.kind}@${Math.round(a.start)}`) };
  },
};
