// Simulated HTTP: every attempt against a URL gets an outcome from Choices.
// The Response object is Node's own; its body is a stream the scheduler feeds.
import { hashStr } from "../core/sim.mjs";

export function netError(code, host) {
  const e = new TypeError("fetch failed");
  e.cause = Object.assign(new Error(`${code} ${host}`), { code });
  return e;
}
const abortErr = (signal) => (signal.reason !== undefined ? signal.reason : new DOMException("This operation was aborted", "AbortError"));

export class SimNet {
  /** behave(url, attemptIndex) → outcome object:
   *  {kind:"ok"|"status"|"error"|"stall-head"|"stall-body"|"cut-body", status, headers, body, headMs, bodyMs, chunks} */
  constructor(sim, proc, behave) {
    this.sim = sim; this.proc = proc; this.behave = behave;
    this.attempts = []; this.open = 0;
  }
  fetch = (input, init = {}) => {
    const { sim, proc } = this;
    proc.guard();
    const url = typeof input === "string" ? input : (input.url ?? String(input));
    const signal = init?.signal ?? null;
    const idx = this.attempts.filter((a) => a.url === url).length;
    const out = this.behave(url, idx);
    const rec = { url, idx, kind: out.kind, start: sim.now, headAt: null, endAt: null, aborted: false, status: out.status, bodyRead: false };
    this.attempts.push(rec);
    sim.log(`fetch ${url} #${idx} → ${out.kind}${out.status ? " " + out.status : ""}`);
    if (out.fault) sim.fired(out.fault);
    const label = (w) => `${proc.name}:net:${w}:${hashStr(url) & 0xffff}`;
    return new Promise((resolve, reject) => {
      let settled = false; let ctl = null; const evs = [];
      this.open++;
      const end = () => { if (rec.endAt == null) { rec.endAt = sim.now; this.open--; } };
      const onAbort = () => {
        rec.aborted = true;
        for (const e of evs) sim.cancel(e);
        const err = abortErr(signal);
        if (!settled) { settled = true; reject(err); }
        else if (ctl != null && rec.endAt == null) { try { ctl.error(err); } catch { /* closed */ } }
        end();
      };
      if (signal != null) {
        if (signal.aborted) { settled = true; rec.aborted = true; end(); reject(abortErr(signal)); return; }
        signal.addEventListener("abort", onAbort, { once: true });
      }
      if (out.kind === "stall-head") return;
      evs.push(proc.io(out.headMs ?? 5, () => {
        if (settled) return;
        settled = true;
        if (out.kind === "error") { end(); reject(netError(out.code ?? "ECONNRESET", url)); return; }
        rec.headAt = sim.now;
        const body = out.body ?? Buffer.alloc(0);
        const n = Math.max(1, out.chunks ?? 1);
        const cut = out.kind === "cut-body" ? Math.floor(n / 2) : out.kind === "stall-body" ? Math.floor(n / 2) : n;
        const stream = new ReadableStream({
          start(c) { ctl = c; },
          cancel() { rec.cancelled = true; for (const e of evs) sim.cancel(e); end(); },
        });
        const size = Math.ceil(body.length / n);
        for (let k = 0; k < cut; k++) {
          evs.push(proc.io((out.bodyMs ?? 5) * (k + 1) / n, () => {
            const part = body.subarray(k * size, Math.min(body.length, (k + 1) * size));
            try { if (part.length > 0) ctl.enqueue(new Uint8Array(part)); } catch { return; }
            if (k === n - 1) { end(); rec.bodyRead = true; try { ctl.close(); } catch { /* cancelled */ } }
          }, label(`body${k}`), { fifo: rec }));
        }
        if (out.kind === "cut-body") evs.push(proc.io((out.bodyMs ?? 5) + 1, () => { end(); const e = new TypeError("terminated"); try { ctl.error(e); } catch { /* closed */ } }, label("cut"), { fifo: rec }));
        const status = out.status ?? 200;
        const nullBody = status === 204 || status === 304;
        const resp = new Response(nullBody ? null : stream, { status, headers: out.headers ?? {} });
        Object.defineProperty(resp, "url", { value: url });
        if (nullBody) end();
        resolve(resp);
      }, label("head")));
    });
  };
}
