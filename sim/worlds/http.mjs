// Simulated HTTP server side (node:http createServer) plus a client that sends
// requests over it.  Connections, body chunks, aborts and closes are scheduled.
import { EventEmitter } from "node:events";
import { Readable } from "node:stream";

export function httpModule(sim, proc, o = {}) {
  const w = { servers: [], nextPort: 40001, conns: 0 };
  const createServer = (opts, handler) => {
    if (typeof opts === "function") { handler = opts; opts = {}; }
    const s = new EventEmitter(); s.listening = false; s._open = new Set(); s._idle = new Set(); s._closed = false;
    if (handler) s.on("request", handler);
    s.listen = (port, host, cb) => {
      if (typeof host === "function") { cb = host; host = undefined; }
      if (cb) s.once("listening", cb);
      proc.io(sim.choices.delay(0.1, 5, "listen"), () => {
        const taken = o.portTaken?.(port) || w.servers.some((x) => x.listening && x._port === port);
        if (taken) { sim.fired("port-in-use"); const e = Object.assign(new Error(`listen EADDRINUSE: address already in use ${host}:${port}`), { code: "EADDRINUSE", syscall: "listen" }); s.emit("error", e); return; }
        s._port = port || w.nextPort++; s._host = host ?? "::"; s.listening = true; s.emit("listening");
      }, "http:listen");
      return s;
    };
    s.address = () => (s.listening ? { address: s._host, port: s._port, family: "IPv4" } : null);
    const settleClose = () => { if (s._closed && s._open.size === 0 && s._idle.size === 0) { const cbs = s._closeCbs ?? []; s._closeCbs = []; for (const f of cbs) proc.io(0.1, f, "http:closed"); } };
    s.close = (cb) => {
      if (s._closed) { if (cb) proc.io(0.1, () => cb(Object.assign(new Error("Server is not running."), { code: "ERR_SERVER_NOT_RUNNING" })), "http:closed"); return s; }
      s._closed = true; s.listening = false; if (cb) (s._closeCbs ??= []).push(cb); settleClose(); return s;
    };
    s.closeIdleConnections = () => { s._idle.clear(); settleClose(); };
    s.closeAllConnections = () => { for (const c of [...s._open]) c.kill("server closed the connection"); s._idle.clear(); settleClose(); };
    s.unref = () => s; s.ref = () => s; s.setTimeout = () => s;
    s._settleClose = settleClose;
    w.servers.push(s); return s;
  };
  /** A connection that is opened and then says nothing (browsers open such ahead of use). */
  const connect = (port) => new Promise((resolve) => {
    sim.schedule(sim.choices.delay(0.1, 5, "connect"), () => {
      const s = w.servers.find((x) => x.listening && x._port === port);
      if (!proc.alive || s == null) { resolve(null); return; }
      const conn = { sock: socketOf(s, () => drop()), kill: () => drop() };
      const drop = () => { if (!s._open.delete(conn)) return; conn.sock._gone(); s._settleClose(); };
      s._open.add(conn); sim.fired("silent connection"); s.emit("connection", conn.sock); resolve({ close: drop });
    }, { kind: "proc", proc, label: "http:connect" });
    proc.onDeath.push(() => resolve(null));
  });
  const socketOf = (s, onDestroy) => { const k = new EventEmitter(); Object.assign(k, { remoteAddress: "127.0.0.1", destroyed: false, setTimeout: () => k, setNoDelay: () => k, unref: () => k, ref: () => k, end: () => k.destroy(), destroy: () => { if (!k.destroyed) { k.destroyed = true; onDestroy(); } return k; }, _gone: () => { k.destroyed = true; proc.io(0.05, () => k.emit("close", false), "http:socket-closed"); } }); return k; };
  /** Send one request; resolves {status, headers, body} | {refused} | {aborted} | {reset}. */
  const request = (port, r) => new Promise((resolve) => {
    const id = ++w.conns; const c = sim.choices;
    sim.schedule(c.delay(0.1, 5, "connect"), () => {
      const s = w.servers.find((x) => x.listening && x._port === port);
      if (!proc.alive || s == null) { resolve({ refused: true, at: sim.now }); return; }
      const body = r.body == null ? null : Buffer.from(r.body);
      let reqEnded = body == null, done = false;
      const req = new Readable({ read() {} });
      req.method = r.method ?? "GET"; req.url = r.path; req.httpVersion = "1.1"; req.complete = false; req.aborted = false;
      req.headers = { host: `127.0.0.1:${port}`, ...(body ? { "content-length": String(body.length), "content-type": "application/json" } : {}), ...(r.headers ?? {}) };
      const sock = socketOf(s, () => { if (s._idle.delete(conn)) { sock._gone(); s._settleClose(); } else conn.kill("socket destroyed by server"); }); req.socket = sock; req.connection = sock;
      const res = new EventEmitter();
      const st = { status: 200, headers: {}, chunks: [], gone: false };
      const conn = { id, kill: (why) => { if (done) return; done = true; finishConn(); resolve({ reset: true, why, at: sim.now }); } };
      s._open.add(conn); res.socket = sock; res.connection = sock;
      const finishConn = () => { s._open.delete(conn); if (r.keepAlive && !s._closed && !sock.destroyed) s._idle.add(conn); else sock._gone(); s._settleClose(); };
      res.headersSent = false; res.writableEnded = false; res.finished = false; res.destroyed = false; res.statusCode = 200;
      res.setHeader = (k, v) => { if (res.headersSent) throw Object.assign(new Error("Cannot set headers after they are sent to the client"), { code: "ERR_HTTP_HEADERS_SENT" }); st.headers[k.toLowerCase()] = v; return res; };
      res.getHeader = (k) => st.headers[k.toLowerCase()];
      res.writeHead = (status, msg, h) => {
        if (typeof msg === "object") h = msg;
        if (res.headersSent) throw Object.assign(new Error("Cannot write headers after they are sent to the client"), { code: "ERR_HTTP_HEADERS_SENT" });
        for (const k in h ?? {}) { const v = h[k]; if (/[\r\n]/.test(String(v))) throw Object.assign(new TypeError(`Invalid character in header content ["${k}"]`), { code: "ERR_INVALID_CHAR" }); st.headers[k.toLowerCase()] = v; }
        st.status = status; res.statusCode = status; res.headersSent = true; return res;
      };
      res.write = (d, enc, cb) => { res.headersSent = true; if (!st.gone) st.chunks.push(Buffer.from(d)); const f = typeof enc === "function" ? enc : cb; if (f) queueMicrotask(f); return true; };
      res.end = (d, enc, cb) => {
        if (typeof d === "function") { cb = d; d = undefined; }
        if (res.writableEnded) return res;
        if (d != null) res.write(d); res.headersSent = true; res.writableEnded = true; res.finished = true; if (!st.headersDone) st.headersDone = true;
        if (!st.gone && !done) {
          const body = Buffer.concat(st.chunks); done = true;
          const cl = st.headers["content-length"];
          proc.io(c.delay(0.1, 3, "res"), () => { res.emit("finish"); res.emit("close"); finishConn(); cb?.(); resolve({ status: st.status, headers: st.headers, body, badLength: cl != null && Number(cl) !== body.length, at: sim.now }); }, `http:${id}:response`);
        }
        return res;
      };
      res.destroy = () => { res.destroyed = true; conn.kill("destroyed by server"); return res; };
      res.flushHeaders = () => {}; res.once = res.once.bind(res);
      const abort = () => {
        if (done) return; done = true; st.gone = true; sim.fired("client-disconnect");
        if (!reqEnded) { req.aborted = true; const e = Object.assign(new Error("aborted"), { code: "ECONNRESET" }); if (req.listenerCount("error") > 0) req.destroy(e); else req.destroy(); }
        res.destroyed = true; res.emit("close"); finishConn(); resolve({ aborted: true, at: sim.now });
      };
      // body chunks
      if (body != null) {
        const parts = []; let i = 0; const n = c.weighted([[4, 1], [2, 2], [1, 4]], "chunks");
        for (let k = 0; k < n - 1 && i < body.length; k++) { const j = i + 1 + c.below(Math.max(1, body.length - i), "cut"); parts.push(body.subarray(i, j)); i = j; }
        parts.push(body.subarray(i));
        let t = 0; const cut = r.abortIn === "body" ? c.below(parts.length + 1, "abort-at") : -1;
        parts.forEach((p, k) => {
          t += c.delay(0.05, 20, "chunk");
          if (k === cut) proc.io(t, abort, `http:${id}:abort`, { fifo: `http:${id}` });
          proc.io(t, () => { if (!st.gone && !req.destroyed) req.push(Buffer.from(p)); }, `http:${id}:chunk`, { fifo: `http:${id}` });
        });
        proc.io(t + 0.01, () => { if (st.gone || req.destroyed) return; reqEnded = true; req.complete = true; req.push(null); }, `http:${id}:end`, { fifo: `http:${id}` });
      } else { req.complete = true; req.push(null); }
      if (r.abortIn === "wait") proc.io(c.delay(1, 3000, "abort-after"), abort, `http:${id}:abort`);
      req.on("close", () => { if (req.destroyed && !reqEnded && !st.gone && !done) proc.alive && proc.io(0.1, () => conn.kill("request destroyed"), `http:${id}:reset`); });
      proc.onDeath.push(() => { if (!done) { done = true; s._open.delete(conn); resolve({ reset: true, why: "server process died", at: sim.now }); } });
      s.emit("connection", sock); s.emit("request", req, res);
    }, { kind: "proc", proc, label: `http:${id}:connect` });
    proc.onDeath.push(() => resolve({ refused: true, dead: true, at: sim.now }));
  });
  return { world: w, module: { createServer, Server: EventEmitter, STATUS_CODES: {} }, request, connect };
}
