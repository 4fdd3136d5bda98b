// In-memory file system shared by simulated processes.  Every operation is a
// crash point and a fault point.  Contents survive a process crash (page cache
// semantics); writes are not atomic unless the operation is (rename, unlink).
import * as rfs from "node:fs";
import { posix as path } from "node:path";
import { Writable, Readable } from "node:stream";
import { fileURLToPath } from "node:url";

export function errno(code, op, p, dest) {
  const msg = { ENOENT: "no such file or directory", EEXIST: "file already exists", ENOSPC: "no space left on device", EACCES: "permission denied", EIO: "i/o error", ENOTDIR: "not a directory", EISDIR: "illegal operation on a directory", ENOTEMPTY: "directory not empty", EROFS: "read-only file system", EMFILE: "too many open files", EXDEV: "cross-device link not permitted", EBUSY: "resource busy or locked", EPERM: "operation not permitted", EBADF: "bad file descriptor", EPIPE: "broken pipe", EAGAIN: "resource temporarily unavailable", ETXTBSY: "text file is busy" }[code] ?? code;
  const e = new Error(`${code}: ${msg}, ${op}${p != null ? ` '${p}'` : ""}${dest != null ? ` -> '${dest}'` : ""}`);
  e.code = code; e.errno = -2; e.syscall = op; if (p != null) e.path = p; if (dest != null) e.dest = dest;
  return e;
}

export class Vfs {
  constructor(sim, o = {}) {
    this.sim = sim; this.nodes = new Map(); this.ino = 1; this.nextFd = 40; this.fds = new Map();
    this.capacity = o.capacity ?? Infinity;
    this.real = o.real ?? (() => false);      // read-only pass-through of real paths
    this.fault = o.fault ?? (() => null);     // (op, path, proc) → errno | null
    this.point = o.point ?? (() => {});       // called before every op: may crash proc
    this.opCost = o.opCost ?? 0.05;
    this.history = [];                        // mutating operations, in order
    this.special = new Map();                 // fd → device object
    for (const d of ["/", "/tmp", "/work", "/home", "/home/user"]) this.nodes.set(d, this.mkNode("dir"));
  }
  mkNode(type, data) { return { type, data: data ?? (type === "file" ? Buffer.alloc(0) : null), mode: type === "dir" ? 0o755 : 0o644, mtime: this.sim?.wall ?? 0, ino: this.ino++ }; }
  used() { let n = 0; for (const v of this.nodes.values()) if (v.type === "file") n += v.data.length; return n; }
  get(p) { return this.nodes.get(p) ?? null; }
  has(p) { return this.nodes.has(p); }
  put(p, data, mode) { this.mkdirs(path.dirname(p)); const n = this.mkNode("file", Buffer.isBuffer(data) ? data : Buffer.from(data)); if (mode != null) n.mode = mode; this.nodes.set(p, n); return n; }
  mkdirs(p) { if (p === "/" || this.nodes.has(p)) return; this.mkdirs(path.dirname(p)); this.nodes.set(p, this.mkNode("dir")); }
  list(prefix) { return [...this.nodes.keys()].filter((k) => k === prefix || k.startsWith(prefix === "/" ? "/" : prefix + "/")).sort(); }
  children(dir) { const pre = dir === "/" ? "/" : dir + "/"; const out = new Set(); for (const k of this.nodes.keys()) if (k.startsWith(pre) && k !== dir) out.add(k.slice(pre.length).split("/")[0]); return [...out].sort(); }
  files(prefix) { return this.list(prefix).filter((k) => this.nodes.get(k).type === "file"); }
  text(p) { const n = this.get(p); return n && n.type === "file" ? n.data.toString("utf8") : null; }
}

/** Simple constructor used by checks that barely touch files. */
export function makeFs(sim, proc, o = {}) { const vfs = o.vfs ?? new Vfs(sim, o); const fs = fsModule(vfs, proc, o); return { vfs, fs, promises: fs.promises }; }

export function fsModule(vfs, proc, o = {}) {
  const sim = vfs.sim;
  const P = (p) => { if (p instanceof URL) p = fileURLToPath(p); else if (Buffer.isBuffer(p)) p = p.toString(); if (typeof p !== "string") { const e = new TypeError(`The "path" argument must be of type string. Received ${p === undefined ? "undefined" : typeof p}`); e.code = "ERR_INVALID_ARG_TYPE"; throw e; } return path.resolve(proc.cwd, p); };
  const isReal = (p) => !vfs.nodes.has(p) && vfs.real(p);
  const MUT = new Set(["write", "mkdir", "rename", "unlink", "rm", "chmod", "open-w", "copy", "mkdtemp", "rmdir", "truncate", "utimes"]);
  const enter = (op, p, extra) => {
    proc.guard();
    sim.advanceSync(vfs.opCost);
    vfs.point(op, p, proc, extra);
    proc.guard();
    const f = vfs.fault(op, p, proc, extra);
    if (f) { sim.fired(`fs-${op}-${f}`); throw errno(f, op, p); }
    if (MUT.has(op)) { vfs.history.push({ op, p, proc: proc.name, at: sim.now, ...extra }); sim.log(`${proc.name} fs.${op} ${p}`); }
  };
  const need = (p, op) => { const n = vfs.get(p); if (n == null) throw errno("ENOENT", op, p); return n; };
  const parentOk = (p, op) => { const d = vfs.get(path.dirname(p)); if (d == null) { if (vfs.real(path.dirname(p)) && !vfs.nodes.has(path.dirname(p))) throw errno("EROFS", op, p); throw errno("ENOENT", op, p); } if (d.type !== "dir") throw errno("ENOTDIR", op, p); };
  const enc = (data, e) => (e ? data.toString(typeof e === "string" ? e : e.encoding ?? undefined) : Buffer.from(data));
  const toBuf = (d, e) => (typeof d === "string" ? Buffer.from(d, typeof e === "string" ? e : e?.encoding ?? "utf8") : Buffer.isBuffer(d) ? Buffer.from(d) : Buffer.from(d.buffer ?? d, d.byteOffset ?? 0, d.byteLength));
  const statOf = (n, p) => ({ isFile: () => n.type === "file", isDirectory: () => n.type === "dir", isSymbolicLink: () => false, isFIFO: () => false, isSocket: () => false, isBlockDevice: () => false, isCharacterDevice: () => false, size: n.type === "file" ? n.data.length : 4096, mode: (n.type === "dir" ? 0o040000 : 0o100000) | n.mode, mtimeMs: n.mtime, mtime: new Date(n.mtime), ctimeMs: n.mtime, atimeMs: n.mtime, birthtimeMs: n.mtime, ino: n.ino, dev: 1, nlink: 1, uid: 1000, gid: 1000 });
  const writable = (p, add) => { if (vfs.used() + add > vfs.capacity) return Math.max(0, vfs.capacity - vfs.used()); return add; };
  // Non-atomic write: may be torn by a crash or by a full disk.
  const doWrite = (n, p, buf, pos) => {
    const room = writable(p, Math.max(0, pos + buf.length - n.data.length));
    let len = Math.min(buf.length, Math.max(0, n.data.length - pos) + room);
    const torn = vfs.tear ? vfs.tear(p, len, proc) : null;
    const put = (k) => { const end = Math.max(n.data.length, pos + k); const nb = Buffer.alloc(end); n.data.copy(nb); buf.copy(nb, pos, 0, k); n.data = nb; n.mtime = sim.wall; };
    if (torn != null) { put(Math.min(torn, len)); proc.crash("SIGKILL during write"); sim.fired("crash-mid-write"); proc.guard(); }
    put(len);
    if (len < buf.length) { sim.fired("disk-full"); throw errno("ENOSPC", "write", p); }
    return len;
  };
  const fs = {
    constants: rfs.constants,
    existsSync(p) { try { p = P(p); } catch { return false; } proc.guard(); sim.advanceSync(vfs.opCost / 5); vfs.point("exists", p, proc); proc.guard(); return vfs.nodes.has(p) || (isReal(p) && rfs.existsSync(p)); },
    accessSync(p) { p = P(p); enter("access", p); if (isReal(p)) return rfs.accessSync(p); need(p, "access"); },
    statSync(p, oo) { p = P(p); enter("stat", p); if (isReal(p)) return rfs.statSync(p, oo); const n = vfs.get(p); if (n == null) { if (oo?.throwIfNoEntry === false) return undefined; throw errno("ENOENT", "stat", p); } return statOf(n, p); },
    lstatSync(p, oo) { return fs.statSync(p, oo); },
    realpathSync: Object.assign((p) => { p = P(p); if (isReal(p)) return rfs.realpathSync(p); need(p, "realpath"); return p; }, { native: (p) => P(p) }),
    readFileSync(p, e) {
      if (typeof p === "number") { const f = fs._fd(p, "read"); if (f.dev) return f.dev.readAll(e); return enc(f.node.data, e); }
      p = P(p); enter("read", p);
      if (isReal(p)) return rfs.readFileSync(p, e);
      const n = need(p, "open"); if (n.type === "dir") throw errno("EISDIR", "read", p);
      return enc(n.data, e);
    },
    writeFileSync(p, data, e) {
      if (typeof p === "number") { fs.writeSync(p, toBuf(data, e)); return; }
      p = P(p); const flag = typeof e === "object" && e?.flag ? e.flag : "w";
      enter("open-w", p, { flag }); parentOk(p, "open");
      let n = vfs.get(p);
      if (n?.type === "dir") throw errno("EISDIR", "open", p);
      if (flag.includes("x") && n != null) throw errno("EEXIST", "open", p);
      const fresh = n == null;
      if (fresh) { n = vfs.mkNode("file"); if (typeof e === "object" && e?.mode != null) n.mode = e.mode; vfs.nodes.set(p, n); }
      if (!flag.startsWith("a")) n.data = Buffer.alloc(0);
      const buf = toBuf(data, e);
      enter("write", p, { len: buf.length });
      doWrite(n, p, buf, flag.startsWith("a") ? n.data.length : 0);
      if (typeof e === "object" && e?.flush) n.synced = Buffer.from(n.data);
    },
    appendFileSync(p, data, e) { fs.writeFileSync(p, data, { ...(typeof e === "object" ? e : { encoding: e }), flag: "a" }); },
    mkdirSync(p, oo) {
      p = P(p); enter("mkdir", p);
      if (oo?.recursive) { let first; const mk = (d) => { const n = vfs.get(d); if (n) { if (n.type !== "dir") throw errno("EEXIST", "mkdir", d); return; } if (isReal(d)) return; mk(path.dirname(d)); first ??= d; vfs.nodes.set(d, vfs.mkNode("dir")); }; mk(p); return first; }
      parentOk(p, "mkdir"); if (vfs.has(p)) throw errno("EEXIST", "mkdir", p); vfs.nodes.set(p, vfs.mkNode("dir"));
    },
    mkdtempSync(prefix) {
      prefix = P(prefix); enter("mkdtemp", prefix); parentOk(prefix + "x", "mkdtemp");
      let p; do { p = prefix + Array.from({ length: 6 }, () => "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789"[(vfs.mkd = ((vfs.mkd ?? 7) * 1103515245 + 12345) & 0x7fffffff) % 46]).join(""); } while (vfs.has(p));
      vfs.nodes.set(p, vfs.mkNode("dir")); vfs.history.push({ op: "mkdtemp-made", p, proc: proc.name }); return p;
    },
    readdirSync(p, oo) {
      p = P(p); enter("readdir", p); if (isReal(p)) return rfs.readdirSync(p, oo);
      const n = need(p, "scandir"); if (n.type !== "dir") throw errno("ENOTDIR", "scandir", p);
      const names = vfs.children(p);
      if (oo?.withFileTypes) return names.map((x) => { const c = vfs.get(path.join(p, x)); return { name: x, parentPath: p, path: p, isFile: () => c.type === "file", isDirectory: () => c.type === "dir", isSymbolicLink: () => false }; });
      return names;
    },
    unlinkSync(p) { p = P(p); enter("unlink", p); const n = need(p, "unlink"); if (n.type === "dir") throw errno("EISDIR", "unlink", p); vfs.nodes.delete(p); },
    rmdirSync(p, oo) { p = P(p); enter("rmdir", p); need(p, "rmdir"); if (vfs.children(p).length > 0) throw errno("ENOTEMPTY", "rmdir", p); vfs.nodes.delete(p); },
    rmSync(p, oo) {
      p = P(p); enter("rm", p);
      const n = vfs.get(p);
      if (n == null) { if (oo?.force) return; throw errno("ENOENT", "rm", p); }
      if (n.type === "dir") { if (!oo?.recursive) { const e = errno("ERR_FS_EISDIR", "rm", p); throw e; } for (const k of vfs.list(p).reverse()) vfs.nodes.delete(k); } else vfs.nodes.delete(p);
    },
    renameSync(a, b) {
      a = P(a); b = P(b); enter("rename", a, { to: b });
      const n = need(a, "rename"); parentOk(b, "rename");
      if (n.type === "dir") { for (const k of vfs.list(a)) { const v = vfs.nodes.get(k); vfs.nodes.delete(k); vfs.nodes.set(b + k.slice(a.length), v); } }
      else { if (vfs.get(b)?.type === "dir") throw errno("EISDIR", "rename", a, b); vfs.nodes.delete(a); vfs.nodes.set(b, n); }
    },
    copyFileSync(a, b, mode) {
      a = P(a); b = P(b); enter("copy", b, { from: a });
      const data = isReal(a) ? rfs.readFileSync(a) : Buffer.from(need(a, "copyfile").data); parentOk(b, "copyfile");
      if ((mode & 1) && vfs.has(b)) throw errno("EEXIST", "copyfile", a, b);
      let n = vfs.get(b); if (n == null) { n = vfs.mkNode("file"); if (!isReal(a)) n.mode = vfs.get(a).mode; vfs.nodes.set(b, n); }
      n.data = Buffer.alloc(0); doWrite(n, b, data, 0);
    },
    chmodSync(p, m) { p = P(p); enter("chmod", p); need(p, "chmod").mode = m & 0o7777; },
    utimesSync(p) { p = P(p); enter("utimes", p); need(p, "utime").mtime = sim.wall; },
    truncateSync(p, len = 0) { p = P(p); enter("truncate", p); const n = need(p, "open"); const nb = Buffer.alloc(len); n.data.copy(nb); n.data = nb; },
    statfsSync(p) { p = P(p); enter("statfs", p); const free = vfs.capacity === Infinity ? 1e12 : Math.max(0, vfs.capacity - vfs.used()); const bs = 4096; return { type: 1, bsize: bs, blocks: 1e9, bfree: Math.floor(free / bs), bavail: Math.floor(free / bs), files: 1e6, ffree: 1e6 }; },
    openSync(p, flags = "r", mode) {
      p = P(p); const dev = o.devices?.(p, flags); if (dev) { const fd = vfs.nextFd++; vfs.fds.set(fd, { dev }); return fd; }
      const fl = typeof flags === "number" ? (flags & 3 ? "w" : "r") : flags;
      enter(fl.startsWith("r") && !fl.includes("+") ? "open" : "open-w", p);
      let n = vfs.get(p);
      if (n == null && isReal(p)) { if (fl !== "r") throw errno("EROFS", "open", p); n = vfs.mkNode("file", rfs.readFileSync(p)); }
      if (n == null) { if (fl.startsWith("r")) throw errno("ENOENT", "open", p); parentOk(p, "open"); n = vfs.mkNode("file"); if (mode != null) n.mode = mode; vfs.nodes.set(p, n); }
      else if (fl.includes("x")) throw errno("EEXIST", "open", p);
      else if (fl.startsWith("w")) n.data = Buffer.alloc(0);
      const fd = vfs.nextFd++; vfs.fds.set(fd, { node: n, p, pos: fl.startsWith("a") ? n.data.length : 0, owner: proc }); return fd;
    },
    _fd(fd, op) { proc.guard(); const f = vfs.fds.get(fd) ?? (vfs.special.has(fd) ? { dev: vfs.special.get(fd) } : null); if (f == null) throw errno("EBADF", op); return f; },
    closeSync(fd) { const f = fs._fd(fd, "close"); vfs.fds.delete(fd); f.dev?.close?.(); },
    fsyncSync(fd) { const f = fs._fd(fd, "fsync"); if (f.node) f.node.synced = Buffer.from(f.node.data); }, fdatasyncSync(fd) { fs.fsyncSync(fd); },
    fstatSync(fd) { const f = fs._fd(fd, "fstat"); return statOf(f.node ?? vfs.mkNode("file"), f.p); },
    ftruncateSync(fd, len = 0) { const f = fs._fd(fd, "ftruncate"); const nb = Buffer.alloc(len); f.node.data.copy(nb); f.node.data = nb; },
    readSync(fd, buf, off = 0, len, pos) {
      const f = fs._fd(fd, "read"); if (typeof off === "object" && off != null) ({ offset: off = 0, length: len, position: pos } = off);
      off ??= 0; len ??= buf.byteLength - off;
      if (f.dev) return f.dev.readSync(buf, off, len, proc);
      enter("read", f.p);
      const at = pos == null ? f.pos : Number(pos); const n = Math.max(0, Math.min(len, f.node.data.length - at));
      f.node.data.copy(buf, off, at, at + n); if (pos == null) f.pos += n; return n;
    },
    writeSync(fd, data, a, b, c) {
      const f = fs._fd(fd, "write");
      let buf = data, off = 0, len, pos;
      if (typeof data === "string") { buf = Buffer.from(data, typeof b === "string" ? b : "utf8"); pos = a; } else { off = a ?? 0; len = b; pos = c; }
      len ??= buf.byteLength - off;
      const part = Buffer.from(buf.buffer ?? buf, (buf.byteOffset ?? 0) + off, len);
      if (f.dev) return f.dev.writeSync(part, proc);
      enter("write", f.p, { len });
      const at = pos == null ? f.pos : Number(pos);
      let n = part.length; if (vfs.shortWrite) n = vfs.shortWrite(f.p, n);
      const w = doWrite(f.node, f.p, part.subarray(0, n), at); if (pos == null) f.pos += w; return w;
    },
    createWriteStream(p, oo) {
      p = P(p); let fd = null;
      const s = new Writable({
        construct(cb) { proc.io(0.2, () => { try { fd = fs.openSync(p, (oo?.flags) ?? "w"); cb(); } catch (e) { cb(e); } }, `${proc.name}:ws-open`); },
        write(chunk, e, cb) { proc.io(0.3, () => { try { fs.writeSync(fd, chunk); cb(); } catch (er) { cb(er); } }, `${proc.name}:ws-write`); },
        final(cb) { cb(); }, destroy(err, cb) { try { if (fd != null) fs.closeSync(fd); } catch { /* dead */ } cb(err); },
      });
      s.path = p; return s;
    },
    createReadStream(p, oo) {
      p = P(p); let fd = null, pos = oo?.start ?? 0; const end = oo?.end ?? Infinity;
      const s = new Readable({
        construct(cb) { proc.io(0.2, () => { try { fd = fs.openSync(p, "r"); s.emit("open", fd); cb(); } catch (e) { cb(e); } }, `${proc.name}:rs-open`); },
        read(n) { proc.io(0.3, () => { try { const want = Math.min(n, 65536, end - pos + 1); const b = Buffer.alloc(want); const k = want > 0 ? fs.readSync(fd, b, 0, want, pos) : 0; pos += k; this.push(k > 0 ? b.subarray(0, k) : null); } catch (e) { this.destroy(e); } }, `${proc.name}:rs-read`); },
        destroy(err, cb) { try { if (fd != null) fs.closeSync(fd); } catch { /* dead */ } cb(err); },
      });
      s.path = p; return s;
    },
    watch() { return { close() {}, on() { return this; } }; },
  };
  // Asynchronous forms complete through the scheduler.
  const lat = () => (o.asyncMs ? sim.choices.delay(o.asyncMs[0], o.asyncMs[1], "fs-latency") : 0.5);
  const asyncOf = (name) => (...a) => proc.later(lat(), () => fs[name + "Sync"](...a), `${proc.name}:fs.${name}`);
  const promises = {};
  for (const n of ["access", "stat", "lstat", "readFile", "writeFile", "appendFile", "mkdir", "mkdtemp", "readdir", "unlink", "rmdir", "rm", "rename", "copyFile", "chmod", "utimes", "statfs", "truncate", "realpath"]) {
    promises[n] = asyncOf(n);
    fs[n] = (...a) => { const cb = a.pop(); asyncOf(n)(...a).then((v) => cb(null, v), (e) => cb(e)); };
  }
  fs.exists = (p, cb) => proc.io(lat(), () => cb(fs.existsSync(p)), `${proc.name}:fs.exists`);
  promises.open = async (p, fl, m) => { const fd = await proc.later(lat(), () => fs.openSync(p, fl, m), "fs.open"); return { fd, read: async (b, off, len, pos) => ({ bytesRead: await proc.later(lat(), () => fs.readSync(fd, b, off, len, pos), "fh.read"), buffer: b }), write: async (...x) => ({ bytesWritten: await proc.later(lat(), () => fs.writeSync(fd, ...x), "fh.write") }), writeFile: (d, e) => proc.later(lat(), () => fs.writeSync(fd, toBuf(d, e)), "fh.writeFile"), readFile: (e) => proc.later(lat(), () => enc(vfs.fds.get(fd).node.data, e), "fh.readFile"), sync: () => proc.later(lat(), () => {}, "fh.sync"), datasync: () => proc.later(lat(), () => {}, "fh.sync"), stat: () => proc.later(lat(), () => fs.fstatSync(fd), "fh.stat"), close: () => proc.later(lat(), () => fs.closeSync(fd), "fh.close") }; };
  promises.constants = rfs.constants;
  fs.promises = promises;
  return fs;
}
