"use strict";
// A simulated node process: one seeded event queue decides every completion, timer, packet and child exit.
// Real: the script under test, node's http client and parser, streams, promises, crypto, url, path.
// Simulated: sockets, timers, clock, file system, child processes, process object, os, console.
const realHttp = require("http");
const { Duplex } = require("stream");
const { EventEmitter } = require("events");
const realFs = require("fs");
const realUrl = require("url");
const path = require("path");
const vm = require("vm");
const { createHash } = require("crypto");
const realSetImmediate = setImmediate;

class Rng {
  constructor(seed) {
    this.s = BigInt.asUintN(64, BigInt(seed) * 0x9e3779b97f4a7c15n + 0x1234567n);
  }
  next() {
    this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
    let z = this.s;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
    return Number((z ^ (z >> 31n)) >> 11n);
  }
  below(n) { return n <= 0 ? 0 : this.next() % n; }
  pct(p) { return this.below(100) < p; }
  pick(a) { return a[this.below(a.length)]; }
  range(a, b) { return a + this.below(b - a + 1); }
}

class ExitSignal { }
class Trouble extends Error { }

function errno(code, syscall, p) {
  const nums = { ENOENT: -2, EACCES: -13, EEXIST: -17, ENOTDIR: -20, EISDIR: -21, ENOSPC: -28, EIO: -5, EMFILE: -24, EBADF: -9, EROFS: -30, EPERM: -1, ENOTEMPTY: -39, EDQUOT: -122, EBUSY: -16, EINVAL: -22,
    ECONNRESET: -104, ECONNREFUSED: -111, ETIMEDOUT: -110, ENOTFOUND: -3008, EPIPE: -32, EAI_AGAIN: -3001, EHOSTUNREACH: -113, EAGAIN: -11 };
  const e = new Error(`${code}: ${syscall}${p ? ` '${p}'` : ""}`);
  e.code = code;
  e.errno = nums[code] || -5;
  e.syscall = syscall;
  if (p) e.path = p;
  return e;
}

const sourceCache = new Map();

class Sim {
  /** plan: {sched, entry, pkgDir, argv, platform, arch, files, mode, faults, conns, child, packageJson} */
  constructor(plan) {
    this.plan = plan;
    this.rng = new Rng(plan.sched || 0);
    this.fifo = !plan.sched;
    this.now = 0;
    this.queue = [];
    this.seq = 0;
    this.refs = new Set(); // handles keeping the process alive
    this.dead = false;
    this.exitCode = undefined;
    this.ended = null;
    this.out = [];
    this.trace = [];
    this.hash = createHash("sha1");
    this.counts = {};
    this.nodes = new Map();
    this.fds = new Map();
    this.nextFd = 20;
    this.opCount = {};
    this.connCount = 0;
    this.spawns = [];
    this.lastExternal = 0;
    this.fired = [];
    this.events = 0;
    this.modules = new Map();
    this.mkdirSync("/pkg");
    this.mkdirSync("/tmp");
    if (plan.initialNodes) for (const [p, n] of plan.initialNodes) this.nodes.set(p, n.dir ? { ...n } : { data: Buffer.from(n.data), mode: n.mode });
    else for (const [p, f] of Object.entries(plan.files || {})) this.putFile(p, f);
    this.before = this.snapshot();
  }
  // ---- event queue
  note(what) {
    if (this.dead) return;
    this.hash.update(`${this.now} ${what}\n`);
    if (this.trace.length < 4000) this.trace.push(`${this.now} ${what}`);
  }
  count(k) { this.counts[k] = (this.counts[k] || 0) + 1; }
  at(delay, fn, label, prio) {
    const ev = { t: this.now + Math.max(0, delay), p: prio !== undefined ? prio : this.fifo ? 0 : this.rng.below(1000), n: this.seq++, fn, label };
    const q = this.queue;
    let i = q.push(ev) - 1;
    while (i > 0) {
      const j = (i - 1) >> 1;
      if (!less(q[i], q[j])) break;
      [q[i], q[j]] = [q[j], q[i]];
      i = j;
    }
    return ev;
  }
  pop() {
    const q = this.queue;
    const top = q[0];
    const last = q.pop();
    if (q.length) {
      q[0] = last;
      let i = 0;
      for (;;) {
        let m = i;
        for (const c of [2 * i + 1, 2 * i + 2]) if (c < q.length && less(q[c], q[m])) m = c;
        if (m === i) break;
        [q[i], q[m]] = [q[m], q[i]];
        i = m;
      }
    }
    return top;
  }
  latency() {
    if (this.fifo) return 1;
    const m = this.plan.speed || 0; // 0 quick disk, 1 uneven, 2 slow
    return m === 0 ? this.rng.below(3) : m === 1 ? this.rng.pick([0, 0, 1, 5, 40]) : this.rng.range(5, 300);
  }
  // ---- files
  norm(p) {
    if (p instanceof URL) p = realUrl.fileURLToPath(p);
    if (Buffer.isBuffer(p)) p = p.toString();
    return path.resolve(this.plan.cwd || "/pkg", p);
  }
  putFile(p, f) {
    let d = path.dirname(p);
    const ds = [];
    while (d !== "/") { ds.unshift(d); d = path.dirname(d); }
    for (const x of ds) if (!this.nodes.has(x)) this.nodes.set(x, { dir: true, mode: 0o755 });
    this.nodes.set(p, { data: Buffer.from(f.b64 !== undefined ? f.b64 : f.text, f.b64 !== undefined ? "base64" : "utf8"), mode: f.mode || 0o644 });
  }
  mkdirSync(p) { this.nodes.set(p, { dir: true, mode: 0o755 }); }
  snapshot() {
    const m = new Map();
    for (const [p, n] of this.nodes) if (!n.dir) m.set(p, { data: Buffer.from(n.data), mode: n.mode });
    return m;
  }
  fault(op, p) {
    this.opCount[op] = (this.opCount[op] || 0) + 1;
    for (const [i, f] of (this.plan.faults || []).entries()) {
      if (f.op !== op || (f.path && p && !p.endsWith(f.path))) continue;
      if (f.nth && f.nth !== this.opCount[op]) continue;
      this.fired.push(i);
      this.count(`fs ${op} ${f.code || "short"}`);
      return f;
    }
    return null;
  }
  parentOk(p, sc) {
    const d = this.nodes.get(path.dirname(p));
    if (path.dirname(p) === "/") return;
    if (!d) throw errno("ENOENT", sc, p);
    if (!d.dir) throw errno("ENOTDIR", sc, p);
  }
  /** The effect of one file operation, now. */
  op(name, a) {
    const p = typeof a[0] === "string" || a[0] instanceof URL || Buffer.isBuffer(a[0]) ? this.norm(a[0]) : undefined;
    const fdPath = p === undefined && this.fds.has(a[0]) ? this.fds.get(a[0]).path : p;
    const f = this.fault(name, fdPath);
    if (f && f.code) {
      if (name === "write" && f.partial) this.doWrite(a[0], a[1].subarray(0, Math.min(f.partial, a[1].length)), a[2]);
      throw errno(f.code, name, p);
    }
    const n = p === undefined ? undefined : this.nodes.get(p);
    switch (name) {
      case "open": {
        const fl = a[1] === undefined ? "r" : a[1];
        const F = typeof fl === "number" ? fl : { r: 0, "r+": 2, w: 0o1101, wx: 0o1301, "w+": 0o1102, a: 0o2101, ax: 0o2301, xw: 0o1301 }[fl];
        if (F === undefined) throw new Trouble(`open flags ${fl}`);
        let node = n;
        if (!node) {
          if (!(F & 0o100)) throw errno("ENOENT", "open", p);
          this.parentOk(p, "open");
          node = { data: Buffer.alloc(0), mode: (a[2] === undefined ? 0o666 : a[2]) & ~0o022 };
          this.nodes.set(p, node);
        } else {
          if ((F & 0o300) === 0o300) throw errno("EEXIST", "open", p);
          if (node.dir && F & 3) throw errno("EISDIR", "open", p);
          if (F & 0o1000) node.data = Buffer.alloc(0);
        }
        const fd = this.nextFd++;
        this.fds.set(fd, { node, pos: 0, path: p, append: !!(F & 0o2000) });
        return fd;
      }
      case "close":
        if (!this.fds.delete(a[0])) throw errno("EBADF", "close");
        return;
      case "write": {
        let b = a[1];
        if (f && f.short) b = b.subarray(0, Math.max(1, Math.min(f.short, b.length)));
        return this.doWrite(a[0], b, a[2]);
      }
      case "read": {
        const d = this.fds.get(a[0]);
        if (!d) throw errno("EBADF", "read");
        if (d.node.dir) throw errno("EISDIR", "read");
        const at = a[2] === null || a[2] === undefined || a[2] < 0 ? d.pos : Number(a[2]);
        let len = Math.min(a[1].length, Math.max(0, d.node.data.length - at));
        if (f && f.short && len > 1) len = Math.min(len, f.short);
        d.node.data.copy(a[1], 0, at, at + len);
        if (a[2] === null || a[2] === undefined || a[2] < 0) d.pos += len;
        return len;
      }
      case "fsync":
      case "fdatasync":
        if (!this.fds.has(a[0])) throw errno("EBADF", name);
        return;
      case "ftruncate": {
        const d = this.fds.get(a[0]);
        if (!d) throw errno("EBADF", name);
        const b = Buffer.alloc(a[1] || 0);
        d.node.data.copy(b);
        d.node.data = b;
        return;
      }
      case "fstat":
        if (!this.fds.has(a[0])) throw errno("EBADF", name);
        return stats(this.fds.get(a[0]).node);
      case "stat":
      case "lstat":
        if (!n) throw errno("ENOENT", name, p);
        return stats(n);
      case "access":
        if (!n) throw errno("ENOENT", "access", p);
        if (a[1] && a[1] & 1 && !n.dir && !(n.mode & 0o111)) throw errno("EACCES", "access", p);
        return;
      case "unlink":
        if (!n) throw errno("ENOENT", "unlink", p);
        if (n.dir) throw errno("EISDIR", "unlink", p);
        this.nodes.delete(p);
        return;
      case "rm": {
        const o = a[1] || {};
        if (!n) { if (o.force) return; throw errno("ENOENT", "rm", p); }
        if (n.dir && !o.recursive) throw errno("EISDIR", "rm", p);
        for (const k of [...this.nodes.keys()]) if (k === p || k.startsWith(p + "/")) this.nodes.delete(k);
        return;
      }
      case "rmdir":
        if (!n) throw errno("ENOENT", "rmdir", p);
        if (!n.dir) throw errno("ENOTDIR", "rmdir", p);
        for (const k of this.nodes.keys()) if (k.startsWith(p + "/")) throw errno("ENOTEMPTY", "rmdir", p);
        this.nodes.delete(p);
        return;
      case "rename": {
        const q = this.norm(a[1]);
        if (!n) throw errno("ENOENT", "rename", p);
        this.parentOk(q, "rename");
        if (n.dir) throw new Trouble("renaming directories");
        this.nodes.set(q, n);
        if (q !== p) this.nodes.delete(p);
        return;
      }
      case "copyFile": {
        const q = this.norm(a[1]);
        if (!n) throw errno("ENOENT", "copyfile", p);
        this.parentOk(q, "copyfile");
        this.nodes.set(q, { data: Buffer.from(n.data), mode: n.mode });
        return;
      }
      case "mkdir": {
        const rec = a[1] && a[1].recursive;
        if (n) { if (rec && n.dir) return; throw errno("EEXIST", "mkdir", p); }
        if (rec) {
          const ds = [];
          for (let d = p; d !== "/"; d = path.dirname(d)) ds.unshift(d);
          for (const d of ds) if (!this.nodes.has(d)) this.mkdirSync(d);
          return p;
        }
        this.parentOk(p, "mkdir");
        this.mkdirSync(p);
        return;
      }
      case "mkdtemp": {
        const d = p + "abc" + this.seq++;
        this.parentOk(d, "mkdtemp");
        this.mkdirSync(d);
        return d;
      }
      case "readdir": {
        if (!n) throw errno("ENOENT", "scandir", p);
        if (!n.dir) throw errno("ENOTDIR", "scandir", p);
        const v = [];
        for (const k of this.nodes.keys()) if (path.dirname(k) === p && k !== p) v.push(path.basename(k));
        return v.sort();
      }
      case "chmod": {
        if (!n) throw errno("ENOENT", "chmod", p);
        n.mode = typeof a[1] === "string" ? parseInt(a[1], 8) : a[1];
        return;
      }
      case "readFile": {
        const enc = typeof a[1] === "string" ? a[1] : a[1] && a[1].encoding;
        if (!n) throw errno("ENOENT", "open", p);
        if (n.dir) throw errno("EISDIR", "read", p);
        const b = Buffer.from(n.data);
        return enc ? b.toString(enc) : b;
      }
      case "writeFile":
      case "appendFile": {
        const o = a[2] || {};
        this.parentOk(p, "open");
        if (n && n.dir) throw errno("EISDIR", "open", p);
        const b = Buffer.from(a[1]);
        const node = n || { data: Buffer.alloc(0), mode: o.mode || 0o644 };
        node.data = name === "appendFile" ? Buffer.concat([node.data, b]) : b;
        if (f && f.code) throw errno(f.code, "write", p);
        this.nodes.set(p, node);
        return;
      }
      default:
        throw new Trouble(`file operation ${name}`);
    }
  }
  doWrite(fd, b, pos) {
    const d = this.fds.get(fd);
    if (!d) throw errno("EBADF", "write");
    if (typeof pos === "bigint") pos = Number(pos);
    if (!Number.isSafeInteger(pos) || pos < 0) pos = null; // as node's binding does
    const at = d.append ? d.node.data.length : pos === null ? d.pos : pos;
    const end = at + b.length;
    if (end > d.node.data.length) {
      const n = Buffer.alloc(end);
      d.node.data.copy(n);
      d.node.data = n;
    }
    b.copy(d.node.data, at);
    if (!d.append && pos === null) d.pos = end;
    return b.length;
  }
  /** The operation happens at some moment, its completion is delivered at a later one. */
  async_(name, args, cb) {
    if (this.dead) return;
    const h = { op: name };
    this.refs.add(h);
    const label = `${name} ${typeof args[0] === "string" ? args[0] : ""}`;
    h.pending = () => {
      h.pending = null;
      let err = null, val;
      try { val = this.op(name, args); } catch (e) { if (e instanceof Trouble) throw e; err = e; }
      this.note(`fs ${label} ${err ? err.code : "ok"}`);
      this.at(this.latency(), () => { this.refs.delete(h); cb(err, val); }, `done ${label}`);
    };
    this.at(this.latency(), () => h.pending(), label);
  }
  makeFs() {
    const sim = this;
    const names = ["open", "close", "fsync", "fdatasync", "ftruncate", "fstat", "stat", "lstat", "access", "unlink", "rm", "rmdir", "rename", "copyFile", "mkdir", "mkdtemp", "readdir", "chmod", "readFile", "writeFile", "appendFile"];
    const fs = { constants: realFs.constants };
    const P = { constants: realFs.constants };
    const promised = (n, args) => new Promise((res, rej) => sim.async_(n, args, (e, v) => (e ? rej(e) : res(v))));
    for (const n of names) {
      fs[n] = (...a) => {
        const cb = a.pop();
        if (typeof cb !== "function") throw new TypeError("The \"cb\" argument must be of type function.");
        if (n === "open" && a.length === 0) throw new TypeError("path");
        sim.async_(n, a, (e, v) => (v === undefined ? cb(e) : cb(e, v)));
      };
      fs[n + "Sync"] = (...a) => { if (sim.dead) throw new ExitSignal(); const v = sim.op(n, a); sim.note(`fs sync ${n} ${a[0]}`); return v; };
      P[n] = (...a) => promised(n, a);
    }
    fs.existsSync = (p) => sim.nodes.has(sim.norm(p));
    fs.exists = (p, cb) => sim.async_("stat", [p], (e) => cb(!e));
    const wargs = (buf, off, len, pos) => {
      if (typeof buf === "string") return [Buffer.from(buf), typeof off === "number" ? off : null];
      if (off && typeof off === "object") return [buf.subarray(off.offset || 0, (off.offset || 0) + (off.length === undefined ? buf.length - (off.offset || 0) : off.length)), off.position];
      const o = off || 0;
      return [buf.subarray(o, o + (len === undefined || len === null ? buf.length - o : len)), pos];
    };
    fs.write = (fd, buf, ...r) => {
      const cb = r.pop();
      const [b, pos] = wargs(buf, ...r);
      sim.async_("write", [fd, Buffer.from(b), pos], (e, n) => cb(e, n || 0, buf));
    };
    fs.writev = (fd, bufs, pos, cb) => {
      if (typeof pos === "function") { cb = pos; pos = null; }
      sim.async_("write", [fd, Buffer.concat(bufs), pos], (e, n) => cb(e, n || 0, bufs));
    };
    fs.read = (fd, buf, ...r) => {
      const cb = r.pop();
      const [b, pos] = wargs(buf, ...r);
      sim.async_("read", [fd, b, pos], (e, n) => cb(e, n || 0, buf));
    };
    fs.writeSync = (fd, buf, ...r) => { const [b, pos] = wargs(buf, ...r); return sim.op("write", [fd, Buffer.from(b), pos]); };
    fs.readSync = (fd, buf, ...r) => { const [b, pos] = wargs(buf, ...r); return sim.op("read", [fd, b, pos]); };
    const low = { open: fs.open, close: fs.close, write: fs.write, writev: fs.writev, read: fs.read, fsync: fs.fsync };
    fs.createWriteStream = (p, o) => new realFs.WriteStream(p, { ...(typeof o === "string" ? { encoding: o } : o), fs: low });
    fs.createReadStream = (p, o) => new realFs.ReadStream(p, { ...(typeof o === "string" ? { encoding: o } : o), fs: low });
    fs.WriteStream = realFs.WriteStream;
    fs.ReadStream = realFs.ReadStream;
    P.open = async (...a) => {
      const fd = await promised("open", a);
      let open = true;
      const h = {
        fd,
        close: () => { open = false; return promised("close", [fd]); },
        write: async (buf, ...r) => { const [b, pos] = wargs(buf, ...r); return { bytesWritten: await promised("write", [fd, Buffer.from(b), pos]), buffer: buf }; },
        read: async (buf, ...r) => { const [b, pos] = wargs(buf, ...r); return { bytesRead: await promised("read", [fd, b, pos]), buffer: buf }; },
        writeFile: async (x) => { let b = Buffer.from(x); while (b.length) b = b.subarray(await promised("write", [fd, b, null])); },
        readFile: async (e) => { const v = []; for (;;) { const b = Buffer.alloc(4096); const n = await promised("read", [fd, b, null]); if (!n) break; v.push(b.subarray(0, n)); } const r = Buffer.concat(v); return e ? r.toString(typeof e === "string" ? e : e.encoding) : r; },
        sync: () => promised("fsync", [fd]),
        datasync: () => promised("fdatasync", [fd]),
        stat: () => promised("fstat", [fd]),
        truncate: (n) => promised("ftruncate", [fd, n]),
        createWriteStream: (o) => new realFs.WriteStream("", { ...o, fd, fs: low }),
        [Symbol.asyncDispose || Symbol("x")]: () => (open ? h.close() : undefined),
      };
      return h;
    };
    fs.promises = P;
    return fs;
  }
  // ---- timers
  makeTimers() {
    const sim = this;
    class Timeout {
      constructor(fn, ms, args, every) {
        Object.assign(this, { fn, ms: Math.max(1, Math.trunc(Number(ms)) || 1), args, every, live: true, isRef: true });
        this.arm();
      }
      arm() {
        if (sim.dead) return;
        if (this.isRef) sim.refs.add(this);
        const gen = (this.gen = (this.gen || 0) + 1);
        const late = sim.fifo ? 0 : sim.rng.below(3);
        sim.at(this.ms + late, () => {
          if (!this.live || gen !== this.gen) return false;
          sim.note(`timer ${this.ms}`);
          if (this.every) this.arm(); else { this.live = false; sim.refs.delete(this); }
          this.fn(...this.args);
        }, "timer");
      }
      stop() { this.live = false; sim.refs.delete(this); }
      ref() { this.isRef = true; if (this.live) sim.refs.add(this); return this; }
      unref() { this.isRef = false; sim.refs.delete(this); return this; }
      hasRef() { return this.isRef; }
      refresh() { if (this.live || !this.every) { this.live = true; this.arm(); } return this; }
      close() { this.stop(); return this; }
      [Symbol.toPrimitive]() { return 1; }
    }
    const t = {
      setTimeout: (f, ms, ...a) => new Timeout(f, ms, a, false),
      setInterval: (f, ms, ...a) => new Timeout(f, ms, a, true),
      clearTimeout: (x) => x && x.stop && x.stop(),
      clearInterval: (x) => x && x.stop && x.stop(),
      setImmediate: (f, ...a) => {
        const h = { live: true, stop() { h.live = false; sim.refs.delete(h); }, unref() { sim.refs.delete(h); return h; }, ref() { return h; }, hasRef() { return true; } };
        if (sim.dead) return h;
        sim.refs.add(h);
        sim.at(0, () => { if (!h.live) return false; sim.refs.delete(h); sim.note("immediate"); f(...a); }, "immediate", 0);
        return h;
      },
      clearImmediate: (x) => x && x.stop && x.stop(),
    };
    const prom = (ms, v, o, f) => new Promise((res, rej) => {
      const h = f === "i" ? t.setImmediate(() => res(v)) : t.setTimeout(() => res(v), ms);
      if (o && o.ref === false) h.unref();
      if (o && o.signal) o.signal.addEventListener("abort", () => { h.stop(); rej(new DOMException("The operation was aborted", "AbortError")); });
    });
    t.promises = { setTimeout: (ms, v, o) => prom(ms, v, o, "t"), setImmediate: (v, o) => prom(0, v, o, "i") };
    return t;
  }
  // ---- network
  makeSocket(opts) {
    const sim = this;
    const k = this.connCount++;
    const c = { ...(this.plan.conns && (this.plan.conns[Math.min(k, this.plan.conns.length - 1)] || {})) };
    class SimSocket extends Duplex {
      constructor() {
        super({ allowHalfOpen: false, autoDestroy: true, emitClose: true });
        this.connecting = true;
        this.encrypted = !!opts.tls;
        this.authorized = true;
        this.remoteAddress = "203.0.113.1";
        this.remotePort = opts.port;
        this.got = [];
        this.isRef = true;
        this.timeout = 0;
        this.bytesRead = 0;
        sim.refs.add(this);
        if (opts.timeout) this.setTimeout(opts.timeout);
        this.once("close", () => this.gone());
      }
      gone() {
        sim.refs.delete(this);
        if (this._t) this._t.stop();
      }
      activity() {
        if (this.timeout && this._t) this._t.refresh();
      }
      setTimeout(ms, cb) {
        this.timeout = ms;
        if (this._t) this._t.stop();
        this._t = null;
        if (ms > 0) {
          this._t = sim.timers.setTimeout(() => { if (!this.destroyed) this.emit("timeout"); }, ms).unref();
          if (cb) this.once("timeout", cb);
        } else if (cb) this.removeListener("timeout", cb);
        return this;
      }
      setNoDelay() { return this; }
      setKeepAlive() { return this; }
      ref() { this.isRef = true; if (!this.destroyed) sim.refs.add(this); return this; }
      unref() { this.isRef = false; sim.refs.delete(this); return this; }
      address() { return {}; }
      destroySoon() {
        if (this.writable) this.end();
        if (this.writableFinished) this.destroy(); else this.once("finish", this.destroy);
      }
      _read() { }
      _write(b, e, cb) {
        if (this.connecting) { this.once("connect", () => this._write(b, e, cb)); return; }
        this.activity();
        sim.at(sim.latency(), () => {
          if (this.destroyed) return false;
          this.got.push(Buffer.from(b));
          sim.note(`conn ${k} sent ${b.length}`);
          cb();
          this.served();
        }, "send");
      }
      _final(cb) { cb(); }
      _destroy(e, cb) {
        this.gone();
        sim.note(`conn ${k} closed`);
        cb(e);
      }
      served() {
        if (this.answered) return;
        const req = parseRequest(Buffer.concat(this.got));
        if (!req) return;
        this.answered = true;
        sim.requests.push({ conn: k, host: opts.host, port: opts.port, tls: !!opts.tls, ...req });
        this.answer(sim.plan.respond(c, req, k));
      }
      answer(raw) {
        // raw: {bytes, cut?: {at, how, ms}}
        let at = 0;
        let t = sim.fifo ? 1 : sim.rng.below(1 + (c.think || 5));
        const cut = c.cut;
        const end = cut ? Math.min(cut.at, raw.bytes.length) : raw.bytes.length;
        const send = (b, when) => sim.at(when, () => {
          if (this.destroyed) return false;
          sim.lastExternal = sim.now;
          sim.note(`conn ${k} data ${b.length}`);
          this.bytesRead += b.length;
          this.activity();
          this.push(b);
        }, "data", 0);
        let paused = false;
        let pieces = 0;
        while (at < end || (cut && cut.how === "pause" && at < raw.bytes.length)) {
          const goal = cut && !paused ? end : raw.bytes.length;
          let n = c.frag ? 1 + sim.rng.below(c.frag) : goal - at;
          if (++pieces > 300) n = goal - at;
          n = Math.max(0, Math.min(n, goal - at));
          if (n) send(raw.bytes.subarray(at, at + n), t);
          at += n;
          t += c.gap ? sim.rng.below(c.gap + 1) : 0;
          if (cut && cut.how === "pause" && at >= end && !paused) {
            paused = true;
            t += cut.ms;
            sim.count("net pause");
          } else if (cut && cut.how !== "pause" && at >= end) break;
        }
        const how = cut ? cut.how : null;
        if (how === "stall") { sim.count("net stall"); sim.at(t, () => { sim.lastExternal = sim.now; }, "stall"); return; }
        if (how === "rst" || how === "fin") {
          sim.count(`net ${how} mid response`);
          sim.at(t + 1, () => {
            if (this.destroyed) return false;
            sim.lastExternal = sim.now;
            sim.note(`conn ${k} ${how}`);
            if (how === "rst") this.destroy(errno("ECONNRESET", "read")); else this.push(null);
          }, how, 0);
          return;
        }
        if (raw.close) {
          sim.at(t + 1, () => { if (this.destroyed) return false; sim.lastExternal = sim.now; sim.note(`conn ${k} end`); this.push(null); }, "end", 0);
        }
      }
    }
    const s = new SimSocket();
    const fail = (e) => { sim.count(`net connect ${e.code}`); sim.at(c.delay || 1, () => { if (s.destroyed) return false; sim.lastExternal = sim.now; sim.note(`conn ${k} ${e.code}`); s.destroy(e); }, e.code); };
    switch (c.connect || "ok") {
      case "ok":
        sim.at(c.delay || 1, () => {
          if (s.destroyed) return false;
          sim.lastExternal = sim.now;
          sim.note(`conn ${k} open ${opts.host}`);
          s.connecting = false;
          s.activity();
          s.emit("connect");
          if (opts.tls) s.emit("secureConnect");
          s.emit("ready");
          if (c.cut && c.cut.how === "rst" && c.cut.at < 0) { sim.count("net rst before response"); sim.at(1, () => { if (s.destroyed) return false; sim.lastExternal = sim.now; s.destroy(errno("ECONNRESET", "read")); }, "rst"); s.answered = true; }
        }, "connect");
        break;
      case "stall": sim.count("net connect stall"); break;
      default: fail(errno(c.connect, c.connect === "ENOTFOUND" || c.connect === "EAI_AGAIN" ? "getaddrinfo" : "connect"));
    }
    return s;
  }
  makeHttp(tls) {
    const sim = this;
    class Agent extends realHttp.Agent {
      constructor(o) {
        super(o);
        if (tls) { this.defaultPort = 443; this.protocol = "https:"; }
      }
      createConnection(o) {
        return sim.makeSocket({ host: o.servername || o.hostname || o.host, port: o.port, tls, timeout: o.timeout });
      }
      getName(o) { return `${o.host}:${o.port}:`; }
    }
    const globalAgent = new Agent({ keepAlive: true, scheduling: "lifo", timeout: 5000 });
    const request = (a, b, cb) => {
      if (sim.dead) throw new ExitSignal();
      let o = {};
      if (typeof a === "string") o = realUrl.urlToHttpOptions(new URL(a));
      else if (a instanceof URL || (a && a.searchParams)) o = realUrl.urlToHttpOptions(a);
      else { cb = b; b = a; }
      if (typeof b === "function") { cb = b; b = {}; }
      o = Object.assign({}, o, b);
      delete o.createConnection;
      if (o.agent && !(o.agent instanceof Agent)) delete o.agent;
      o._defaultAgent = globalAgent;
      return new realHttp.ClientRequest(o, cb);
    };
    const get = (...a) => { const r = request(...a); r.end(); return r; };
    return { request, get, Agent, globalAgent, STATUS_CODES: realHttp.STATUS_CODES, METHODS: realHttp.METHODS, IncomingMessage: realHttp.IncomingMessage, ClientRequest: realHttp.ClientRequest };
  }
  // ---- child processes
  makeChild() {
    const sim = this;
    const spawn = (cmd, args, opts) => {
      if (sim.dead) throw new ExitSignal();
      if (!Array.isArray(args)) { opts = args; args = []; }
      const ch = new EventEmitter();
      const { Readable, Writable } = require("stream");
      const piped = !opts || !opts.stdio || opts.stdio === "pipe";
      ch.stdin = piped ? new Writable({ write(b, e, cb) { cb(); } }) : null;
      ch.stdout = piped ? Readable.from([]) : null;
      ch.stderr = piped ? Readable.from([]) : null;
      ch.pid = 4242;
      ch.exitCode = null;
      ch.kill = () => true;
      ch.ref = ch.unref = () => ch;
      const plan = sim.plan.child || {};
      sim.refs.add(ch);
      if (plan.spawn) {
        sim.count(`spawn ${plan.spawn}`);
        sim.at(sim.latency(), () => { sim.refs.delete(ch); sim.lastExternal = sim.now; sim.note("spawn failed"); ch.emit("error", errno(plan.spawn, `spawn ${cmd}`)); }, "spawn error");
        return ch;
      }
      const r = sim.plan.run ? null : null;
      sim.at(sim.latency(), () => {
        ch.emit("spawn");
        const res = sim.plan.exec(sim, cmd, args, opts || {});
        sim.note(`child ${cmd} ${args.join(" ")} -> ${res.code}`);
        sim.at(plan.ms || sim.latency(), () => {
          if (res.finish) res.finish();
          sim.lastExternal = sim.now;
          ch.exitCode = res.code;
          ch.emit("exit", res.code, res.signal || null);
          sim.at(sim.latency(), () => { sim.refs.delete(ch); ch.emit("close", res.code, res.signal || null); }, "close");
        }, "child exit");
      }, "spawn");
      return ch;
    };
    const execFile = (cmd, args, opts, cb) => {
      if (typeof args === "function") { cb = args; args = []; opts = {}; }
      if (!Array.isArray(args)) { cb = opts; opts = args; args = []; }
      if (typeof opts === "function") { cb = opts; opts = {}; }
      const ch = spawn(cmd, args, opts);
      let done = false;
      ch.on("error", (e) => { if (!done) { done = true; if (cb) cb(e, "", ""); } });
      ch.on("close", (code, signal) => {
        if (done) return;
        done = true;
        if (!cb) return;
        if (code === 0) cb(null, "", "");
        else cb(Object.assign(new Error(`Command failed: ${cmd}`), { code, signal }), "", "");
      });
      return ch;
    };
    execFile[require("util").promisify.custom] = (c, a, o) => new Promise((res, rej) => execFile(c, a, o || {}, (e) => (e ? rej(e) : res({ stdout: "", stderr: "" }))));
    const spawnSync = (cmd, args, opts) => {
      const plan = sim.plan.child || {};
      if (plan.spawn) return { error: errno(plan.spawn, `spawnSync ${cmd}`), status: null, signal: null };
      const res = sim.plan.exec(sim, cmd, args || [], opts || {});
      if (res.finish) res.finish();
      return { status: res.code, signal: res.signal || null, stdout: Buffer.alloc(0), stderr: Buffer.alloc(0) };
    };
    const execFileSync = (cmd, args, opts) => {
      const r = spawnSync(cmd, args, opts);
      if (r.error) throw r.error;
      if (r.status !== 0) throw Object.assign(new Error(`Command failed: ${cmd}`), r);
      return Buffer.alloc(0);
    };
    return { spawn, execFile, spawnSync, execFileSync };
  }
  // ---- process and modules
  makeProcess() {
    const sim = this;
    const p = new EventEmitter();
    const w = (fd) => ({ write: (s, e, cb) => { sim.print(fd, String(s)); const f = typeof e === "function" ? e : cb; if (f) process.nextTick(f); return true; }, isTTY: false, fd, on() { return this; }, once() { return this; }, end() { }, columns: 80 });
    Object.assign(p, {
      argv: ["/usr/bin/node", this.plan.entry, ...(this.plan.argv || [])],
      execArgv: [], execPath: "/usr/bin/node", pid: 1000, ppid: 999, title: "node",
      platform: this.plan.platform || "linux", arch: this.plan.arch || "x64",
      env: { PATH: "/usr/bin", HOME: "/home/u", npm_lifecycle_event: "postinstall", ...(this.plan.env || {}) },
      version: process.version, versions: process.versions, release: process.release,
      cwd: () => this.plan.cwd || "/pkg",
      nextTick: process.nextTick.bind(process),
      exit: (code) => {
        if (!sim.dead) sim.finish(code === undefined ? (p.exitCode === undefined ? 0 : p.exitCode) : Number(code), "exit");
        throw new ExitSignal();
      },
      uptime: () => sim.now / 1000,
      hrtime: Object.assign((a) => { const s = Math.floor(sim.now / 1000), n = (sim.now % 1000) * 1e6; return a ? [s - a[0], n - a[1]] : [s, n]; }, { bigint: () => BigInt(sim.now) * 1000000n }),
      memoryUsage: () => ({ rss: 1e8, heapTotal: 1e8, heapUsed: 1e8, external: 0, arrayBuffers: 0 }),
      stdout: w(1), stderr: w(2), stdin: { on() { return this; }, resume() { }, isTTY: false },
      emitWarning: () => { },
      umask: () => 0o022, getuid: () => 1000, geteuid: () => 1000, getgid: () => 1000,
      exitCode: undefined,
      abort: () => { if (!sim.dead) sim.finish(134, "abort"); throw new ExitSignal(); },
      kill: () => { if (!sim.dead) sim.finish(143, "kill"); throw new ExitSignal(); },
    });
    return p;
  }
  print(fd, s) {
    if (this.dead) return;
    this.out.push({ fd, s });
    this.note(`out ${fd} ${s.slice(0, 200)}`);
  }
  finish(code, how) {
    if (this.dead) return;
    if (!this.exiting && this.process) {
      this.exiting = true;
      this.process.exitCode = code;
      try { this.process.emit("exit", code); } catch (e) { if (!(e instanceof ExitSignal)) code = 7; }
      if (this.dead) return;
      if (this.process.exitCode !== undefined && how !== "uncaught") code = this.process.exitCode;
    }
    this.note(`end ${how} ${code}`);
    this.ended = { how, code, at: this.now };
    this.dead = true;
    // Operations the thread pool had already taken may still happen after the process is told to exit.
    if (how !== "drained") {
      for (const h of this.refs) {
        if (h.pending && !this.fifo && this.rng.pct(50)) {
          this.dead = false;
          try { h.pending(); } catch (e) { /* nobody is left to hear of it */ }
          this.dead = true;
        }
      }
    }
  }
  uncaught(e) {
    if (this.dead || e instanceof ExitSignal) return;
    if (e instanceof Trouble) { this.trouble = e; this.dead = true; return; }
    this.count("uncaught exception");
    if (this.process && this.process.listenerCount("uncaughtException") > 0) {
      this.guard(() => this.process.emit("uncaughtException", e, "uncaughtException"));
      return;
    }
    this.print(2, `Uncaught ${e && e.stack ? e.stack.split("\n").slice(0, 2).join("\n") : e}`);
    this.finish(1, "uncaught");
  }
  guard(f) {
    try { return f(); } catch (e) { this.uncaught(e); }
  }
  makeConsole() {
    const fmt = require("util").format;
    const o = (fd) => (...a) => this.print(fd, fmt(...a) + "\n");
    return { log: o(1), info: o(1), debug: o(1), error: o(2), warn: o(2), trace: o(2), dir: o(1), assert() { }, time() { }, timeEnd() { }, group() { }, groupEnd() { } };
  }
  builtin(n) {
    switch (n.replace(/^node:/, "")) {
      case "fs": return this.fs;
      case "fs/promises": return this.fs.promises;
      case "http": return this.http;
      case "https": return this.https;
      case "child_process": return this.child;
      case "timers": return this.timers;
      case "timers/promises": return this.timers.promises;
      case "process": return this.process;
      case "os": return { ...require("os"), platform: () => this.process.platform, arch: () => this.process.arch, tmpdir: () => "/tmp", homedir: () => "/home/u", type: () => "Linux" };
      case "net": case "tls": case "dns": case "http2": case "worker_threads": case "cluster": case "dgram": case "inspector":
        throw new Trouble(`module ${n} is not simulated`);
      default: return require(n);
    }
  }
  /** Loads package files from the repository, seen at /pkg in the simulation. */
  load(file) {
    if (this.modules.has(file)) return this.modules.get(file).exports;
    const module = { exports: {}, filename: file, id: file, loaded: false, children: [], paths: [] };
    this.modules.set(file, module);
    const real = path.join(this.plan.repoPkg, path.relative("/pkg", file));
    if (file.endsWith(".json")) {
      module.exports = file === "/pkg/package.json" ? JSON.parse(JSON.stringify(this.plan.packageJson)) : JSON.parse(realFs.readFileSync(real, "utf8"));
      return module.exports;
    }
    let script = sourceCache.get(real);
    if (!script) {
      const src = realFs.readFileSync(real, "utf8").replace(/^#!.*/, "");
      script = new vm.Script(`(function (exports, require, module, __filename, __dirname, process, console, setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, clearImmediate, Date, performance, fetch) {${src}\n})`, { filename: file });
      sourceCache.set(real, script);
    }
    const sim = this;
    const require_ = (id) => {
      if (id.startsWith(".") || id.startsWith("/")) {
        let f = path.resolve(path.dirname(file), id);
        const base = path.join(sim.plan.repoPkg, path.relative("/pkg", f));
        for (const ext of ["", ".js", ".json", "/index.js"]) {
          if (realFs.existsSync(base + ext) && realFs.statSync(base + ext).isFile()) return sim.load(f + ext);
        }
        throw Object.assign(new Error(`Cannot find module '${id}'`), { code: "MODULE_NOT_FOUND" });
      }
      return sim.builtin(id);
    };
    require_.main = this.mainModule || (this.mainModule = module);
    require_.resolve = (id) => path.resolve(path.dirname(file), id);
    const RealDate = Date;
    const SimDate = class extends RealDate {
      constructor(...a) { if (a.length === 0) super(1700000000000 + sim.now); else super(...a); }
      static now() { return 1700000000000 + sim.now; }
    };
    const t = this.timers;
    script.runInThisContext().call(module.exports, module.exports, require_, module, file, path.dirname(file), this.process, this.console,
      t.setTimeout, t.clearTimeout, t.setInterval, t.clearInterval, t.setImmediate, t.clearImmediate, SimDate, { now: () => sim.now },
      () => { throw new Trouble("fetch is not simulated"); });
    module.loaded = true;
    return module.exports;
  }
  async run() {
    this.requests = [];
    this.timers = this.makeTimers();
    this.fs = this.makeFs();
    this.http = this.makeHttp(false);
    this.https = this.makeHttp(true);
    this.child = this.makeChild();
    this.process = this.makeProcess();
    this.console = this.makeConsole();
    const onUncaught = (e) => this.uncaught(e);
    const onReject = (e) => {
      if (e instanceof ExitSignal || this.dead) return;
      if (this.process.listenerCount("unhandledRejection") > 0) { this.guard(() => this.process.emit("unhandledRejection", e)); return; }
      this.uncaught(e);
    };
    process.on("uncaughtException", onUncaught);
    process.on("unhandledRejection", onReject);
    const drain = () => new Promise((r) => realSetImmediate(r));
    try {
      await drain();
      this.guard(() => this.load(this.plan.entry));
      await drain();
      while (!this.dead) {
        if (this.refs.size === 0) {
          this.guard(() => this.process.emit("beforeExit", 0));
          await drain();
          if (this.refs.size === 0 && !this.dead) { this.finish(this.process.exitCode === undefined ? 0 : Number(this.process.exitCode), "drained"); }
          if (this.dead) break;
          continue;
        }
        const ev = this.queue.length ? this.pop() : null;
        if (!ev) { this.note("end hang"); this.ended = { how: "hang", code: null, at: this.now }; this.dead = true; break; }
        this.now = ev.t;
        if (this.plan.crashAt && this.events + 1 >= this.plan.crashAt) { this.note("end killed"); this.count("killed"); this.ended = { how: "killed", code: null, at: this.now }; this.dead = true; break; }
        if (++this.events > 20000 || this.connCount > 80) { this.ended = { how: "endless", code: null, at: this.now }; this.dead = true; break; }
        const r = this.guard(() => ev.fn());
        if (r !== false) await drain();
      }
      await drain();
      await drain();
    } finally {
      process.removeListener("uncaughtException", onUncaught);
      process.removeListener("unhandledRejection", onReject);
    }
    if (this.trouble) throw this.trouble;
    this.after = this.snapshot();
    for (const [p, f] of [...this.after].sort((a, b) => (a[0] < b[0] ? -1 : 1))) this.hash.update(`${p} ${f.mode} ${createHash("sha1").update(f.data).digest("hex")}\n`);
    this.fingerprint = this.hash.digest("hex");
    return this;
  }
}

function less(a, b) {
  return a.t !== b.t ? a.t < b.t : a.p !== b.p ? a.p < b.p : a.n < b.n;
}
function stats(n) {
  return { isFile: () => !n.dir, isDirectory: () => !!n.dir, isSymbolicLink: () => false, size: n.dir ? 4096 : n.data.length, mode: n.mode | (n.dir ? 0o40000 : 0o100000) };
}
/** A complete HTTP request, or null. */
function parseRequest(b) {
  const i = b.indexOf("\r\n\r\n");
  if (i < 0) return null;
  const lines = b.subarray(0, i).toString("latin1").split("\r\n");
  const [method, target] = lines[0].split(" ");
  const headers = {};
  for (const l of lines.slice(1)) headers[l.slice(0, l.indexOf(":")).toLowerCase()] = l.slice(l.indexOf(":") + 1).trim();
  let body = b.subarray(i + 4);
  if (/chunked/.test(headers["transfer-encoding"] || "")) {
    const out = [];
    for (;;) {
      const e = body.indexOf("\r\n");
      if (e < 0) return null;
      const n = parseInt(body.subarray(0, e).toString(), 16);
      if (n === 0) { if (body.length < e + 4) return null; break; }
      if (body.length < e + 2 + n + 2) return null;
      out.push(body.subarray(e + 2, e + 2 + n));
      body = body.subarray(e + 4 + n);
    }
    body = Buffer.concat(out);
  } else if (headers["content-length"]) {
    if (body.length < +headers["content-length"]) return null;
    body = body.subarray(0, +headers["content-length"]);
  }
  return { method, target, headers, body };
}
/** Response bytes in one of HTTP's three framings. */
function response(status, headers, body, framing, rng) {
  const h = { ...headers };
  let payload = body;
  if (framing === "length") h["Content-Length"] = body.length;
  else if (framing === "chunked") {
    h["Transfer-Encoding"] = "chunked";
    const parts = [];
    let at = 0;
    while (at < body.length) {
      const n = Math.min(body.length - at, 1 + (rng ? rng.below(body.length) : body.length));
      parts.push(Buffer.from(n.toString(16) + "\r\n"), body.subarray(at, at + n), Buffer.from("\r\n"));
      at += n;
    }
    parts.push(Buffer.from("0\r\n\r\n"));
    payload = Buffer.concat(parts);
  } else h.Connection = "close";
  const head = `HTTP/1.1 ${status} ${realHttp.STATUS_CODES[status] || "Odd"}\r\n` + Object.entries(h).map(([k, v]) => `${k}: ${v}\r\n`).join("") + "\r\n";
  return { bytes: Buffer.concat([Buffer.from(head), payload]), headLen: head.length, close: framing === "close" };
}

module.exports = { Sim, Rng, Trouble, response, errno };
