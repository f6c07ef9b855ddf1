// Simulated WASI host: one wasm program at a time, every import answered by this model.
// Same request/response conventions as xsim (JSON lines), so the Python side can treat both alike.
'use strict';
const fs = require('fs');
const crypto = require('crypto');

const E = {ACCES: 2, BADF: 8, EXIST: 20, FBIG: 22, INTR: 27, INVAL: 28, IO: 29, ISDIR: 31, MFILE: 33, NFILE: 41, NOENT: 44, NOMEM: 48, NOSPC: 51,
  NOTDIR: 54, NOTEMPTY: 55, PERM: 63, PIPE: 64, ROFS: 69, SPIPE: 70, NOTCAPABLE: 76};
const R_READ = 1n << 1n, R_SEEK = 1n << 2n, R_TELL = 1n << 5n, R_WRITE = 1n << 6n;

class Rng {          // splitmix64
  constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed)); }
  next() {
    this.s = BigInt.asUintN(64, this.s + 0x9E3779B97F4A7C15n);
    let z = this.s;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn);
    return z ^ (z >> 31n);
  }
  below(n) { return Number(this.next() % BigInt(n)); }
}

class Reg {          // a regular file
  constructor(buf) { this.t = 'reg'; this.buf = buf; this.size = buf.length; this.mode = 0o644; this.shared = true; this.ino = 0; this.nlink = 1; }
  own(cap) {
    if (this.shared || this.buf.length < cap) {
      let n = Math.max(cap, this.size);
      if (cap > this.buf.length) n = Math.max(n, this.buf.length * 2, 256);
      const b = Buffer.alloc(n);
      this.buf.copy(b, 0, 0, this.size);
      this.buf = b;
      this.shared = false;
    }
  }
  content() { return this.buf.subarray(0, this.size); }
  clone() { const r = new Reg(this.buf); r.size = this.size; r.mode = this.mode; r.ino = this.ino; return r; }
}

let base = new Map();
let modules = new Map();

function put(map, path, v, ino) {
  const parts = path.split('/').filter(x => x);
  let p = '';
  for (let i = 0; i < parts.length - 1; ++i) {
    p += '/' + parts[i];
    if (!map.has(p)) map.set(p, {t: 'dir', mode: 0o755, ino: map.size + 2});
  }
  v.ino = ino || map.size + 2;
  map.set(path, v);
}

function mount(map, vpath, rpath) {
  const st = fs.statSync(rpath);
  if (st.isDirectory()) {
    put(map, vpath, {t: 'dir', mode: 0o755});
    for (const f of fs.readdirSync(rpath).sort()) mount(map, vpath + '/' + f, rpath + '/' + f);
  } else if (st.isFile()) {
    put(map, vpath, new Reg(fs.readFileSync(rpath)));
  }
}

function mkNode(v) {
  if (v.t === 'dir') return {t: 'dir', mode: v.mode || 0o755};
  if (v.t === 'lnk') return {t: 'lnk', to: v.to, mode: 0o777};
  if (v.t === 'chr') return {t: 'chr', dev: v.dev || 'n', mode: 0o666};
  const r = new Reg(v.b64 !== undefined ? Buffer.from(v.b64, 'base64') : Buffer.from(v.s || '', 'latin1'));
  if (v.mode) r.mode = v.mode;
  if (v.fake) r.fake = v.fake;      // the size it claims to have
  return r;
}

function image(q) {
  base = new Map();
  base.set('/', {t: 'dir', mode: 0o755, ino: 1});
  for (const d of q.dirs || []) put(base, d, {t: 'dir', mode: 0o755});
  for (const [v, r] of Object.entries(q.mounts || {})) mount(base, v, r);
  for (const [v, f] of Object.entries(q.files || {})) put(base, v, mkNode(f));
  modules = new Map();
  for (const [n, r] of Object.entries(q.modules || {})) modules.set(n, {bytes: fs.readFileSync(r), compiled: new Map()});
  return {ok: true};
}

// limit the memory: rewrite the limits in the memory section
function withMax(bytes, max) {
  function leb(o) { let v = 0, s = 0, b; do { b = bytes[o++]; v += (b & 0x7f) * 2 ** s; s += 7; } while (b & 0x80); return [v, o]; }
  function enc(v) { const a = []; do { let b = v & 0x7f; v = Math.floor(v / 128); if (v) b |= 0x80; a.push(b); } while (v); return a; }
  let o = 8;
  while (o < bytes.length) {
    const id = bytes[o];
    const [len, p] = leb(o + 1);
    if (id === 5) {
      const [cnt, p2] = leb(p);
      const [min, p3] = leb(p2 + 1);
      const lim = [1, ...enc(min), ...enc(Math.max(min, max))];
      const body = [...enc(cnt), ...lim];
      return {bytes: Buffer.concat([bytes.subarray(0, o), Buffer.from([5, ...enc(body.length), ...body]), bytes.subarray(p + len)]), min};
    }
    o = p + len;
  }
  throw new Error('no memory section');
}

function getModule(name, memadd, b64) {
  if (b64 !== undefined) {      // a module given with the request
    name = '=' + crypto.createHash('sha256').update(b64).digest('hex');
    if (!modules.has(name)) {
      for (const k of [...modules.keys()].filter(k => k[0] === '=')) modules.delete(k);
      modules.set(name, {bytes: Buffer.from(b64, 'base64'), compiled: new Map()});
    }
  }
  const m = modules.get(name);
  if (!m) throw new Error('no module ' + name);
  const key = memadd === undefined ? 'x' : String(memadd);
  if (!m.compiled.has(key)) {
    if (m.compiled.size > 40) m.compiled.clear();
    let b = m.bytes;
    if (memadd !== undefined) b = withMax(m.bytes, withMax(m.bytes, 0).min + memadd).bytes;
    m.compiled.set(key, new WebAssembly.Module(b));
  }
  return m.compiled.get(key);
}

class Exit extends Error { constructor(code) { super('exit'); this.code = code; } }
class Limit extends Error {}

function run(q) {
  const rng = new Rng(q.seed || 0), rrng = new Rng((q.seed || 0) + 77);
  const map = new Map();
  for (const [k, v] of base) map.set(k, v instanceof Reg ? v : v);
  for (const [k, v] of Object.entries(q.files || {})) put(map, k, mkNode(v));
  const before = new Map(map);
  const touched = new Set();
  let nextIno = 100000;
  const sinks = {};
  const fds = new Map();
  const trace = [], fired = [], fcount = {};
  let n = 0, simns = 0, h1 = 0x811c9dc5, h2 = 0x1234567;
  const maxcalls = q.maxsteps || 200000;
  let disk = q.disk === undefined ? Infinity : q.disk;
  const faults = new Map();
  for (const f of q.faults || []) faults.set(f.n, f);
  const rules = (q.rules || []).map(r => Object.assign({seen: 0}, r));
  let clock = BigInt(Math.round((q.clock === undefined ? 1700000000 : q.clock))) * 1000000000n;
  const clockstep = BigInt(q.clockstep === undefined ? 1000 : q.clockstep);
  const pre = q.preopens || [['/', '/']];

  function reg(path) {      // a private copy before the first change
    let nd = map.get(path);
    return nd;
  }
  function wr(of) {         // the node of an open file, private to this run
    return of.node;
  }
  for (const [k, v] of Object.entries(q.fds || {})) {
    const f = {kind: v.kind || 'p', control: !!v.control, pos: 0, rights: R_READ | R_WRITE};
    if (v.src !== undefined) f.src = Buffer.from(v.src, 'base64');
    if (v.sink !== undefined) { if (!sinks[v.sink]) sinks[v.sink] = []; f.sink = v.sink; }
    fds.set(Number(k), f);
  }
  pre.forEach((p, i) => fds.set(3 + i, {dir: p[1], pre: p[0], rights: ~0n & ((1n << 30n) - 1n)}));

  let inst = null;
  const mem = () => Buffer.from(inst.exports.memory.buffer);
  const inMem = (p, len) => p >= 0 && len >= 0 && p + len <= inst.exports.memory.buffer.byteLength;

  function mix(s) {
    for (let i = 0; i < s.length; ++i) {
      h1 = Math.imul(h1 ^ s.charCodeAt(i), 0x01000193);
      h2 = Math.imul(h2 + s.charCodeAt(i), 0x5bd1e995) ^ (h2 >>> 13);
    }
  }
  function fire(kind, op, val) {
    fcount[kind] = (fcount[kind] || 0) + 1;
    if (fired.length < 20000 || kind !== 'short') fired.push({p: '0', n, kind, val, sys: op});
  }
  // -> {err} or {lim}
  function fault(op, path, transfer) {
    const res = {};
    const f = faults.get(n);
    const apply = (kind, val) => {
      if (kind === 'err') { res.err = val; fire('err', op, val); }
      else if (kind === 'short' && transfer) { res.lim = val; fire('short', op, val); }
    };
    if (f) apply(f.kind, f.val);
    for (const r of rules) {
      if (r.op !== op && r.op !== '*') continue;
      if (r.path && r.path !== path) continue;
      const k = r.seen++;
      if (k < (r.after || 0) || (r.count !== undefined && r.count >= 0 && k >= (r.after || 0) + r.count)) continue;
      if (res.err === undefined) apply(r.kind, r.val);
    }
    return res;
  }
  function splitLim(len, permille, op) {
    if (permille && len > 1 && rng.below(1000) < permille) {
      const k = rng.below(3) === 0 ? 1 : 1 + rng.below(len - 1);
      fire('short', op, k);
      return k;
    }
    return len;
  }
  function done(op, path, kind, fd, len, ret, flt) {
    ++n;
    simns += 1000;
    mix(op + '|' + path + '|' + fd + '|' + len + '|' + ret + ';');
    if (q.trace) { const t = ['0', n - 1, op, path, kind, fd, len, ret]; if (flt) t.push(flt); trace.push(t); }
    if (n > maxcalls) throw new Limit();
    return ret < 0 ? -ret : 0;
  }
  function kindOf(f) { return f.dir !== undefined ? 'dir' : f.node ? f.node.t : f.kind; }
  function pathOf(f) { return f.path || (f.sink ? '<' + f.sink + '>' : f.src ? '<src>' : f.dir || ''); }

  function resolve(fd, p, len, follow) {
    const f = fds.get(fd);
    if (!f) return {err: E.BADF};
    if (f.dir === undefined) return {err: E.NOTDIR};
    if (!inMem(p, len)) return {err: 21};
    const s = mem().subarray(p, p + len).toString('latin1');
    if (s.includes('\0')) return {err: E.INVAL, s};
    if (s === '') return {err: E.NOENT, s};
    if (s[0] === '/') return {err: E.NOTCAPABLE, s};
    const parts = [];
    const all = s.split('/');
    for (let i = 0, links = 0; i < all.length; ++i) {
      const x = all[i];
      if (x === '' || x === '.') continue;
      if (x === '..') {
        if (!parts.length) return {err: E.NOTCAPABLE, s};
        parts.pop();
        continue;
      }
      parts.push(x);
      const cur = (f.dir === '/' ? '' : f.dir) + '/' + parts.join('/');
      const nd = map.get(cur);
      if (nd && nd.t === 'lnk' && (follow || i < all.length - 1)) {
        if (++links > 8) return {err: 32, s};
        parts.pop();
        all.splice(i + 1, 0, ...nd.to.split('/'));
        continue;
      }
      if (i < all.length - 1) {
        if (!nd) return {err: E.NOENT, s};
        if (nd.t !== 'dir') return {err: E.NOTDIR, s};
      }
    }
    const path = parts.length ? (f.dir === '/' ? '' : f.dir) + '/' + parts.join('/') : f.dir;
    return {path, s, slash: s.endsWith('/')};
  }
  function allocFd() { for (let i = 3; ; ++i) if (!fds.has(i)) return i; }
  const fdlimit = q.fdlimit || 1024;

  function filestat(p, nd) {
    const m = mem();
    const size = nd.t === 'lnk' ? nd.to.length : nd.t === 'reg' ? nd.fake || nd.size : nd.t === 'src' ? nd.size : 0;
    const ft = nd.t === 'dir' ? 3 : nd.t === 'reg' ? 4 : nd.t === 'chr' ? 2 : nd.t === 'lnk' ? 7 : nd.t === 'p' ? 6 : 2;
    m.writeBigUInt64LE(1n, p);
    m.writeBigUInt64LE(BigInt(nd.ino || 0), p + 8);
    m.writeUInt8(ft, p + 16);
    m.fill(0, p + 17, p + 24);
    m.writeBigUInt64LE(BigInt(nd.nlink === undefined ? 1 : nd.nlink), p + 24);
    m.writeBigUInt64LE(BigInt(size), p + 32);
    for (let i = 0; i < 3; ++i) m.writeBigUInt64LE(clock, p + 40 + 8 * i);
  }

  const argv = (q.argv || ['prog']).map(s => Buffer.from(s + '\0', 'latin1'));
  const W = {
    args_sizes_get(pc, pl) {
      const f = fault('args_sizes_get', '');
      if (f.err) return done('args_sizes_get', '', '', -1, -1, -f.err, 'err');
      mem().writeUInt32LE(argv.length, pc);
      mem().writeUInt32LE(argv.reduce((a, b) => a + b.length, 0), pl);
      return done('args_sizes_get', '', '', -1, -1, 0);
    },
    args_get(pv, ps) {
      const f = fault('args_get', '');
      if (f.err) return done('args_get', '', '', -1, -1, -f.err, 'err');
      for (const a of argv) { mem().writeUInt32LE(ps, pv); pv += 4; a.copy(mem(), ps); ps += a.length; }
      return done('args_get', '', '', -1, -1, 0);
    },
    environ_sizes_get(a, b) { mem().writeUInt32LE(0, a); mem().writeUInt32LE(0, b); return done('environ_sizes_get', '', '', -1, -1, 0); },
    environ_get() { return done('environ_get', '', '', -1, -1, 0); },
    proc_exit(code) { done('proc_exit', '', '', -1, -1, 0); throw new Exit(code >>> 0); },
    fd_prestat_get(fd, p) {
      const op = 'fd_prestat_get';
      const f = fds.get(fd);
      if (!f || f.pre === undefined) return done(op, '', '', fd, -1, -E.BADF);
      const fl = fault(op, f.pre);
      if (fl.err) return done(op, f.pre, 'dir', fd, -1, -fl.err, 'err');
      mem().writeUInt8(0, p);
      mem().writeUInt32LE(Buffer.byteLength(f.pre) + (q.prestatnul ? 1 : 0), p + 4);
      return done(op, f.pre, 'dir', fd, -1, 0);
    },
    fd_prestat_dir_name(fd, p, len) {
      const op = 'fd_prestat_dir_name';
      const f = fds.get(fd);
      if (!f || f.pre === undefined) return done(op, '', '', fd, -1, -E.BADF);
      const fl = fault(op, f.pre);
      if (fl.err) return done(op, f.pre, 'dir', fd, -1, -fl.err, 'err');
      const b = Buffer.from(f.pre + (q.prestatnul ? '\0' : ''), 'latin1');
      if (!inMem(p, Math.min(len, b.length))) return done(op, f.pre, 'dir', fd, -1, -21);
      b.copy(mem(), p, 0, Math.min(len, b.length));
      return done(op, f.pre, 'dir', fd, -1, 0);
    },
    path_open(dfd, dirflags, pp, plen, oflags, rights, inh, fdflags, pfd) {
      const op = 'path_open';
      const r = resolve(dfd, pp, plen, (dirflags & 1) && !((oflags & 4) && (oflags & 1)));
      const nm = r.path || '?' + r.s;
      const fl = fault(op, nm);
      const ret = (e, flt) => done(op, nm, 'o' + oflags + ',' + fdflags, dfd, -1, e, flt);
      if (fl.err) return ret(-fl.err, 'err');
      if (r.err) return ret(-r.err);
      let nd = map.get(r.path);
      const wantw = !!(rights & R_WRITE);
      if (!nd) {
        if (!(oflags & 1)) return ret(-E.NOENT);
        if (r.slash) return ret(-E.ISDIR);
        if (disk <= 0) return ret(-E.NOSPC);
      } else {
        if ((oflags & 4) && (oflags & 1)) return ret(-E.EXIST);
        if (nd.t === 'lnk') return ret(-32);
        if ((oflags & 2) && nd.t !== 'dir') return ret(-E.NOTDIR);
        if (r.slash && nd.t !== 'dir') return ret(-E.NOTDIR);
        if (nd.t === 'dir' && wantw) return ret(-E.ISDIR);
        if (nd.t === 'reg' && !(nd.mode & 0o200) && wantw) return ret(-E.ACCES);
      }
      let nopen = 0;
      for (const x of fds.values()) if (!x.control) ++nopen;
      if (nopen >= fdlimit) return ret(-E.MFILE);
      if (!nd) {
        nd = new Reg(Buffer.alloc(0));
        nd.ino = nextIno++;
        nd.shared = false;
        map.set(r.path, nd);
        touched.add(r.path);
      } else if (nd.t === 'reg' && (wantw || (oflags & 8))) {
        if (before.get(r.path) === nd) { const c = nd.clone(); map.set(r.path, c); for (const x of fds.values()) if (x.node === nd) x.node = c; nd = c; }
        if (oflags & 8) { nd.size = 0; touched.add(r.path); }
      }
      const fd = allocFd();
      if (nd.t === 'dir') fds.set(fd, {dir: r.path, dnode: nd, rights, path: r.path});
      else fds.set(fd, {node: nd, pos: 0, rights: rights, append: !!(fdflags & 1), path: r.path});
      mem().writeUInt32LE(fd, pfd);
      return ret(0);
    },
    path_unlink_file(dfd, pp, plen) {
      const op = 'path_unlink_file';
      const r = resolve(dfd, pp, plen);
      const nm = r.path || '?' + r.s;
      const fl = fault(op, nm);
      if (fl.err) return done(op, nm, '', dfd, -1, -fl.err, 'err');
      if (r.err) return done(op, nm, '', dfd, -1, -r.err);
      const nd = map.get(r.path);
      if (!nd) return done(op, nm, '', dfd, -1, -E.NOENT);
      if (nd.t === 'dir') return done(op, nm, '', dfd, -1, -E.ISDIR);
      if (r.slash) return done(op, nm, '', dfd, -1, -E.NOTDIR);
      map.delete(r.path);
      if (nd instanceof Reg && before.get(r.path) !== nd) nd.nlink = 0;
      touched.add(r.path);
      return done(op, nm, '', dfd, -1, 0);
    },
    path_create_directory(dfd, pp, plen) {
      const op = 'path_create_directory';
      const r = resolve(dfd, pp, plen);
      const nm = r.path || '?' + r.s;
      const fl = fault(op, nm);
      if (fl.err) return done(op, nm, '', dfd, -1, -fl.err, 'err');
      if (r.err) return done(op, nm, '', dfd, -1, -r.err);
      if (map.has(r.path)) return done(op, nm, '', dfd, -1, -E.EXIST);
      map.set(r.path, {t: 'dir', mode: 0o755, ino: nextIno++});
      touched.add(r.path);
      return done(op, nm, '', dfd, -1, 0);
    },
    path_remove_directory(dfd, pp, plen) {
      const op = 'path_remove_directory';
      const r = resolve(dfd, pp, plen);
      const nm = r.path || '?' + r.s;
      const fl = fault(op, nm);
      if (fl.err) return done(op, nm, '', dfd, -1, -fl.err, 'err');
      if (r.err) return done(op, nm, '', dfd, -1, -r.err);
      const nd = map.get(r.path);
      if (!nd) return done(op, nm, '', dfd, -1, -E.NOENT);
      if (nd.t !== 'dir') return done(op, nm, '', dfd, -1, -E.NOTDIR);
      if (pre.some(x => x[1] === r.path)) return done(op, nm, '', dfd, -1, -10);
      for (const k of map.keys()) if (k.startsWith(r.path + '/')) return done(op, nm, '', dfd, -1, -E.NOTEMPTY);
      map.delete(r.path);
      touched.add(r.path);
      return done(op, nm, '', dfd, -1, 0);
    },
    path_filestat_get(dfd, flags, pp, plen, out) {
      const op = 'path_filestat_get';
      const r = resolve(dfd, pp, plen, flags & 1);
      const nm = r.path || '?' + r.s;
      const fl = fault(op, nm);
      if (fl.err) return done(op, nm, '', dfd, -1, -fl.err, 'err');
      if (r.err) return done(op, nm, '', dfd, -1, -r.err);
      const nd = map.get(r.path);
      if (!nd) return done(op, nm, '', dfd, -1, -E.NOENT);
      if (r.slash && nd.t !== 'dir') return done(op, nm, '', dfd, -1, -E.NOTDIR);
      filestat(out, nd);
      return done(op, nm, '', dfd, -1, 0);
    },
    fd_filestat_get(fd, out) {
      const op = 'fd_filestat_get';
      const f = fds.get(fd);
      if (!f) return done(op, '', '', fd, -1, -E.BADF);
      const fl = fault(op, pathOf(f));
      if (fl.err) return done(op, pathOf(f), kindOf(f), fd, -1, -fl.err, 'err');
      if (f.node) filestat(out, f.node);
      else if (f.dir !== undefined) filestat(out, f.dnode || map.get(f.dir) || {t: 'dir'});
      else filestat(out, {t: f.kind === 'r' ? 'reg' : f.kind === 't' ? 'chr' : 'p', size: f.src ? f.src.length : 0});
      return done(op, pathOf(f), kindOf(f), fd, -1, 0);
    },
    fd_read(fd, iov, cnt, pout) {
      const op = 'fd_read';
      const f = fds.get(fd);
      if (!f) return done(op, '', '', fd, -1, -E.BADF);
      const m = mem();
      let total = 0;
      for (let i = 0; i < cnt; ++i) total += m.readUInt32LE(iov + 8 * i + 4);
      let lim = total, flt;
      if (!f.control) {
        const fl = fault(op, pathOf(f), true);
        if (fl.err) return done(op, pathOf(f), kindOf(f), fd, total, -fl.err, 'err');
        if (fl.lim !== undefined) { lim = Math.min(lim, Math.max(1, fl.lim)); flt = 'short'; }
      }
      let src, pos;
      if (f.src) { src = f.src; pos = f.pos; }
      else if (f.node) {
        if (f.node.t === 'chr') { src = f.node.dev === 'z' ? Buffer.alloc(total) : Buffer.alloc(0); pos = 0; }
        else { if (!(f.rights & R_READ)) return done(op, pathOf(f), kindOf(f), fd, total, -E.NOTCAPABLE); src = f.node.content(); pos = f.pos; }
      } else if (f.dir !== undefined) return done(op, pathOf(f), 'dir', fd, total, -E.ISDIR);
      else return done(op, pathOf(f), kindOf(f), fd, total, -E.BADF);
      let avail = Math.max(0, src.length - pos);
      let k = Math.min(avail, lim);
      if (f.src && !f.control && f.kind === 't') { const nl = src.indexOf(10, pos); if (nl >= 0) k = Math.min(k, nl + 1 - pos); }
      if (!f.control && flt === undefined) k = splitLim(k, q.pshortr, op);
      let o = pos, rest = k;
      for (let i = 0; i < cnt && rest > 0; ++i) {
        const p = m.readUInt32LE(iov + 8 * i), l = m.readUInt32LE(iov + 8 * i + 4);
        const t = Math.min(l, rest);
        if (!inMem(p, t)) return f.control ? 21 : done(op, pathOf(f), kindOf(f), fd, total, -21);
        src.copy(m, p, o, o + t);
        o += t;
        rest -= t;
      }
      if (f.src || f.node.t === 'reg') f.pos = pos + k;
      m.writeUInt32LE(k, pout);
      if (f.control) return 0;
      return done(op, pathOf(f), kindOf(f), fd, total, k, flt);
    },
    fd_write(fd, iov, cnt, pout) {
      const op = 'fd_write';
      const f = fds.get(fd);
      if (!f) return done(op, '', '', fd, -1, -E.BADF);
      const m = mem();
      let total = 0;
      const parts = [];
      for (let i = 0; i < cnt; ++i) {
        const p = m.readUInt32LE(iov + 8 * i), l = m.readUInt32LE(iov + 8 * i + 4);
        if (!inMem(p, l)) return f.control ? 21 : done(op, pathOf(f), kindOf(f), fd, total, -21);
        parts.push(m.subarray(p, p + l));
        total += l;
      }
      const all = Buffer.concat(parts);
      if (f.control) {
        sinks[f.sink].push(all);
        if (q.trace) trace.push(['0', n, '!log', all.toString('base64')]);
        m.writeUInt32LE(total, pout);
        return 0;
      }
      const fl = fault(op, pathOf(f), true);
      let k = total, flt;
      if (fl.err) return done(op, pathOf(f), kindOf(f), fd, total, -fl.err, 'err');
      if (fl.lim !== undefined) { k = Math.min(k, Math.max(1, fl.lim)); flt = 'short'; } else k = splitLim(k, q.pshortw, op);
      if (f.sink !== undefined) {
        sinks[f.sink].push(Buffer.from(all.subarray(0, k)));
        if (q.trace >= 2) trace.push(['0', n, '!data', pathOf(f), all.subarray(0, k).toString('base64'), -1]);
      } else if (f.node && f.node.t === 'chr') {
        if (f.node.dev === 'f') return done(op, pathOf(f), kindOf(f), fd, total, -E.NOSPC);
      } else if (f.node) {
        if (!(f.rights & R_WRITE)) return done(op, pathOf(f), kindOf(f), fd, total, -E.NOTCAPABLE);
        const nd = f.node;
        if (k === 0) { m.writeUInt32LE(0, pout); return done(op, pathOf(f), kindOf(f), fd, total, 0, flt); }
        const oldpos = f.pos;
        if (f.append) f.pos = nd.size;
        if (f.pos + k > 2 ** 28) { f.pos = oldpos; return done(op, pathOf(f), kindOf(f), fd, total, -E.FBIG); }
        const grow = Math.max(0, f.pos + k - nd.size);
        if (grow > disk) {
          if (disk <= 0 && f.pos >= nd.size) { f.pos = oldpos; fire('enospc', op, 0); return done(op, pathOf(f), kindOf(f), fd, total, -E.NOSPC, 'enospc'); }
          k = Math.max(0, nd.size + disk - f.pos);
          if (k <= 0) { f.pos = oldpos; fire('enospc', op, 0); return done(op, pathOf(f), kindOf(f), fd, total, -E.NOSPC, 'enospc'); }
          fire('enospc', op, k);
          flt = 'enospc';
        }
        if (disk !== Infinity) disk -= Math.max(0, f.pos + k - nd.size);
        nd.own(f.pos + k);
        if (f.pos > nd.size) nd.buf.fill(0, nd.size, f.pos);
        all.copy(nd.buf, f.pos, 0, k);
        if (q.trace >= 2) trace.push(['0', n, '!data', f.path, all.subarray(0, k).toString('base64'), f.pos]);
        f.pos += k;
        if (f.pos > nd.size) nd.size = f.pos;
        touched.add(f.path);
      } else return done(op, pathOf(f), kindOf(f), fd, total, -E.BADF);
      m.writeUInt32LE(k, pout);
      return done(op, pathOf(f), kindOf(f), fd, total, k, flt);
    },
    fd_close(fd) {
      const op = 'fd_close';
      const f = fds.get(fd);
      if (!f || f.control) return done(op, '', '', fd, -1, -E.BADF);
      const fl = fault(op, pathOf(f));
      fds.delete(fd);
      if (fl.err) return done(op, pathOf(f), kindOf(f), fd, -1, -fl.err, 'err');
      return done(op, pathOf(f), kindOf(f), fd, -1, 0);
    },
    fd_seek(fd, off, whence, pout) {
      const op = 'fd_seek';
      const f = fds.get(fd);
      if (!f) return done(op, '', '', fd, -1, -E.BADF);
      const fl = fault(op, pathOf(f));
      if (fl.err) return done(op, pathOf(f), kindOf(f), fd, -1, -fl.err, 'err');
      let cur, size;
      if (f.node && f.node.t === 'reg') { cur = f.pos; size = f.node.fake || f.node.size; }
      else if (f.src && f.kind === 'r') { cur = f.pos; size = f.src.length; }
      else return done(op, pathOf(f), kindOf(f), fd, -1, -E.SPIPE);
      const o = Number(BigInt.asIntN(64, off));
      const np = whence === 0 ? o : whence === 1 ? cur + o : whence === 2 ? size + o : -1;
      if (np < 0) return done(op, pathOf(f), kindOf(f), fd, o, -E.INVAL);
      f.pos = np;
      mem().writeBigUInt64LE(BigInt(np), pout);
      return done(op, pathOf(f), kindOf(f), fd, o, np);
    },
    clock_time_get(id, prec, out) {
      const fl = fault('clock_time_get', '');
      if (fl.err) return done('clock_time_get', '', '', id, -1, -fl.err, 'err');
      clock += clockstep;
      mem().writeBigUInt64LE(clock, out);
      return done('clock_time_get', clock.toString(), '', id, -1, 0);
    },
    random_get(p, len) {
      const op = 'random_get';
      const fl = fault(op, '');
      if (fl.err) return done(op, '', '', -1, len, -fl.err, 'err');
      if (!inMem(p, len)) return done(op, '', '', -1, len, -21);
      const m = mem();
      for (let i = 0; i < len; ++i) {
        let v;
        if (q.rand === 'const') v = 0x41;
        else if (q.rand === 'two') v = rrng.below(2) ? 0xff : 0;
        else if (q.rand === 'collide') v = rrng.below(4);
        else v = rrng.below(256);
        m[p + i] = v;
      }
      return done(op, m.subarray(p, p + Math.min(len, 16)).toString('hex'), '', -1, len, 0);
    },
  };
  const unknown = new Set();
  const imports = {};
  const mod = getModule(q.module, q.memadd, q.module64);
  for (const im of WebAssembly.Module.imports(mod)) {
    imports[im.module] = imports[im.module] || {};
    if (im.module === 'wasi_snapshot_preview1' && W[im.name]) imports[im.module][im.name] = W[im.name];
    else { unknown.add(im.module + '.' + im.name); imports[im.module][im.name] = () => 52; }
  }
  let outcome = 'ok', st, trap = '', code = -1;
  try {
    inst = new WebAssembly.Instance(mod, imports);
    inst.exports._start();
    st = 0;
    code = 0;
  } catch (e) {
    if (e instanceof Exit) { code = e.code; st = (e.code & 0xff) << 8; }
    else if (e instanceof Limit) { outcome = 'steplimit'; st = 9; }
    else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) { trap = String(e.message); st = 6; }
    else throw e;
  }
  const diff = {};
  const inline = q.inline || 0;
  for (const [k, v] of map) {
    const b = before.get(k);
    if (b === v && !touched.has(k)) continue;
    if (b === v && v.t !== 'reg') continue;
    const d = {t: v.t, mode: v.mode};
    if (v.t === 'reg') {
      const c = v.content();
      if (b && b.t === 'reg' && b.size === v.size && b.content().equals(c)) continue;
      d.size = v.size;
      d.h = crypto.createHash('sha256').update(c).digest('hex').slice(0, 32);
      if (v.size <= inline) d.b64 = c.toString('base64');
    }
    d.op = b ? 'changed' : 'new';
    diff[k] = d;
  }
  for (const k of before.keys()) if (!map.has(k)) diff[k] = {op: 'deleted', t: before.get(k).t, mode: 0};
  const so = {};
  for (const [k, v] of Object.entries(sinks)) so[k] = Buffer.concat(v).toString('base64');
  const ht = ((h1 >>> 0).toString(16) + (h2 >>> 0).toString(16));
  return {outcome, trap, phases: [{procs: [{lin: '0', exe: q.module, st, n, root: true, code}], steps: n, diff, crashed: false}], sinks: so, events: [], fired, chosen: [], fcount,
    steps: n, simns, hsched: '', htrace: ht, unknown: [...unknown], mutated: [...touched].sort(), trace, openfds: [...fds.entries()].filter(([k, f]) => !f.control && f.pre === undefined && k > 2).length};
}

let buf = [];
let pending = Buffer.alloc(0);
function writeAll(b) { let o = 0; while (o < b.length) { try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } }
const chunks = Buffer.alloc(1 << 20);
for (;;) {
  let k;
  try { k = fs.readSync(0, chunks, 0, chunks.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') break; throw e; }
  if (k === 0) break;
  buf.push(Buffer.from(chunks.subarray(0, k)));
  if (chunks.subarray(0, k).includes(10)) {
    pending = Buffer.concat(buf);
    buf = [];
    let i;
    while ((i = pending.indexOf(10)) >= 0) {
      const line = pending.subarray(0, i).toString('utf8');
      pending = pending.subarray(i + 1);
      let r;
      try {
        const q = JSON.parse(line);
        r = q.cmd === 'image' ? image(q) : run(q);
      } catch (e) {
        r = {error: String(e && e.stack || e)};
      }
      writeAll(Buffer.from(JSON.stringify(r) + '\n'));
    }
    if (pending.length) buf.push(Buffer.from(pending));
  }
}
