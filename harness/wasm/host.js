// Runs the WebAssembly module under test; one request per line on stdin, one answer per line on stdout.
'use strict';
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let inst, host = { kind: 'node', stream: Buffer.alloc(0), pos: 0, served: [], failAfter: -1 }, frees = [], allocs = [], live = new Map();
const u8 = () => new Uint8Array(inst.exports.memory.buffer);
const dv = () => new DataView(inst.exports.memory.buffer);
function draw(n) {
  if (host.failAfter >= 0 && host.served.length + n > host.failAfter) throw new Error('host generator failed');
  const out = Buffer.alloc(n); for (let i = 0; i < n; i++) { out[i] = host.pos < host.stream.length ? host.stream[host.pos] : (host.pos * 167 + 13) & 255; host.pos++; host.served.push(out[i]); } return out;
}
const webcrypto = { getRandomValues(a) { const n = a.byteLength; if (n > 65536) { const e = new Error('QuotaExceededError'); e.name = 'QuotaExceededError'; throw e; } new Uint8Array(a.buffer, a.byteOffset, n).set(draw(n)); return a; } };
const nodecrypto = { randomBytes: n => draw(n), randomFillSync(b, o = 0, s) { const v = new Uint8Array(b.buffer || b, b.byteOffset || 0, b.byteLength); const n = s === undefined ? v.length - o : s; v.set(draw(n), o); return b; }, webcrypto, getRandomValues: a => webcrypto.getRandomValues(a) };
function world() {
  const k = host.kind; let window, require_, crypto_;
  const noreq = () => { throw new Error("Cannot find module 'crypto'"); };
  const req = name => { if (name === 'crypto' || name === 'node:crypto') return nodecrypto; throw new Error('Cannot find module ' + name); };
  switch (k) {
    case 'browser': window = { crypto: webcrypto }; require_ = noreq; crypto_ = webcrypto; break;
    case 'both': window = { crypto: webcrypto }; require_ = req; crypto_ = webcrypto; break;
    case 'node': require_ = req; break;
    case 'windownode': window = {}; require_ = req; break;
    case 'windowempty': window = { crypto: {} }; require_ = req; break;
    case 'none': require_ = noreq; break;
    case 'nonewindow': window = {}; require_ = noreq; break;
    case 'norequire': require_ = undefined; break;
  }
  return { window, require: require_, crypto: crypto_, self: window, globalThis: window ? { window, crypto: crypto_ } : { crypto: crypto_ }, global: { crypto: crypto_ } };
}
const cache = new Map();
function em_asm(code, args) {
  let p = code; const m = u8(); let e = p; while (m[e]) e++; const text = Buffer.from(m.slice(p, e)).toString();
  const w = world(); const names = ['$0', '$1', '$2', '$3', 'writeArrayToMemory', 'HEAPU8', 'HEAP8', 'window', 'require', 'crypto', 'self', 'globalThis', 'global', 'Module', 'setValue', 'process'];
  if (!cache.has(text)) cache.set(text, new Function(...names, text));
  const d = dv(); const a = [0, 4, 8, 12].map(o => args + o + 4 <= d.byteLength ? d.getInt32(args + o, true) : 0);
  // only the arguments the snippet mentions are meaningful
  return cache.get(text)(...a, (arr, ptr) => { u8().set(arr, ptr); }, u8(), new Int8Array(inst.exports.memory.buffer), w.window, w.require, w.crypto, w.self, w.globalThis, w.global, {}, (p, v) => { u8()[p] = v; }, w.window ? undefined : { versions: { node: '1' } }) | 0;
}
class Exit extends Error { constructor(c) { super('exit'); this.code = c; } }
function fresh() {
  frees = []; allocs = []; live = new Map();
  const imports = { vf_em_asm: em_asm, vf_exit_host: c => { throw new Exit(c); }, vf_freed: (p, n, d) => { frees.push([p, n, d]); live.delete(p); }, vf_alloced: (p, n) => { allocs.push([p, n]); live.set(p, n); } };
  inst = new WebAssembly.Instance(mod, { env: new Proxy(imports, { get: (t, k) => k in t ? t[k] : () => { throw new Error('the module needs ' + String(k)); } }) });
}
fresh();
// buffers handed to the module, with guard zones of 64 bytes
function run(req) {
  const x = inst.exports; const bufs = []; let ret;
  const args = req.args.map(a => {
    if (a === null) return 0;
    if (typeof a === 'number') return a;
    const n = a.out !== undefined ? a.out : a.in.length / 2; const base = x.mem_alloc(n + 128); if (!base) throw new Error('mem_alloc returned null');
    u8().fill(0xC7, base, base + n + 128); const p = base + 64;
    if (a.in !== undefined) u8().set(Buffer.from(a.in, 'hex'), p); else u8().fill(a.fill === undefined ? 0xA5 : a.fill, p, p + n);
    bufs.push({ base, p, n, in: a.in }); return p;
  });
  const liveBefore = live.size;
  try { ret = { rc: x[req.fn](...args) }; } catch (e) { ret = { exc: e instanceof Exit ? 'exit ' + e.code : e instanceof WebAssembly.RuntimeError ? 'trap ' + e.message : 'exception ' + e.message }; }
  ret.leak = live.size - liveBefore; ret.outs = []; ret.guard = 1; ret.inmod = 0;
  const m = u8();
  for (const b of bufs) {
    for (let i = 0; i < 64; i++) if (m[b.base + i] !== 0xC7 || m[b.p + b.n + i] !== 0xC7) ret.guard = 0;
    const h = Buffer.from(m.slice(b.p, b.p + b.n)).toString('hex'); if (b.in !== undefined) { if (h !== b.in) ret.inmod = 1; } else ret.outs.push(h);
  }
  ret.served = Buffer.from(host.served).toString('hex');
  ret.wiped = 1;
  if (!ret.exc || ret.exc.startsWith('exception')) for (const b of bufs) { frees = []; x.mem_free(b.base, b.n + 128); if (frees.length !== 1 || frees[0][0] !== b.base) ret.wiped = 0; else if (frees[0][2] !== 0) ret.wiped = -1; }
  return ret;
}
function memtest(r) {
  const x = inst.exports; allocs = []; frees = []; const p = x[r.fn](r.size); if (!p) return { ok: 0, why: 'null' };
  if (allocs.length !== 1 || allocs[0][0] !== p || (allocs[0][1] >>> 0) < r.size) return { ok: 0, why: 'size ' + JSON.stringify(allocs) };
  const d = Buffer.from(r.data, 'hex'); u8().set(d, p); x.mem_free(p, r.size);
  if (frees.length !== 1 || frees[0][0] !== p) return { ok: 0, why: 'not released ' + JSON.stringify(frees) };
  return { ok: frees[0][2] === 0 ? 1 : 0, why: frees[0][2] + ' bytes not wiped' };
}
let pending = Buffer.alloc(0); const chunk = Buffer.alloc(1 << 18);
for (;;) {
  let nl = pending.indexOf(10);
  while (nl < 0) { let n = 0; try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; } if (n === 0) process.exit(0); pending = Buffer.concat([pending, chunk.slice(0, n)]); nl = pending.indexOf(10); }
  const req = JSON.parse(pending.slice(0, nl).toString()); pending = pending.slice(nl + 1);
  let ans;
  if (req.host) { host = { kind: req.host, stream: Buffer.from(req.stream || '', 'hex'), pos: 0, served: [], failAfter: req.failAfter === undefined ? -1 : req.failAfter }; }
  if (req.mem) ans = memtest(req); else ans = run(req);
  if (ans.exc && !ans.exc.startsWith('exception')) fresh();
  else if (inst.exports.memory.buffer.byteLength > 64 << 20) fresh();
  // plain text answer: rc or exception, flags, outputs
  const t = req.mem ? (ans.ok ? 'ok' : 'bad ' + ans.why.replace(/\s/g, '_')) : ['rc', ans.exc ? ans.exc.replace(/\s/g, '_') : String(ans.rc), ans.guard, ans.inmod, ans.wiped, ans.leak, 's' + ans.served, ...ans.outs.map(o => 'o' + o)].join(' ');
  let out = Buffer.from(t + '\n'), off = 0; while (off < out.length) { try { off += fs.writeSync(1, out, off); } catch (e) { if (e.code !== 'EAGAIN') throw e; } }
}
