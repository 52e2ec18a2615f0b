// Runs recorded calls on the wasm32 build of the code under test.  usage: node driver.js LIB.wasm CALLS.jsonl RESULTS.jsonl
const fs = require('fs');
const [,, wasm, inp, outp] = process.argv;
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
let M, X, rng = null, freed = [], expectFree = null, aborted = false;
const u8 = () => new Uint8Array(M.buffer);
const cstr = p => { const b = u8(); let e = p; while (b[e]) e++; return Buffer.from(b.slice(p, e)).toString('latin1'); };
const cache = new Map();
const jsText = t => t.replace(/\(\s*void\s*\)/g, 'void ');     // a C statement without effect, (void)0;, among the JavaScript is one there too
let web = null;
const mix = (k, i) => { let x = Math.imul(k + 1, 0x9E3779B1) ^ Math.imul(i + 1, 0x85EBCA77); x ^= x >>> 15; x = Math.imul(x, 0x2C1B3C6D); x ^= x >>> 12; x = Math.imul(x, 0x297A2D39); x ^= x >>> 15; return x & 255; };
// the environments of a program in a browser, a worker or Node; every use of a generator is recorded and may be made to fail
function webEnv() {
  const draw = (kind, n, put) => { const k = web.calls.length, over = kind === 'web' && n > 65536, ok = !over && !web.fail.includes(k); web.calls.push([n, ok ? 1 : over ? 2 : 0]);
    if (!ok) { const e = new Error(over ? 'QuotaExceededError' : 'no entropy'); e.name = over ? 'QuotaExceededError' : 'OperationError'; throw e; }
    const o = new Uint8Array(n); for (let i = 0; i < n; i++) o[i] = mix(k, i); web.got.push(Buffer.from(o)); web.gotk.push(k); put(o); };
  const wc = { getRandomValues(v) { if (!ArrayBuffer.isView(v) || v instanceof Float32Array || v instanceof Float64Array || v instanceof DataView) throw new TypeError('not an integer array'); draw('web', v.byteLength, o => new Uint8Array(v.buffer, v.byteOffset, v.byteLength).set(o)); return v; } };
  const nc = { randomBytes(n, cb) { if (cb !== undefined) throw new TypeError('asynchronous'); if (typeof n !== 'number' || !(n >= 0) || n > 2147483647) throw new RangeError('ERR_OUT_OF_RANGE'); let r; draw('node', n, o => { r = Buffer.from(o); }); return r; },
    randomFillSync(v, off = 0, size = v.byteLength - off) { draw('node', size, o => new Uint8Array(v.buffer, v.byteOffset + off, size).set(o)); return v; }, webcrypto: wc, getRandomValues: wc.getRandomValues };
  const e = web.env, g = {};
  if (e.window) g.window = e.window === 2 ? { crypto: wc } : {};
  if (e.worker) g.self = { crypto: wc };
  if (e.window === 2 || e.worker) g.crypto = wc;
  if (e.require) { g.require = n => { if (e.require === 1 || (n !== 'crypto' && n !== 'node:crypto')) throw new Error('Cannot find module'); return nc; }; g.process = { versions: { node: '22.0.0' } }; }
  if (g.window) g.self = g.window;
  return g;
}
function webAsm(text, a, b) {
  const g = webEnv(), M2 = Object.create(Math), H = u8(); M2.random = () => { web.weak = true; return 0.5; };
  for (const k of Object.getOwnPropertyNames(Math)) if (k !== 'random') M2[k] = Math[k];
  const write = (arr, p) => { p >>>= 0; if (arr.length && (p < web.lo || p + arr.length > web.hi)) { web.outside = true; return; } u8().set(arr, p); };
  const names = ['$0', '$1', 'writeArrayToMemory', 'HEAPU8', 'Module', 'Math', 'globalThis', 'window', 'self', 'crypto', 'require', 'process'];
  const vals = [a, b, write, H, { HEAPU8: H, writeArrayToMemory: write }, M2, g, g.window, g.self, g.crypto, g.require, g.process];
  return new Function(...names, text)(...vals) | 0;
}
// where each byte of the buffer came from: maximal pieces of what the generators delivered, no delivered byte twice
function pieces(buf) {
  const all = Buffer.concat(web.got.length ? web.got : [Buffer.alloc(0)]), start = []; let s = 0; for (const x of web.got) { start.push(s); s += x.length; }
  const used = new Uint8Array(all.length), out = []; let p = 0, lost = 0;
  while (p < buf.length) {
    let hit = -1;
    for (let w = Math.min(8, buf.length - p); w >= 1 && hit < 0; w--) {
      const key = buf.subarray(p, p + w); let at = all.indexOf(key);
      while (at >= 0) { let free = true; for (let i = 0; i < w; i++) if (used[at + i]) free = false; if (free) { hit = at; break; } at = all.indexOf(key, at + 1); }
    }
    if (hit < 0) { p++; if (++lost > 64) break; continue; }
    let c = start.length - 1; while (start[c] > hit) c--; while (c > 0 && web.got[c].length === 0) c--;
    const from = hit - start[c]; let n = 0; while (p + n < buf.length && from + n < web.got[c].length && !used[hit + n] && all[hit + n] === buf[p + n]) { used[hit + n] = 1; n++; }
    out.push([p, n, web.gotk[c], from]); p += n; if (out.length > 400) break;
  }
  return out;
}
function webRun(c) {
  const n = c.web.n, G = n > 60000 ? 131072 : 4096, p = X.malloc(n + 2 * G); if (!p) throw new Error('allocation failed'); u8().fill(0xa5, p, p + n + 2 * G);
  web = { env: c.web.env, fail: c.web.fail, calls: [], got: [], gotk: [], weak: false, lo: p + G, hi: p + G + n, outside: false };
  let rc = 0, err = null; const sp = X.__stack_pointer ? X.__stack_pointer.value : null; let spAfter = sp;
  try { rc = Number(X.randombytes(p + G, n)); } catch (e) { err = String(e); spAfter = X.__stack_pointer ? X.__stack_pointer.value : null; if (sp !== null) X.__stack_pointer.value = sp; }
  const all = Buffer.from(u8().slice(p, p + n + 2 * G)), g = x => x.every(b => b === 0xa5); const r = { rc, err, sp: sp === spAfter, weak: web.weak, guard: !web.outside && g(all.subarray(0, G)) && g(all.subarray(n + G)), calls: web.calls, pieces: err === null && rc === 0 ? pieces(all.subarray(G, n + G)) : [] };
  web = null; if (r.guard) X.free(p); else fresh(); return r;
}
function emAsm(code, a, b) {       // the inline JavaScript, with the environment the scenario asks for
  const text = jsText(cstr(code));
  if (web) return webAsm(text, a, b);
  if (!cache.has(text)) cache.set(text, new Function('$0', '$1', 'window', 'require', 'writeArrayToMemory', 'HEAPU8', text));
  const take = n => { const o = new Uint8Array(n); for (let i = 0; i < n; i++) o[i] = rng.stream.length ? rng.stream[rng.pos++ % rng.stream.length] : 0x5a; rng.calls.push(n); return o; };
  const win = rng.mode === 'window' ? { crypto: { getRandomValues: x => { x.set(take(x.length)); return x; } } } : rng.mode === 'windownocrypto' ? {} : undefined;
  const req = n => { if (rng.mode === 'norequire' || n !== 'crypto') throw new Error('no module'); return { randomBytes: k => { if (rng.mode === 'fail') { rng.calls.push(-1); throw new Error('no entropy'); } return Buffer.from(take(k)); } }; };
  return cache.get(text)(a, b, win, req, (arr, p) => u8().set(arr, p), u8()) | 0;
}
function fresh() {
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) (imports[i.module] ||= {})[i.name] = i.name === 'vf_em_asm' ? emAsm : i.name === 'on_free' ? p => { const b = u8(); const n = new DataView(M.buffer).getUint32(p - 16, true); const k = expectFree && expectFree.p === p ? expectFree.n : 0; let dirty = 0; for (let j = 0; j < k; j++) dirty += b[p + j] !== 0; freed.push([p, k, dirty]); } : i.name === 'on_abort' ? () => { aborted = true; } : () => { throw new Error('missing import ' + i.name); };
  const inst = new WebAssembly.Instance(mod, imports); X = inst.exports; M = X.memory; if (X.__wasm_call_ctors) X.__wasm_call_ctors();
}
fresh();
const hex = b => Buffer.from(b).toString('hex');
function place(args) {
  return args.map(a => {
    if (a[0] === 'val') return { v: String(a[1]) };
    if (a[0] === 'null') return { v: '0' };
    const n = a[0] === 'in' ? a[1].length / 2 : a[0] === 'len' ? 8 : a[1]; const p = (a[0] === 'len' ? X.mem_alloc_long_long : X.mem_alloc)(n);
    if (!p) throw new Error('allocation failed'); const b = u8();
    if (a[0] === 'in') b.set(Buffer.from(a[1], 'hex'), p); else b.fill(a[0] === 'len' ? 0x11 : 0xa5, p, p + n);
    return { v: String(p), p, n, k: a[0], orig: a[1] };
  });
}
function invoke(f, pl, c) {
  rng = { mode: c.mode || 'node', stream: Buffer.from(c.rng || '', 'hex'), pos: 0, calls: [] };
  let rc, err = null; const sp = X.__stack_pointer ? X.__stack_pointer.value : null;
  try { rc = X[f](...pl.map(x => x.v)); } catch (e) { err = String(e); if (sp !== null) X.__stack_pointer.value = sp; }
  return { rc: rc === undefined ? 0 : Number(rc), err, drawn: rng.calls, errno: X.vf_errno() };
}
const out = [];
for (const line of fs.readFileSync(inp, 'utf8').split('\n')) {
  if (!line) continue;
  const c = JSON.parse(line);
  if (c.web) { out.push(JSON.stringify(webRun(c))); continue; }
  if (c.heap) {       // a history of the exported allocator: ["alloc", kind, n] / ["fill", i] / ["free", i, n]
    const blk = []; const log = [];
    for (const s of c.heap) {
      if (s[0] === 'alloc') { const p = (s[1] === 'll' ? X.mem_alloc_long_long : X.mem_alloc)(s[2]); blk.push({ p, n: s[2] }); log.push(p ? 1 : 0); }
      else if (s[0] === 'fill') { const b = blk[s[1]]; for (let i = 0; i < b.n; i++) u8()[b.p + i] = 1 + (i * 7 + s[1]) % 255; }
      else { const b = blk[s[1]]; const others = blk.filter(o => o !== b && !o.gone).map(o => [o, hex(u8().slice(o.p, o.p + o.n))]); freed = []; expectFree = { p: b.p, n: s[2] }; X.mem_free(b.p, s[2]); b.gone = true; expectFree = null; const mine = freed.filter(x => x[0] === b.p);
        let nb = 0; if (mine.length === 1) { const m = u8(); for (let j = 0; j < s[2]; j++) nb += m[b.p + j] !== 0; }
        log.push([mine.length, mine.length ? mine[0][2] : -1, nb, freed.length, others.every(([o, h]) => hex(u8().slice(o.p, o.p + o.n)) === h)]); }
    }
    out.push(JSON.stringify({ heap: log })); continue;
  }
  const pl = place(c.args); const before = c.pair ? M.buffer.slice(0) : null;
  const a = invoke(c.f, pl, c); const r = { rc: a.rc, err: a.err, drawn: a.drawn, outs: [], intact: true, errno: a.errno };
  for (const x of pl) if (x.p) { const d = hex(u8().slice(x.p, x.p + x.n)); if (x.k === 'in') { if (d !== x.orig) r.intact = false; } else r.outs.push(d); }
  if (c.pair) {       // the library function from the same memory state: everything outside the stack has to come out the same
    const after = M.buffer.slice(0); new Uint8Array(M.buffer).set(new Uint8Array(before)); const b = invoke(c.pair, pl, c);
    const lo = X.__data_end.value, hi = X.__heap_base.value, p = Buffer.from(after), q = Buffer.from(M.buffer);
    r.same = a.rc === b.rc && a.err === b.err && JSON.stringify(a.drawn) === JSON.stringify(b.drawn) && p.length === q.length && p.subarray(0, lo).equals(q.subarray(0, lo)) && p.subarray(hi).equals(q.subarray(hi)); r.pairrc = b.rc;
  }
  for (const x of pl) if (x.p) X.mem_free(x.p, x.n);
  out.push(JSON.stringify(r));
}
fs.writeFileSync(outp, out.join('\n') + '\n');
