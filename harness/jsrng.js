// Driver for src/jswrapper/getRandomSeed.js: one command per line, the platform generator is a stand-in.
//   jsrng <size literal, hex> <class> <n> <where> <fault> <zeros>
const fs = require('fs'), vm = require('vm'), path = require('path');
const src = fs.readFileSync(path.join(process.argv[2] || '/repo', 'src/jswrapper/getRandomSeed.js'), 'utf8');
let ctr = 1n;
function next() { ctr = (ctr * 6364136223846793005n + 1442695040888963407n) & 0xffffffffffffffffn; return Number((ctr >> 33n) & 255n); }
const hex = a => a.length ? a.map(x => (x & 255).toString(16).padStart(2, '0')).join('') : '-';
function run(t) {
  const [, lit, , , where, fault, zeros] = t;
  const taken = [];
  class Uint8Vector { constructor() { this.v = []; } push_back(x) { this.v.push(x); } size() { return this.v.length; } get(i) { return this.v[i]; } }
  class QuotaExceededError extends Error {}
  const crypto = {
    getRandomValues(a) {
      if (fault === 'throw') throw new Error('platform generator failed');
      if (a.byteLength > 65536) throw new QuotaExceededError('too many bytes');
      const u = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
      for (let i = 0; i < u.length; i++) {
        let x = next() || 1;
        if (zeros === 'all') x = 0;
        if (zeros === 'butlast' && i < u.length - 1) x = 0;
        if (zeros === 'butfirst' && i > 0) x = 0;
        if (zeros === 'first16' && i < 16) x = 0;
        u[i] = x; taken.push(x);
      }
      return a;
    }
  };
  if (fault === 'nofunc') delete crypto.getRandomValues;
  if (fault === 'notfunc') crypto.getRandomValues = 7;
  const m = { Uint8Vector };
  const ctx = { Module: m };
  if (fault !== 'missing') {
    if (where === 'global') ctx.crypto = crypto;
    if (where === 'self') ctx.self = { crypto };
    if (where === 'window') ctx.window = { crypto };
  }
  if (fault === 'null') ctx.crypto = null;
  vm.createContext(ctx);
  vm.runInContext('var crypto_undefined; var require = undefined;', ctx);
  vm.runInContext(src, ctx, { filename: 'getRandomSeed.js' });
  const lits = lit === '-' ? '' : Buffer.from(lit, 'hex').toString();
  let r, done = true;
  try { r = vm.runInContext('Module.getRandomSeed(' + lits + ')', ctx, { timeout: 20000 }); }
  catch (e) { if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') throw e; done = false; }
  const a = { done, taken: hex(taken), r: 'ok' };
  if (done) a.b = hex(Array.from((r && r.v) || []));
  return a;
}
const fd = process.env.QRL_OUT_FD ? Number(process.env.QRL_OUT_FD) : 1;
for (const l of fs.readFileSync(0, 'utf8').split('\n')) {
  const t = l.trim().split(/\s+/);
  if (!t[0]) continue;
  let a;
  try { a = t[0] === 'jsrng' ? run(t) : { r: 'noop' }; } catch (e) { a = { r: 'hang' }; }
  fs.writeSync(fd, JSON.stringify(a) + '\n');
}
