'use strict';
// Journaled chain state. One instance is the simulated host's state (written only through host calls made
// by the real runtime), another one is the reference model's state (written only by the model).
const { keccak256 } = require('./keccak');
const Z64 = '0'.repeat(64);
class World {
  constructor() {
    this.storage = new Map(); this.transient = new Map(); this.balance = new Map(); this.nonce = new Map();
    this.code = new Map(); this.logs = []; this.journal = [];
  }
  _set(m, k, v) { const had = m.has(k), old = m.get(k); this.journal.push(() => { if (had) m.set(k, old); else m.delete(k); }); if (v === undefined) m.delete(k); else m.set(k, v); }
  snapshot() { return this.journal.length; }
  rollback(s) { while (this.journal.length > s) this.journal.pop()(); }
  sload(a, k) { return this.storage.get(a + k) || Z64; }
  sstore(a, k, v) { this._set(this.storage, a + k, v === Z64 ? undefined : v); }
  tload(a, k) { return this.transient.get(a + k) || Z64; }
  tstore(a, k, v) { this._set(this.transient, a + k, v === Z64 ? undefined : v); }
  bal(a) { return this.balance.get(a) || 0n; }
  transfer(from, to, v) {
    if (v === 0n) return true;
    if (this.bal(from) < v) return false;
    this._set(this.balance, from, this.bal(from) - v); this._set(this.balance, to, this.bal(to) + v); return true;
  }
  setBalance(a, v) { this._set(this.balance, a, v); }
  getNonce(a) { return this.nonce.get(a) || 0; }
  setNonce(a, n) { this._set(this.nonce, a, n); }
  getCode(a) { return this.code.get(a) || Buffer.alloc(0); }
  setCode(a, c) { this._set(this.code, a, c); }
  codeHash(a) { return this.code.has(a) ? keccak256(this.code.get(a)).toString('hex') : Z64; }
  log(e) { this.logs.push(e); this.journal.push(() => this.logs.pop()); }
  commit() { // end of transaction: transient state is gone, the rest becomes durable
    this.transient.clear(); this.journal.length = 0;
    this.durable = this.dump();
  }
  dump() {
    const o = {};
    const put = (n, m, f) => { o[n] = Array.from(m.entries()).map(([k, v]) => k + '=' + f(v)).sort(); };
    put('storage', this.storage, v => v); put('balance', this.balance, v => v.toString(16)); put('nonce', this.nonce, v => String(v));
    put('code', this.code, v => v.toString('hex')); o.logs = this.logs.map(l => JSON.stringify(l));
    return o;
  }
}
function diff(a, b, an, bn) {
  for (const k of Object.keys(a)) {
    const x = a[k], y = b[k];
    for (let i = 0; i < Math.max(x.length, y.length); i++) if (x[i] !== y[i]) return `${k}: ${an}=${cut(x[i])} ${bn}=${cut(y[i])}`;
  }
  return null;
}
function cut(s) { s = String(s); return s.length > 400 ? s.slice(0, 400) + '...' : s; }
module.exports = { World, diff, Z64, cut };
