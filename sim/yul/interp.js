'use strict';
// Executable reference model: Yul with EVM semantics over its own World. It is driven by the list of
// effects observed on the real system only where the host interface leaves a choice (failed calls).
const { keccak256 } = require('../lib/keccak');
const { Z64 } = require('../lib/world');
const M = (1n << 256n) - 1n, TOP = 1n << 255n;
const sgn = x => (x & TOP ? x - (1n << 256n) : x);
const u = x => BigInt.asUintN(256, x);
const hex = b => Buffer.from(b).toString('hex');
const n2w = n => u(n).toString(16).padStart(64, '0');
const addrOf = n => n2w(n).slice(24);
const blob = b => (b.length > 400 ? 'k' + b.length + ':' + hex(keccak256(b)) : hex(b));

class ModelEnd extends Error { constructor(status, data) { super('end'); this.status = status; this.data = data; } }
class ModelFault extends Error { constructor(kind) { super(kind); this.kind = kind; } }
class Mismatch extends Error {}
class TooLong extends Error {}
class Unmodelled extends Error {}
class Mem {
  // cached: the free pointer (word 0x40) is kept outside memory and only used through literal offsets
  constructor(cached) { this.b = Buffer.alloc(4096); this.size = 0; this.cached = cached; }
  // until a write reaches the memory (stale bytes) or the pointer (lost) the two may differ: not modelled
  guard(o, n, w) {
    if (!this.cached || !n || o >= 0x60 || o + n <= 0x40) return;
    this.stale = this.stale || new Set();
    if (this.ok) { if (w) { for (let i = 0; i < 32; i++) this.stale.add(i); this.lost = false; } else if (this.lost) throw new Unmodelled('free pointer after word 0x40 was written as memory'); return; }
    for (let i = Math.max(o, 0x40); i < Math.min(o + n, 0x60); i++) if (w) this.stale.delete(i - 0x40); else if (this.stale.has(i - 0x40)) throw new Unmodelled('word 0x40 read as memory');
    if (w) this.lost = true;
  }
  ensure(n) { if (n > 1 << 22) throw new Unmodelled('memory ' + n); if (n > this.b.length) { const nb = Buffer.alloc(Math.max(n, this.b.length * 2)); this.b.copy(nb); this.b = nb; } if (n > this.size) this.size = n; }
  write(o, d) { if (!d.length) return; this.guard(o, d.length, true); this.ensure(o + d.length); d.copy(this.b, o); }
  read(o, n) { if (!n) return Buffer.alloc(0); this.guard(o, n); this.ensure(o + n); return Buffer.from(this.b.subarray(o, o + n)); }
}
const LIM = 0x7fffffffn;   // no memory reaches that far: touching it fails. In between it depends on the host.
const idx = (x, what) => { if (x > 0xffffffn) throw new Unmodelled(what + ' ' + x.toString(16)); return Number(x); };
const slice0 = (src, o, n) => { // zero padded slice; o is a BigInt
  const r = Buffer.alloc(n); if (o < BigInt(src.length)) src.copy(r, 0, Number(o), Math.min(src.length, Number(o) + n)); return r;
};

const PURE = {
  add: (a, b) => u(a + b), sub: (a, b) => u(a - b), mul: (a, b) => u(a * b),
  div: (a, b) => (b ? a / b : 0n), mod: (a, b) => (b ? a % b : 0n),
  sdiv: (a, b) => (b ? u(sgn(a) / sgn(b)) : 0n), smod: (a, b) => (b ? u(sgn(a) % sgn(b)) : 0n),
  exp: (a, b) => { let r = 1n; for (; b; b >>= 1n) { if (b & 1n) r = u(r * a); a = u(a * a); } return r; },
  not: a => M ^ a, lt: (a, b) => (a < b ? 1n : 0n), gt: (a, b) => (a > b ? 1n : 0n),
  slt: (a, b) => (sgn(a) < sgn(b) ? 1n : 0n), sgt: (a, b) => (sgn(a) > sgn(b) ? 1n : 0n),
  eq: (a, b) => (a === b ? 1n : 0n), iszero: a => (a ? 0n : 1n), and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b,
  byte: (n, x) => (n < 32n ? (x >> (8n * (31n - n))) & 255n : 0n),
  shl: (s, x) => (s < 256n ? u(x << s) : 0n), shr: (s, x) => (s < 256n ? x >> s : 0n),
  sar: (s, x) => u(sgn(x) >> (s < 256n ? s : 256n)),
  addmod: (a, b, m) => (m ? (a + b) % m : 0n), mulmod: (a, b, m) => (m ? (a * b) % m : 0n),
  signextend: (k, x) => (k < 31n ? u(BigInt.asIntN(Number(8n * k + 8n), x)) : x),
};

class Model {
  // env: {world, trace, programs, plan} ; programs[i] = {obj, deployed, subs: {name: {obj, bytes}}}
  constructor(run) { this.run = run; this.world = run.ref; this.effects = []; this.guide = null; this.steps = 0; }
  begin(guide, faultAt, faultKind) { this.effects = []; this.guide = guide; this.faultAt = faultAt; this.faultKind = faultKind; this.steps = 0; this.scripts = 0; }
  point() { if (this.faultAt === this.effects.length && !this.faultDone) { this.faultDone = true; throw new ModelFault(this.faultKind); } }
  effect(e) {
    this.point();
    const i = this.effects.length, g = this.guide ? this.guide[i] : e;
    this.effects.push(e);
    if (g !== e && !(e === 'E 0 *' && g && g.startsWith('E 0'))) throw new Mismatch(`effect ${i}: model ${cut(e)}, system ${cut(g === undefined ? 'nothing' : g)}`);
  }
  peek() { return this.guide ? this.guide[this.effects.length] : undefined; }
  step(n) { if ((this.steps += n || 1) > 400000) throw new TooLong('steps'); }

  // runs one frame; returns {status, data}
  frame(spec) {
    const f = new Frame(this, spec), s = this.world.snapshot();
    let r;
    try {
      f.object(spec.obj);
      this.end('E 0 ' + (spec.deploying ? '*' : '')); r = { status: 0, data: Buffer.alloc(0) };
    } catch (e) {
      if (e instanceof ModelEnd) r = { status: e.status, data: e.data };
      else if (e instanceof ModelFault && e.kind === 'abort') { this.effects.push('E 2'); r = { status: 2, data: Buffer.alloc(0) }; }
      else throw e;
    }
    if (r.status !== 0) this.world.rollback(s);
    return r;
  }
  end(e) { this.effect(e.trim()); }
}
const cut = s => { s = String(s); return s.length > 700 ? s.slice(0, 700) + '...' : s; };
const NORMAL = 0, BRK = 1, CONT = 2, LEAVE = 3;

class Frame {
  constructor(m, spec) { Object.assign(this, spec); this.m = m; this.mem = new Mem(spec.cached); this.ret = Buffer.alloc(0); this.world = m.world; }
  object(o) {
    this.obj = o;
    this.block(o.code, null, new Map(), []);
  }
  // scope: {vars: Map, up}; functions visible: Map chain kept in fns
  block(stmts, scope, fns, _x, reuse) {
    const sc = reuse || { vars: new Map(), up: scope };
    let f2 = fns;
    for (const s of stmts) if (s[0] === 'fn') { if (f2 === fns) f2 = new Map(fns); f2.set(s[1], { s, fns: null }); }
    if (f2 !== fns) for (const v of f2.values()) if (v.fns === null) v.fns = f2;
    for (const s of stmts) { const r = this.stmt(s, sc, f2); if (r !== NORMAL) return r; }
    return NORMAL;
  }
  look(sc, n) { for (let s = sc; s; s = s.up) if (s.vars.has(n)) return s; throw new Unmodelled('unbound ' + n); }
  stmt(s, sc, fns) {
    this.m.step();
    switch (s[0]) {
      case 'let': { const vs = s[2] ? this.multi(s[2], sc, fns, s[1].length) : s[1].map(() => 0n); s[1].forEach((n, i) => sc.vars.set(n, vs[i])); return NORMAL; }
      case 'set': { const vs = this.multi(s[2], sc, fns, s[1].length); s[1].forEach((n, i) => this.look(sc, n).vars.set(n, vs[i])); return NORMAL; }
      case 'if': return this.val(s[1], sc, fns) ? this.block(s[2], sc, fns) : NORMAL;
      case 'sw': {
        const v = this.val(s[1], sc, fns);
        for (const [l, b] of s[2]) if (this.val(l, sc, fns) === v) return this.block(b, sc, fns);
        return s[3] ? this.block(s[3], sc, fns) : NORMAL;
      }
      case 'for': {
        const in_ = { vars: new Map(), up: sc };
        let r = this.block(s[1], null, fns, 0, in_); if (r !== NORMAL) return r;
        while (this.val(s[2], in_, fns)) {
          r = this.block(s[4], in_, fns); if (r === BRK) break; if (r === LEAVE) return r;
          r = this.block(s[3], in_, fns); if (r === LEAVE) return r;
        }
        return NORMAL;
      }
      case 'blk': return this.block(s[1], sc, fns);
      case 'brk': return BRK; case 'cont': return CONT; case 'lv': return LEAVE;
      case 'x': this.multi(s[1], sc, fns, -1); return NORMAL;
      case 'fn': return NORMAL;
    }
    throw new Error('stmt ' + s[0]);
  }
  val(e, sc, fns) { return this.multi(e, sc, fns, 1)[0]; }
  multi(e, sc, fns, n) {
    this.m.step();
    switch (e[0]) {
      case 'n': return [BigInt('0x' + e[1])];
      case 's': { const b = Buffer.alloc(32); Buffer.from(e[1], 'hex').copy(b); return [BigInt('0x' + hex(b))]; }
      case 'b': return [BigInt(e[1])];
      case 'v': return [this.look(sc, e[1]).vars.get(e[1])];
    }
    const name = e[1];
    const fn = fns.get(name);
    if (!fn && LITERAL.has(name)) return this.literalFn(name, e[2], sc, fns);
    const args = new Array(e[2].length);
    for (let i = args.length - 1; i >= 0; i--) args[i] = this.val(e[2][i], sc, fns); // right to left
    if (fn) {
      const [, , params, rets, body] = fn.s;
      if ((this.calls = (this.calls || 0) + 1) > 200) throw new TooLong('recursion');
      const fs = { vars: new Map(), up: null };
      params.forEach((p, i) => fs.vars.set(p, args[i])); rets.forEach(p => fs.vars.set(p, 0n));
      this.block(body, fs, fn.fns);
      this.calls--;
      return rets.map(p => fs.vars.get(p));
    }
    if (PURE[name]) { const v = PURE[name](...args); return [v]; }
    if (this.mem.cached && (name === 'mload' || name === 'mstore') && e[2][0][0] === 'n' && BigInt('0x' + e[2][0][1]) === 64n) {
      if (name === 'mstore' && args[1] > 0x7fffffffn) throw new Unmodelled('large free pointer');
      this.mem.ok = true; try { const v = this.builtin(name, args); return v === undefined ? [] : [v]; } finally { this.mem.ok = false; }
    }
    const v = this.builtin(name, args);
    return v === undefined ? [] : [v];
  }
  literalFn(name, a, sc, fns) {
    const s = Buffer.from(a[name === 'setimmutable' ? 1 : 0][1], 'hex').toString();
    const w = this.m.world;
    switch (name) {
      case 'linkersymbol': return [BigInt('0x' + (this.m.run.symbols[s] || '0'))];
      case 'memoryguard': return [BigInt('0x' + a[0][1])];
      case 'setimmutable': { const v = this.val(a[2], sc, fns); this.val(a[0], sc, fns); if (this.static) throw this.fatal(); if (!this.deploying) throw new Unmodelled('setimmutable'); w._set(w.immut, this.self + s, v); return []; }
      case 'loadimmutable': return [w.immut.get(this.self + s) || 0n];
      case 'datasize': return [BigInt(this.dataOf(s).length)];
      case 'dataoffset': return [(1n << 200n) + BigInt(this.dataId(s)) * (1n << 32n)]; // opaque: only good for datacopy/codecopy
    }
    throw new Error(name);
  }
  dataId(s) { const k = this.obj.name + '.' + s; const ids = this.m.run.dataIds; if (!ids.includes(k)) ids.push(k); return ids.indexOf(k); }
  dataOf(s) {
    if (s === this.obj.name) return this.code;
    for (const [n, h] of this.obj.data || []) if (n === s) { const b = Buffer.from(h, 'hex'), l = Buffer.alloc(4); l.writeUInt32BE(b.length); return Buffer.concat([l, b]); }
    for (const o of this.obj.subs || []) if (o.name === s) return this.m.run.subCode(this, o);
    throw new Unmodelled('data ' + s);
  }
  section(off) { // opaque offset -> [bytes, offset within]
    const k = off >> 32n, id = Number(k - (1n << 168n));
    if (k < 1n << 168n || id < 0 || id >= this.m.run.dataIds.length) return null;
    const [obj, s] = this.m.run.dataIds[id].split('.').length === 2 ? this.m.run.dataIds[id].split('.') : [null, null];
    if (obj !== this.obj.name) throw new Unmodelled('data of another object');
    return [this.dataOf(s), off & 0xffffffffn];
  }
  fatal() { this.m.end('E 2'); return new ModelEnd(2, Buffer.alloc(0)); }
  rw() { if (this.static) throw this.fatal(); }
  fin(status, data) { this.m.end(`E ${status} ` + (status === 0 && this.deploying ? '*' : blob(data))); return new ModelEnd(status, data); }
  range(o, n) { if (n === 0n) return [0, 0]; if (o + n >= LIM) throw this.fatal(); return [idx(o, 'offset'), idx(n, 'size')]; }
  rd(o, n) { const [a, b] = this.range(o, n); return this.mem.read(a, b); }
  wr(o, d) { const [at] = this.range(o, BigInt(d.length)); if (d.length) this.mem.write(at, d); }
  builtin(name, a) {
    const m = this.m, w = m.world, run = m.run, blk = run.blk, H = h => BigInt('0x' + h);
    switch (name) {
      case 'pop': case 'debug_print': return undefined;
      case 'stop': throw this.fin(0, Buffer.alloc(0));
      case 'return': throw this.fin(0, this.rd(a[0], a[1]));
      case 'revert': throw this.fin(1, this.rd(a[0], a[1]));
      case 'invalid': throw this.fatal();
      case 'selfdestruct': {
        this.rw(); const to = addrOf(a[0]), b = w.bal(this.self); m.effect('D ' + this.self + ' ' + to);
        if (to !== this.self) w.transfer(this.self, to, b); throw this.fin(0, Buffer.alloc(0));
      }
      case 'mload': return H(hex(this.rd(a[0], 32n)));
      case 'mstore': this.wr(a[0], Buffer.from(n2w(a[1]), 'hex')); return;
      case 'mstore8': if (a[0] + 32n >= LIM) throw this.fatal(); this.wr(a[0], Buffer.from([Number(a[1] & 255n)])); return;
      case 'mcopy': if (a[2]) { const d = this.rd(a[1], a[2]); this.wr(a[0], d); } return;
      case 'keccak256': return H(hex(keccak256(this.rd(a[0], a[1]))));
      case 'sload': return H(w.sload(this.self, n2w(a[0])));
      case 'tload': return H(w.tload(this.self, n2w(a[0])));
      case 'sstore': this.rw(); m.effect(`S ${this.self} ${n2w(a[0])} ${n2w(a[1])}`); w.sstore(this.self, n2w(a[0]), n2w(a[1])); return;
      case 'tstore': this.rw(); m.effect(`T ${this.self} ${n2w(a[0])} ${n2w(a[1])}`); w.tstore(this.self, n2w(a[0]), n2w(a[1])); return;
      case 'gas': return run.gasConst;
      case 'address': return H(this.self); case 'caller': return H(this.caller); case 'callvalue': return this.value;
      case 'balance': return w.bal(addrOf(a[0])); case 'selfbalance': return w.bal(this.self);
      case 'origin': return H(run.tx.from); case 'gasprice': return H(run.tx.gasprice);
      case 'chainid': return H(run.trace.chainid); case 'basefee': return H(blk.basefee); case 'blobbasefee': return H(blk.blobfee);
      case 'coinbase': return H(blk.coinbase); case 'timestamp': return BigInt(blk.time); case 'number': return BigInt(blk.number); case 'gaslimit': return BigInt(blk.gaslimit);
      case 'blockhash': { const h = a[0] >> 63n ? null : run.blockHash(a[0]); return h ? H(h) : 0n; }
      case 'calldatasize': return BigInt(this.calldata.length);
      case 'calldataload': return H(hex(slice0(this.calldata, a[0], 32)));
      case 'calldatacopy': { const [o, n] = this.range(a[0], a[2]); if (n) this.mem.write(o, slice0(this.calldata, a[1], n)); return; }
      case 'returndatasize': return BigInt(this.ret.length);
      case 'returndatacopy': this.range(a[0], a[2]); if (a[1] + a[2] > BigInt(this.ret.length)) throw this.fatal(); this.wr(a[0], this.ret.subarray(Number(a[1]), Number(a[1] + a[2]))); return;
      case 'codesize': if (!this.deploying) throw new Unmodelled('codesize'); return BigInt(this.code.length + this.calldata.length);
      case 'codecopy': case 'datacopy': {
        if (!a[2]) return;
        const s = this.section(a[1]), [, n] = this.range(a[0], a[2]);
        if (s) { if (Number(s[1]) + n > s[0].length) throw new Unmodelled('data range'); this.wr(a[0], s[0].subarray(Number(s[1]), Number(s[1]) + n)); return; }
        if (name === 'datacopy' || !this.deploying) throw new Unmodelled('codecopy');
        this.wr(a[0], slice0(Buffer.concat([this.code, this.calldata]), a[1], n)); return;
      }
      case 'extcodesize': { const c = addrOf(a[0]); return BigInt(w.getCode(c).length); }
      case 'extcodehash': return H(w.codeHash(addrOf(a[0])));
      case 'extcodecopy': { const [, n] = this.range(a[1], a[3]); if (n) this.wr(a[1], slice0(w.getCode(addrOf(a[0])), a[2], n)); return; }
      case 'log0': case 'log1': case 'log2': case 'log3': case 'log4': {
        const d = this.rd(a[0], a[1]); this.rw(); const t = a.slice(2).map(n2w);
        m.effect(`L ${this.self} ${blob(d)} ${t.join(',')}`); w.log({ a: this.self, d: hex(d), t }); return;
      }
      case 'call': return this.call('call', a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
      case 'delegatecall': return this.call('delegate', a[0], a[1], null, a[2], a[3], a[4], a[5]);
      case 'staticcall': return this.call('static', a[0], a[1], null, a[2], a[3], a[4], a[5]);
      case 'create': return this.create(a[0], a[1], a[2], null);
      case 'create2': return this.create(a[0], a[1], a[2], n2w(a[3]));
    }
    throw new Unmodelled('builtin ' + name);
  }
  call(kind, gas, to, value, io, is, oo, os) {
    const m = this.m, data = this.rd(io, is); to = addrOf(to);
    if (kind === 'call' && this.static && value) throw this.fatal();
    m.effect(`C ${kind} ${(gas >> 63n ? (1n << 63n) - 1n : gas).toString(16)} ${to} ${value === null ? '-' : n2w(value)} ${blob(data)}`);
    const r = m.run.callee(m, this, kind, to, value || 0n, data);
    this.ret = r.data;
    const copy = () => { if (!os) return; const n = os < BigInt(r.data.length) ? Number(os) : r.data.length; if (n) this.wr(oo, r.data.subarray(0, n)); };
    if (r.status === 0) { copy(); return 1n; }
    const g = m.peek(), own = blob(r.data), texts = TEXTFAIL;
    if (g === ('E 1 ' + own).trim() || texts.some(t => g === 'E 1 ' + t)) { m.run.probe('failed-call-reverts'); throw this.fin(1, g === ('E 1 ' + own).trim() ? r.data : Buffer.from(g.slice(4), 'hex')); }
    copy(); m.run.probe('failed-call-flag'); return 0n;
  }
  create(value, o, n, salt) {
    const m = this.m; this.rw();
    const raw = this.rd(o, n);
    m.effect(`N ${n2w(value)} ${blob(raw)} ${salt === null ? '-' : salt}`);
    const r = m.run.creation(m, this, value, raw, salt);
    if (r.status === 0) { this.ret = Buffer.alloc(0); return BigInt('0x' + r.addr); }
    this.ret = r.data || Buffer.alloc(0);
    const g = m.peek(); if (TEXTFAIL.some(t => g === 'E 1 ' + t)) { m.run.probe('failed-create-reverts'); throw this.fin(1, Buffer.from(g.slice(4), 'hex')); }
    m.run.probe('failed-create-flag'); return 0n;
  }
}
const LITERAL = new Set(['linkersymbol', 'memoryguard', 'setimmutable', 'loadimmutable', 'datasize', 'dataoffset']);
const TEXTFAIL = ['call contract failed', 'create contract failed', 'create2 contract failed', 'out length is not enough', 'call failed with no revert data'].map(t => hex(Buffer.from(t)));
module.exports = { Model, Mismatch, ModelFault, TooLong, Unmodelled, PURE, blob, n2w, addrOf, cut };
