'use strict';
// Runs a history on really compiled contracts connected to the simulated chain, then the same history
// on the reference model, and compares every observable effect, outcome and the committed state.
const { World, diff, Z64 } = require('../lib/world');
const { keccak256 } = require('../lib/keccak');
const { HOST, FrameEnd, HostTrap, hex, w2n } = require('../lib/exec');
const { Model, Mismatch, ModelFault, TooLong, Unmodelled, blob, n2w, cut } = require('./interp');
class Injected extends Error { constructor(kind) { super(kind); this.kind = kind; } }
class Bad extends Error {}                       // a violation found while the system runs
const MAXDEPTH = 6, GAS = 5000000n;

class RFrame {
  constructor(run, spec) { Object.assign(this, spec); this.run = run; this.ret = Buffer.alloc(0); }
  go() {
    const run = this.run, env = {};
    for (const i of WebAssembly.Module.imports(this.mod)) {
      if (i.kind !== 'function') throw new Bad('compiled contract imports ' + i.kind + ' ' + i.name);
      const f = HOSTX[i.name] || HOST[i.name];
      env[i.name] = f ? (...a) => { run.enter(this, i.name); return f.apply(this, a); } : () => { throw new Bad('contract calls unknown host function ' + i.name); };
    }
    this.ex = new WebAssembly.Instance(this.mod, { env }).exports;
    this.memory = this.ex.memory;
    if (this.ex._start) this.ex._start();
    const entry = this.deploying ? this.ex.deploy : this.ex.call;
    if (!entry) throw new Bad('contract has no entry ' + (this.deploying ? 'deploy' : 'call'));
    entry();
  }
  u8() { const b = this.memory.buffer; if (b !== this._b) { this._b = b; this._u = Buffer.from(b); } return this._u; }
  rd(ptr, n) { ptr >>>= 0; n >>>= 0; if (n === 0) return Buffer.alloc(0); if (ptr + n > this.memory.buffer.byteLength) throw new HostTrap('host argument out of bounds'); return Buffer.from(this.u8().subarray(ptr, ptr + n)); }
  wr(ptr, buf) { ptr >>>= 0; if (buf.length === 0) return; if (ptr + buf.length > this.memory.buffer.byteLength) throw new HostTrap('host result out of bounds'); this.u8().set(buf, ptr); }
  rdw(ptr) { return hex(this.rd(ptr, 32)); }
  rda(ptr) { return hex(this.rd(ptr, 20)); }
  rw() { if (this.static) throw new HostTrap('state change in static call'); }
}
const HOSTX = {
  getGasLeft() { return GAS; },
  storageStore(k, v) { this.rw(); this.run.store(this, this.rdw(k), this.rdw(v)); },
  storageStoreLittleEndian(k, v) { this.rw(); this.run.store(this, this.rdw(k), Buffer.from(this.rd(v, 32)).reverse().toString('hex')); },
  transientStore(k, v) { this.rw(); const a = this.rdw(k), b = this.rdw(v); this.run.effect(`T ${this.self} ${a} ${b}`); this.run.world.tstore(this.self, a, b); },
  emitLogEvent(d, n, t, a, b, c, e) {
    if (t < 0 || t > 4) throw new HostTrap('bad topic count');
    const data = this.rd(d, n); this.rw(); const ts = [a, b, c, e].slice(0, t).map(x => this.rdw(x));
    this.run.effect(`L ${this.self} ${blob(data)} ${ts.join(',')}`); this.run.world.log({ a: this.self, d: hex(data), t: ts });
  },
  selfDestruct(a) {
    this.rw(); const to = this.rda(a), w = this.run.world, b = w.bal(this.self); this.run.effect('D ' + this.self + ' ' + to);
    if (to !== this.self) w.transfer(this.self, to, b); throw new FrameEnd(0, Buffer.alloc(0), 'selfdestruct');
  },
  keccak256(p, n, r) { this.wr(r, keccak256(this.rd(p, n))); },
};

// Behaviour of the chain that both sides share: what a callee is and what scripted accounts do.
class Run {
  // programs: [{obj, mod (WebAssembly.Module), bytes, subs: {name: {bytes, mod}}}]
  constructor(programs, trace, opt = {}) {
    this.programs = programs; this.trace = trace; this.opt = opt;
    this.world = new World(); this.ref = opt.single ? null : new World();
    if (this.ref) this.ref.immut = new Map();
    this.gasConst = GAS; this.symbols = trace.symbols || {}; this.dataIds = [];
    this.faults = {}; this.probes = {}; this.hash = 0x811c9dc5; this.events = 0; this.frames = 0; this.hostCalls = 0; this.effectsTotal = 0;
    this.log = opt.log ? [] : null; this.immutKeys = new Set(); this.kinds = {};
    this.objOf = new Map(); // code bytes (hash) -> {obj, mod}
    this.seen = new WeakMap(); this.immSlots = new Set();
    for (const p of programs) for (const m of JSON.stringify(p.obj).matchAll(/"setimmutable",\[\[.*?\],\["s","([0-9a-f]*)"\]/g)) { // where the runtime keeps immutables and their flags
      const n = Buffer.concat([Buffer.from('immutable_'), Buffer.from(m[1], 'hex')]), k = Buffer.from(keccak256(Buffer.concat([n, Buffer.alloc(Math.max(0, 32 - n.length))])));
      this.immSlots.add(hex(k)); Buffer.from('setimmutable_').forEach((c, i) => { k[i] = (k[i] + c) & 255; }); this.immSlots.add(hex(k));
    }
    for (const p of programs) { this.register(p.bytes, p.obj, p.mod, p); for (const n in p.subs) this.register(p.subs[n].bytes, p.subs[n].obj, p.subs[n].mod, p); }
  }
  register(bytes, obj, mod, p) { this.objOf.set(hex(keccak256(bytes)), { obj, mod, p, bytes }); }
  find(code) {
    if (!code.length) return null;
    let k = this.seen.get(code);
    if (k === undefined) { k = this.objOf.get(hex(keccak256(code))) || null; this.seen.set(code, k); }
    return k;
  }
  note(s) { this.events++; let h = this.hash; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } this.hash = h >>> 0; if (this.log) this.log.push(s); }
  probe(n) { this.probes[n] = (this.probes[n] || 0) + 1; }
  fault(n) { this.faults[n] = (this.faults[n] || 0) + 1; }
  blockHash(n) { const cur = BigInt(this.blk.number); n = BigInt.asUintN(64, n); return n < cur && n + 256n >= cur ? hex(keccak256(Buffer.from('bh' + n))) : null; }
  gasNow() { return GAS; }

  go() {
    const t = this.trace, out = {};
    try {
      for (const w of [this.world, this.ref]) if (w) {
        for (const [a, v] of Object.entries(t.balances || {})) w.setBalance(a, BigInt('0x' + v));
        for (const [a, c] of Object.entries(t.codes || {})) w.setCode(a, Buffer.from(c, 'hex'));
        for (const a of t.addrs) w.setNonce(a, 1);
        w.commit();
      }
      for (let i = 0; i < t.txs.length; i++) { this.runTx(t.txs[i], i); if (this.stopped) break; }
    } catch (e) {
      if (!(e instanceof Bad || e instanceof Mismatch)) throw e;
      out.violation = { msg: e.message, where: this.where, cls: cls(e.message) };
    }
    Object.assign(out, { hash: this.hash, events: this.events, frames: this.frames, hostCalls: this.hostCalls, faults: this.faults, probes: this.probes, log: this.log, effects: this.effectsTotal, txs: this.txDone || 0, kinds: this.kinds, unmodelled: this.unmodelled, all: this.all });
    out.simTime = this.blk ? Math.max(0, Number(this.blk.time) - Number(t.txs[0].blk.time)) : 0;
    return out;
  }
  specOf(tx, world, obj, mod) {
    const code = tx.deploy !== undefined ? this.programs[tx.deploy].bytes : world.getCode(tx.to);
    return { self: tx.to, caller: tx.from, value: BigInt('0x' + (tx.value || '0')), calldata: Buffer.from(tx.data || '', 'hex'), static: false, depth: 0, deploying: tx.deploy !== undefined, code };
  }
  runTx(tx, i) {
    this.tx = tx; this.blk = tx.blk; this.where = { tx: i };
    this.eff = []; this.entered = 0; this.scripts = 0; this.hit = null; this.txCalls = 0;
    const before = this.world.durable;
    if (tx.deploy === undefined && !this.world.getCode(tx.to).length) return; // nothing there yet
    // the real system
    const spec = this.specOf(tx, this.world);
    let res;
    const s0 = this.world.snapshot();
    try {
      if (!this.world.transfer(tx.from, tx.to, spec.value)) res = { status: 1, data: Buffer.alloc(0) };
      else res = this.rframe(spec);
    } catch (e) { if (e instanceof Injected && e.kind === 'crash') res = { crash: true, status: 2, data: Buffer.alloc(0) }; else throw e; }
    if (res.status === 0 && tx.deploy !== undefined) this.world.setCode(tx.to, this.programs[tx.deploy].bytes);
    if (res.status !== 0) this.world.rollback(s0);
    if (res.crash) this.world.transient.clear();
    this.effectsTotal += this.eff.length;
    for (const e of this.eff) { this.kinds[e[0]] = (this.kinds[e[0]] || 0) + 1; this.note(e); }
    if (this.all === undefined) this.all = [];
    if (this.opt.collect) this.all.push([...this.eff, res.crash ? 'crash' : 'st ' + res.status]);
    // the model
    if (this.ref) {
      const m = this.model || (this.model = new Model(this));
      m.begin(this.eff, this.hit ? this.hit.at : undefined, this.hit && this.hit.kind); m.faultDone = !this.hit;
      this.scripts = 0; this.txCalls = 0;
      let mr; const s1 = this.ref.snapshot();
      try {
        if (!this.ref.transfer(tx.from, tx.to, spec.value)) mr = { status: 1, data: Buffer.alloc(0) };
        else mr = this.mframe(m, this.specOf(tx, this.ref));
      } catch (e) {
        if (e instanceof ModelFault && e.kind === 'crash') mr = { crash: true, status: 2, data: Buffer.alloc(0) };
        else if (e instanceof Unmodelled || e instanceof TooLong) { this.unmodelled = e.message; this.stopped = true; return; }
        else throw e;
      }
      if (mr.status === 0 && tx.deploy !== undefined) this.ref.setCode(tx.to, this.programs[tx.deploy].bytes);
      if (mr.status !== 0) this.ref.rollback(s1);
      if (mr.crash) this.ref.transient.clear();
      if (m.effects.length < this.eff.length) throw new Bad(`the system did more than the model: effect ${m.effects.length} is ${cut(this.eff[m.effects.length])}`);
      if (mr.status !== res.status) throw new Bad(`transaction status ${res.status}, model ${mr.status}`);
    }
    this.world.commit(); if (this.ref) this.ref.commit();
    this.note(`tx${i} ${res.crash ? 'crash' : res.status}`); this.txDone = i + 1;
    if (this.ref) { const d = diff(this.dump(this.world), this.dump(this.ref), 'chain', 'model'); if (d) throw new Bad('committed state differs from the model: ' + d); }
    if (res.status !== 0 && before) { const e = diff(this.world.durable, before, 'after', 'before'); if (e) throw new Bad('a failed transaction left a trace: ' + e); }
  }
  dump(w) { const o = w.dump(); o.storage = o.storage.filter(x => !this.immutKeys.has(x.slice(0, x.indexOf('=')))); return o; }
  effect(e) { this.eff.push(e); if (this.eff.length > 20000) throw new Bad('execution does not finish'); }
  store(fr, k, v) {
    if (fr.deploying && this.immSlots.has(k)) { this.immutKeys.add(fr.self + k); this.world.sstore(fr.self, k, v); return; }
    this.effect(`S ${fr.self} ${k} ${v}`); this.world.sstore(fr.self, k, v);
  }
  enter(fr, name) {
    this.hostCalls++;
    if (++this.entered > 200000) throw new Bad('execution does not finish (200000 host calls)');
    const f = this.tx.fault;
    if (f && !this.hit && this.entered - 1 === f.n) { this.hit = { at: this.eff.length, kind: f.k }; this.fault(f.k); throw new Injected(f.k); }
  }
  rframe(spec) {
    const known = this.find(spec.code);
    if (!known) throw new Bad('code of ' + spec.self + ' is not one of the compiled contracts');
    this.frames++;
    spec.mod = known.mod;
    const fr = new RFrame(this, spec), s = this.world.snapshot();
    let r;
    try { fr.go(); r = { status: 0, data: Buffer.alloc(0) }; }
    catch (e) {
      if (e instanceof FrameEnd) r = { status: e.status, data: e.data };
      else if (e instanceof Injected && e.kind === 'abort') r = { status: 2, data: Buffer.alloc(0) };
      else if (e instanceof HostTrap || e instanceof WebAssembly.RuntimeError) { r = { status: 2, data: Buffer.alloc(0) }; this.probe('trap'); }
      else if (e instanceof RangeError && /call stack/i.test(e.message)) throw new Bad('recursion without bound');
      else throw e;
    }
    this.effect(`E ${r.status} ${r.status === 2 || (r.status === 0 && spec.deploying) ? (r.status === 2 ? '' : '*') : blob(r.data)}`.trim());
    if (r.status !== 0) { this.world.rollback(s); this.probe('frame-failed'); }
    fr.memory = null;
    return r;
  }
  mframe(m, spec) {
    const known = this.find(spec.code);
    if (!known) throw new Mismatch('model: unknown code');
    spec.cached = known.p.cached;
    if (spec.deploying) spec.obj = known.obj;
    else { spec.obj = known.obj.subs.find(s => s.name === known.obj.name + '_deployed'); }
    return m.frame(spec);
  }
  // what the callee does; run: 'r' on the real side, 'm' in the model. Both worlds are kept apart.
  calleeOn(side, m, fr, kind, to, value, data) {
    const w = side === 'r' ? this.world : this.ref;
    if (++this.txCalls > 40 || fr.depth + 1 > MAXDEPTH) return { status: 1, data: Buffer.alloc(0) };
    if (kind === 'call' && w.bal(fr.self) < value) return { status: 1, data: Buffer.alloc(0) };
    const code = w.getCode(to), known = this.find(code), s = w.snapshot();
    if (kind === 'call') w.transfer(fr.self, to, value);
    let r;
    if (known) {
      const spec = kind === 'delegate'
        ? { self: fr.self, caller: fr.caller, value: fr.value, calldata: data, static: fr.static, depth: fr.depth + 1, code }
        : { self: to, caller: fr.self, value, calldata: data, static: fr.static || kind === 'static', depth: fr.depth + 1, code };
      r = side === 'r' ? this.rframe(spec) : this.mframe(m, spec);
      r = { status: r.status, data: r.status === 2 ? Buffer.alloc(0) : r.data };
    } else if (code.length && this.tx.scripts && this.tx.scripts.length) { // an account under the simulator's control
      const sc = this.tx.scripts[this.scripts++ % this.tx.scripts.length];
      r = { status: sc.st, data: sc.st === 2 ? Buffer.alloc(0) : Buffer.from(sc.ret, 'hex') };
      if (sc.back && kind !== 'delegate') { // it calls back into the system before it returns
        const spec2 = { self: sc.back.to, caller: to, value: 0n, calldata: Buffer.from(sc.back.data, 'hex'), static: fr.static || kind === 'static', depth: fr.depth + 2, code: w.getCode(sc.back.to) };
        if (spec2.depth <= MAXDEPTH && this.find(spec2.code)) {
          if (side === 'r') { this.probe('callback'); this.rframe(spec2); } else this.mframe(m, spec2);
        }
      }
      if (side === 'r' && sc.st) this.fault('callee-' + (sc.st === 2 ? 'fatal' : 'fails'));
    } else r = { status: 0, data: Buffer.alloc(0) };
    if (r.status !== 0) { w.rollback(s); if (side === 'r' && known) this.fault('nested-frame-fails'); }
    return r;
  }
  // real side entry points used by HOST
  hostCall(fr, kind, gas, to, value, data) {
    this.effect(`C ${kind} ${BigInt.asUintN(64, gas).toString(16)} ${to} ${value === null ? '-' : n2w(value)} ${blob(data)}`);
    const v = value === null ? 0n : value;
    if (fr.static && v > 0n) { this.eff.pop(); throw new HostTrap('value in static call'); }
    const r = this.calleeOn('r', null, fr, kind, to, v, data);
    fr.ret = r.data; return r.status;
  }
  hostCreate(fr, value, code, args, salt, p) {
    fr.rw();
    const raw = Buffer.concat([code, args]); // the code with its length prefix
    this.effect(`N ${n2w(value)} ${blob(raw)} ${salt === null ? '-' : salt}`);
    const r = this.createOn('r', null, fr, value, raw, salt);
    fr.ret = Buffer.alloc(0);
    if (r.status === 0) { fr.wr(p, Buffer.from(r.addr, 'hex')); return 0; }
    return 1;
  }
  callee(m, fr, kind, to, value, data) { return this.calleeOn('m', m, fr, kind, to, value, data); }
  creation(m, fr, value, raw, salt) { return this.createOn('m', m, fr, value, raw, salt); }
  createOn(side, m, fr, value, raw, salt) {
    const w = side === 'r' ? this.world : this.ref, real = side === 'r';
    const refuse = () => ({ status: 1, data: Buffer.alloc(0) });
    if (raw.length < 4) return refuse();
    const n = raw.readUInt32BE(0); if (4 + n > raw.length) return refuse();
    const code = raw.subarray(4, 4 + n), args = raw.subarray(4 + n), known = this.find(code);
    if (!known) { if (real) this.probe('create-unknown-code'); return refuse(); }
    if (++this.txCalls > 40 || fr.depth + 1 > MAXDEPTH) return refuse();
    if (this.tx.refuse) { if (real) this.fault('create-refused'); return refuse(); }
    if (w.bal(fr.self) < value) { if (real) this.fault('create-no-balance'); return refuse(); }
    const nonce = w.getNonce(fr.self);
    const addr = hex(keccak256(Buffer.from(fr.self + (salt === null ? 'n' + nonce : 's' + salt + known.obj.name + hex(args))))).slice(24);
    if (w.getNonce(addr) || w.code.has(addr)) { if (real) this.fault('create-collision'); w.setNonce(fr.self, nonce + 1); return refuse(); }
    w.setNonce(fr.self, nonce + 1);
    const s = w.snapshot();
    w.setNonce(addr, 1); w.transfer(fr.self, addr, value);
    const spec = { self: addr, caller: fr.self, value, calldata: Buffer.from(args), static: false, depth: fr.depth + 1, code: Buffer.from(code), deploying: true };
    const r = real ? this.rframe(spec) : this.mframe(m, spec);
    if (r.status !== 0) { w.rollback(s); if (real) this.fault('constructor-fails'); return refuse(); }
    w.setCode(addr, Buffer.from(code));
    return { status: 0, addr };
  }
  subCode(frame, o) { // bytes of an embedded object: length prefix and module
    const k = this.find(frame.code), s = k && k.p && k.p.subs[o.name];
    if (o.name === frame.obj.name + '_deployed' || !s) return Buffer.alloc(4);
    const b = Buffer.alloc(4 + s.bytes.length); b.writeUInt32BE(s.bytes.length); s.bytes.copy(b, 4); return b;
  }
}
function cls(m) { return m.replace(/k?\d*:?[0-9a-f]{4,}/g, '#').replace(/\d+/g, 'N').slice(0, 60); }
module.exports = { Run, Bad };
