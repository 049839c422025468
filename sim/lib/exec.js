'use strict';
// Executes one trace: real runtime instances on the simulated chain, in lock-step with the reference model.
const { keccak256 } = require('./keccak');
const { World, diff, Z64, cut } = require('./world');
const { SECTION, VARIANTS } = require('./build');
const PAGE = 65536, MASK256 = (1n << 256n) - 1n;

class Violation extends Error { constructor(msg, where) { super(msg); this.where = where; } }
class FrameEnd extends Error { constructor(status, data, how) { super('end'); this.status = status; this.data = data; this.how = how; } }
class Injected extends Error { constructor(kind) { super(kind); this.kind = kind; } }   // 'abort' | 'crash'
class HostTrap extends Error {}                                                          // host refuses bad arguments
Error.stackTraceLimit = 0;

const hex = b => Buffer.from(b).toString('hex');
const word = h => h.padStart(64, '0');
const w2n = h => BigInt('0x' + h);
const n2w = n => (n & MASK256).toString(16).padStart(64, '0');
const rev = h => Buffer.from(h, 'hex').reverse().toString('hex');

class RefMem { // zero-initialised byte array
  constructor() { this.b = Buffer.alloc(1024); this.size = 0; }
  ensure(n) { if (n > this.b.length) { const nb = Buffer.alloc(Math.max(n, this.b.length * 2)); this.b.copy(nb); this.b = nb; } if (n > this.size) this.size = n; }
  write(off, buf) { if (!buf.length) return; this.ensure(off + buf.length); buf.copy(this.b, off); }
  peek(off, n) { const r = Buffer.alloc(n); this.b.copy(r, 0, Math.min(off, this.size), Math.min(off + n, this.size)); return r; }
  read(off, n) { if (n) this.ensure(off + n); return Buffer.from(this.b.subarray(off, off + n)); }
}

function memLimits(bytes) { // initial pages of the imported memory
  let p = 8; const b = bytes;
  const leb = () => { let r = 0, s = 0, x; do { x = b[p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128); return r; };
  while (p < b.length) {
    const id = b[p++], len = leb(), end = p + len;
    if (id === 2) {
      const n = leb();
      for (let i = 0; i < n; i++) {
        let k = leb(); p += k; k = leb(); p += k; const kind = b[p++];
        if (kind === 0) leb(); else if (kind === 2) { const fl = leb(), min = leb(); return { min, max: fl & 1 ? leb() : undefined }; }
        else if (kind === 1) { p++; const fl = leb(); leb(); if (fl & 1) leb(); } else p += 2;
      }
    }
    p = end;
  }
  throw new Error('no imported memory');
}

class Engine {
  constructor(wasm) { // wasm: {variant: bytes}
    this.mods = {};
    for (const v in wasm) this.mods[v] = { mod: new WebAssembly.Module(wasm[v]), lim: memLimits(wasm[v]), newPage: VARIANTS[v].newPage };
  }
  run(trace, opt = {}) { return new Run(this, trace, opt).go(); }
}

const CELLS = 24, CELL = 128, CELL0 = 64; // operand cells inside the arena, 96 guard bytes between them

class RealFrame {
  constructor(run, spec) { Object.assign(this, spec); this.run = run; this.ret = Buffer.alloc(0); this.slots = []; this.n = 0; this.ended = false; }
  start(child) {
    const run = this.run, v = run.engine.mods[child.variant || run.trace.variant];
    let max = 2048;
    this.limited = false;
    if (child.pages !== undefined) { max = v.lim.min + child.pages; this.limited = true; }
    this.memory = new WebAssembly.Memory({ initial: v.lim.min, maximum: Math.max(max, v.lim.min) });
    this.maxPages = Math.max(max, v.lim.min);
    const env = { memory: this.memory };
    for (const i of WebAssembly.Module.imports(v.mod)) if (i.kind === 'function') {
      const name = i.name, f = HOST[name];
      env[name] = f ? (...a) => { run.hostEnter(this, name); return f.call(this, ...a); } : () => { throw new Violation('runtime calls unknown host function ' + name); };
    }
    this.ex = new WebAssembly.Instance(v.mod, { env }).exports;
    this.u8();
    this.arena = this.ex.sim_arena_ptr(); this.section = this.ex.sim_section_ptr();
    this.shadow = Buffer.alloc(this.ex.sim_arena_size());
    let x = 0x1234567 ^ run.frames; for (let i = 0; i < this.shadow.length; i++) { x = (Math.imul(x, 1664525) + 1013904223) | 0; this.shadow[i] = x >>> 24; }
    this.u8().set(this.shadow, this.arena);
    this.ex.__init_evm_heap(v.newPage);
    this.sectionAt = (this.section - this.ex.evm_get_memory_addr(0)) | 0; // what dataoffset() yields, kept for the frame
    if (child.deploy) this.ex.set_is_deploying_tx();
  }
  u8() { const b = this.memory.buffer; if (b !== this._b) { this._b = b; this._u = Buffer.from(b); } return this._u; }
  atLimit() { return this.limited && this.memory.buffer.byteLength / PAGE >= this.maxPages; }
  tooBig(n) { return (this.ex.evm_get_memory_addr(0) >>> 0) + n > this.maxPages * PAGE; }
  rd(ptr, n) { ptr >>>= 0; if (n === 0) return Buffer.alloc(0); if (n < 0 || ptr + n > this.memory.buffer.byteLength) throw new HostTrap('host argument out of bounds'); return Buffer.from(this.u8().subarray(ptr, ptr + n)); }
  wr(ptr, buf) { ptr >>>= 0; if (buf.length === 0) return; if (ptr + buf.length > this.memory.buffer.byteLength) throw new HostTrap('host result out of bounds'); this.u8().set(buf, ptr); }
  rdw(ptr) { return hex(this.rd(ptr, 32)); }
  rda(ptr) { return hex(this.rd(ptr, 20)); }
  // operand cells
  cell(i) { return this.arena + CELL0 + (i % CELLS) * CELL; }
  put(i, w, rep) { // rep 'b': big-endian word, 'u': native number
    const b = Buffer.from(rep === 'b' ? w : rev(w), 'hex'), o = CELL0 + (i % CELLS) * CELL;
    b.copy(this.shadow, o); this.u8().set(b, this.arena + o); return this.arena + o;
  }
  get(ptr, rep) { const h = hex(this.u8().subarray(ptr, ptr + 32)); return rep === 'b' ? h : rev(h); }
  // a result operand: an arena cell or one of the working values
  res(op) {
    if (op.rs !== undefined && this.slots.length) { const s = this.slots[op.rs % this.slots.length]; return { ptr: s.ptr, done: () => { s.v = Buffer.from(this.u8().subarray(s.ptr, s.ptr + 32)); } }; }
    const ptr = this.cell(op.rc === undefined ? 8 : op.rc), o = ptr - this.arena;
    return { ptr, done: () => { this.u8().copy(this.shadow, o, ptr, ptr + 32); } };
  }
  sync(ptr, n) { this.u8().copy(this.shadow, ptr - this.arena, ptr, ptr + n); }
  checkGuards(all) {
    const u = this.u8();
    if (u.compare(this.shadow, 0, this.shadow.length, this.arena, this.arena + this.shadow.length) !== 0) {
      let i = 0; while (u[this.arena + i] === this.shadow[i]) i++;
      throw new Violation(`memory outside the result was written (operand area byte ${i}, cell ${Math.floor((i - CELL0) / CELL)}+${(i - CELL0) % CELL})`);
    }
    const sl = this.slots;
    if (all || sl.length <= 64 || this.n % 16 === 0)
      for (let i = 0; i < sl.length; i++) if (u.compare(sl[i].v, 0, 32, sl[i].ptr, sl[i].ptr + 32) !== 0)
        throw new Violation(`working value ${i} of ${sl.length} changed: expected ${hex(sl[i].v)} found ${hex(u.subarray(sl[i].ptr, sl[i].ptr + 32))}`);
  }
}

const balanceSlot = h => hex(keccak256(Buffer.from(word(h) + Z64, 'hex')));
class RefFrame {
  constructor(spec) { Object.assign(this, spec); this.mem = new RefMem(); this.ret = Buffer.alloc(0); this.memptr = 0; }
}

function addrOf(creator, nonce, salt, code) {
  return hex(keccak256(Buffer.from(creator + (salt === null ? 'n' + nonce : 's' + salt + hex(code)), 'utf8'))).slice(24);
}

// ---- the simulated host: everything the runtime may import ----
const HOST = {
  getAddress(p) { this.wr(p, Buffer.from(this.self, 'hex')); },
  getCaller(p) { this.wr(p, Buffer.from(this.caller, 'hex')); },
  getCallValue(p) { this.wr(p, Buffer.from(n2w(this.value), 'hex')); },
  getCallDataSize() { return this.calldata.length; },
  callDataCopy(t, off, len) {
    if (len < 0 || off < 0) throw new HostTrap('bad callDataCopy');
    const b = Buffer.alloc(len); this.calldata.copy(b, 0, Math.min(off, this.calldata.length), Math.min(off + len, this.calldata.length)); this.wr(t, b);
  },
  getBlockHash(n, p) { const h = this.run.blockHash(n); if (h === null) return -1; this.wr(p, Buffer.from(h, 'hex')); return 0; },
  getBlockCoinbase(p) { this.wr(p, Buffer.from(this.run.blk.coinbase, 'hex')); },
  getBlockPrevRandao(p) { this.wr(p, Buffer.from(this.run.blk.randao, 'hex')); },
  getBlockGasLimit() { return BigInt.asIntN(64, BigInt(this.run.blk.gaslimit)); },
  getBlockTimestamp() { return BigInt.asIntN(64, BigInt(this.run.blk.time)); },
  getGasLeft() { return BigInt.asIntN(64, this.run.gasNow(this)); },
  getBlockNumber() { return BigInt.asIntN(64, BigInt(this.run.blk.number)); },
  getTxGasPrice(p) { this.wr(p, Buffer.from(this.run.tx.gasprice, 'hex')); },
  getTxOrigin(p) { this.wr(p, Buffer.from(this.run.tx.from, 'hex')); },
  getBaseFee(p) { this.wr(p, Buffer.from(this.run.blk.basefee, 'hex')); },
  getBlobBaseFee(p) { this.wr(p, Buffer.from(this.run.blk.blobfee, 'hex')); },
  getChainId(p) { this.wr(p, Buffer.from(this.run.trace.chainid, 'hex')); },
  getExternalBalance(a, p) { this.wr(p, Buffer.from(n2w(this.run.world.bal(this.rda(a))), 'hex')); },
  getExternalCodeHash(a, p) { this.wr(p, Buffer.from(this.run.world.codeHash(this.rda(a)), 'hex')); },
  storageLoad(k, p) { this.wr(p, Buffer.from(this.run.world.sload(this.self, this.rdw(k)), 'hex')); },
  storageStore(k, v) { this.rw(); this.run.world.sstore(this.self, this.rdw(k), this.rdw(v)); },
  storageLoadLittleEndian(k, p) { this.wr(p, Buffer.from(rev(this.run.world.sload(this.self, this.rdw(k))), 'hex')); },
  storageStoreLittleEndian(k, v) { this.rw(); this.run.world.sstore(this.self, this.rdw(k), rev(this.rdw(v))); },
  transientStore(k, v) { this.rw(); this.run.world.tstore(this.self, this.rdw(k), this.rdw(v)); },
  transientLoad(k, p) { this.wr(p, Buffer.from(this.run.world.tload(this.self, this.rdw(k)), 'hex')); },
  codeCopy(p, off, len) { if (off < 0 || len < 0) throw new HostTrap('bad codeCopy'); const b = Buffer.alloc(len); this.code.copy(b, 0, Math.min(off, this.code.length), Math.min(off + len, this.code.length)); this.wr(p, b); },
  getCodeSize() { return this.code.length; },
  externalCodeCopy(a, p, off, len) { if (off < 0 || len < 0) throw new HostTrap('bad externalCodeCopy'); const c = this.run.world.getCode(this.rda(a)), b = Buffer.alloc(len); c.copy(b, 0, Math.min(off, c.length), Math.min(off + len, c.length)); this.wr(p, b); },
  getExternalCodeSize(a) { return this.run.world.getCode(this.rda(a)).length; },
  callContract(gas, a, v, d, n) { return this.run.hostCall(this, 'call', gas, this.rda(a), w2n(this.rdw(v)), this.rd(d, n)); },
  callCode() { throw new Violation('unexpected callCode'); },
  callDelegate(gas, a, d, n) { return this.run.hostCall(this, 'delegate', gas, this.rda(a), null, this.rd(d, n)); },
  callStatic(gas, a, d, n) { return this.run.hostCall(this, 'static', gas, this.rda(a), null, this.rd(d, n)); },
  createContract(v, c, cl, d, dl, s, is2, p) {
    return this.run.hostCreate(this, w2n(this.rdw(v)), this.rd(c, cl), this.rd(d, dl), is2 ? this.rdw(s) : null, p);
  },
  finish(p, n) { throw new FrameEnd(0, this.rd(p, n), 'finish'); },
  revert(p, n) { throw new FrameEnd(1, this.rd(p, n), 'revert'); },
  invalid() { throw new FrameEnd(2, Buffer.alloc(0), 'invalid'); },
  emitLogEvent(d, n, t, a, b, c, e) { this.rw(); if (t < 0 || t > 4) throw new HostTrap('bad topic count'); const data = hex(this.rd(d, n)); this.run.world.log({ a: this.self, d: data, t: [a, b, c, e].slice(0, t).map(x => this.rdw(x)) }); },
  getReturnDataSize() { return this.ret.length; },
  returnDataCopy(p, off, n) { if (off < 0 || n < 0 || off + n > this.ret.length) throw new HostTrap('returnDataCopy out of bounds'); this.wr(p, this.ret.subarray(off, off + n)); },
  selfDestruct(a) { this.rw(); const to = this.rda(a), b = this.run.world.bal(this.self); if (to !== this.self) this.run.world.transfer(this.self, to, b); throw new FrameEnd(0, Buffer.alloc(0), 'selfdestruct'); },
  keccak256(p, n, r) { this.wr(r, keccak256(this.rd(p, n))); },
  sha256() { throw new Violation('unexpected sha256'); },
  addmod(a, b, m, r) { const M = w2n(this.rdw(m)); this.wr(r, Buffer.from(n2w(M === 0n ? 0n : (w2n(this.rdw(a)) + w2n(this.rdw(b))) % M), 'hex')); },
  mulmod(a, b, m, r) { const M = w2n(this.rdw(m)); this.wr(r, Buffer.from(n2w(M === 0n ? 0n : (w2n(this.rdw(a)) * w2n(this.rdw(b))) % M), 'hex')); },
  debug_bytes(p, n) { this.rd(p, n); },
};
RealFrame.prototype.rw = function () { if (this.static) throw new HostTrap('state change in static call'); };

class Run {
  constructor(engine, trace, opt) {
    this.engine = engine; this.trace = trace; this.opt = opt;
    this.world = new World(); this.ref = new World();
    this.frames = 0; this.events = 0; this.hash = 0x811c9dc5; this.hostCalls = 0; this.faults = {}; this.log = opt.log ? [] : null;
    this.probes = {}; this.created = [];
  }
  note(s) { // the event log; its hash identifies the execution
    this.events++;
    let h = this.hash; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } this.hash = h >>> 0;
    if (this.log) this.log.push(s);
  }
  probe(n) { this.probes[n] = (this.probes[n] || 0) + 1; }
  fault(n) { this.faults[n] = (this.faults[n] || 0) + 1; }
  hostEnter(fr, name) {
    this.hostCalls++;
    if (++fr.opHost > 100000) throw new Violation('operation does not finish (100000 host calls)');
    const f = fr.op && fr.op.f;
    if (f && !fr.faulted && fr.opHost - 1 === f.n) {
      if (f.k === 'abort' || f.k === 'crash') { fr.faulted = true; this.fault(f.k); throw new Injected(f.k); }
    }
  }
  blockHash(n) { const cur = BigInt(this.blk.number); n = BigInt.asUintN(64, n); return n < cur && n + 256n >= cur ? hex(keccak256(Buffer.from('bh' + n))) : null; }
  gasNow(fr) { return BigInt.asUintN(64, BigInt(this.tx.gas) - BigInt(fr.n)); }

  go() {
    const t = this.trace, out = {};
    try {
      for (const [a, v] of Object.entries(t.balances || {})) { this.world.setBalance(a, BigInt('0x' + v)); this.ref.setBalance(a, BigInt('0x' + v)); }
      for (const [a, c] of Object.entries(t.codes || {})) { this.world.setCode(a, Buffer.from(c, 'hex')); this.ref.setCode(a, Buffer.from(c, 'hex')); }
      if (t.tokens) for (const [a, h, v] of t.tokens.mint) { this.world.sstore(a, balanceSlot(h), v); this.ref.sstore(a, balanceSlot(h), v); }
      this.world.commit(); this.ref.commit();
      if (t.tokens) { this.total = {}; for (const a of t.tokens.contracts) this.total[a] = this.supply(a); }
      t.txs.forEach((tx, i) => this.runTx(tx, i));
    } catch (e) {
      if (!(e instanceof Violation)) throw e;
      out.violation = { msg: e.message, where: e.where || this.where, cls: cls(e.message) };
    }
    out.hash = this.hash; out.events = this.events; out.frames = this.frames; out.hostCalls = this.hostCalls; out.faults = this.faults; out.probes = this.probes; out.log = this.log;
    out.simTime = this.blk ? Number(BigInt(this.blk.time) - BigInt(t.txs[0].blk.time)) : 0; out.txs = this.txDone || 0;
    return out;
  }
  runTx(tx, i) {
    this.tx = tx; this.blk = tx.blk; this.txIndex = i;
    const before = this.world.durable;
    const spec = { self: tx.to, caller: tx.from, value: BigInt('0x' + (tx.value || '0')), calldata: Buffer.from(tx.data || '', 'hex'), static: false, depth: 0, deploying: !!tx.deploy };
    const res = this.frame(spec, tx, [i]);
    if (res.crash) { // whole node dies: only durable state survives the restart
      this.world.rollback(0); this.ref.rollback(0); this.world.transient.clear(); this.ref.transient.clear();
    } else if (res.status !== 0) { this.world.rollback(0); this.ref.rollback(0); }
    const td = [...this.world.transient.entries()].sort().join(), tr = [...this.ref.transient.entries()].sort().join();
    this.where = { tx: i };
    if (td !== tr) throw new Violation(`transient state differs at the end of the transaction: chain ${cut(td)} model ${cut(tr)}`);
    this.world.commit(); this.ref.commit();
    this.txDone = i + 1;
    const d = diff(this.world.durable, this.ref.durable, 'chain', 'model');
    this.note(`tx${i} ${res.status} ${res.crash ? 'crash' : hex(res.data).slice(0, 128)}`);
    if (d) throw new Violation('committed state differs from the model: ' + d);
    if (res.status !== 0 || res.crash) { const e = diff(this.world.durable, before, 'after', 'before'); if (e) throw new Violation('a failed transaction left a trace: ' + e); }
    if (this.trace.tokens) this.conserve();
  }
  // "@i" names the i-th contract created so far in this run
  resolve(a) { if (a[0] !== '@') return a; return this.created.length ? this.created[Number(a.slice(1)) % this.created.length] : 'cc'.repeat(20); }
  supply(a) { let s = 0n; for (const h of this.trace.tokens.holders) s += w2n(this.world.sload(a, balanceSlot(h))); return s & MASK256; }
  conserve() { // the sum of the token balances never changes
    for (const a of this.trace.tokens.contracts) { const s = this.supply(a); if (s !== this.total[a]) throw new Violation(`token supply of ${a} is ${s}, expected ${this.total[a]}`); }
  }
  // Runs one frame: real instance and model frame in lock-step. spec.{self,caller,...} come from the host
  // side; they were compared with the model's before. Returns the outcome both sides agree on.
  frame(spec, child, path) {
    if (spec.depth > 12) return { status: 2, data: Buffer.alloc(0) };
    this.frames++;
    const rf = new RefFrame({ ...spec }), fr = new RealFrame(this, spec);
    fr.code = rf.code = spec.code || this.world.getCode(spec.self);
    rf.world = this.ref; rf.run = this; fr.rf = rf;
    const s1 = this.world.snapshot(), s2 = this.ref.snapshot();
    let real = null, exp = null;
    fr.opHost = 0;
    const depthNote = '>'.repeat(spec.depth + 1);
    try {
      fr.start(child);
    } catch (e) {
      if (e instanceof WebAssembly.RuntimeError && fr.limited) { this.fault('grow-refused'); this.note(depthNote + 'start refused'); return { status: 2, data: Buffer.alloc(0) }; }
      if (e instanceof WebAssembly.RuntimeError) throw new Violation('start-up traps: ' + e.message, { path });
      throw e;
    }
    let crash = false;
    const ops = child.ops || [];
    for (let i = 0; i < ops.length && !real; i++) {
      const op = ops[i], def = OPS[op.o];
      if (!def) throw new Error('unknown op ' + op.o);
      this.where = { tx: this.txIndex, path: [...path, i], op: op.o === 'math' ? 'math:' + op.q : op.o };
      const where = this.where;
      fr.op = op; fr.opHost = 0; fr.faulted = false; fr.path = [...path, i]; fr.sub = null; fr.n++; rf.n = fr.n; rf.sub = null;
      const evm0 = fr.memory.buffer.byteLength;
      let obs, err = null;
      try { obs = def.real(fr, op); } catch (e) { err = e; }
      this.where = where;
      if (err instanceof Violation) { err.where = err.where || where; throw err; }
      if (err instanceof Injected && err.kind === 'crash') { crash = true; this.note(depthNote + op.o + ' crash'); break; }
      if (err instanceof RangeError && /call stack/i.test(err.message)) throw new Violation('runtime recursion without bound', where);
      if (err && !(err instanceof FrameEnd || err instanceof Injected || err instanceof HostTrap || err instanceof WebAssembly.RuntimeError || (err instanceof RangeError))) throw err;
      if (err instanceof Injected) { // host aborted the frame inside the operation
        real = { status: 2, data: Buffer.alloc(0) }; exp = real; this.note(depthNote + op.o + ' abort'); fr.aborted = true; break;
      }
      // the model's expectation for this operation
      let want;
      const trapped = err && !(err instanceof FrameEnd);
      try { want = def.ref(rf, op, fr) || {}; } catch (e) { if (!(e instanceof Violation)) throw e; if (trapped) want = {}; else { e.where = where; throw e; } }
      if (trapped && fr.limited && (fr.atLimit() || fr.tooBig(Math.max(rf.mem.size, want.need || 0, OPLIB.reach(rf, op)) + 64))) { // memory cannot grow any further: giving up is allowed
        this.fault('grow-refused'); real = exp = { status: 2, data: Buffer.alloc(0) }; this.note(depthNote + op.o + ' grow-refused'); fr.aborted = true; break;
      }
      if (err && !(err instanceof FrameEnd)) { // trap
        if (want.end && want.end.trapOk) { real = exp = { status: 2, data: Buffer.alloc(0) }; this.note(depthNote + op.o + ' refused'); fr.aborted = true; break; }
        throw new Violation(`unexpected trap in ${op.o}: ${err.message}`, where);
      }
      if (err) { // frame ended through the host
        real = { status: err.status, data: err.data, how: err.how };
        if (!want.end) { throw new Violation(`${op.o} ended the frame (${err.how} ${cut(hex(err.data))}), expected ${cut(JSON.stringify(want.val))}`, where); }
        const alts = want.end.alts || [want.end];
        if (want.end.how && want.end.how !== err.how) throw new Violation(`${op.o} ended the frame by ${err.how}`, where);
        const ok = alts.find(a => a.status === real.status && (a.data === undefined || a.data.equals(real.data)));
        if (!ok) throw new Violation(`${op.o} ended the frame with status ${real.status} data ${cut(hex(real.data))}; expected status ${alts.length ? alts[0].status : 'none'} data ${alts.length ? cut(hex(alts[0].data || '')) : ''}`, where);
        exp = ok; this.note(depthNote + op.o + ' end ' + real.status + ' ' + hex(real.data).slice(0, 64));
        break;
      }
      if (want.end && !(want.end.alts && want.val !== undefined)) throw new Violation(`${op.o} did not end the frame, expected status ${want.end.status !== undefined ? want.end.status : want.end.alts[0].status}`, where);
      if (want.val !== undefined && obs !== want.val) throw new Violation(`${op.o} returned ${cut(obs)}, expected ${cut(want.val)}`, where);
      if (want.apply) want.apply();
      this.note(depthNote + op.o + ' ' + (obs === undefined ? '' : String(obs).slice(0, 80)));
      this.checkMem(fr, rf, op, where);
      try { fr.checkGuards(false); } catch (e) { if (e instanceof Violation) e.where = where; throw e; }
      if (fr.memory.buffer.byteLength !== evm0) this.probe('memory-grew-in-' + op.o);
    }
    this.where = { tx: this.txIndex, path };
    if (crash) { if (spec.depth) throw new Injected('crash'); return { crash: true, status: 2, data: Buffer.alloc(0) }; }
    if (!fr.aborted) try { fr.checkGuards(true); } catch (e) { if (e instanceof Violation) e.where = this.where; throw e; }
    if (!real) { real = { status: 0, data: Buffer.alloc(0) }; exp = real; }
    if (real.status !== 0) { this.world.rollback(s1); this.ref.rollback(s2); this.probe('frame-failed'); }
    fr.memory = null;
    return { status: real.status, data: real.data };
  }
  // whole contract memory against the model, byte by byte
  checkMem(fr, rf, op, where) {
    const n = rf.mem.size; if (!n) return;
    if (n > 32768 && !BULK.has(op.o) && fr.n % 8) return;
    let base; try { base = fr.ex.evm_get_memory_addr(0) >>> 0; } catch (e) { throw new Violation('memory base query traps', where); }
    const u = fr.u8();
    if (base + n > u.length) { // expansion not materialised: the missing tail must be unwritten in the model
      const have = Math.max(0, u.length - base);
      for (let i = have; i < n; i++) if (rf.mem.b[i]) throw new Violation(`contract memory byte ${i} is missing, expected ${rf.mem.b[i]}`, where);
      return this.cmpMem(u, base, have, rf, where);
    }
    this.cmpMem(u, base, n, rf, where);
  }
  cmpMem(u, base, n, rf, where) {
    if (u.compare(rf.mem.b, 0, n, base, base + n) === 0) return;
    let i = 0; while (u[base + i] === rf.mem.b[i]) i++;
    throw new Violation(`contract memory byte ${i} is ${u[base + i]}, expected ${rf.mem.b[i]}`, where);
  }
  // ---- calls made by the runtime ----
  hostCall(fr, kind, gas, to, value, data) {
    const op = fr.op;
    if (op.o !== 'call' || fr.sub) throw new Violation(`unexpected ${kind} made by ${op.o}`);
    const bad = (n, g, w) => { if (g !== w) throw new Violation(`${kind} passed ${n} ${cut(g)}, expected ${cut(w)}`); };
    bad('kind', kind, op.kind); bad('target', to, this.resolve(op.to));
    bad('gas', BigInt.asUintN(64, gas).toString(16), BigInt.asUintN(64, BigInt('0x' + op.gas)).toString(16));
    if (kind === 'call') bad('value', n2w(value), word(op.value));
    bad('input', hex(data), hex(fr.rf.mem.peek(OPLIB.O(fr.rf, op.in), op.n)));
    const v = kind === 'call' ? value : 0n;
    let st, ret;
    const sub = op.child || {};
    if (fr.static && v > 0n) throw new HostTrap('value in static call');
    if (sub.script) { st = sub.script.st; ret = st === 2 && sub.script.len === undefined ? Buffer.alloc(0) : OPLIB.bytesOf(sub.script); if (st !== 0) this.fault('callee-' + (st === 2 ? 'fatal' : 'fails')); else this.probe('scripted-ok'); }
    else if (this.world.bal(fr.self) < v) { st = 1; ret = Buffer.alloc(0); }
    else {
      const s1 = this.world.snapshot(), s2 = this.ref.snapshot();
      this.world.transfer(fr.self, to, v); this.ref.transfer(fr.self, to, v);
      const spec = kind === 'delegate'
        ? { self: fr.self, caller: fr.caller, value: fr.value, calldata: data, static: fr.static, depth: fr.depth + 1, code: this.world.getCode(to) }
        : { self: to, caller: fr.self, value: v, calldata: data, static: fr.static || kind === 'static', depth: fr.depth + 1 };
      const save = [fr.op, fr.opHost, fr.n];
      const r = this.frame(spec, sub, fr.path);
      fr.op = save[0];
      st = r.status; ret = st === 2 ? Buffer.alloc(0) : r.data;
      if (st !== 0) { this.world.rollback(s1); this.ref.rollback(s2); if (sub.st) st = sub.st; if (st === 2) this.fault('callee-fatal'); else this.fault('callee-reverts'); }
    }
    fr.ret = ret; fr.sub = { st, ret };
    return st;
  }
  hostCreate(fr, value, code, args, salt, p) {
    const op = fr.op;
    if (op.o !== 'create' || fr.sub) throw new Violation(`unexpected creation by ${op.o}`);
    const bad = (n, g, w) => { if (g !== w) throw new Violation(`creation passed ${n} ${cut(g)}, expected ${cut(w)}`); };
    fr.rw();
    const parts = OPLIB.createParts(fr.rf, op);
    bad('value', n2w(value), word(op.value)); bad('code', hex(code), hex(parts.code)); bad('arguments', hex(args), hex(parts.args));
    bad('salt', String(salt), String(op.salt === undefined ? null : word(op.salt)));
    const fail = why => { this.fault(why); fr.sub = { st: 1 }; fr.ret = Buffer.alloc(0); return op.refuse ? op.refuse.st : 1; };
    if (op.refuse) return fail('create-refused');
    if (this.world.bal(fr.self) < value) return fail('create-no-balance');
    const nonce = this.world.getNonce(fr.self), addr = addrOf(fr.self, nonce, salt, code);
    if (this.world.getNonce(addr) || this.world.code.has(addr)) return fail('create-collision');
    const s1 = this.world.snapshot(), s2 = this.ref.snapshot();
    for (const w of [this.world, this.ref]) { w.setNonce(fr.self, nonce + 1); w.setNonce(addr, 1); w.transfer(fr.self, addr, value); }
    const r = this.frame({ self: addr, caller: fr.self, value, calldata: args, static: false, depth: fr.depth + 1, code, deploying: true }, { ...(op.child || {}), deploy: true }, fr.path);
    fr.op = op;
    if (r.status !== 0) { this.world.rollback(s1); this.ref.rollback(s2); return fail('constructor-fails'); }
    for (const w of [this.world, this.ref]) w.setCode(addr, code);
    this.created.push(addr); fr.wr(p, Buffer.from(addr, 'hex')); fr.ret = Buffer.alloc(0); fr.sub = { st: 0, addr };
    return 0;
  }
}
function cls(m) { return m.replace(/[0-9a-f]{6,}/g, '#').replace(/\d+/g, 'N').slice(0, 60); }
module.exports = { Engine, HOST, Violation, FrameEnd, HostTrap, RefMem, hex, word, w2n, n2w, rev, keccak256, addrOf, SECTION, cls };
const OPLIB = require('./ops'), { OPS, BULK } = OPLIB;
