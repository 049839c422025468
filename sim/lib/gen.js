'use strict';
// Trace generator: one seed gives one complete scenario (chain, transactions, call trees, operations, faults).
const { Rng } = require('./prng');
const { ENV, MATH } = require('./ops');
const hex = b => Buffer.from(b).toString('hex');
const word = h => h.padStart(64, '0');
const rev = h => hex(Buffer.from(h, 'hex').reverse());

// operation weights per property; everything not listed gets the background weight
const BACK = { sstore: 0.5, sload: 0.5, tstore: 0.3, tload: 0.3, mstore: 1, mload: 1, fill: 0.6, mcopy: 0.4, keccak: 0.3, env: 0.5, cdload: 0.3, cdcopy: 0.2, call: 0.6, log: 0.3, alloca: 0.4, rdcopy: 0.2, loadimm: 0.1, slotset: 0.1, zero: 0.1, getptr: 0.1, alloc: 0.1, extsize: 0.1 };
const PROFILES = {
  P01: { w: { sstore: 8, sload: 8, tstore: 1, tload: 0.5, call: 2.5, create: 0.3, setimm: 0.2, erc20: 0.3 }, call: 'world', txs: [2, 6] },
  P02: { w: { tstore: 8, tload: 8, sstore: 1.5, sload: 1.5, call: 3, create: 0.2 }, call: 'world', txs: [2, 6] },
  P03: { w: { mstore: 6, mload: 6, fill: 3, mcopy: 5, keccak: 2, cdcopy: 2, rdcopy: 1, codecopy: 1, extcopy: 1, section: 1.5, guard: 0.5, call: 0.7, log: 0.7, alloca: 0.5, create: 0.1 }, mem: 1, txs: [1, 3], ops: [8, 40] },
  P04: { w: { mstore: 3, mload: 2, fill: 2, mcopy: 2, cdcopy: 1, sstore: 3, sload: 2, tstore: 1, tload: 1, log: 1, call: 2, create: 0.5, erc20: 0.7, setimm: 0.4, alloca: 1.5, alloc: 1.5, keccak: 0.5, guard: 0.5 }, fault: 0.85, mem: 1, pool: 0.3, txs: [2, 5], tokens: 0.3, grow: 3 },
  P05: { w: { alloca: 5, slotset: 2, mstore: 3, fill: 1.5, mcopy: 1.5, mload: 3, env: 2, sload: 1.5, keccak: 1, cdload: 1.5, cdcopy: 1, call: 1.5, rdcopy: 1, zero: 1, section: 0.5, tload: 1, erc20: 0.3, guard: 0.4, init: 0.2 }, pool: 0.5, mem: 1, slots: 0.7, txs: [1, 3], ops: [8, 40] },
  P06: { w: { call: 9, fill: 3, mload: 2, rdsize: 1.5, rdcopy: 1, sstore: 1, sload: 1, ret: 0, env: 1, mstore: 2 }, call: 'edge', txs: [1, 4], ends: 0.8, script: 0.45 },
  P07: { w: { create: 7, fill: 1, sstore: 1, sload: 1, call: 2, extsize: 1.5, exthash: 1, extcopy: 0.7, env: 1, codesize: 0.7, codecopy: 0.7, setimm: 0.4, loadimm: 0.4 }, txs: [1, 4], ends: 0.6 },
  P08: { w: { setimm: 6, loadimm: 6, create: 1.5, call: 2, sload: 0.5, sstore: 0.2, mstore: 0.5 }, imm: 1, txs: [2, 6], call: 'world', ops: [3, 14] },
  P09: { w: { cdload: 7, cdcopy: 5, cdsize: 2, cdsize4: 1, cdsel: 2, call: 3, create: 0.4, mload: 1.5, keccak: 0.5, codecopy: 0.4, codesize: 0.2 }, txs: [1, 5] },
  P10: { w: { env: 14, call: 3, create: 0.5, exthash: 1, extsize: 0.7, slotset: 0.4, alloca: 1 }, txs: [2, 6], slots: 0.5 },
  P11: { w: { log: 8, fill: 2, mstore: 1.5, call: 2.5, create: 0.4, erc20: 0.3 }, call: 'world', txs: [1, 5], ends: 0.7 },
  P12: { w: { fill: 2, mstore: 2, call: 4, sstore: 2, tstore: 0.5, log: 1.5, env: 1, mload: 1, mcopy: 0.7 }, call: 'world', ends: 1, txs: [1, 4], ops: [1, 10] },
  P13: { w: { erc20: 9, call: 2.5, sload: 0.7, env: 0.5, mstore: 0.5 }, tokens: 1, noSstore: true, call: 'world', txs: [2, 7] },
  P14: { w: { rdcopy: 5, rdsize: 3, codecopy: 3, codesize: 2, puresize: 1, extcopy: 3, extsize: 2, exthash: 1.5, section: 2, call: 5, create: 0.8, mload: 1, fill: 1 }, txs: [1, 4], ends: 0.8, script: 0.3, call: 'edge' },
  P15: { w: { call: 6, init: 2, section: 0.7, setimm: 0.2, alloca: 2, alloc: 1.5, setptr: 1, getptr: 2, cdload: 2, cdsize: 1, mstore: 2, mload: 3, isdep: 1.5, zero: 0.5, create: 1, sload: 0.5, tload: 0.5, slotset: 0.7, cdsel: 0.7, codesize: 0.7, cdcopy: 0.7 }, reenter: 0.6, call: 'world', txs: [1, 4], slots: 0.4 },
  P16: { w: { alloc: 9, setptr: 1.2, getptr: 3, mstore: 2, fill: 2, mload: 2, mcopy: 0.7, call: 1 }, regions: 0.7, txs: [1, 3], mem: 1, ops: [6, 30] },
  P32: { w: { math: 14, env: 0.4, mload: 1, mstore: 1, sload: 1, sstore: 1, keccak: 0.5, slotset: 0.7, alloca: 1, call: 0.8 }, txs: [1, 3], ops: [10, 40], slots: 0.5, call: 'world' },
};
const STATIC_VARIANTS = ['debug', 'release', 'lto', 'big', 'small', 'smalldebug'];

class G {
  constructor(prop, seed, idx, dict) {
    this.r = new Rng('trace', seed, prop, idx); this.prop = prop; this.P = PROFILES[prop]; this.dict = dict;
    this.budget = 90;
  }
  trace() {
    const r = this.r, P = this.P;
    const variant = r.weighted([[3, 'debug'], [3, 'release'], [4, 'lto'], [1, 'big'], [1.5, 'small'], [0.7, 'smalldebug']]);
    const small = variant.startsWith('small');
    this.big = !small && P.pool && r.chance(P.pool); // many working values: memory stays inside its first page
    this.lim = small ? 16384 : this.big ? 65536 : r.weighted(P.mem ? [[2, 2048], [3, 65536], [3, 70000], [2, 140000], [1, 400000]] : [[5, 2048], [2, 65536], [1, 70000]]);
    if (small && r.chance(0.4)) this.lim = 2048;
    // fault model of this run
    const fm = r.chance(P.fault === undefined ? 0.55 : P.fault) ? r.weighted([[3, 'abort'], [2, 'crash'], [2, 'mixed'], [P.grow || 0.5, 'grow']]) : 'none';
    this.fm = fm; this.fp = r.pick([0.02, 0.05, 0.12]);
    // swarm: each run uses its own mix of operations
    this.w = [];
    const mix = { ...BACK, ...P.w };
    for (const k in mix) { let v = mix[k]; const core = P.w[k] >= 3; v *= core ? r.pick([0.5, 1, 1, 2]) : r.pick([0, 0.3, 1, 1, 2]); if (v > 0 && !(P.noSstore && (k === 'sstore' || k === 'setimm'))) this.w.push([v, k]); }
    this.pools();
    const txs = [], n = r.range(...P.txs);
    this.blk = { number: r.weighted([[3, 300n + BigInt(r.int(100000))], [1, BigInt(r.int(260))], [1, (1n << 63n) - 3n + BigInt(r.int(1000))], [1, (1n << 64n) - 10000n], [1, this.u64()]]), time: r.weighted([[3, 1700000000n], [1, 5n], [1, (1n << 63n) - 100n], [1, (1n << 32n) - 50n]]) };
    const trace = { prop: this.prop, variant, lim: this.lim, chainid: this.val(), balances: this.balances, codes: this.codes };
    if (this.tokens) trace.tokens = this.tokens;
    for (let i = 0; i < n; i++) {
      const to = r.pick(this.contracts);
      const tx = { to, from: r.pick(this.eoas), value: r.chance(0.4) ? this.val() : '0', data: hex(r.bytes(this.cdlen())), gas: '0x' + this.u64().toString(16), gasprice: this.val(), blk: this.block() };
      if (r.chance(P.imm || this.prop === 'P14' || this.prop === 'P15' || this.prop === 'P09' ? 0.35 : 0.1)) tx.deploy = true;
      Object.assign(tx, this.frame(0, tx));
      txs.push(tx);
    }
    if (fm !== 'none') { // after the faults: one undisturbed transaction
      this.fm = 'none'; const tx = { to: r.pick(this.contracts), from: r.pick(this.eoas), value: '0', data: hex(r.bytes(this.cdlen())), gas: '0x1000000', gasprice: this.val(), blk: this.block() };
      this.budget = Math.max(this.budget, 12); Object.assign(tx, this.frame(1, tx)); txs.push(tx);
    }
    trace.txs = txs;
    return trace;
  }
  u64() { const r = this.r; return r.weighted([[2, BigInt(r.u32())], [2, (BigInt(r.u32()) << 32n) | BigInt(r.u32())], [1, (1n << 64n) - 1n - BigInt(r.int(3))], [1, (1n << 63n) - 1n + BigInt(r.int(3))], [1, 0xffffffffn + BigInt(r.int(3))], [1, BigInt(r.int(5))]]); }
  block() {
    const r = this.r;
    this.blk.number = BigInt.asUintN(64, this.blk.number + BigInt(r.weighted([[3, 1], [2, 0], [1, r.int(300)], [1, r.int(100000)]])));
    this.blk.time = BigInt.asUintN(64, this.blk.time + BigInt(r.weighted([[4, 12], [2, 0], [1, r.int(100)], [1, r.u32()]])));
    return { number: '0x' + this.blk.number.toString(16), time: '0x' + this.blk.time.toString(16), gaslimit: '0x' + this.u64().toString(16), coinbase: r.pick(this.addrs), randao: this.val(), basefee: this.val(), blobfee: this.val() };
  }
  addr() { const r = this.r; return r.weighted([[5, () => hex(r.bytes(20))], [1, () => '00'.repeat(r.range(1, 18)).padEnd(40, '5a')], [1, () => hex(r.bytes(3)).padEnd(40, '0')], [1, () => 'ff'.repeat(20)]])(); }
  pools() {
    const r = this.r, P = this.P;
    const nc = r.range(1, 3);
    this.contracts = []; this.eoas = [this.addr(), this.addr()];
    for (let i = 0; i < nc; i++) this.contracts.push(this.addr());
    // near-precompile addresses exist as ordinary contracts
    const low = word(r.range(1, 11).toString(16)).slice(24);
    const near = (() => { const b = Buffer.from(low, 'hex'); b[r.int(19)] = r.range(1, 255); return hex(b); })();
    this.special = [near, '0'.repeat(38) + '0b', '0'.repeat(40), '0'.repeat(39) + '1' , '0'.repeat(38) + '0a', '0'.repeat(36) + '0100', low];
    this.contracts = [...new Set(this.contracts)];
    this.addrs = [...this.contracts, ...this.eoas, near, this.addr()];
    this.codes = {}; for (const c of this.contracts) this.codes[c] = hex(r.bytes(r.weighted([[3, r.range(1, 80)], [1, r.range(80, 300)], [1, 0]])));
    this.balances = {}; for (const a of this.addrs) if (r.chance(0.7)) this.balances[a] = r.weighted([[3, () => hex(r.bytes(r.range(1, 31)))], [1, () => r.range(1, 1000).toString(16).padStart(4, '0')]])();
    // slots: related keys (byte order, single byte differences), few enough to collide often
    const base = this.val();
    this.slots = ['0'.repeat(64), word('1'), '01' + '0'.repeat(62), base, rev(base), (() => { const b = Buffer.from(base, 'hex'); b[r.int(32)] ^= 1 << r.int(8); return hex(b); })(), word(hex(r.bytes(20))), word(r.int(65536).toString(16))];
    while (this.slots.length > 4 && r.chance(0.4)) this.slots.splice(r.int(this.slots.length), 1);
    this.hot = []; const c = this.pos0(); for (let i = 0; i < 3; i++) this.hot.push(Math.max(0, Math.min(this.lim - 600, c + r.range(-80, 200)))); this.hot.push(r.int(Math.min(300, this.lim - 600)));
    if (P.tokens && r.chance(P.tokens)) {
      const holders = [this.addr(), this.addr(), this.addr()].filter(h => BigInt('0x' + h) !== 0n), mint = [];
      if (r.chance(0.3)) holders.push(this.contracts[0]);
      const hs = [...new Set(holders)];
      for (const ct of this.contracts) for (const h of hs) if (r.chance(0.7)) mint.push([ct, h, word(r.weighted([[3, () => hex(r.bytes(r.range(1, 30)))], [1, () => r.int(100).toString(16)], [1, () => hex(r.bytes(31))]])())]);
      this.tokens = { contracts: this.contracts, holders: hs, mint };
    }
  }
  pos0() { const r = this.r; return r.weighted([[4, r.int(512)], [2, r.int(this.lim)], [1, 16384], [2, 65536], [1, 1024], [1, 131072]]) % this.lim; }
  // memory offset for a range of n bytes
  at(n) {
    const r = this.r, top = this.lim - 32 - n;
    if (this.P.regions && r.chance(this.P.regions)) return { r: r.int(4), d: r.int(64) };
    let a = r.weighted([[6, () => r.pick(this.hot) + r.weighted([[3, 0], [2, r.int(40)], [1, 32 * r.int(4)], [1, -r.int(40)]])], [2, () => r.int(256)], [1, () => 32 * r.int(8)], [1, () => this.pos0() + r.range(-40, 40)], [0.7, () => top - r.int(40)]])();
    return Math.max(0, Math.min(a, top));
  }
  val() {
    const r = this.r;
    return r.weighted([
      [4, () => hex(r.bytes(32))], [1.5, () => word(r.int(256).toString(16))], [1, () => '0'.repeat(64)], [1, () => 'f'.repeat(64)], [0.7, () => '00'.repeat(31) + '01'], [0.7, () => '01' + '00'.repeat(31)],
      [1, () => word(hex(r.bytes(r.range(1, 31))))], [1, () => hex(r.bytes(r.range(1, 31))).padEnd(64, '0')], [0.7, () => { const b = Buffer.alloc(32); b[r.int(32)] = r.range(1, 255); return hex(b); }],
      [0.7, () => { const b = (1n << BigInt(r.range(1, 255))) + BigInt(r.range(-1, 1)); return word(b.toString(16)); }], [0.7, () => word(hex(r.bytes(20)))],
      [0.5, () => (this.dict.big.length ? word(r.pick(this.dict.big).toString(16)) : '0'.repeat(64))],
    ])();
  }
  // lengths: small ones, word multiples, and constants of the code under test with their neighbours
  len(max) {
    const r = this.r;
    const v = r.weighted([[2, r.int(8)], [3, 32 * r.int(5)], [2, r.int(100)], [1, r.int(300)], [2.5, r.pick(this.dict.small) + r.range(-2, 2)], [0.5, r.int(2100)]]);
    return Math.max(0, v > max ? v % (max + 1) : v);
  }
  cdlen() { const r = this.r; return r.weighted([[1, 0], [1.5, r.int(5)], [2, 4 + 32 * r.int(4)], [2, r.range(97, 104)], [1, r.int(100)], [2, r.range(100, 300)], [1, this.len(1500)]]); }
  hi() { return this.r.chance(0.25) ? hex(this.r.bytes(12)) : undefined; }
  target() { const r = this.r; return r.weighted([[5, () => r.pick(this.addrs)], [1, () => '@' + r.int(3)], [0.6, () => r.pick(this.special)], [0.5, () => this.addr()]])(); }
  clean(o) { for (const k in o) if (o[k] === undefined) delete o[k]; return o; }

  frame(depth, ctx) { // {ops, pages?, variant?}
    const r = this.r, P = this.P, out = { ops: [] };
    const n = depth === 0 ? r.range(...(P.ops || [4, 22])) : r.range(1, depth === 1 ? 10 : 5);
    if (this.fm === 'grow' && r.chance(0.5)) out.pages = r.weighted([[2, 1], [2, 2], [1, 3], [0.4, 0]]);
    if (this.big && depth < 2 && r.chance(0.7)) out.ops.push({ o: 'alloca', n: r.weighted([[3, r.range(296, 305)], [1, 600], [1, r.range(2344, 2352)], [0.5, r.range(4390, 4400)]]) });
    if (P.slots && r.chance(P.slots)) out.ops.push({ o: 'alloca', n: r.range(1, 6) });
    for (let i = 0; i < n && this.budget > 0; i++) { const ops = this.op(depth); for (const op of ops) { this.budget--; this.inject(op); out.ops.push(op); } }
    if (r.chance((P.ends || 0.5))) {
      const e = r.weighted([[4, 'ret'], [2.5, 'rev'], [1, 'stop'], [0.6, 'invalid'], [this.prop === 'P13' || depth === 0 && r.chance(0.5) ? 0 : 0.5, 'selfdestruct']]);
      const op = { o: e };
      if (e === 'ret' || e === 'rev') { op.n = this.len(Math.min(2000, this.lim - 100)); op.at = this.at(op.n); if (r.chance(0.6) && op.n > 4 && typeof op.at === 'number') out.ops.push({ o: 'fill', at: op.at, seed: r.u32(), len: Math.min(op.n, r.range(1, 200)) }); }
      if (e === 'selfdestruct') { op.a = this.target(); op.hi = this.hi(); this.clean(op); }
      this.inject(op); out.ops.push(op);
    }
    return out;
  }
  inject(op) {
    const r = this.r;
    if (this.fm === 'none' || this.fm === 'grow' && r.chance(0.7)) return;
    if (!r.chance(this.fp)) return;
    const k = this.fm === 'mixed' ? r.pick(['abort', 'crash']) : this.fm === 'grow' ? 'abort' : this.fm;
    op.f = { k, n: r.weighted([[3, 0], [2, 1], [2, 2], [1, 3], [1, 5]]) };
  }
  rs() { const r = this.r; return r.chance(this.P.slots ? 0.5 : 0.15) ? r.int(8) : undefined; }
  op(depth) {
    const r = this.r, o = r.weighted(this.w);
    const c = x => [this.clean(x)];
    const lenM = () => this.len(Math.min(this.lim - 100, 3000));
    switch (o) {
      case 'sstore': return c({ o, r: r.pick(['u', 'b', 'l']), k: r.pick(this.slots), v: this.val() });
      case 'sload': return c({ o, r: r.pick(['u', 'b', 'l']), k: r.pick(this.slots), rs: this.rs() });
      case 'tstore': return c({ o, r: r.pick(['u', 'b']), k: r.pick(this.slots), v: this.val() });
      case 'tload': return c({ o, r: r.pick(['u', 'b']), k: r.pick(this.slots), rs: this.rs() });
      case 'mstore': return c({ o, r: r.pick(['u', 'b', 4, 8, 1]), at: this.at(32), v: this.val() });
      case 'mload': return c({ o, r: r.pick(['u', 'b', 4, 8]), at: this.at(32), rs: this.rs() });
      case 'fill': { const len = r.weighted([[3, r.range(1, 100)], [1, r.range(100, 300)]]); return c({ o, at: this.at(len), len, seed: r.u32() }); }
      case 'mcopy': { const n = lenM(), at = this.at(n); let src = this.at(n); if (r.chance(0.5) && typeof at === 'number') src = Math.max(0, Math.min(at + r.range(-40, 40), this.lim - 32 - n)); return c({ o, at, src, n }); }
      case 'keccak': { const n = lenM(); return c({ o, at: this.at(n), n, rs: this.rs() }); }
      case 'guard': return c({ o, n: r.pick([0, 64, 96, 128, 256, r.int(this.lim - 32)]) });
      case 'env': { const q = r.pick(ENV); return c({ o: q, a: q === 'balance' ? this.target() : undefined, hi: q === 'balance' ? this.hi() : undefined, num: q === 'blockhash' ? this.bh() : undefined, rs: this.rs() }); }
      case 'isdep': case 'cdsize': case 'cdsize4': case 'cdsel': case 'rdsize': case 'codesize': case 'puresize': case 'zero': case 'getptr': return c({ o });
      case 'cdload': return c({ o, r: r.pick(['u', 'b']), off: this.cdoff(), rs: this.rs() });
      case 'cdcopy': { const n = lenM(); return c({ o, at: this.at(n), off: this.cdoff(), n }); }
      case 'log': { const n = this.len(Math.min(400, this.lim - 100)), t = []; for (let i = r.int(5); i > 0; i--) t.push(this.val()); return c({ o, at: this.at(n), n, t }); }
      case 'call': return this.call(depth);
      case 'create': return this.create(depth);
      case 'setimm': return c({ o, k: r.pick(this.slots), v: this.val(), x: r.int(1000) });
      case 'loadimm': return c({ o, k: r.pick(this.slots), rs: this.rs() });
      case 'erc20': {
        const hs = this.tokens ? this.tokens.holders : this.eoas, h = () => (r.chance(0.06) ? '0'.repeat(40) : r.pick(hs)), d = () => (r.chance(0.25) ? hex(r.bytes(12)) : '0'.repeat(24));
        const from = h(); const to = r.chance(0.2) ? from : h();
        let v = r.weighted([[3, () => word(hex(r.bytes(r.range(1, 6))))], [1, () => word(hex(r.bytes(28)))], [1, () => '0'.repeat(64)], [1, () => word(r.int(50).toString(16))], [0.5, () => this.val()]])();
        if (this.tokens && r.chance(0.35)) { const m = r.pick(this.tokens.mint.length ? this.tokens.mint : [[0, 0, v]]); v = word(((BigInt('0x' + m[2]) + BigInt(r.range(-1, 1)) + (1n << 256n)) & ((1n << 256n) - 1n)).toString(16)); }
        return c({ o, from: d() + from, to: d() + to, value: v });
      }
      case 'rdcopy': { return c({ o, at: this.at(3000), off: r.weighted([[3, 0], [2, r.int(40)], [1, r.u32() % 5000]]), n: r.weighted([[1, 1e6], [2, this.len(1500)], [1, 32]]) }); }
      case 'codecopy': return c({ o, at: this.at(1800), off: r.weighted([[2, 0], [2, r.int(100)], [3, r.u32() % 4000]]), n: r.weighted([[3, 1e6], [3, this.len(500)], [1, 4]]) });
      case 'extsize': case 'exthash': return c({ o, a: this.target(), hi: this.hi(), rs: o === 'exthash' ? this.rs() : undefined });
      case 'extcopy': { const n = this.len(400); return c({ o, a: this.target(), hi: this.hi(), at: this.at(n), off: r.weighted([[3, 0], [3, r.int(120)], [1, 0x7fffffff - r.int(3)]]), n }); }
      case 'section': return c({ o, at: this.at(620), off: r.weighted([[2, 0], [3, r.int(600)]]), n: r.weighted([[1, 1e6], [3, this.len(300)]]), how: r.pick(['c', 'd']) });
      case 'alloca': return c({ o, n: r.range(1, 8) });
      case 'slotset': return c({ o, i: r.int(100), v: this.val() });
      case 'setptr': return c({ o, v: r.weighted([[4, 128 + 32 * r.int(20)], [2, r.int(this.lim - 64)], [1, 0], [1, 0x7fffffff - r.int(200)], [0.5, r.u32() & 0x7fffffff]]) });
      case 'alloc': return c({ o, n: r.weighted([[2, 0], [5, r.int(200)], [2, 32 * r.int(10)], [1, 32 * r.int(10) + 1], [1, this.len(4000)], [0.5, 0x7fffffff - r.int(300)], [0.5, 0xffffffff - r.int(70)], [0.5, 0x80000000 + r.int(64)], [0.5, r.u32()]]) });
      case 'math': return this.math();
      case 'init': return c({ o, v: r.int(2) });
      default: throw new Error('no generator for ' + o);
    }
  }
  math() { // operands: related pairs (equal, one bit or one byte apart, in either half), small ones, powers of two, previous results
    const r = this.r, q = r.pick(Object.keys(MATH)), op = { o: 'math', q, a: this.word2(), rs: this.rs() };
    const near = w => { const b = Buffer.from(w, 'hex'); for (let k = r.range(1, 2); k; k--) { const i = r.int(32); if (r.chance(0.5)) b[i] ^= 1 << r.int(8); else b[i] += r.pick([1, 255]); } return hex(b); };
    if (/^(lt|gt|eq|slt|sgt|and|or|xor|add|addmod|mulmod|exp)$/.test(q)) op.b = r.weighted([[2, () => op.a], [4, () => near(op.a === '@' ? this.val() : op.a)], [4, () => this.word2()]])();
    if (q === 'exp' && r.chance(0.6)) op.b = word(r.weighted([[3, r.int(20)], [1, r.int(300)], [1, r.u32()]]).toString(16));
    if (/mod$/.test(q)) op.m = r.weighted([[3, () => this.word2()], [1, () => '0'.repeat(64)], [1, () => word('1')], [2, () => word(r.u32().toString(16))]])();
    if (/^sh/.test(q)) op.n = r.weighted([[4, r.int(256)], [2, 8 * r.int(33)], [2, 64 * r.int(5)], [1, r.int(34)], [1, 256 + r.int(3)], [1, r.u32() & 0x7fffffff], [0.5, 0x7fffffff], [1, r.range(62, 66)]]);
    if (q === 'signext') op.n = r.weighted([[5, r.int(33)], [1, r.int(300)], [1, r.u32()], [0.5, 0xffffffff]]);
    if (q === 'i32tobe') op.n = r.weighted([[2, r.u32() & 0x7fffffff], [2, r.int(300)], [1, 1 << r.int(31)]]) & 0x7fffffff;
    if (op.b !== undefined && r.chance(0.05)) { op.same = 1; op.b = op.a; if (op.m !== undefined) op.m = op.a; }
    return [this.clean(op)];
  }
  word2() {
    const r = this.r;
    return r.weighted([[3, () => this.val()], [1.5, '@'], [1, () => word(hex(r.bytes(r.pick([1, 2, 4, 8, 16]))))], [1, () => word(hex(r.bytes(r.pick([1, 2, 4, 8]))) + '0'.repeat(2 * r.int(24)))],
      [1, () => { const b = Buffer.alloc(32, r.pick([0, 255])), k = r.int(4); r.bytes(8).copy(b, 8 * k); return hex(b); }], [0.7, () => r.pick(['7f', '80', 'ff', '00']) + r.pick(['ff', '00']).repeat(30) + r.pick(['00', '01', 'ff', 'fe'])]].map(([w, f]) => [w, typeof f === 'string' ? () => f : f]))();
  }
  bh() { const r = this.r, n = this.blk.number; return '0x' + BigInt.asUintN(64, r.weighted([[4, n - BigInt(r.range(1, 256))], [1, n - 256n], [1, n - 257n], [1, n], [1, n + 1n], [1, n - 1n], [1, 0n], [1, this.u64()]])).toString(16); }
  cdoff() { const r = this.r; return r.weighted([[4, 4 + 32 * r.int(5)], [2, 32 * r.int(8)], [3, r.int(140)], [1, r.int(400)], [1, this.len(2000)], [1, 0xffffffff - r.int(70)], [0.7, 0x7fffffff - r.int(70)], [0.7, 0x80000000 + r.int(70)], [0.5, r.u32()]]); }
  call(depth) {
    const r = this.r, P = this.P, ops = [];
    const edge = P.call === 'edge';
    const n = r.weighted([[2, 0], [2, 4 + 32 * r.int(4)], [1, this.cdlen() % Math.max(1, this.lim - 800)], [1, this.len(600)]]), at = this.at(n);
    let outLen = r.weighted([[2, 0], [2, 32], [1, 64], [1, r.int(100)], [1, this.len(1600)]]);
    outLen = Math.min(outLen, this.lim - 100);
    if (n > 0 && r.chance(0.5) && typeof at === 'number') ops.push({ o: 'fill', at, len: Math.min(n, 200), seed: r.u32() });
    const kind = r.weighted([[4, 'call'], [2, 'static'], [2, 'delegate']]);
    const op = { o: 'call', kind, gas: this.u64().toString(16), hi: r.chance(0.15) ? hex(r.bytes(12)) : undefined, value: r.chance(0.25) ? r.weighted([[3, r.int(200).toString(16)], [1, this.val()]]) : '0', in: at, n, out: r.chance(0.2) ? at : this.at(outLen), outLen };
    op.to = r.weighted([[5, () => r.pick(this.contracts)], [1.2, () => r.pick(this.special)], [1, () => r.pick(this.addrs)], [0.7, () => '@' + r.int(3)]])();
    if (P.reenter && r.chance(P.reenter)) op.to = this.contracts[0];
    if (/^0{38}(0[1-9]|0a)$/.test(op.to)) { op.hi = undefined; }
    const pre = /^0{38}(0[1-9]|0a)$/.test(op.to);
    if (typeof op.out === 'number' && op.out + outLen > this.lim - 32) op.out = Math.max(0, this.lim - 32 - outLen);
    if (pre || r.chance(P.script || 0.15) || depth >= 3 || this.budget < 4) {
      const st = r.weighted([[4, 0], [3, 1], [1.2, 2], [0.5, 3], [0.4, -1]]);
      const len = edge || r.chance(0.5) ? r.weighted([[1, 0], [2, outLen], [1, outLen + 1], [1, Math.max(0, outLen - 1)], [1, r.int(outLen + 1)], [1, outLen + r.int(100)], [1, this.len(1400)], [0.7, r.range(1022, 1027)]]) : this.len(300);
      op.child = { script: { st, len, seed: r.u32() } };
    } else {
      op.child = this.frame(depth + 1, op);
      if (r.chance(0.15)) op.child.st = r.pick([1, 1, 2, 3, -1]);
    }
    ops.push(this.clean(op));
    return ops;
  }
  create(depth) {
    const r = this.r, n = r.weighted([[1, 0], [3, r.int(60)], [1, r.int(300)], [1, this.len(500)]]), al = r.weighted([[2, 0], [2, 32 * r.int(4)], [2, r.int(130)]]);
    const b = Buffer.alloc(4); b.writeUInt32BE(n);
    const at = (() => { let a; do { a = this.at(n + al + 4); } while (typeof a !== 'number'); return a; })();
    const op = { o: 'create', at, len: 4 + n + al, value: r.chance(0.3) ? r.int(200).toString(16) : '0', rs: this.rs() };
    if (r.chance(0.1)) op.value = this.val();
    if (r.chance(0.5)) op.salt = r.chance(0.5) ? r.pick(this.slots) : this.val();
    const ops = [{ o: 'fill', at, hex: hex(Buffer.concat([b, r.bytes(n + al)])) }];
    if (r.chance(0.12)) op.refuse = { st: r.pick([1, 2, 3, -1]) };
    else op.child = depth < 3 ? this.frame(depth + 1, op) : { ops: [] };
    ops.push(this.clean(op));
    return ops;
  }
}
function generate(prop, seed, idx, dict) { return new G(prop, seed, idx, dict).trace(); }
module.exports = { generate, PROFILES };
