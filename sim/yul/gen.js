'use strict';
// Seeded generator of systems: Yul programs, the chain around them, and a history with faults.
const { Rng } = require('../lib/prng');
const { N, C, V } = require('./lang');
const { keccak256 } = require('../lib/keccak');
const A = i => (0xa0 + i).toString(16).repeat(20);
const EOAS = [A(0), A(1), A(2)], SCRIPTED = ['5c'.repeat(20), '5d'.repeat(19) + '01'], CONTRACTS = ['c0'.repeat(20), 'c1'.repeat(19) + '07'];
const SYMBOLS = { 'contracts/A.sol:Lib': CONTRACTS[1], 'B': SCRIPTED[0], 'lib/x-y_z.sol:C': '00000000000000000000000000000000000000ff' };
const WEIRD = ['0', '1', '2', '3', '7', '8', '1f', '20', '21', '3f', '40', '7f', '80', 'ff', '100', '101', 'ffff', '10000', '7fffffff', '80000000', 'ffffffff', '100000000', '100000001',
  '7fffffffffffffff', '8000000000000000', 'ffffffffffffffff', '10000000000000000', 'f'.repeat(31), '8' + '0'.repeat(31), 'f'.repeat(32), '1' + '0'.repeat(32),
  'f'.repeat(40), '1' + '0'.repeat(40), '7' + 'f'.repeat(63), '8' + '0'.repeat(63), '8' + '0'.repeat(62) + '1', 'f'.repeat(64), 'f'.repeat(63) + 'e', 'f'.repeat(56) + '80000000', 'deadbeef', '4e487b71' + '0'.repeat(56)];
const HUGE = ['7fffffff', '80000000', 'ffffffe0', 'ffffffff', '100000000', '100000080', '1' + '0'.repeat(15), '1' + '0'.repeat(16), '1' + '0'.repeat(62), 'f'.repeat(62) + '80', 'f'.repeat(64)];
const SELS = ['01020304', 'a9059cbb', '70a08231', 'ffffffff', '00000000', '80000001', '12345678'];
const OPS2 = ['add', 'sub', 'mul', 'div', 'sdiv', 'mod', 'smod', 'exp', 'lt', 'gt', 'slt', 'sgt', 'eq', 'and', 'or', 'xor', 'byte', 'shl', 'shr', 'sar', 'signextend'];
const ENV = ['address', 'caller', 'callvalue', 'selfbalance', 'origin', 'gasprice', 'chainid', 'basefee', 'blobbasefee', 'coinbase', 'timestamp', 'number', 'gaslimit', 'calldatasize', 'returndatasize', 'gas'];
// names the runtime, the linker or the code around the contract use themselves
const FNAMES = ['init', 'deploy', 'call_', 'main', '_start', 'memory', 'malloc', 'memcpy', 'memset', 'abort', 'exit', 'entry', 'wrapper_sload', 'wrapper_add', '__heap_base', 'set_is_deploying_tx', 'u256', 'hex', 'data', 'bytes32', 'i'];
const PROFILES = {
  P20: { w: 1, long: 0.05 },
  P21: { w: 1 },
  P30: { layout: 1, lits: 1, names: 1 },
  P32: { arith: 1 },
};
const DEF = { opts: ['def'], maxTx: 18, big: 0.5, fault: 0.25, lits: 0.15, layout: 0.5 };

class Gen {
  constructor(prop, seed, i, cfg) {
    this.r = new Rng('yul', prop, seed, i); this.prop = prop; this.P = { ...DEF, ...(PROFILES[prop] || {}), ...(cfg || {}) }; this.uid = 0;
  }
  id(p) { // identifiers of every shape the grammar knows
    const n = this.uid++;
    if (this.r.chance(this.P.names ? 0.6 : 0.1)) return this.r.pick([`_${n}`, `$${'x'}${n}`.slice(1) + '$', `a.b${n}`, `usr$v${n}`, `zero_value_for_split_t_uint256_${n}`, `expr_${n}_address`, `mload_${n}`, `vloc_to_${n}`, `let${n}`, `if_${n}`, `_${n}_`, `X${n}.y$`, `true${n}`, `hex${n}`, `case${n}_`, `function_${n}`, `object${n}`]);
    return p + n;
  }
  word() {
    const r = this.r;
    return r.weighted([[4, () => String(r.pick(WEIRD))], [2, () => r.int(300).toString(16)], [1, () => r.u32().toString(16)], [1, () => r.bytes(r.range(1, 32)).toString('hex')],
      [1, () => (1n << BigInt(r.int(256))).toString(16)], [1, () => ((1n << BigInt(r.range(1, 256))) - 1n).toString(16)]])();
  }
  chars() { let b = Buffer.alloc(0); for (;;) { const c = Buffer.from(this.r.pick(['a', 'é', 'ÿ', '€', '中', '\u0080', '\u07ff', '\u0800', '\uffff', '😀', '\u{10ffff}', ' ', '/', '"', "'"])); if (b.length + c.length > 32 || this.r.chance(0.15)) return b.toString('hex'); b = Buffer.concat([b, c]); } }
  lit(v) {
    const r = this.r;
    if (v === undefined && r.chance(0.06 * (this.P.lits ? 3 : 1))) return ['s', r.chance(0.25) ? this.chars() : r.bytes(r.int(33)).map((c, i) => (r.chance(0.9) ? 32 + c % 95 : c)).toString('hex')];
    if (v === undefined && r.chance(0.03)) return ['b', r.int(2)];
    const h = v === undefined ? this.word() : v;
    return ['n', h.replace(/^0+(?=.)/, ''), r.weighted([[4, 'd'], [3, 'x'], [1, 'X'], [2, 'p'], [1, 'w']])];
  }
  hide(c, x) { const r = this.r, v = c.vars.length ? V(r.pick(c.vars)) : C('caller'); return r.chance(0.75) ? x : r.pick([() => C('or', x, C('xor', v, v)), () => C('add', C('mul', C('callvalue'), N(0)), x), () => C('sub', C('add', x, v), v), () => C('xor', C('xor', v, x), v)])(); }
  small(n) { return this.lit(this.r.int(n).toString(16)); }
  // ---- expressions ----
  expr(c, d) {
    const r = this.r;
    if (d <= 0 || r.chance(0.15)) return this.leaf(c);
    const w = [[this.P.arith ? 14 : 6, 'op2'], [2, 'op1'], [this.P.arith ? 2 : 0.4, 'op3'], [this.P.arith ? 0.5 : 1.5, 'mload'], [1.2, 'sload'], [0.6, 'tload'], [1.5, 'cd'], [0.7, 'kec'], [1.2, 'env'], [0.3, 'ext'], [c.fns.some(f => f.rets === 1) ? 2.5 : 0, 'fn'], [0.6, 'solc']];
    switch (r.weighted(w)) {
      case 'op2': {
        const op = r.pick(OPS2);
        if (op === 'exp') return C('exp', this.expr(c, d - 1), r.chance(0.7) ? this.small(12) : this.expr(c, d - 2));
        if ((op === 'shl' || op === 'shr' || op === 'sar' || op === 'byte' || op === 'signextend') && r.chance(0.6)) return C(op, this.small(r.pick([34, 257, 260])), this.expr(c, d - 1));
        return C(op, this.expr(c, d - 1), this.expr(c, d - 1));
      }
      case 'op1': return C(r.pick(['not', 'iszero', 'iszero']), this.expr(c, d - 1));
      case 'op3': return C(r.pick(['addmod', 'mulmod']), this.expr(c, d - 1), this.expr(c, d - 1), this.expr(c, d - 1));
      case 'mload': return C('mload', this.moff(c, d));
      case 'sload': return C('sload', this.key(c, d));
      case 'tload': return C('tload', this.key(c, d));
      case 'cd': return C('calldataload', r.chance(0.8) ? this.lit((4 + 32 * r.int(4)).toString(16)) : r.chance(0.5) ? this.small(200) : r.chance(0.5) ? C('and', this.expr(c, d - 1), this.lit('ff')) : this.expr(c, d - 1));
      case 'kec': { const [o, n] = this.range(c, d); return C('keccak256', o, n); }
      case 'env': return C(r.pick(ENV));
      case 'ext': return C(r.pick(['balance', 'balance', 'extcodesize', 'extcodehash', 'blockhash']), null) && this.ext(c, d);
      case 'fn': { const fs = c.fns.filter(f => f.rets === 1), f = r.pick(fs); return this.callFn(c, f, d); }
      case 'solc': return this.idiom(c, d);
    }
  }
  ext(c, d) {
    const r = this.r;
    switch (r.int(4)) {
      case 0: return C('balance', r.chance(0.6) ? this.addr(c) : this.expr(c, d - 1));
      case 1: return C('extcodesize', this.lit(r.pick(SCRIPTED.concat(EOAS))));
      case 2: return C('extcodehash', this.lit(r.pick(SCRIPTED.concat(EOAS))));
      default: return C('blockhash', r.chance(0.7) ? C('sub', C('number'), this.small(260)) : r.chance(0.5) ? this.expr(c, d - 1) : this.lit(r.u32().toString(16)));
    }
  }
  addr(c) { const r = this.r; return r.weighted([[3, () => this.lit(r.pick(CONTRACTS))], [3, () => this.lit(r.pick(SCRIPTED))], [1, () => this.lit(r.pick(EOAS))], [1, () => C('address')], [1, () => C('caller')], [1, () => C('sload', this.lit('c0de'))], [0.5, () => this.linker()]])(); }
  linker() { const n = this.r.pick(Object.keys(SYMBOLS)); this.symbols = SYMBOLS; return C('linkersymbol', ['s', Buffer.from(n).toString('hex')]); }
  idiom(c, d) { // shapes the Solidity compiler emits
    const r = this.r, e = () => this.expr(c, d - 1), M160 = () => (r.chance(0.5) ? C('sub', C('shl', this.lit('a0'), this.lit('1')), this.lit('1')) : this.lit('f'.repeat(40)));
    return r.pick([
      () => C('and', e(), M160()), () => C('shr', this.lit('e0'), C('calldataload', this.lit('0'))), () => C('iszero', C('iszero', e())),
      () => C('slt', C('add', C('calldatasize'), C('not', this.lit('3'))), this.lit((32 * r.int(4)).toString(16))), () => C('iszero', C('eq', e(), C('and', e(), M160()))),
      () => C('gt', e(), this.lit('f'.repeat(16))), () => C('and', C('add', e(), this.lit('1f')), C('not', this.lit('1f'))), () => C('lt', C('calldatasize'), this.lit('4')),
      () => C('shl', this.lit('e0'), this.lit('4e487b71')), () => C('signextend', this.lit('0'), e()), () => C('div', e(), this.lit('1' + '0'.repeat(2 * r.int(8)))), () => C('mload', this.lit('40')),
      () => C('sub', C('returndatasize'), this.lit('20')), () => C('byte', this.lit('1f'), e()), () => C('mul', e(), C('iszero', e())), () => C('callvalue'), () => C('eq', C('shr', this.lit('e0'), C('calldataload', this.lit('0'))), this.lit(r.pick(SELS))),
    ])();
  }
  sizeCheck() { const r = this.r, n = C('add', C('calldatasize'), C('not', N(3))); return r.weighted([[3, () => C('slt', n, N(32 * r.int(4)))], [1, () => C('slt', N(r.int(3)), n)], [1, () => C('lt', n, N(64))], [1, () => C('sgt', N(32), n)], [1, () => C('slt', C('sub', C('calldatasize'), N(4)), N(32))]])(); }
  leaf(c) {
    const r = this.r;
    if (c.vars.length && r.chance(0.6)) return V(r.pick(c.vars));
    if (r.chance(0.15)) return C(r.pick(ENV));
    return this.lit();
  }
  callFn(c, f, d) {
    const a = []; for (let i = 0; i < f.params; i++) a.push(f.rec && i === 0 ? C('and', this.expr(c, 1), this.lit(f.mask || '3')) : this.expr(c, d - 1));
    return ['c', f.name, a];
  }
  cond(c, d) { const r = this.r; return r.chance(0.6) ? C(r.pick(['lt', 'gt', 'eq', 'iszero', 'slt', 'sgt', 'and', 'iszero']), ...[0, 1].map(() => this.expr(c, d - 1))).map((x, i, a) => (i === 2 && a[1] === 'iszero' ? [x[0]] : x)) : this.expr(c, d); }
  huge(c) { const r = this.r; return r.chance(0.7) ? this.lit(r.pick(HUGE)) : C('shl', this.lit((31 + r.int(225)).toString(16)), this.lit(r.pick(['1', '3', 'ff']))); } // no memory reaches that far
  moff(c, d) { // below 0x700; the free-pointer word only through its own address
    const r = this.r; if (r.chance(0.004)) return this.huge(c);
    return r.weighted([[5, () => this.lit((0x80 + 32 * r.int(16)).toString(16))], [2, () => this.lit((0x80 + r.int(700)).toString(16))], [1, () => this.lit(r.pick(['0', '20', '0', '1', '1f']))],
      [2, () => C('add', this.lit('80'), C('and', this.expr(c, Math.min(1, d - 1)), this.lit(r.pick(['ff', 'e0', '3e0', '1ff']))))], [1, () => C('add', C('mload', this.lit('40')), this.small(64))]])();
  }
  range(c, d) {
    const r = this.r; if (r.chance(0.01)) return r.pick([() => [this.huge(c), this.lit('20')], () => [this.lit('80'), this.huge(c)], () => [this.huge(c), this.lit('0')]])();
    if (r.chance(0.3)) return [this.lit('0'), this.lit(r.pick(['40', '20', '0', '1f']))];
    return [this.lit((0x80 + (r.chance(0.7) ? 32 * r.int(8) : r.int(300))).toString(16)), r.chance(0.6) ? this.lit(r.pick(['0', '1', '20', '40', '44', '64', '21', '100'])) : C('and', this.expr(c, 1), this.lit('7f'))];
  }
  key(c, d) {
    const r = this.r;
    return r.weighted([[5, () => this.small(4)], [1, () => C('and', this.expr(c, 1), this.lit('3'))], [2, () => C('keccak256', this.lit('0'), this.lit('40'))], [1, () => this.expr(c, Math.min(d - 1, 2))]])();
  }
  // ---- statements ----
  block(c, n, d) {
    const c2 = { ...c, vars: c.vars.slice(), set: c.set.slice() }, out = [];
    for (let i = 0; i < n; i++) out.push(...this.stmt(c2, d));
    return out;
  }
  stmt(c, d, what) {
    const r = this.r, X = (...a) => ['x', C(...a)], e = k => this.expr(c, k === undefined ? 3 : k);
    const w = [[5, 'let'], [c.set.length ? 5 : 0, 'set'], [3, 'mstore'], [this.P.arith ? 1 : 2, 'sstore'], [0.7, 'tstore'], [0.7, 'copy'], [d > 0 ? 2 : 0, 'if'], [d > 0 ? 1.2 : 0, 'switch'], [d > 0 ? 1 : 0, 'for'], [d > 0 ? 0.5 : 0, 'blk'],
      [0.8, 'log'], [c.calls ? 1.5 : 0, 'call'], [c.create ? 0.4 : 0, 'create'], [c.fns.length ? 2 : 0, 'fn'], [c.fns.some(f => f.rets > 1) ? 1.2 : 0, 'tuple'], [c.inLoop ? 0.7 : 0, 'jump'], [c.inFn ? 0.3 : 0, 'leave'], [0.15, 'end'], [0.3, 'pop'], [0.4, 'map'], [0.3, 'ptr'], [c.inLoop || c.inFn ? 0 : 0.15, 'bulk']];
    switch (what || r.weighted(w)) {
      case 'let': { if (r.chance(0.05)) { const ns = [this.id('v'), this.id('v')]; if (r.chance(0.3)) ns.push(this.id('v')); c.vars.push(...ns); c.set.push(...ns); return [['let', ns, null]]; } const n = this.id('v'), v = r.chance(0.08) ? null : e(); c.vars.push(n); c.set.push(n); return [['let', [n], v]]; }
      case 'set': return [['set', [r.pick(c.set)], e()]];
      case 'mstore': return [r.chance(0.85) ? X('mstore', this.moff(c, 2), e()) : X('mstore8', this.moff(c, 2), e(2))];
      case 'sstore': return [X('sstore', this.key(c, 2), e())];
      case 'tstore': return [X('tstore', this.key(c, 2), e())];
      case 'copy': {
        const o = this.moff(c, 2), n = r.chance(0.7) ? this.small(100) : C('and', e(1), this.lit('7f'));
        switch (r.int(5)) {
          case 0: return [X('mcopy', o, this.moff(c, 2), r.chance(0.01) ? this.huge(c) : n)];
          case 1: case 2: return [X('calldatacopy', o, r.chance(0.6) ? this.small(150) : r.chance(0.7) ? C('and', e(1), this.lit('1ff')) : e(1), n)];
          case 3: return [X('returndatacopy', o, this.lit('0'), C('returndatasize'))];
          default: return [X('extcodecopy', this.lit(r.pick(SCRIPTED.concat(EOAS))), o, r.chance(0.8) ? this.small(6) : e(1), n)];
        }
      }
      case 'if': return [['if', this.cond(c, 3), this.block(c, r.range(0, 3), d - 1)]];
      case 'switch': {
        const cases = [], seen = new Set(), k = r.range(0, 4), bits = r.chance(0.6);
        for (let i = 0; i < k; i++) { const l = bits ? ['n', r.int(4).toString(16), r.pick(['d', 'x'])] : this.lit(); const v = require('./interp').Model && litVal(l); if (seen.has(v)) continue; seen.add(v); cases.push([l, this.block(c, r.range(0, 2), d - 1)]); }
        return [['sw', bits ? C('and', e(2), this.lit('3')) : e(2), cases, r.chance(0.7) || !cases.length ? this.block(c, r.range(0, 2), d - 1) : null]];
      }
      case 'for': {
        const i = this.id('i'), k = this.lit((this.P.long && d === 2 && r.chance(this.P.long) ? 60 + r.int(900) : r.int(6)).toString(16)), c2 = { ...c, vars: c.vars.concat([i]), inLoop: true };
        const up = r.chance(0.7), z = r.chance(0.5);
        const init = [['let', [i], up ? this.lit('0') : k]];
        if (z) { const n = this.id('j'); init.push(['let', [n], e(1)]); c2.vars.push(n); c2.set = c.set.concat([n]); }
        return [['for', init, up ? C('lt', V(i), k) : r.chance(0.5) ? V(i) : C('gt', V(i), this.lit('0')), [['set', [i], up ? C('add', V(i), this.lit('1')) : C('sub', V(i), this.lit('1'))]], this.block(c2, r.range(0, 4), d - 1)]];
      }
      case 'blk': return [['blk', this.block(c, r.range(0, 3), d - 1)]];
      case 'log': { const [o, n] = this.range(c, 2), t = r.int(5), a = []; for (let i = 0; i < t; i++) a.push(e(2)); return [['x', ['c', 'log' + t, [o, n, ...a]]]]; }
      case 'call': return this.callSeq(c);
      case 'create': return this.createSeq(c);
      case 'fn': { const f = r.pick(c.fns), call = this.callFn(c, f, 3); if (f.rets === 0 || r.chance(0.1)) return [['x', call]]; if (f.rets === 1) { const n = this.id('v'); c.vars.push(n); c.set.push(n); return [['let', [n], call]]; } return this.tuple(c, f); }
      case 'tuple': return this.tuple(c, r.pick(c.fns.filter(f => f.rets > 1)));
      case 'jump': return [['if', this.cond(c, 2), [[r.pick(['brk', 'cont'])]]]];
      case 'leave': return [['if', this.cond(c, 2), [['lv']]]];
      case 'end': { const [o, n] = this.range(c, 2); return [['if', C('eq', C('and', e(2), this.lit('7')), this.lit('5')), [r.pick([() => X('return', o, n), () => X('revert', o, n), () => X('stop'), () => X('invalid'), () => X('selfdestruct', this.addr(c)), () => X('revert', o, n), () => X('return', o, n)])()]]]; }
      case 'pop': return [X('pop', e(2))];
      case 'map': return [X('mstore', this.lit('0'), r.chance(0.5) ? C('and', e(1), this.lit('3')) : C('caller')), X('mstore', this.lit('20'), this.small(3)), r.chance(0.5) ? X('sstore', C('keccak256', this.lit('0'), this.lit('40')), e(2)) : X('sstore', this.small(4), C('sload', C('keccak256', this.lit('0'), this.lit('40'))))];
      case 'bulk': {
        const top = r.pick(this.all ? [0x1200, 0x3a00, 0x3e00, 0x3e00] : [0x1200, 0x3a00, 0x7000, 0x12000, 0x21000]), o = r.pick([0x900, 0x80, 0xa00]), step = N(top > 0x7000 ? r.pick([0x100, 0x420]) : r.pick([0x20, 0x40, 0x100])), i = this.id('i'), v = this.id('v');
        const out = [['let', [v], e(2)], ['for', [['let', [i], N(o)]], C('lt', V(i), N(top)), [['set', [i], C('add', V(i), step)]], [X('mstore', V(i), C(r.pick(['add', 'mul', 'xor']), V(i), V(v)))]], X('sstore', this.small(4), e(3))];
        if (c.fns.length && r.chance(0.8)) { const d = c.fns.find(f => f.name === 'deep_rec'), f = d && r.chance(0.75) ? d : r.pick(c.fns), call = f === d && r.chance(0.75) ? C('deep_rec', N(r.pick([15, 31, 31])), ...[1, 2].map(() => e(1))) : this.callFn(c, f, 2); out.push(f.rets === 1 ? X('tstore', this.small(4), call) : ['x', call]); }
        out.push(r.pick([() => X('sstore', this.small(4), C('keccak256', N(o), N(top - o))), () => ['blk', [X('mcopy', N(0x80), N(top - 0x800), N(0x700)), X('sstore', this.small(4), C('keccak256', N(0x80), N(0x700)))]], () => X('log0', N(o), N(top - o)), () => X('return', N(o), N(Math.min(top - o, 0x2000))), () => X('tstore', this.small(4), C('keccak256', N(o), N(top - o)))])());
        return out;
      }
      case 'ptr': { const p = this.id('p'), o = [['let', [p], C('mload', this.lit('40'))], X('mstore', V(p), e(2)), X('mstore', this.lit('40'), C('add', V(p), this.lit(r.pick(['20', '40', '60']))))]; c.vars.push(p); return o; }
    }
  }
  tuple(c, f) {
    const r = this.r, call = this.callFn(c, f, 2), ns = [];
    const distinct = Array.from(new Set(c.set));
    if (distinct.length >= f.rets && r.chance(0.5)) { while (ns.length < f.rets) { const n = r.pick(distinct); if (!ns.includes(n)) ns.push(n); } return [['set', ns, call]]; }
    for (let i = 0; i < f.rets; i++) ns.push(this.id('t')); c.vars.push(...ns); c.set.push(...ns); return [['let', ns, call]];
  }
  callSeq(c) {
    const r = this.r, X = (...a) => ['x', C(...a)], out = [], p = this.lit((0x300 + 32 * r.int(4)).toString(16)), e = () => this.expr(c, 2);
    const nargs = r.int(3);
    out.push(X('mstore', p, C('shl', this.lit('e0'), this.lit(r.pick(this.sels)))));
    for (let i = 0; i < nargs; i++) out.push(X('mstore', this.lit((parseInt(p[1], 16) + 4 + 32 * i).toString(16)), e()));
    let p2 = p, size = this.lit((r.chance(0.8) ? 4 + 32 * nargs : r.int(100)).toString(16)), o = this.lit((0x80 + 32 * r.int(8)).toString(16)), os = this.lit(r.pick(['0', '0', '20', '20', '40', '1', '80']));
    if (r.chance(0.02)) [() => { p2 = this.huge(c); }, () => { size = this.huge(c); }, () => { o = this.huge(c); os = this.lit('20'); }, () => { os = this.huge(c); }, () => { p2 = this.huge(c); size = this.lit('0'); }, () => { o = this.huge(c); os = this.lit('0'); }][r.int(6)]();
    const kind = r.weighted([[4, 'call'], [2, 'staticcall'], [1, 'delegatecall']]), to = this.addr(c), g = r.chance(0.7) ? C('gas') : r.chance(0.5) ? this.lit(r.u32().toString(16)) : this.lit();
    const [h1, h2, h3, h4] = [p2, size, o, os].map(x => this.hide(c, x)); p2 = h1; size = h2; os = h4;
    const oa = h3;
    const call = kind === 'call' ? C('call', g, to, r.chance(0.7) ? this.lit('0') : r.chance(0.7) ? this.small(5) : C('callvalue'), p2, size, oa, os) : C(kind, g, to, p2, size, oa, os);
    const n = this.id('ok');
    out.push(['let', [n], call]); c.vars.push(n);
    if (r.chance(0.4)) out.push(['if', C('iszero', V(n)), [r.pick([() => X('revert', this.lit('0'), this.lit('0')), () => X('sstore', this.small(4), this.small(9))])()]]);
    if (r.chance(0.4)) { const v = this.id('v'); out.push(['let', [v], C('mload', o)]); c.vars.push(v); c.set.push(v); }
    if (r.chance(0.3)) out.push(X('returndatacopy', this.lit('80'), this.lit('0'), C('returndatasize')));
    if (r.chance(0.2)) out.push(X('sstore', this.small(4), C('returndatasize')));
    return out;
  }
  createSeq(c) {
    const r = this.r, X = (...a) => ['x', C(...a)], sz = this.id('sz'), p = this.hide(c, this.lit('800')), a = this.id('ad'), name = ['s', Buffer.from(c.create).toString('hex')];
    const out = [['let', [sz], C('datasize', name)], X('datacopy', p, C('dataoffset', name), V(sz)), X('mstore', C('add', p, V(sz)), this.expr(c, 2))];
    const size = C('add', V(sz), this.lit(r.pick(['20', '20', '0', '1f'])));
    out.push(['let', [a], r.chance(0.6) ? C('create', this.hide(c, r.chance(0.7) ? this.lit('0') : this.small(4)), p, size) : C('create2', this.hide(c, r.chance(0.7) ? this.lit('0') : this.small(4)), p, size, this.small(2))]);
    c.vars.push(a);
    out.push(X('sstore', this.lit('c0de'), V(a)));
    return out;
  }
  fnDef(f, below, opt) { // f: {name, params, rets, rec}
    const r = this.r, ps = [], rs = [];
    for (let i = 0; i < f.params; i++) ps.push(this.id('a')); for (let i = 0; i < f.rets; i++) rs.push(this.id('r'));
    const c = { vars: ps.concat(rs), set: (f.rec ? ps.slice(1) : ps).concat(rs), fns: below, inFn: true, calls: opt.calls && r.chance(0.3), create: null };
    let body = [];
    if (f.rec) { body.push(['if', C('iszero', V(ps[0])), f.rets && r.chance(0.7) ? [['set', [rs[0]], this.expr(c, 2)], ['lv']] : [['lv']]]); }
    body.push(...this.block(c, r.range(1, 6), 2));
    if (f.rec) { const args = [C('sub', V(ps[0]), N(1))]; for (let i = 1; i < f.params; i++) args.push(this.expr({ ...c, fns: [] }, 2)); const call = ['c', f.name, args]; body.push(f.rets === 0 ? ['x', call] : f.rets === 1 ? ['set', [rs[0]], C(r.pick(['add', 'xor', 'sub']), call, V(r.pick(c.vars)))] : ['set', rs, call]); }
    else if (f.rets && r.chance(0.8)) body.push(...rs.map(x => ['set', [x], this.expr(c, 3)]));
    return ['fn', f.name, ps, rs, body];
  }
  helpers() { // functions as the Solidity compiler writes them
    const r = this.r, F = (name, ps, rs, body) => ({ f: { name, params: ps.length, rets: rs.length }, def: ['fn', name, ps, rs, body] }), X = (...a) => ['x', C(...a)];
    const panic = code => [X('mstore', N(0), C('shl', N(224), ['n', '4e487b71', 'x'])), X('mstore', N(4), N(code, 'x')), X('revert', N(0), N(0x24, 'x'))];
    const all = [
      F('checked_add_t_uint256', ['x', 'y'], ['sum'], [['set', ['sum'], C('add', V('x'), V('y'))], ['if', C('gt', V('x'), V('sum')), panic(0x11)]]),
      F('checked_sub_t_uint256', ['x', 'y'], ['diff'], [['set', ['diff'], C('sub', V('x'), V('y'))], ['if', C('gt', V('diff'), V('x')), [['x', C('panic_error_0x11')]]]]),
      F('panic_error_0x11', [], [], panic(0x11)),
      F('checked_mul_t_uint256', ['x', 'y'], ['product'], [['let', ['product_raw'], C('mul', V('x'), V('y'))], ['set', ['product'], V('product_raw')], ['if', C('iszero', C('or', C('iszero', V('x')), C('eq', V('y'), C('div', V('product'), V('x'))))), panic(0x11)]]),
      F('checked_div_t_uint256', ['x', 'y'], ['r'], [['if', C('iszero', V('y')), panic(0x12)], ['set', ['r'], C('div', V('x'), V('y'))]]),
      F('cleanup_t_uint160', ['value'], ['cleaned'], [['set', ['cleaned'], C('and', V('value'), ['n', 'f'.repeat(40), 'x'])]]),
      F('cleanup_t_bool', ['value'], ['cleaned'], [['set', ['cleaned'], C('iszero', C('iszero', V('value')))]]),
      F('cleanup_t_int8', ['value'], ['cleaned'], [['set', ['cleaned'], C('signextend', N(0), V('value'))]]),
      F('shift_right_224_unsigned', ['value'], ['newValue'], [['set', ['newValue'], C('shr', N(224), V('value'))]]),
      F('revert_error_dbdddcbe', [], [], [X('revert', N(0), N(0))]),
      F('zero_value_t_uint256', [], ['ret'], [['set', ['ret'], N(0)]]),
      F('round_up_to_mul_of_32', ['value'], ['result'], [['set', ['result'], C('and', C('add', V('value'), N(31)), C('not', N(31)))]]),
      F('abi_encode_uint256', ['headStart', 'value0'], ['tail'], [['set', ['tail'], C('add', V('headStart'), N(32))], X('mstore', C('and', V('headStart'), N(0x3e0)), V('value0'))]),
      F('abi_decode_tuple_t_uint256t_uint256', ['headStart', 'dataEnd'], ['value0', 'value1'], [['if', C('slt', C('sub', V('dataEnd'), V('headStart')), N(64)), [X('revert', N(0), N(0))]], ['set', ['value0'], C('calldataload', V('headStart'))], ['set', ['value1'], C('calldataload', C('add', V('headStart'), N(32)))]]),
      F('increment_t_uint256', ['value'], ['ret'], [['if', C('eq', V('value'), C('not', N(0))), panic(0x11)], ['set', ['ret'], C('add', V('value'), N(1))]]),
      F('update_byte_slice_20_shift_0', ['value', 'toInsert'], ['result'], [['let', ['mask'], ['n', 'f'.repeat(40), 'x']], ['set', ['toInsert'], C('shl', N(0), V('toInsert'))], ['set', ['value'], C('and', V('value'), C('not', V('mask')))], ['set', ['result'], C('or', V('value'), C('and', V('toInsert'), V('mask')))]]),
      F('mapping_index_access', ['slot', 'key'], ['dataSlot'], [X('mstore', N(0), V('key')), X('mstore', N(32, 'x'), V('slot')), ['set', ['dataSlot'], C('keccak256', N(0), N(64))]]),
      F('extract_byte_array_length', ['data'], ['length'], [['set', ['length'], C('div', V('data'), N(2))], ['let', ['outOfPlaceEncoding'], C('and', V('data'), N(1))], ['if', C('iszero', V('outOfPlaceEncoding')), [['set', ['length'], C('and', V('length'), N(127))]]]]),
      F('require_helper', ['condition'], [], [['if', C('iszero', V('condition')), [X('revert', N(0), N(0))]]]),
    ];
    const M160 = () => (r.chance(0.5) ? C('sub', C('shl', N(160), N(1)), N(1)) : ['n', 'f'.repeat(40), 'x']), bad = () => [X('revert', N(0), N(r.pick([0, 0, 4])))];
    for (const n of ['abi_decode_address', 'abi_decode_t_address_payable', 'abi_decode_address_fromMemory']) all.push(F(n, ['offset'], ['value'], [['set', ['value'], n === 'abi_decode_address_fromMemory' ? C('mload', C('and', V('offset'), ['n', '3e0', 'x'])) : C('calldataload', V('offset'))], ['if', C('iszero', C('eq', V('value'), C('and', V('value'), M160()))), bad()]]));
    all.push(F('abi_decode_tuple_t_address', ['headStart', 'dataEnd'], ['value0'], [['let', ['_1'], C('calldataload', C('and', V('headStart'), N(127)))], ['if', r.chance(0.5) ? C('iszero', C('eq', V('_1'), C('and', V('_1'), M160()))) : C('shr', N(160), V('_1')), bad()], ['set', ['value0'], V('_1')]]));
    if (!this.all) all.push(F('fun_transfer', ['var_from', 'var_to', 'var_value'], r.chance(0.5) ? [] : ['ok'], [['let', ['_1'], C('and', V('var_from'), M160())], ['let', ['_2'], C('iszero', V('_1'))], ['if', V('_2'), bad()], ['if', C('iszero', V(r.pick(['var_to', 'var_from', 'var_value']))), [X('tstore', N(9), V('var_to'))]], X('sstore', V('var_to'), C('add', C('sload', V('var_to')), V('var_value'))), ['set', ['var_to'], C('add', V('var_to'), N(1))], ['set', ['var_value'], V('var_from')], X('tstore', V('var_to'), V('var_value'))]));
    const tiny = () => r.pick([() => X('revert', N(0), this.small(70)), () => X('revert', this.small(70), N(0)), () => X('revert', C('callvalue'), N(0)), () => X('return', N(0), N(r.pick([0, 32]))), () => X('stop'), () => X('invalid'), () => X('sstore', N(2), C('callvalue')), () => X('mstore', N(0x80), N(7)), () => ['blk', [X('revert', N(0), N(0))]], () => X('revert', N(0), C('returndatasize')), () => X('log0', N(0), N(32))])();
    for (let k = r.range(0, 2); k > 0; k--) all.push(F('tiny_' + k, r.chance(0.3) ? ['a'] : [], r.chance(0.3) ? ['b'] : [], [tiny()]));
    const deep = F('deep_rec', ['n', 'x', 'y'], ['s'], [['if', C('iszero', V('n')), [['set', ['s'], r.pick([V('x'), C('sload', V('y')), C('xor', V('x'), V('y'))])], ['lv']]], ['let', ['v'], C(r.pick(['add', 'mul', 'sub']), V('x'), C(r.pick(['exp', 'xor', 'div']), V('y'), N(3)))], ['let', ['w'], C('mulmod', V('v'), V('x'), C('not', V('y')))], ['set', ['s'], C('deep_rec', C('sub', V('n'), N(1)), V(r.pick(['w', 'v'])), V(r.pick(['x', 'w'])))], ['set', ['s'], C('add', C('mul', V('s'), N(3)), C('xor', V('v'), V('w')))]]);
    deep.f.rec = true; deep.f.mask = 'f'; all.push(deep);
    const pick = all.filter(h => r.chance(h === deep ? (this.prop === 'P21' ? 0.4 : 0.15) : 0.3));
    if (pick.some(h => JSON.stringify(h.def).includes('panic_error_0x11"') && h.f.name !== 'panic_error_0x11') && !pick.some(h => h.f.name === 'panic_error_0x11')) pick.push(all[2]);
    return pick;
  }
  code(opt) { // statements of one code block: dispatcher or constructor, and its functions
    const r = this.r, fns = [], defs = [];
    for (const h of this.helpers()) { fns.push(h.f); defs.push(h.def); }
    const k = r.range(1, opt.nf || (this.big ? 9 : 4));
    for (let i = 0; i < k; i++) {
      let own = r.pick(FNAMES); if (fns.some(f => f.name === own) || !r.chance(this.P.names ? 0.3 : 0.06)) own = null;
      const f = { name: own || (r.chance(0.2) ? this.id('fun') : 'fun_f' + i), params: r.int(4), rets: r.weighted([[2, 0], [5, 1], [2, 2], [1, 3]]), rec: r.chance(0.12) };
      if (f.rec && !f.params) f.params = 1;
      defs.push(this.fnDef(f, fns.slice(), opt)); fns.push(f);
    }
    return { fns, defs };
  }
  contract(name, opt) {
    const r = this.r, X = (...a) => ['x', C(...a)];
    const free = ['n', r.pick(['80', '80', '80', 'a0', '120']), r.pick(['d', 'x'])], start = ['x', C('mstore', ['n', '40', r.pick(['d', 'x'])], r.chance(0.75) ? C('memoryguard', free) : free)];
    const str = s => ['s', Buffer.from(s).toString('hex')];
    const subs = [];
    if (opt.sub) subs.push(this.contract(opt.sub, { ...opt, sub: null, nf: 2, cases: 2, subIn: null }));
    const imm = r.chance(0.5) ? ['1' + r.int(900), '2' + r.int(900)] : [];
    // constructor
    const ctor = this.code({ ...opt, nf: 2, calls: false });
    const c0 = { vars: [], set: [], fns: ctor.fns, calls: false, create: opt.sub && opt.subIn === 'ctor' ? opt.sub : null, ctor: true };
    let cs = [start];
    if (r.chance(0.8)) cs.push(['let', ['programSize'], C('datasize', str(name))], ['let', ['argSize'], C('sub', C('codesize'), V('programSize'))], X('codecopy', N(0x80), V('programSize'), C('and', V('argSize'), N(0xff))), ['let', ['arg0'], C('mload', N(0x80))]), c0.vars.push('arg0', 'argSize');
    if (r.chance(0.3)) cs.push(['if', C('callvalue'), [X('revert', N(0), N(0))]]);
    cs.push(...this.block(c0, r.range(0, 5), 2));
    imm.forEach(s => cs.push(X('setimmutable', N(0), str(s), this.expr(c0, 2))));
    const dep = name + '_deployed';
    cs.push(X('codecopy', N(0x80), C('dataoffset', str(dep)), C('datasize', str(dep))), X('return', N(0x80), C('datasize', str(dep))));
    // runtime
    const run = this.code(opt);
    const c1 = { vars: [], set: [], fns: run.fns, calls: opt.calls, create: opt.sub && opt.subIn === 'run' ? opt.sub : null };
    const rs = [start.slice()], cases = [];
    const nsel = opt.cases || (this.big ? r.range(4, 7) : r.range(2, 4));
    for (const s of this.sels.slice(0, nsel)) {
      const c = { ...c1, vars: [], set: [] }, b = [];
      if (r.chance(0.6)) { b.push(['let', ['arg'], C('calldataload', N(4))]); c.vars.push('arg'); c.set.push('arg'); }
      if (imm.length && r.chance(0.6)) { const n = this.id('im'); b.push(['let', [n], C('loadimmutable', str(r.pick(imm)))]); c.vars.push(n); }
      if (r.chance(0.35)) b.unshift(['if', this.sizeCheck(), [X('revert', N(0), N(0))]]);
      if (r.chance(c.fns.some(f => f.name === 'deep_rec') ? 0.35 : 0.04)) b.push(...this.stmt(c, 2, 'bulk'));
      for (let i = r.range(2, 7); i > 0; i--) b.push(...this.stmt(c, 2));
      const v = r.weighted([[3, 'ret'], [1, 'stop'], [1, 'fall'], [0.5, 'rev'], [1, 'multi']]);
      if (v === 'ret') b.push(X('mstore', N(0x80), this.expr(c, 3)), X('return', N(0x80), N(32)));
      else if (v === 'multi') { b.push(X('mstore', N(0), this.expr(c, 2)), X('mstore', N(32), c.vars.length ? V(r.pick(c.vars)) : this.lit()), X('return', N(0), N(64))); }
      else if (v === 'stop') b.push(X('stop'));
      else if (v === 'rev') b.push(X('mstore', N(0x80), this.expr(c, 2)), X('revert', N(0x80), N(r.int(70))));
      cases.push([['n', s.replace(/^0+(?=.)/, ''), r.pick(['x', 'd', 'p'])], b]);
    }
    const selExpr = r.pick([() => C('shr', N(224, r.pick(['d', 'x'])), C('calldataload', N(0))), () => C('div', C('calldataload', N(0)), C('exp', N(2), N(224))), () => C('and', C('shr', N(224), C('calldataload', N(0))), N(0xffffffffn))])();
    if (r.chance(0.2)) rs.push(['if', this.sizeCheck(), [X('sstore', this.small(4), C('calldatasize')), r.pick([() => X('revert', N(0), N(0)), () => X('stop')])()]]);
    const def = r.chance(0.5) ? this.block({ ...c1 }, r.range(0, 2), 1) : null;
    if (r.chance(0.5)) rs.push(['if', C('iszero', C('lt', C('calldatasize'), N(4))), [['let', ['selector'], selExpr], ['sw', V('selector'), cases, def]]]);
    else rs.push(['sw', selExpr, cases, def]);
    if (r.chance(0.5)) rs.push(X('revert', N(0), N(0)));
    const body = r.chance(0.5) ? [['blk', rs], ...run.defs] : [...rs, ...run.defs];
    const deployed = { name: dep, code: body, subs: opt.subIn === 'run' ? subs : [], data: r.chance(0.5) ? [['.metadata', 'a264697066735822' + r.bytes(8).toString('hex')]] : [] };
    return { name, code: [...(r.chance(0.5) ? [['blk', cs]] : cs), ...ctor.defs], subs: opt.subIn === 'ctor' ? [deployed, ...subs] : [deployed], data: [] };
  }
  token() { // a token with the transfer function the extra optimisers replace by their own
    const r = this.r, n = r.pick(['Token_', 'MyToken_', 'ERC20_', 'ERC20Mock_']) + r.int(500), f = r.pick(['fun_transfer', 'fun__transfer', 'fun_transfer_' + r.int(99)]), m = 'sub(shl(160, 1), 1)';
    this.sels = ['a9059cbb', '70a08231', '01020304', '12345678'];
    const at = () => r.pick(['0x24', '36', '0x04', '4', '68']), who = () => r.pick(['caller()', `calldataload(${at()})`, `and(calldataload(${at()}), 7)`, 'address()', '2', `and(calldataload(4), ${m})`]);
    const mint = [...Array(r.range(1, 4))].map(() => `mstore(0, ${r.pick(['caller()', '1', '2', '3', '5', 'address()'])}) mstore(0x20, 0) sstore(keccak256(0, 0x40), ${r.pick(['100', '7', '0xffffffffffffffff', 'not(0)', 'shl(255, 1)'])})`).join(' ');
    const call = () => `${f}(${who()}, ${who()}, ${r.pick([`calldataload(${at()})`, `and(calldataload(${at()}), 15)`, '0', '3', 'callvalue()', 'sload(7)'])})`;
    const ev = ['_1 := calldataload(4)', '_1 := and(calldataload(0x24), 7)', '_1 := caller()'].map(x => 'let ' + x);
    const cases = this.sels.filter(x => x !== '70a08231').map(x => `case 0x${x} { ${r.chance(0.3) ? 'if callvalue() { revert(0, 0) }' : ''} ${[...Array(r.range(1, 3))].map(call).join(' ')} ${r.pick(['let p := mload(64) mstore(p, 1) return(p, 32)', 'mstore(0, 1) return(0, 32)', 'stop()', 'sstore(7, add(sload(7), 1))', 'invalid()'])} }`).join('\n');
    const text = `object "${n}" { code { { mstore(64, memoryguard(0x80)) ${mint} let _1 := mload(64) codecopy(_1, dataoffset("${n}_deployed"), datasize("${n}_deployed")) return(_1, datasize("${n}_deployed")) } }
object "${n}_deployed" { code { { mstore(64, ${r.pick(['memoryguard(0x80)', '128'])}) if iszero(lt(calldatasize(), 4)) { switch shr(224, calldataload(0)) ${cases}
case 0x70a08231 { ${r.pick(ev)} mstore(0, and(_1, ${m})) mstore(32, 0) let r := sload(keccak256(0, 64)) let p := mload(64) mstore(p, r) return(p, 32) } } revert(0, 0) }
function ${f}(var_from, var_to, var_value) {
let _1 := ${m} let _2 := and(var_from, _1)
if iszero(_2) { ${r.chance(0.5) ? 'let _3 := 0 mstore(_3, shl(225, 0x4b637e8f)) mstore(4, _3) revert(_3, 36)' : 'mstore(0, shl(225, 0x4b637e8f)) mstore(4, 0) revert(0, 36)'} }
let _4 := and(var_to, _1)
if iszero(_4) { let _5 := 0 mstore(_5, shl(224, 0xec442f05)) mstore(4, _5) revert(_5, 36) }
mstore(0, _2) mstore(0x20, 0)
let _6 := sload(keccak256(0, 0x40))
if lt(_6, var_value) { let _7 := 0 mstore(_7, shl(226, 0x391434e3)) mstore(4, _2) mstore(36, _6) mstore(68, var_value) revert(_7, 100) }
mstore(0, _2) mstore(0x20, 0) sstore(keccak256(0, 0x40), sub(_6, var_value))
mstore(0, _4) let dataSlot := keccak256(0, 0x40) sstore(dataSlot, add(sload(dataSlot), var_value))
let _8 := mload(0x40) mstore(_8, var_value)
log3(_8, 32, 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _2, _4) } } } }`;
    const programs = [{ obj: require('./parse').parse(text), opts: 'def', style: 0 }];
    return { programs, trace: this.history(programs) };
  }
  system() {
    const r = this.r; this.sels = SELS.slice(); for (let i = this.sels.length - 1; i > 0; i--) { const j = r.int(i + 1); [this.sels[i], this.sels[j]] = [this.sels[j], this.sels[i]]; }
    const np = 1, programs = [];
    for (let i = 0; i < np; i++) {
      const name = r.pick(['C', 'Counter', 'Token_1', 'my_contract']) + '_' + r.int(500);
      const opts = r.pick(this.P.opts); this.all = /^all/.test(opts); this.big = r.chance(this.P.big);
      const sub = r.chance(this.P.sub === undefined ? 0.2 : this.P.sub) ? 'Child_' + r.int(99) : null;
      programs.push({ obj: this.contract(name, { calls: r.chance(0.6), sub, subIn: sub ? r.pick(['ctor', 'run']) : null }), opts, style: r.chance(this.P.layout) ? 1 + r.int(1e9) : 0 });
    }
    const trace = this.history(programs); if (this.symbols) { trace.symbols = this.symbols; programs.forEach(p => { p.symbols = this.symbols; }); }
    return { programs, trace };
  }
  history(programs) {
    const r = this.r, w64 = () => this.word().padStart(64, '0').slice(-64);
    const t = { chainid: r.pick([w64(), '1'.padStart(64, '0')]), addrs: CONTRACTS.concat(SCRIPTED), balances: {}, codes: {}, txs: [] };
    for (const a of EOAS) t.balances[a] = (10n ** 24n).toString(16);
    for (const a of CONTRACTS) if (r.chance(0.5)) t.balances[a] = r.int(1000).toString(16);
    SCRIPTED.forEach((a, i) => { t.codes[a] = r.bytes(r.range(1, 60)).toString('hex'); });
    let time = 1700000000 + r.int(1e8), num = r.chance(0.8) ? 1000 + r.int(1e6) : 2 ** 32 - 2 + r.int(5);
    const blk = () => { if (r.chance(0.5)) { time += r.chance(0.9) ? r.int(100) : r.int(1e9); num += r.chance(0.9) ? 1 : r.int(1000); } return { number: String(num), time: String(time), coinbase: r.pick(EOAS), randao: w64(), gaslimit: String(30000000), basefee: w64(), blobfee: w64() }; };
    const arg = () => r.weighted([[3, () => w64()], [3, () => r.int(8).toString(16).padStart(64, '0')], [1, () => r.pick(EOAS.concat(CONTRACTS)).padStart(64, '0')]])();
    const data = () => { let d = r.chance(0.93) ? r.pick(this.sels.slice(0, this.big ? 7 : 4)) : r.bytes(4).toString('hex'); for (let k = r.range(0, 4); k > 0; k--) d += arg(); if (r.chance(0.1)) d = d.slice(0, 2 * r.int(d.length / 2)); if (r.chance(0.05)) d += r.bytes(r.int(30)).toString('hex'); return r.chance(0.06) ? d.slice(0, 2 * r.int(6)) : d; };
    const fault = tx => { if (r.chance(this.P.fault)) tx.fault = { k: r.pick(['abort', 'crash']), n: r.chance(0.7) ? r.int(12) : r.int(60) }; };
    const base = () => ({ from: r.pick(EOAS), blk: blk(), value: r.chance(0.8) ? '0' : r.int(50).toString(16), gasprice: w64() });
    CONTRACTS.forEach((a, i) => {
      const tx = { ...base(), to: a, deploy: i % programs.length, data: '' }; for (let k = r.int(3); k > 0; k--) tx.data += arg(); if (r.chance(0.7)) tx.value = '0';
      if (r.chance(0.1)) fault(tx); t.txs.push(tx);
    });
    for (let k = r.range(3, this.P.maxTx); k > 0; k--) {
      const tx = { ...base(), to: r.pick(CONTRACTS), data: data() };
      tx.scripts = []; for (let j = r.range(1, 3); j > 0; j--) {
        const st = r.weighted([[6, 0], [2, 1], [1, 2]]), s = { st, ret: r.bytes(r.pick([0, 0, 1, 4, 32, 32, 36, 64, 100])).toString('hex') };
        if (r.chance(0.3)) s.back = { to: r.pick(CONTRACTS), data: data() };
        tx.scripts.push(s);
      }
      if (r.chance(0.1)) tx.refuse = true;
      fault(tx); t.txs.push(tx);
    }
    t.txs.push({ ...base(), to: CONTRACTS[0], data: data(), scripts: [{ st: 0, ret: '' }], value: '0' }); // faults have stopped
    return t;
  }
}
function litVal(l) { if (l[0] === 'n') return BigInt('0x' + l[1]).toString(); if (l[0] === 'b') return String(l[1]); const b = Buffer.alloc(32); Buffer.from(l[1], 'hex').copy(b); return BigInt('0x' + b.toString('hex')).toString(); }
function generate(prop, seed, i, cfg) { return new Gen(prop, seed, i, cfg).system(); }
module.exports = { generate, Gen, PROFILES, CONTRACTS, litVal };
