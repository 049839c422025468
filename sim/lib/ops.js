'use strict';
// Every operation the compiler can ask of the runtime: how to run it on a real instance (real) and what the
// model says must happen (ref). The result string of real() is compared with ref().val.
const X = require('./exec');
const { hex, word, w2n, n2w, rev, keccak256, SECTION, Violation } = X;
const { Rng } = require('./prng');
const Z = '0'.repeat(64);
const BULK = new Set(['fill', 'mcopy', 'cdcopy', 'rdcopy', 'codecopy', 'extcopy', 'section', 'call', 'create', 'alloca', 'guard']);
const TRAP = { end: { status: 2, data: Buffer.alloc(0), trapOk: true } };
const FAIL = { end: { alts: [{ status: 1 }, { status: 2 }], trapOk: true } };

// operand address inside contract memory: number, or {r:i, d:k} = byte k of the i-th allocated region
function O(rf, x) {
  if (typeof x === 'number') return x;
  const g = rf.regions || [], lim = rf.run.trace.lim || 4096; if (!g.length) return x.d % 256;
  const r = g[x.r % g.length]; return r.off + x.d < lim ? r.off + x.d : x.d % 256;
}
// highest memory byte the operation may ask for, also through ranges that turn out to be empty
function reach(rf, op) {
  let m = 0;
  for (const k of ['at', 'src', 'in', 'out']) if (op[k] !== undefined) m = Math.max(m, O(rf, op[k]) + Math.max(op.n && op.n < 65536 ? op.n : op.n ? 4096 : 0, op.len || 0, op.outLen || 0));
  return m;
}
function bytesOf(x) { return x.hex !== undefined ? Buffer.from(x.hex, 'hex') : new Rng('b', x.seed).bytes(x.len); }
// "hi" are the 12 bytes above an address; the EVM ignores them
const addrWord = (op, a) => (op.hi || '0'.repeat(24)) + a;
const T = (rf, a) => rf.run.resolve(a);

function u64(name) { return fr => BigInt.asUintN(64, fr.ex[name]()).toString(); }
function res(fr, op, rep, call) { const r = fr.res(op); call(r.ptr); r.done(); return fr.get(r.ptr, rep); }

const slotVals = []; function slotValue(i) { while (slotVals.length <= i) slotVals.push(keccak256(Buffer.from('slot' + slotVals.length))); return slotVals[i]; }
const env = { // query: [real, model value]
  caller: [(fr, op) => res(fr, op, 'b', p => fr.ex.wrapper_caller(p)), rf => word(rf.caller)],
  address: [(fr, op) => res(fr, op, 'b', p => fr.ex.wrapper_current_contract(p)), rf => word(rf.self)],
  origin: [(fr, op) => res(fr, op, 'b', p => fr.ex.wrapper_origin(p)), rf => word(rf.run.tx.from)],
  coinbase: [(fr, op) => res(fr, op, 'b', p => fr.ex.wrapper_block_coin_base(p)), rf => word(rf.run.blk.coinbase)],
  callvalue: [(fr, op) => res(fr, op, 'u', p => fr.ex.wrapper_callvalue(p)), rf => n2w(rf.value)],
  cvnz: [fr => String(fr.ex.wrapper_callvalue_not_zero() ? 1 : 0), rf => (rf.value ? '1' : '0')],
  balance: [(fr, op) => res(fr, op, 'u', p => fr.ex.wrapper_query_balance(fr.put(0, addrWord(op, T(fr, op.a)), 'b'), p)), (rf, op) => n2w(rf.world.bal(T(rf, op.a)))],
  selfbalance: [(fr, op) => res(fr, op, 'u', p => fr.ex.wrapper_self_balance(p)), rf => n2w(rf.world.bal(rf.self))],
  chainid: [(fr, op) => res(fr, op, 'u', p => fr.ex.wrapper_current_chainid(p)), rf => rf.run.trace.chainid],
  basefee: [(fr, op) => res(fr, op, 'u', p => fr.ex.wrapper_current_base_fee(p)), rf => rf.run.blk.basefee],
  blobfee: [(fr, op) => res(fr, op, 'u', p => fr.ex.wrapper_current_blob_base_fee(p)), rf => rf.run.blk.blobfee],
  gasprice: [(fr, op) => res(fr, op, 'u', p => fr.ex.wrapper_gas_price(p)), rf => rf.run.tx.gasprice],
  gaslimit: [u64('wrapper_gas_limit'), rf => BigInt(rf.run.blk.gaslimit).toString()],
  number: [u64('wrapper_block_number'), rf => BigInt(rf.run.blk.number).toString()],
  timestamp: [u64('wrapper_time_stamp'), rf => BigInt(rf.run.blk.time).toString()],
  gas: [u64('wrapper_gas'), rf => rf.run.gasNow(rf).toString()],
  blockhash: [(fr, op) => res(fr, op, 'b', p => fr.ex.wrapper_block_hash(BigInt.asIntN(64, BigInt(op.num)), p)), (rf, op) => rf.run.blockHash(BigInt(op.num)) || Z],
  prevrandao: [(fr, op) => res(fr, op, 'b', p => fr.ex.wrapper_block_prevRandao(p)), rf => rf.run.blk.randao],
  isdep: [fr => String(fr.ex.is_deploying_tx() ? 1 : 0), rf => (rf.deploying ? '1' : '0')],
};

function transferRef(rf, op) {
  const from = word(op.from.slice(-40)), to = word(op.to.slice(-40)), v = w2n(op.value);
  const rv = h => ({ end: { status: 1, data: Buffer.from(h, 'hex') } });
  if (w2n(from) === 0n) return rv('96c6fd1e' + Z);
  if (w2n(to) === 0n) return rv('ec442f05' + Z);
  const slot = a => hex(keccak256(Buffer.from(a + Z, 'hex')));
  const bal = w2n(rf.world.sload(rf.self, slot(from)));
  if (bal < v) return rv('e450d38c' + from + n2w(bal) + op.value);
  if (rf.static) return TRAP;
  rf.world.sstore(rf.self, slot(from), n2w(bal - v));
  rf.world.sstore(rf.self, slot(to), n2w(w2n(rf.world.sload(rf.self, slot(to))) + v));
  rf.world.log({ a: rf.self, d: op.value, t: ['ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef', from, to] });
  return {};
}
function createParts(rf, op) { // the length-prefixed code and the constructor arguments behind it
  const at = O(rf, op.at), b = rf.mem.peek(at, op.len);
  if (op.len < 4) return null;
  const n = b.readUInt32BE(0); if (4 + n > op.len) return null;
  return { at, code: b.subarray(0, 4 + n), args: b.subarray(4 + n) };
}
const precompile = a => /^0{38}(0[1-9]|0a)$/.test(a);
const rdRange = (rf, op) => { const L = rf.ret.length, off = op.off % (L + 1), n = op.n % (L - off + 1); return [off, n]; };
const ccRange = (rf, op) => { // own code; in a deployment followed by the constructor arguments
  const L = rf.code.length + (rf.deploying ? rf.calldata.length : 0), off = op.off % (L + 1), n = op.n % (L - off + 1); return [off, n];
};
const secRange = op => { const off = op.off % (SECTION.length + 1), n = op.n % (SECTION.length - off + 1); return [off, n]; };
const pad = (buf, off, n) => { const r = Buffer.alloc(n); buf.copy(r, 0, Math.min(off, buf.length), Math.min(off + n, buf.length)); return r; };

const OPS = {
  sstore: {
    real(fr, op) {
      const e = fr.ex, R = op.r;
      if (R === 'u') e.wrapper_sstore_u256(fr.put(0, op.k, 'u'), fr.put(1, op.v, 'u'));
      else if (R === 'b') e.wrapper_sstore_bytes32(fr.put(0, op.k, 'b'), fr.put(1, op.v, 'b'));
      else e.wrapper_sstore_u256_using_little_endian_hostapi(fr.put(0, op.k, 'b'), fr.put(1, op.v, 'u'));
    },
    ref(rf, op) { if (rf.static) return TRAP; rf.world.sstore(rf.self, op.k, op.v); },
  },
  sload: {
    real(fr, op) {
      const e = fr.ex, k = fr.put(0, op.k, 'b');
      if (op.r === 'u') return res(fr, op, 'u', p => e.wrapper_sload_u256(k, p));
      if (op.r === 'b') return res(fr, op, 'b', p => e.wrapper_sload_bytes32(k, p));
      return res(fr, op, 'u', p => e.wrapper_sload_u256_using_little_endian_hostapi(k, p));
    },
    ref(rf, op) { return { val: rf.world.sload(rf.self, op.k) }; },
  },
  tstore: {
    real(fr, op) { if (op.r === 'u') fr.ex.wrapper_tstore_u256(fr.put(0, op.k, 'u'), fr.put(1, op.v, 'u')); else fr.ex.wrapper_tstore_bytes32(fr.put(0, op.k, 'b'), fr.put(1, op.v, 'b')); },
    ref(rf, op) { if (rf.static) return TRAP; rf.world.tstore(rf.self, op.k, op.v); },
  },
  tload: {
    real(fr, op) { const k = fr.put(0, op.k, 'b'); return res(fr, op, op.r === 'u' ? 'u' : 'b', p => (op.r === 'u' ? fr.ex.wrapper_tload_u256(k, p) : fr.ex.wrapper_tload_bytes32(k, p))); },
    ref(rf, op) { return { val: rf.world.tload(rf.self, op.k) }; },
  },
  mstore: { // r: u, b: 32-byte value; 4, 8: narrow value stored as a full word; 1: single byte
    real(fr, op) {
      const e = fr.ex, at = O(fr.rf, op.at), v = w2n(op.v);
      if (op.r === 'u') e.wrapper_mstore_u256(at, fr.put(0, op.v, 'u'));
      else if (op.r === 'b') e.wrapper_mstore_bytes32(at, fr.put(0, op.v, 'b'));
      else if (op.r === 4) e.wrapper_mstore_u32(at, Number(v & 0xffffffffn) | 0);
      else if (op.r === 8) e.wrapper_mstore_u64(at, BigInt.asIntN(64, v));
      else e.wrapper_mstore_u8(at, Number(v & 255n));
    },
    ref(rf, op) {
      const at = O(rf, op.at), v = w2n(op.v), w = x => Buffer.from(n2w(x), 'hex');
      rf.mem.write(at, op.r === 4 ? w(v & 0xffffffffn) : op.r === 8 ? w(BigInt.asUintN(64, v)) : op.r === 1 ? w(v).subarray(31) : w(v));
    },
  },
  mload: {
    real(fr, op) {
      const e = fr.ex, at = O(fr.rf, op.at);
      if (op.r === 'u') return res(fr, op, 'u', p => e.wrapper_mload_u256(at, p));
      if (op.r === 'b') return res(fr, op, 'b', p => e.wrapper_mload_bytes32(at, p));
      if (op.r === 4) return (e.wrapper_mload_u32(at) >>> 0).toString(16);
      return BigInt.asUintN(64, e.wrapper_mload_u64(at)).toString(16);
    },
    ref(rf, op) {
      const h = hex(rf.mem.read(O(rf, op.at), 32));
      return { val: op.r === 4 ? (w2n(h) > 0x7fffffffn ? 0x7fffffffn : w2n(h)).toString(16) : op.r === 8 ? BigInt.asUintN(64, w2n(h)).toString(16) : h };
    },
  },
  fill: {
    real(fr, op) {
      const b = bytesOf(op), at = O(fr.rf, op.at); let i = 0;
      for (; i + 32 <= b.length; i += 32) fr.ex.wrapper_mstore_bytes32(at + i, fr.put(0, hex(b.subarray(i, i + 32)), 'b'));
      for (; i < b.length; i++) fr.ex.wrapper_mstore_u8(at + i, b[i]);
    },
    ref(rf, op) { rf.mem.write(O(rf, op.at), bytesOf(op)); },
  },
  mcopy: {
    real(fr, op) { fr.ex.wrapper_mcopy(O(fr.rf, op.at), O(fr.rf, op.src), op.n); },
    ref(rf, op) { rf.mem.write(O(rf, op.at), rf.mem.read(O(rf, op.src), op.n)); },
  },
  keccak: {
    real(fr, op) { const at = O(fr.rf, op.at); return res(fr, op, 'b', p => fr.ex.wrapper_keccak256(at, op.n, p)); },
    ref(rf, op) { return { val: hex(keccak256(rf.mem.read(O(rf, op.at), op.n))) }; },
  },
  guard: { real(fr, op) { return String(fr.ex.wrapper_memory_guard(op.n) >>> 0 >= op.n); }, ref(rf, op) { return { need: op.n, val: 'true' }; } },
  cdload: {
    real(fr, op) { return res(fr, op, op.r, p => (op.r === 'u' ? fr.ex.wrapper_calldataload_u256(op.off | 0, p) : fr.ex.wrapper_calldataload_bytes32(op.off | 0, p))); },
    ref(rf, op) { return { val: hex(pad(rf.calldata, op.off, 32)) }; },
  },
  cdsize: { real(fr) { return String(fr.ex.wrapper_calldata_size() >>> 0); }, ref(rf) { return { val: String(rf.calldata.length) }; } },
  cdsize4: { real(fr) { return String(fr.ex.wrapper_calldata_size_minus_4() | 0); }, ref(rf) { return { val: String(rf.calldata.length - 4) }; } },
  cdsel: { real(fr) { return (fr.ex.wrapper_calldata_load_selector() >>> 0).toString(16); }, ref(rf) { return { val: pad(rf.calldata, 0, 4).readUInt32BE(0).toString(16) }; } },
  cdcopy: {
    real(fr, op) { fr.ex.wrapper_calldata_copy(O(fr.rf, op.at), op.off | 0, op.n); },
    ref(rf, op) { rf.mem.write(O(rf, op.at), pad(rf.calldata, op.off, op.n)); },
  },
  log: {
    real(fr, op) {
      const at = O(fr.rf, op.at), t = op.t.map((w, i) => fr.put(i, w, 'b'));
      fr.ex['wrapper_log' + t.length](at, op.n, ...t);
    },
    ref(rf, op) { if (rf.static) return TRAP; rf.world.log({ a: rf.self, d: hex(rf.mem.read(O(rf, op.at), op.n)), t: op.t }); },
  },
  ret: { real(fr, op) { fr.ex.wrapper_return(O(fr.rf, op.at), op.n); }, ref(rf, op) { return { end: { status: 0, data: rf.mem.read(O(rf, op.at), op.n) } }; } },
  rev: { real(fr, op) { fr.ex.wrapper_revert(O(fr.rf, op.at), op.n); }, ref(rf, op) { return { end: { status: 1, data: rf.mem.read(O(rf, op.at), op.n) } }; } },
  stop: { real(fr) { fr.ex.wrapper_stop(); }, ref() { return { end: { status: 0, data: Buffer.alloc(0) } }; } },
  invalid: { real(fr) { fr.ex.wrapper_invalid(); }, ref() { return { end: { status: 2, data: Buffer.alloc(0) } }; } },
  selfdestruct: {
    real(fr, op) { fr.ex.wrapper_selfdestruct(fr.put(0, addrWord(op, T(fr, op.a)), 'b')); },
    ref(rf, op) {
      if (rf.static) return TRAP;
      const to = T(rf, op.a); if (to !== rf.self) rf.world.transfer(rf.self, to, rf.world.bal(rf.self));
      return { end: { status: 0, data: Buffer.alloc(0), how: 'selfdestruct' } };
    },
  },
  call: {
    real(fr, op) {
      const e = fr.ex, to = fr.put(0, addrWord(op, T(fr, op.to)), 'b'), g = BigInt.asIntN(64, BigInt('0x' + op.gas)), i = O(fr.rf, op.in), o = O(fr.rf, op.out);
      if (op.kind === 'call') return String(e.wrapper_call_contract(g, to, fr.put(1, word(op.value), 'u'), i, op.n, o, op.outLen));
      return String(e[op.kind === 'static' ? 'wrapper_staticcall' : 'wrapper_delegatecall'](g, to, i, op.n, o, op.outLen));
    },
    ref(rf, op, fr) {
      rf.mem.read(O(rf, op.in), op.n);
      if (rf.static && op.kind === 'call' && w2n(op.value) > 0n) return TRAP;
      const s = fr.sub; if (!s) throw new Violation(op.kind + ' was not passed to the host');
      rf.ret = s.ret;
      const copy = () => { const n = Math.min(op.outLen, s.ret.length); rf.mem.write(O(rf, op.out), s.ret.subarray(0, n)); };
      if (s.st === 0) return { val: '1', apply: copy };
      const pre = precompile(T(rf, op.to)), txt = t => ({ status: 1, data: Buffer.from(t) });
      if (s.st === 2) return pre ? { val: '0', end: { alts: [txt('call contract failed')] } } : { end: txt('call contract failed') };
      if (pre) return { val: '0' };
      const alts = [];
      if (s.ret.length) alts.push({ status: 1, data: s.ret }); else alts.push(txt('call failed with no revert data'));
      if (s.ret.length > 1024) alts.push(txt('out length is not enough'));
      return { val: '0', apply: copy, end: { alts } };
    },
  },
  create: {
    real(fr, op) {
      if (!createParts(fr.rf, op)) return 'skip';
      const at = O(fr.rf, op.at), v = fr.put(0, word(op.value), 'u');
      return res(fr, op, 'b', p => (op.salt === undefined ? fr.ex.wrapper_create(v, at, op.len, p) : fr.ex.wrapper_create2(v, at, op.len, fr.put(1, word(op.salt), 'u'), p)));
    },
    ref(rf, op, fr) {
      if (!createParts(rf, op)) return { val: 'skip' };
      rf.mem.read(O(rf, op.at), op.len);
      if (rf.static) return TRAP;
      const s = fr.sub; if (!s) throw new Violation('creation was not passed to the host');
      rf.ret = Buffer.alloc(0);
      if (s.st === 0) return { val: word(s.addr) };
      return { end: { status: 1, data: Buffer.from(op.salt === undefined ? 'create contract failed' : 'create2 contract failed') } };
    },
  },
  setimm: {
    real(fr, op) { fr.ex.wrapper_setimmutable(op.x | 0, fr.put(0, op.k, 'u'), fr.put(1, op.v, 'u')); },
    ref(rf, op) {
      const f = Buffer.from(op.k, 'hex'), p = Buffer.from('setimmutable_'); for (let i = 0; i < 13; i++) f[i] = (f[i] + p[i]) & 255;
      if (rf.world.sload(rf.self, hex(f)) !== Z) return { end: { status: 1, data: Buffer.from('immutable slot already set') } };
      if (rf.static) return TRAP;
      rf.world.sstore(rf.self, op.k, op.v); rf.world.sstore(rf.self, hex(f), word('1'));
    },
  },
  loadimm: { real(fr, op) { const k = fr.put(0, op.k, 'u'); return res(fr, op, 'u', p => fr.ex.wrapper_loadimmutable(k, p)); }, ref(rf, op) { return { val: rf.world.sload(rf.self, op.k) }; } },
  erc20: { real(fr, op) { fr.ex.wrapper_optimized_erc20_fun_transfer(fr.put(0, op.from, 'b'), fr.put(1, op.to, 'b'), fr.put(2, op.value, 'b')); }, ref: transferRef },
  rdsize: { real(fr) { return String(fr.ex.wrapper_returndata_size() >>> 0); }, ref(rf) { return { val: String(rf.ret.length) }; } },
  rdcopy: {
    real(fr, op) { const [off, n] = rdRange(fr.rf, op); fr.ex.wrapper_returndata_copy(O(fr.rf, op.at), off, n); },
    ref(rf, op) { const [off, n] = rdRange(rf, op); rf.mem.write(O(rf, op.at), rf.ret.subarray(off, off + n)); },
  },
  codesize: { real(fr) { return String(fr.ex.wrapper_current_contract_code_size() >>> 0); }, ref(rf) { return { val: String(rf.code.length + (rf.deploying ? rf.calldata.length : 0)) }; } },
  puresize: { real(fr) { return String(fr.ex.wrapper_current_contract_pure_contract_size() >>> 0); }, ref(rf) { return { val: String(rf.code.length) }; } },
  codecopy: {
    real(fr, op) { const [off, n] = ccRange(fr.rf, op); fr.ex.wrapper_codecopy(O(fr.rf, op.at), off, n); },
    ref(rf, op) { const [off, n] = ccRange(rf, op); rf.mem.write(O(rf, op.at), Buffer.concat(rf.deploying ? [rf.code, rf.calldata] : [rf.code]).subarray(off, off + n)); },
  },
  extsize: { real(fr, op) { return String(fr.ex.wrapper_extcode_size(fr.put(0, addrWord(op, T(fr, op.a)), 'b')) >>> 0); }, ref(rf, op) { return { val: String(rf.world.getCode(T(rf, op.a)).length) }; } },
  exthash: { real(fr, op) { const a = fr.put(0, addrWord(op, T(fr, op.a)), 'b'); return res(fr, op, 'b', p => fr.ex.wrapper_extcode_hash(a, p)); }, ref(rf, op) { return { val: rf.world.codeHash(T(rf, op.a)) }; } },
  extcopy: {
    real(fr, op) { fr.ex.wrapper_extcode_copy(fr.put(0, addrWord(op, T(fr, op.a)), 'b'), O(fr.rf, op.at), op.off, op.n); },
    ref(rf, op) { rf.mem.write(O(rf, op.at), pad(rf.world.getCode(T(rf, op.a)), op.off, op.n)); },
  },
  section: { // embedded data, addressed relative to the memory base
    real(fr, op) {
      const [off, n] = secRange(op), src = fr.sectionAt, at = O(fr.rf, op.at);
      if (src >= 0) throw new Violation('embedded data is not addressable below the memory base');
      if (op.how === 'd') fr.ex.wrapper_data_copy(at, src + off, n); else fr.ex.wrapper_codecopy(at, src + off, n);
    },
    ref(rf, op) { const [off, n] = secRange(op); rf.mem.write(O(rf, op.at), SECTION.subarray(off, off + n)); },
  },
  alloca: {
    real(fr, op) {
      for (let i = 0; i < op.n; i++) {
        const p = (i & 1 ? fr.ex.memory_alloca_u256() : fr.ex.memory_alloca_bytes32()) >>> 0;
        if (p + 32 > fr.memory.buffer.byteLength) throw new Violation(`working value ${fr.slots.length} lies outside memory`);
        const v = slotValue(fr.slots.length); fr.u8().set(v, p); fr.slots.push({ ptr: p, v });
      }
    },
    ref() {},
  },
  slotset: { real(fr, op) { if (!fr.slots.length) return; const s = fr.slots[op.i % fr.slots.length]; s.v = Buffer.from(op.v, 'hex'); fr.u8().set(s.v, s.ptr); }, ref() {} },
  zero: { real(fr) { return fr.get(fr.ex.wrapper_zero_bytes32(), 'b'); }, ref() { return { val: Z }; } },
  setptr: { real(fr, op) { fr.ex.wrapper_set_memptr_global(op.v); }, ref(rf, op) { rf.memptr = op.v; } },
  getptr: { real(fr) { return String(fr.ex.wrapper_get_memptr_global()); }, ref(rf) { return { val: String(rf.memptr) }; } },
  alloc: {
    real(fr, op) { return String(fr.ex.wrapper_allocate_memory(op.n | 0)); },
    ref(rf, op) {
      const len = Math.floor((op.n + 31) / 32) * 32; if (rf.memptr + len > 0x7fffffff) return FAIL;
      return { val: String(rf.memptr), apply: () => { (rf.regions = rf.regions || []).push({ off: rf.memptr, len }); rf.memptr += len; } };
    },
  },
  init: { real(fr, op) { fr.ex.__init_evm_heap(op.v); }, ref() {} },
};
// word primitives: [operand representation, result representation, real, EVM result]; a, b, m are words, n a small number
const M256 = (1n << 256n) - 1n, sgn = v => (v >> 255n ? v - (1n << 256n) : v), B = v => (v ? '1' : '0');
const cmp = f => ['b', '?', (e, p) => e[f[0]](p[0], p[1]), (a, b) => f[1](w2n(a), w2n(b))];
const bin = (f, g) => ['b', 'b', (e, p, n, r) => e[f](p[0], p[1], r), (a, b) => n2w(g(w2n(a), w2n(b)) & M256)];
const MATH = {
  lt: cmp(['wrapper_bytes32_lt', (a, b) => a < b]), gt: cmp(['wrapper_bytes32_gt', (a, b) => a > b]), eq: cmp(['wrapper_bytes32_eq', (a, b) => a === b]),
  slt: cmp(['wrapper_bytes32_slt', (a, b) => sgn(a) < sgn(b)]), sgt: cmp(['wrapper_bytes32_sgt', (a, b) => sgn(a) > sgn(b)]),
  iszero: ['b', '?', (e, p) => e.wrapper_bytes32_iszero(p[0]), a => w2n(a) === 0n],
  not: ['b', 'b', (e, p, n, r) => e.wrapper_bytes32_not(p[0], r), a => n2w(M256 ^ w2n(a))],
  and: bin('wrapper_bytes32_and', (a, b) => a & b), or: bin('wrapper_bytes32_or', (a, b) => a | b), xor: bin('wrapper_bytes32_xor', (a, b) => a ^ b), add: bin('wrapper_bytes32_add', (a, b) => a + b),
  exp: ['u', 'u', (e, p, n, r) => e.wrapper_exp(p[0], p[1], r), (a, b) => { let x = 1n, y = w2n(a); for (let k = w2n(b); k; k >>= 1n) { if (k & 1n) x = x * y & M256; y = y * y & M256; } return n2w(x); }],
  signext: ['u', 'u', (e, p, n, r) => e.wrapper_sign_extend(n | 0, p[0], r), (a, b, m, n) => (n > 30 ? a : n2w(BigInt.asIntN(8 * n + 8, w2n(a)) & M256))],
  addmod: ['b', 'b', (e, p, n, r) => e.wrapper_addmod(p[0], p[1], p[2], r), (a, b, m) => n2w(w2n(m) ? (w2n(a) + w2n(b)) % w2n(m) : 0n)],
  mulmod: ['b', 'b', (e, p, n, r) => e.wrapper_mulmod(p[0], p[1], p[2], r), (a, b, m) => n2w(w2n(m) ? (w2n(a) * w2n(b)) % w2n(m) : 0n)],
  tobe: ['u', 'b', (e, p, n, r) => e.u256_to_big_endian_bytes(p[0], r), a => a], frombe: ['b', 'u', (e, p, n, r) => e.u256_from_big_endian_bytes(p[0], r), a => a],
  decode: ['b', 'u', (e, p, n, r) => e.wrapper_decode_big_endian_i256_from_wasm_mem(p[0], r), a => a],
  i32tobe: ['b', 'b', (e, p, n, r) => e.i32_to_bytes32_big_endian_bytes(n | 0, r), (a, b, m, n) => n2w(BigInt(n))],
  i32frombe: ['b', '#', (e, p) => e.i32_from_big_endian_bytes32(p[0]) >>> 0, a => w2n(a) & 0xffffffffn], off32: ['b', '#', (e, p) => e.i32_offset_from_big_endian_bytes32(p[0]), a => (w2n(a) > 0x7fffffffn ? 0x7fffffffn : w2n(a))],
};
for (const [k, f] of [['shl', (v, n) => (v << n) & M256], ['shr', (v, n) => v >> n]]) for (const R of ['b', 'u'])
  MATH[k + R] = [R, R, (e, p, n, r) => e[`wrapper_${R === 'b' ? 'bytes32' : 'u256'}_${k}`](p[0], n | 0, r), (a, b, m, n) => n2w(n > 255 ? 0n : f(w2n(a), BigInt(n)))];
const operand = (rf, x) => (x === '@' ? rf.acc || Z : x); // '@': what the previous primitive returned
OPS.math = {
  real(fr, op) {
    const [I, R, real] = MATH[op.q], p = ['a', 'b', 'm'].map((k, i) => op[k] === undefined ? 0 : op.same && i ? fr.cell(0) : fr.put(i, operand(fr.rf, op[k]), I));
    if (R === '?') return B(real(fr.ex, p, op.n)); if (R === '#') return String(real(fr.ex, p, op.n));
    return res(fr, op, R, r => real(fr.ex, p, op.n, r));
  },
  ref(rf, op) {
    const [, R, , f] = MATH[op.q], w = ['a', 'b', 'm'].map((k, i) => operand(rf, op[op.same && i ? 'a' : k])), v = f(...w, op.n);
    return R === '?' ? { val: B(v) } : R === '#' ? { val: String(v) } : { val: v, apply: () => { rf.acc = v; } };
  },
};
for (const k in env) OPS[k] = { real: env[k][0], ref: (rf, op) => ({ val: env[k][1](rf, op) }) };
OPS.prevrandao_place = { real(fr, op) { res(fr, op, 'b', p => fr.ex.wrapper_block_prevRandao(p)); }, ref() {} }; // only where it writes
const ENV = Object.keys(env).filter(k => k !== 'isdep' && k !== 'prevrandao'); // prevrandao: known finding
module.exports = { O, reach, OPS, MATH, BULK, ENV, bytesOf, createParts };
