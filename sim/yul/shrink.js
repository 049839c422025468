'use strict';
// Shrinks a failing system (programs and history) while the same class of violation persists.
// Candidates are tried a batch at a time; the first success in their fixed order is taken.
const clone = x => JSON.parse(JSON.stringify(x));
const BLOCKS = { if: s => [s[2]], sw: s => [...s[2].map(c => c[1]), ...(s[3] ? [s[3]] : [])], for: s => [s[1], s[3], s[4]], blk: s => [s[1]], fn: s => [s[4]] };
function blocks(o, out = []) { const w = b => { out.push(b); for (const s of b) if (BLOCKS[s[0]]) BLOCKS[s[0]](s).forEach(w); }; w(o.code); for (const s of o.subs || []) blocks(s, out); return out; }
function exprs(o, out = []) { // places holding an expression: [container, key, fixed]
  const ex = (h, k) => { out.push([h, k]); const e = h[k]; if (e[0] === 'c' && !['datasize', 'dataoffset', 'loadimmutable', 'linkersymbol', 'memoryguard', 'setimmutable'].includes(e[1])) e[2].forEach((_, i) => ex(e[2], i)); };
  for (const b of blocks(o)) for (const s of b) { if ((s[0] === 'let' || s[0] === 'set') && s[2]) ex(s, 2); else if (s[0] === 'if' || s[0] === 'sw' || s[0] === 'x') ex(s, 1); else if (s[0] === 'for') ex(s, 2); }
  return out;
}
const objs = s => s.programs.map(p => p.obj);
function* candidates(s) {
  for (const k of ['steps', 'cuts', 'runs', 'opts', 'sems']) if (Array.isArray(s[k]) && s[k].length > (k === 'runs' || k === 'opts' ? 2 : 1)) for (let n = s[k].length >> 1; n >= 1; n >>= 1) for (let i = s[k].length - n; i >= 0; i -= n) { const c = clone(s); c[k].splice(i, n); if (c[k].length >= (k === 'runs' || k === 'opts' ? 2 : 1)) yield c; }
  if (s.trace) for (let n = s.trace.txs.length, size = n >> 1; size >= 1; size >>= 1) for (let i = n - size; i >= 0; i -= size) { const c = clone(s); c.trace.txs.splice(i, size); if (c.trace.txs.length) yield c; }
  for (let p = 0; p < s.programs.length; p++) { if (s.programs[p].style) { const c = clone(s); c.programs[p].style = 0; yield c; } if (s.programs[p].opts !== 'def') { const c = clone(s); c.programs[p].opts = 'def'; yield c; } }
  for (let p = 0; p < s.programs.length; p++) {
    const bs = blocks(s.programs[p].obj);
    const sizes = new Set(); for (const b of bs) for (let z = b.length; z >= 1; z >>= 1) sizes.add(z);
    for (const z of [...sizes].sort((a, b) => b - a)) for (let bi = 0; bi < bs.length; bi++) if (z <= bs[bi].length) for (let i = bs[bi].length - z; i >= 0; i -= z) { const c = clone(s); blocks(c.programs[p].obj)[bi].splice(i, z); yield c; }
    for (let bi = 0; bi < bs.length; bi++) for (let i = 0; i < bs[bi].length; i++) { // a statement becomes one of its blocks
      const k = BLOCKS[bs[bi][i][0]]; if (!k || bs[bi][i][0] === 'fn') continue;
      for (let j = 0; j < k(bs[bi][i]).length; j++) { const c = clone(s), b = blocks(c.programs[p].obj)[bi]; b.splice(i, 1, ...k(b[i])[j]); yield c; }
    }
    for (let bi = 0; bi < bs.length; bi++) for (let i = 0; i < bs[bi].length; i++) if (bs[bi][i][0] === 'sw') for (let j = 0; j < bs[bi][i][2].length; j++) { const c = clone(s); blocks(c.programs[p].obj)[bi][i][2].splice(j, 1); yield c; }
    const n = exprs(s.programs[p].obj).length;
    for (let e = 0; e < n; e++) {
      const [h, k] = exprs(s.programs[p].obj)[e], x = h[k]; if (typeof k === 'number' ? x[0] === 'n' && x[1].length < 2 : x[0] === 'n' && x[1].length < 2) continue;
      const put = y => { const c = clone(s), [h2, k2] = exprs(c.programs[p].obj)[e]; h2[k2] = y; return c; };
      if (x[0] === 'c') for (const a of x[2]) yield put(clone(a));
      if (x[0] !== 'n') { yield put(['n', '0', 'd']); yield put(['n', '1', 'd']); }
      else if (x[1].length > 2 && x[1] !== '80') { yield put(['n', '1', 'd']); yield put(['n', x[1].slice(0, x[1].length >> 1), x[2]]); }
    }
    const o = s.programs[p].obj;
    if (o.data && o.data.length) { const c = clone(s); c.programs[p].obj.data = []; yield c; }
    for (let i = 0; i < o.subs.length; i++) if (o.subs[i].data && o.subs[i].data.length) { const c = clone(s); c.programs[p].obj.subs[i].data = []; yield c; }
  }
  if (s.trace) for (let i = 0; i < s.trace.txs.length; i++) {
    const t = s.trace.txs[i];
    for (const k of ['fault', 'refuse', 'scripts']) if (t[k] !== undefined) { const c = clone(s); delete c.trace.txs[i][k]; yield c; }
    if (t.data) { const c = clone(s); c.trace.txs[i].data = t.data.slice(0, 8) === t.data ? '' : t.data.slice(0, 8); yield c; const d = clone(s); d.trace.txs[i].data = t.data.slice(0, t.data.length - 64 > 8 ? t.data.length - 64 : t.data.length >> 2 << 1); if (d.trace.txs[i].data !== t.data) yield d; }
    if (t.value !== '0') { const c = clone(s); c.trace.txs[i].value = '0'; yield c; }
  }
}
// names used outside their scope: a candidate must not use one the original does not
function loose(sys) {
  const out = new Set();
  for (const p of sys.programs) (function obj(o, path) {
    const at = path + '/' + o.name, fns = new Set(); blocks({ code: o.code }).forEach(b => b.forEach(s => { if (s[0] === 'fn') fns.add(s[1]); }));
    const use = (e, sc) => { if (e[0] === 'v') { if (!sc.has(e[1])) out.add(at + ' ' + e[1]); } else if (e[0] === 'c') { if (!fns.has(e[1])) out.add(at + ' ' + e[1] + '()'); e[2].forEach(a => use(a, sc)); } };
    const blk = (b, up) => { const sc = new Set(up); for (const s of b) st(s, sc); return sc; };
    const tuple = s => { if (s[1].length > 1 && s[2]) out.add(at + ' tuple ' + s[1].length + ' ' + (s[2][0] === 'c' && s[2][1])); }; let depth = 0;
    const st = (s, sc) => {
      switch (s[0]) {
        case 'let': tuple(s); if (s[2]) use(s[2], sc); s[1].forEach(n => sc.add(n)); break;
        case 'set': tuple(s); use(s[2], sc); s[1].forEach(n => use(['v', n], sc)); break;
        case 'if': use(s[1], sc); blk(s[2], sc); break;
        case 'sw': use(s[1], sc); s[2].forEach(c => blk(c[1], sc)); if (s[3]) blk(s[3], sc); if (!s[2].length && !s[3]) out.add(at + ' empty switch'); break;
        case 'for': { const i = blk(s[1], sc); use(s[2], i); blk(s[3], i); depth++; blk(s[4], i); depth--; break; }
        case 'brk': case 'cont': if (!depth) out.add(at + ' ' + s[0]); break;
        case 'blk': blk(s[1], sc); break;
        case 'x': use(s[1], sc); break;
        case 'fn': blk(s[4], new Set([...s[2], ...s[3]])); break;
      }
    };
    blk(o.code, new Set()); for (const x of o.subs || []) obj(x, at);
  })(p.obj, '');
  return out;
}
async function shrink(sys, test, width = 8, budget = 700, until = Infinity) {
  let best = clone(sys), runs = 0, skip = 0; const free = loose(sys), all = test;
  test = async c => { for (const n of loose(c)) if (!free.has(n)) return false; return all(c); };
  for (;;) {
    let it = candidates(best), pos = 0, hit = null, any = false;
    const seen = [];
    // start where the last success was: earlier candidates have just failed on a very similar system
    for (let lap = 0; lap < 2 && !hit; lap++) {
      it = candidates(best); pos = 0; let batch = [];
      const flush = async () => { if (!batch.length) return; runs += batch.length; const rs = await Promise.all(batch.map(([c]) => test(c))); const k = rs.findIndex(Boolean); if (k >= 0) { hit = batch[k][0]; skip = batch[k][1]; } batch = []; };
      for (const c of it) {
        const at = pos++; if (lap === 0 ? at < skip : at >= skip) continue;
        batch.push([c, at]); if (batch.length >= width) { await flush(); if (hit || runs > budget || Date.now() > until) break; }
      }
      if (!hit && runs <= budget && Date.now() <= until) await flush();
      if (runs > budget || Date.now() > until) break;
    }
    if (!hit) break;
    best = hit; if (runs > budget || Date.now() > until) break;
  }
  return { sys: best, runs };
}
module.exports = { shrink };
