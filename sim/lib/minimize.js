'use strict';
// Shrinks a failing trace while the same class of violation persists. Bounded by a number of runs, not by time.
const clone = x => JSON.parse(JSON.stringify(x));
function lists(t) { // every operation list of the trace, outermost first
  const out = []; const walk = f => { if (f && f.ops) { out.push(f); for (const op of f.ops) if (op.child) walk(op.child); } };
  for (const tx of t.txs) walk(tx); return out;
}
function minimize(trace, test, budget = 900) {
  let best = clone(trace), left = budget;
  const attempt = mut => { if (left <= 0) return false; const c = clone(best); if (mut(c) === false) return false; left--; if (test(c)) { best = c; return true; } return false; };
  for (let round = 0; round < 6 && left > 0; round++) {
    let changed = false;
    for (let i = best.txs.length - 1; i >= 0; i--) if (best.txs.length > 1) changed = attempt(c => { c.txs.splice(i, 1); }) || changed;
    for (let li = 0; li < lists(best).length; li++) { // chunks of operations, then single ones
      let n = lists(best)[li].ops.length;
      for (let size = Math.max(1, n >> 1); size >= 1; size >>= 1)
        for (let i = n - size; i >= 0; i -= size) {
          if (!lists(best)[li]) break;
          if (attempt(c => { const l = lists(c)[li]; if (!l || i >= l.ops.length) return false; l.ops.splice(i, size); })) { changed = true; n = lists(best)[li] ? lists(best)[li].ops.length : 0; }
        }
    }
    const nl = lists(best).length;
    for (let li = 0; li < nl; li++) {
      const cur = () => lists(best)[li]; if (!cur()) break;
      if (cur().pages !== undefined) changed = attempt(c => { delete lists(c)[li].pages; }) || changed;
      for (let i = 0; cur() && i < cur().ops.length; i++) {
        const op = cur().ops[i], L = c => lists(c)[li].ops[i];
        if (op.f) changed = attempt(c => { delete L(c).f; }) || changed;
        for (const k of ['hi', 'rs', 'refuse']) if (op[k] !== undefined) changed = attempt(c => { delete L(c)[k]; }) || changed;
        for (const k of ['n', 'len', 'at', 'src', 'off', 'out', 'in', 'outLen']) if (typeof op[k] === 'number' && op[k] > 0) {
          changed = attempt(c => { L(c)[k] = 0; }) || attempt(c => { L(c)[k] >>>= 1; }) || attempt(c => { L(c)[k] -= 1; }) || changed;
        }
        for (const k of ['v', 'k', 'value']) if (typeof op[k] === 'string' && !/^0*1?$/.test(op[k])) changed = attempt(c => { L(c)[k] = '0'.repeat(63) + '1'; }) || changed;
      }
    }
    for (let i = 0; i < best.txs.length; i++) {
      if (best.txs[i].data) changed = attempt(c => { c.txs[i].data = ''; }) || attempt(c => { c.txs[i].data = c.txs[i].data.slice(0, (c.txs[i].data.length >> 2) * 2); }) || changed;
      if (best.txs[i].value !== '0') changed = attempt(c => { c.txs[i].value = '0'; }) || changed;
      if (best.txs[i].deploy) changed = attempt(c => { delete c.txs[i].deploy; }) || changed;
    }
    if (!changed) break;
  }
  return { trace: best, runs: budget - left };
}
module.exports = { minimize };
