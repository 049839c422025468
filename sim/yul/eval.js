'use strict';
// One evaluation: compile the programs of a system with the real compiler, run its history, judge it.
const { compile, program } = require('./compiler'), { print } = require('./lang'), { Run } = require('./host');
const LLVMCRASH = 'LLVM 16 itself crashes on a valid module';
const tidy = s => s.replace(/\x1b\[[0-9;]*m/g, '').replace(/\/tmp\/\S+/g, 'PATH').replace(/0x[0-9a-f]+/gi, '#').replace(/\d+/g, 'N');
function compileError(r) {
  const ls = r.out.split('\n').map(l => l.trim()).filter(Boolean);
  const i = ls.findIndex(l => /panicked|LLVM ERROR|error/i.test(l));
  const l = i < 0 ? ls[0] || '' : /panicked/.test(ls[i]) && ls[i + 1] && !/panicked at '/.test(ls[i]) ? ls[i] + ' ' + ls[i + 1] : ls[i];
  return { msg: `the compiler ends with ${r.signal || 'status ' + r.status}: ${l.slice(0, 300)}`, cls: 'compile ' + (r.signal || r.status) + ' ' + tidy(l).slice(0, 90) };
}
function evaluate(c, sys, opt = {}) {
  const ps = [], st = { compiles: 0, compileMs: 0, bytes: 0, stmts: 0 };
  for (const p of sys.programs) {
    const t0 = Date.now(), r = compile(c, print(p.obj, p.style), p.opts, p.obj.name, { symbols: p.symbols });
    st.compiles++; st.compileMs += Date.now() - t0;
    if (r.backend) return { ...st, events: 0, hash: 0, unmodelled: LLVMCRASH };
    if (!r.ok) return { ...st, events: 0, hash: 0, violation: { ...compileError(r), where: { compile: true } } };
    try { ps.push(Object.assign(program(p.obj, r), { cached: /^all/.test(p.opts) && !sys.strict })); } catch (e) { return { ...st, events: 0, hash: 0, violation: { msg: 'the compiled contract is not a valid module: ' + e.message, cls: 'invalid module', where: { compile: true } } }; }
    st.bytes += ps[ps.length - 1].bytes.length;
  }
  return { ...st, ...new Run(ps, sys.trace, opt).go() };
}
module.exports = { evaluate, compileError, LLVMCRASH };
