'use strict';
// Properties of the compiler: seeded search over simulated executions of really compiled contracts and of
// the compiler itself. Called by ../check.js.
const fs = require('fs'), path = require('path'), os = require('os'), { spawnSync } = require('child_process');
const { build } = require('./compiler'), { Pool } = require('./pool'), { make, execute } = require('./jobs'), { shrink } = require('./shrink'), { simLib } = require('./osrun');
const { print } = require('./lang'), { findings } = require('../lib/findings');
const ROOT = path.join(__dirname, '..', '..');
const PROPS = { // runs: quick, thorough
  P20: { runs: [420, 12000], what: 'one generated contract program (or one of the collected programs) compiled by the real compiler, deployed on the simulated chain and driven through a history with faults' },
  P21: { runs: [160, 4000], what: 'one program compiled under three option sets, each driven through the same history with faults' },
  P22: { runs: [84, 3000], what: 'one program compiled three times by processes with different randomness, clock, ids, heap layout, directories, environment and leftovers' },
  P23: { runs: [56, 2500], what: 'one history of compilations on a simulated disk with a fault at an operation of the compiler or the linker, damaged input or bad arguments' },
  P30: { runs: [240, 6000], what: 'one program text in an unusual form compiled and driven through a history, or one source file damaged in 24 ways' },
  P31: { runs: [100, 3000], what: 'one program in two texts that differ in comments and white space, compiled, compared and driven through a history' },
  P32: { runs: [380, 10000], what: 'one arithmetic-heavy program compiled (in number or word representation) and driven through a history' },
};
const die = (m, e) => { console.error('ERROR: ' + m + (e ? '\n' + (e.stack || '') + ' ' + (e.message || e) : '')); process.exit(2); };
function scratch() { const d = fs.mkdtempSync(path.join(os.tmpdir(), 'dtvmyul-')); process.on('exit', () => fs.rmSync(d, { recursive: true, force: true })); for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2)); return d; }
function prepare() { let c; try { c = build(); } catch (e) { die('build', e); } c.tmp = scratch(); process.env.SIM_LIB = simLib(); return c; }
function report(o) { return `${o.violation.msg} at ${JSON.stringify(o.violation.where)} events=${o.events} hash=${o.hash}`; }
function replay(file, f) {
  const c = prepare(), o = execute(c, f.sys);
  if (process.env.VERIF_LOG) for (const p of f.sys.programs) console.log(`options ${p.opts}\n${print(p.obj, p.style)}`);
  if (o.violation) { console.log(report(o)); console.log(`VIOLATION property=${f.property} replay=${file}`); process.exit(1); }
  console.log(`no violation, events=${o.events} hash=${o.hash}`); process.exit(0);
}
async function main(prop, entry, flags, extra) {
  const t0 = Date.now(), tier = process.env.VERIF_TIER === 'thorough' || process.argv.includes('--thorough') ? 'thorough' : 'quick';
  const seed = Number(process.env.VERIF_SEED || 1), P = PROPS[prop], total = Number(process.env.VERIF_RUNS || P.runs[tier === 'quick' ? 0 : 1]);
  const c = prepare(), buildS = (Date.now() - t0) / 1000, limit = Number(process.env.VERIF_SECONDS || (tier === 'quick' ? 400 : 3 * 3600)) * 1000;
  console.log(`property ${prop} seed ${seed} tier ${tier} runs ${total}, compiler built in ${buildS.toFixed(1)} s`);
  const pool = new Pool(c), agg = { runs: 0, events: 0, compiles: 0, txs: 0, frames: 0, hostCalls: 0, simTime: 0, unmodelled: 0 }, faults = {}, probes = {}, opts = {}, why = {};
  const hashes = new Map(), viols = [], known = []; let failed = null;
  for (const f of findings(ROOT).filter(f => f.property === prop)) {
    const sys = JSON.parse(fs.readFileSync(path.join(ROOT, f.trace), 'utf8')).sys, o = await pool.run({ sys });
    if (o.failed) die('known finding ' + f.id + ': ' + o.failed);
    if (!o.violation) { console.log(`recorded finding ${f.id} does not occur any more`); continue; }
    if (f.cls === '*' || o.violation.cls === f.cls) { console.log(`KNOWN-FINDING: property=${prop} ${f.what}`); known.push(f.id); } else viols.push({ i: f.id, o, sys });
  }
  let next = 0, late = false;
  await Promise.all([...Array(10)].map(async () => {
    for (;;) {
      if (viols.length || failed || next >= total) return;
      if (Date.now() - t0 > limit) { late = true; return; }
      const i = next++, o = await pool.run({ prop, seed, i });
      if (o.failed) { failed = `run ${i}: ${o.failed}`; return; }
      agg.runs++; for (const k of ['events', 'compiles', 'txs', 'frames', 'hostCalls', 'simTime']) agg[k] += o[k] || 0;
      for (const x in o.faults || {}) faults[x] = (faults[x] || 0) + o.faults[x]; for (const x in o.probes || {}) probes[x] = (probes[x] || 0) + o.probes[x]; for (const x in o.opts || {}) opts[x] = (opts[x] || 0) + 1;
      if (o.unmodelled) { agg.unmodelled++; why[o.unmodelled] = (why[o.unmodelled] || 0) + 1; }
      hashes.set(i, { h: o.hash, e: o.events });
      if (o.violation) viols.push({ i, o });
    }
  }));
  if (failed) die(failed);
  let rechecked = 0;
  if (!viols.length) { // the same seeds again, in other processes, must give the same logs
    const ks = [...hashes.keys()].sort((a, b) => a - b), sel = [...Array(Math.min(8, ks.length)).keys()].map(k => ks[Math.floor(k * ks.length / 8)]);
    const rs = await Promise.all(sel.map(i => pool.run({ prop, seed, i })));
    rs.forEach((o, k) => { if (o.hash !== hashes.get(sel[k]).h) die(`run ${sel[k]} is not deterministic`); rechecked++; });
  }
  let file = null;
  if (viols.length) {
    viols.sort((a, b) => (typeof a.i === 'number' ? a.i : -1) - (typeof b.i === 'number' ? b.i : -1));
    const { i, o } = viols[0], orig = viols[0].sys || make(prop, seed, i), cls = o.violation.cls;
    const m = await shrink(orig, async s => { const x = await pool.run({ sys: s }); return x.violation && x.violation.cls === cls; }, 8, tier === 'quick' ? 300 : 1500, Date.now() + (tier === 'quick' ? 120000 : 900000));
    let sys = m.sys, fin = await pool.run({ sys });
    if (!fin.violation) { sys = orig; fin = await pool.run({ sys }); }
    if (!fin.violation) die(`run ${i} is not deterministic: ${o.violation.msg}`);
    const dir = path.join(ROOT, 'replays'); fs.mkdirSync(dir, { recursive: true }); file = path.join(dir, `${prop}-${seed}-${i}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: prop, seed, run: i, violation: fin.violation, minimisation_runs: m.runs, hash: fin.hash, events: fin.events, sources: sys.programs.map(p => print(p.obj, 0)), sys }, null, 1));
    const r = spawnSync(process.execPath, [...flags, entry, 'replay', file], { encoding: 'utf8', maxBuffer: 1 << 26 });
    if (r.status !== 1 || !r.stdout.includes('hash=' + fin.hash)) die('the recorded violation does not replay: ' + r.stdout + r.stderr);
    console.log(`run ${i}: ${o.violation.msg}`); console.log(`minimised in ${m.runs} runs: ${report(fin)}`);
  }
  pool.close();
  const wall = (Date.now() - t0) / 1000, sample = make(prop, seed, 0), nt = new Set([...hashes.values()].filter(x => x.e > 4).map(x => x.h));
  const chain = !['P22', 'P23'].includes(prop);
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', prop + '.json'), JSON.stringify({
    property: prop, tier, seed, level: 'exploration', wall_s: wall, violations: file ? 1 : 0,
    assumptions: ['The compiler sources of /repo/src run unmodified, built against thin bindings (yulc/) to the installed LLVM 16 instead of the inkwell, wizer and wasm-opt crates, which are not available offline.',
      chain ? 'The host is a simulated chain that follows hostapi.h; the reference model executes the source program under EVM semantics with the deviations the host interface forces (listed in DESIGN.md).' : 'File operations, randomness, clocks and process ids of the compiler and the linker go through a preloaded simulation of the operating system.'],
    coverage: {
      evaluations: agg.runs, distinct_nontrivial: nt.size,
      rule: `One evaluation is one simulated run, one per seed and run number: ${P.what}. Distinct by hash of the complete event log (${chain ? 'effects, frame ends, commits, compared outputs' : 'operations, exit statuses, output bytes'}); non-trivial means more than four events.`,
      samples: [{ run: 0, source: print(sample.programs[0].obj, sample.programs[0].style).slice(0, 1200), history: JSON.stringify(sample.trace ? sample.trace.txs : sample.steps || sample.runs || sample.cuts).slice(0, 800) }],
      runs_per_hour: Math.round(agg.runs / wall * 3600), compilations: agg.compiles, events: agg.events, transactions: agg.txs, frames: agg.frames, host_calls: agg.hostCalls, simulated_chain_seconds: agg.simTime,
      faults_injected: faults, probes, option_sets: opts, outside_the_model: why, determinism_rechecked_runs: rechecked, stopped_by_deadline: late, build_s: buildS, known_findings: known, runtime_histories: extra,
      real_components: ['src/ (the compiler with parser, lowering, optimisers, command line)', 'stdlib/ (linked into every contract)', 'LLVM 16, wasm-ld'], stub_components: chain ? ['host chain', 'wasm-opt (copies)', 'wizer (copies)', 'compiler-rt integer helpers'] : ['operating system calls', 'wasm-opt (copies)', 'wizer (copies)', 'compiler-rt integer helpers'],
    },
  }, null, 1));
  console.log(`${agg.runs} runs, ${agg.compiles} compilations, ${agg.events} events, ${nt.size} distinct, faults ${JSON.stringify(faults)}, ${wall.toFixed(1)} s`);
  if (file) { console.log(`VIOLATION property=${prop} replay=${file}`); process.exit(1); }
  process.exit(0);
}
module.exports = { main, replay, PROPS };
