#!/usr/bin/env node
'use strict';
// check.js <property>           seeded search over simulated executions of the real runtime
// check.js replay <file>        replays one recorded execution exactly
// exit 0: held on everything explored, 1: violation, 2: the check itself could not work
const fs = require('fs'), path = require('path'), os = require('os'), { fork, spawnSync } = require('child_process');
const ROOT = path.join(__dirname, '..');
const FLAGS = ['--disable-wasm-trap-handler'];
if (!process.execArgv.includes(FLAGS[0])) {
  const r = spawnSync(process.execPath, [...FLAGS, __filename, ...process.argv.slice(2)], { stdio: 'inherit' });
  process.exit(r.status === null ? 2 : r.status);
}
const { buildAll, VARIANTS, dictionary, REPO } = require('./lib/build');
const { Engine } = require('./lib/exec');
const { generate, PROFILES } = require('./lib/gen');
const { minimize } = require('./lib/minimize');
const { findings } = require('./lib/findings');
const ALL = Object.keys(VARIANTS);
const RUNS = { quick: 12000, thorough: 250000 };
const same = (a, b) => a && b && a.cls === b.cls && (a.where && a.where.op) === (b.where && b.where.op);
const die = (m, e) => { console.error('ERROR: ' + m + (e ? '\n' + (e.stack || '') + ' ' + (e.message || e) : '')); process.exit(2); };

function replay(file) {
  const f = JSON.parse(fs.readFileSync(file, 'utf8'));
  if (f.sys) return require('./yul/check').replay(file, f);
  const eng = new Engine(buildAll(ALL));
  const o = eng.run(f.trace, { log: !!process.env.VERIF_LOG });
  if (o.log) for (const l of o.log) console.log(l);
  if (o.violation) { console.log(`${o.violation.msg} at ${JSON.stringify(o.violation.where)} events=${o.events} hash=${o.hash}`); console.log(`VIOLATION property=${f.property} replay=${file}`); process.exit(1); }
  console.log(`no violation, events=${o.events} hash=${o.hash}`); process.exit(0);
}
function writeReplay(prop, seed, i, trace, v, extra) {
  const dir = path.join(ROOT, 'replays'); fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${prop}-${seed}-${i}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: prop, seed, run: i, violation: v, ...extra, trace }, null, 1));
  return file;
}

async function main(prop, part) { // part: the compiler's share of the property is searched afterwards
  const t0 = Date.now();
  const tier = process.env.VERIF_TIER === 'thorough' || process.argv.includes('--thorough') ? 'thorough' : 'quick';
  const seed = Number(process.env.VERIF_SEED || 1);
  const total = part ? RUNS[tier] : Number(process.env.VERIF_RUNS || RUNS[tier]);
  let wasm, dict;
  try { wasm = buildAll(ALL); dict = dictionary(); } catch (e) { die('build', e); }
  console.log(`property ${prop} seed ${seed} tier ${tier} runs ${total}`);
  const eng = new Engine(wasm);
  const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'dtvmsim-'));
  process.on('exit', () => fs.rmSync(tmp, { recursive: true, force: true }));
  for (const v of ALL) fs.writeFileSync(path.join(tmp, v + '.wasm'), wasm[v]);
  const agg = { runs: 0, events: 0, frames: 0, hostCalls: 0, txs: 0, simTime: 0, faults: {}, probes: {}, variants: {}, nontrivial: 0 };
  const hashes = new Map(), nt = new Set(), viols = []; let hang = null;

  // recorded findings: each is one exact execution
  const known = [];
  for (const f of part ? [] : findings(ROOT).filter(f => f.property === prop)) {
    const tr = JSON.parse(fs.readFileSync(path.join(ROOT, f.trace), 'utf8')).trace, o = eng.run(tr);
    if (!o.violation) { console.log(`recorded finding ${f.id} does not occur any more`); continue; }
    if (f.cls === '*' || o.violation.cls === f.cls) { console.log(`KNOWN-FINDING: property=${prop} ${f.what}`); known.push(f.id); }
    else viols.push({ i: f.id, v: o.violation, trace: tr });
  }
  const CH = Math.max(25, Math.min(250, Math.ceil(total / 64))); let next = 0;
  await new Promise(resolve => {
    const n = Math.max(1, Math.min(8, os.cpus().length)); let live = n;
    for (let w = 0; w < n; w++) {
      const c = fork(path.join(__dirname, 'lib', 'worker.js'), [], { execArgv: FLAGS, stdio: ['ignore', 'inherit', 'inherit', 'ipc'] });
      let at = -1, last = Date.now(), over = false;
      const end = () => { if (over) return; over = true; clearInterval(timer); c.kill('SIGKILL'); if (--live === 0) resolve(); };
      const timer = setInterval(() => { if (at >= 0 && Date.now() - last > 90000) { if (hang === null || at < hang) hang = at; end(); } }, 1000);
      const give = () => { if (next >= total || viols.length || hang !== null) return end(); const a = next, b = Math.min(total, a + CH); next = b; at = -1; c.send({ range: [a, b] }); };
      c.on('message', m => {
        last = Date.now();
        if (m.ready) return give();
        if (m.at !== undefined) { at = m.at; return; }
        if (m.error) die('worker: ' + m.error);
        const d = m.done; at = -1;
        for (const k of ['runs', 'events', 'frames', 'hostCalls', 'txs', 'simTime', 'nontrivial']) agg[k] += d[k];
        for (const k of ['faults', 'probes', 'variants']) for (const x in d[k]) agg[k][x] = (agg[k][x] || 0) + d[k][x];
        d.hashes.forEach((h, j) => hashes.set(d.range[0] + j, h));
        for (const h of d.nt) nt.add(h);
        viols.push(...d.viols); give();
      });
      c.on('exit', code => { if (!over) die(`worker ended unexpectedly (${code})`); });
      c.send({ init: { prop, seed, dir: tmp, variants: ALL, dict: { small: dict.small, big: dict.big.map(String) } } });
    }
  });
  // determinism: the same seeds again, in this process, must give the same event logs
  let rechecked = 0;
  if (!viols.length && hang === null) for (let k = 0; k < 60; k++) {
    const i = Math.floor(k * total / 60); const o = eng.run(generate(prop, seed, i, dict));
    if (o.hash !== hashes.get(i)) die(`run ${i} is not deterministic`); rechecked++;
  }
  let file = null, msg = '';
  if (viols.length) {
    viols.sort((a, b) => (typeof a.i === 'number' ? a.i : -1) - (typeof b.i === 'number' ? b.i : -1));
    const { i, v } = viols[0], orig = viols[0].trace || generate(prop, seed, i, dict);
    const m = minimize(orig, c => { try { return same(eng.run(c).violation, v); } catch (e) { return false; } });
    let tr = m.trace, o = eng.run(tr);
    if (!same(o.violation, v)) { tr = orig; o = eng.run(tr); }
    file = writeReplay(prop, seed, i, tr, o.violation, { minimisation_runs: m.runs, hash: o.hash, events: o.events });
    const r = spawnSync(process.execPath, [...FLAGS, __filename, 'replay', file], { encoding: 'utf8' });
    if (r.status !== 1 || !r.stdout.includes('hash=' + o.hash)) die('the recorded violation does not replay: ' + r.stdout + r.stderr);
    msg = o.violation.msg; console.log(`run ${i}: ${v.msg}`); console.log(`minimised: ${msg} at ${JSON.stringify(o.violation.where)} (${o.events} events)`);
  } else if (hang !== null) { // a run that never ends: confirm in a fresh process
    const tr = generate(prop, seed, hang, dict);
    file = writeReplay(prop, seed, hang, tr, { msg: 'operation does not finish' }, {});
    const r = spawnSync(process.execPath, [...FLAGS, __filename, 'replay', file], { encoding: 'utf8', timeout: 120000 });
    if (r.status === 0) die('a run was slow but finished'); msg = 'an operation does not finish';
    console.log(`run ${hang}: ${msg}`);
  }
  const wall = (Date.now() - t0) / 1000;
  const sample = generate(prop, seed, 0, dict);
  const ev = {
    property: prop, tier, seed, level: 'exploration', wall_s: wall, violations: file ? 1 : 0,
    assumptions: ['The host is a simulated chain (storage, balances, logs, call trees, rollback) that follows hostapi.h; the real runtime code of /repo/stdlib runs unmodified as wasm in V8.', 'The code the compiler would emit around the runtime is a stub: the simulator calls the runtime entry points directly.'],
    coverage: {
      evaluations: agg.runs, distinct_nontrivial: nt.size,
      rule: 'One evaluation is one simulated run (one run per seed, the run number being part of the seed): a seeded history of transactions with call trees, operations and faults on the real runtime, compared with the model after every operation. Distinct by hash of the complete event log (operations, results, frame ends, faults, commits); non-trivial means more than four events and at least one host call.',
      samples: [{ run: 0, trace: JSON.stringify(sample).slice(0, 1500) }],
      nontrivial_runs: agg.nontrivial, runs_per_hour: Math.round(agg.runs / wall * 3600), operations: agg.events, frames: agg.frames, transactions: agg.txs, host_calls: agg.hostCalls,
      simulated_chain_seconds: agg.simTime, faults_injected: agg.faults, probes: agg.probes, runtime_variants: agg.variants, determinism_rechecked_runs: rechecked, known_findings: known,
      real_components: ['stdlib/chain.c', 'stdlib/evm_memory.c', 'stdlib/stdlib.c', 'stdlib/utils.c', 'stdlib/chain_math.c'], stub_components: ['host chain', 'compiler-emitted contract code', 'compiler-rt integer helpers'],
    },
  };
  if (!part || file) {
    fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(ROOT, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1));
  }
  console.log(`${agg.runs} runs, ${agg.events} events, ${new Set(hashes.values()).size} distinct, faults ${JSON.stringify(agg.faults)}, ${wall.toFixed(1)} s`);
  if (file) { console.log(`VIOLATION property=${prop} replay=${file}`); process.exit(1); }
  if (part) { fs.rmSync(tmp, { recursive: true, force: true }); return ev.coverage; }
  process.exit(0);
}
const a = process.argv.slice(2);
if (a[0] === 'replay') { try { replay(a[1]); } catch (e) { die('replay', e); } }
else if (require('./yul/check').PROPS[a[0]]) (async () => {
  const extra = PROFILES[a[0]] ? await main(a[0], true) : undefined;
  await require('./yul/check').main(a[0], __filename, FLAGS, extra);
})().catch(e => die('internal', e));
else if (PROFILES[a[0]]) main(a[0]).catch(e => die('internal', e));
else die('usage: check.js <property>|replay <file>');
