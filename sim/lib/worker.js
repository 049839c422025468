'use strict';
const fs = require('fs'), path = require('path');
const { Engine } = require('./exec');
const { generate } = require('./gen');
let eng, dict, cfg;
process.on('message', m => {
  try {
    if (m.init) {
      cfg = m.init; const w = {}; for (const v of cfg.variants) w[v] = fs.readFileSync(path.join(cfg.dir, v + '.wasm'));
      eng = new Engine(w); dict = { small: cfg.dict.small, big: cfg.dict.big.map(BigInt) };
      process.send({ ready: true }); return;
    }
    const [a, b] = m.range;
    const out = { range: m.range, runs: 0, events: 0, frames: 0, hostCalls: 0, txs: 0, simTime: 0, faults: {}, probes: {}, hashes: [], nt: [], viols: [], variants: {}, nontrivial: 0 };
    for (let i = a; i < b; i++) {
      process.send({ at: i });
      const t = generate(cfg.prop, cfg.seed, i, dict), o = eng.run(t);
      out.runs++; out.events += o.events; out.frames += o.frames; out.hostCalls += o.hostCalls; out.txs += o.txs; out.simTime += Math.max(0, Math.min(o.simTime, 1e10));
      for (const k in o.faults) out.faults[k] = (out.faults[k] || 0) + o.faults[k];
      for (const k in o.probes) out.probes[k] = (out.probes[k] || 0) + o.probes[k];
      out.variants[t.variant] = (out.variants[t.variant] || 0) + 1;
      out.hashes.push(o.hash); if (o.events > 4 && o.hostCalls > 0) { out.nontrivial++; out.nt.push(o.hash); }
      if (o.violation) { out.viols.push({ i, v: o.violation }); break; }
    }
    process.send({ done: out });
  } catch (e) { process.send({ error: (e && e.stack || String(e)) + ' ' + (e && e.message) }); }
});
process.on('disconnect', () => process.exit(0));
