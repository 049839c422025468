'use strict';
// development helper: node try.js prop seed from to [opt]   (V=1 verbose, SHRINK=dir to minimise each failure)
const { build } = require('./compiler'), { generate } = require('./gen'), { print } = require('./lang'), { Pool } = require('./pool'), { shrink } = require('./shrink'), { evaluate } = require('./eval');
const fs = require('fs');
if (process.argv[2] === 'run') { const o = evaluate(build(), JSON.parse(fs.readFileSync(process.argv[3], 'utf8')), { log: !!process.env.LOG }); if (o.log) console.log(o.log.join('\n')); delete o.log; console.log(JSON.stringify(o, null, 1)); process.exit(0); }
const [prop, seed, from, to, opt] = process.argv.slice(2);
const dev = process.env.PLAIN ? { layout: 0 } : {};
(async () => {
  const pool = new Pool(build()), stat = {}, fails = new Map(), t0 = Date.now(); let ms = 0;
  const gen = i => { return generate(prop, seed, i, opt ? { ...dev, opts: [opt] } : dev); };
  await Promise.all([...Array(to - from).keys()].map(async k => {
    const i = +from + k, sys = gen(i), o = await pool.run({ sys });
    if (o.failed) { console.log(i, 'FAILED', o.failed); return; }
    ms += o.compileMs || 0;
    const key = o.violation ? 'viol' : o.unmodelled ? 'unmod ' + o.unmodelled.slice(0, 20) : 'ok'; stat[key] = (stat[key] || 0) + 1;
    if (o.violation) { const l = fails.get(o.violation.cls) || []; l.push([i, o.violation]); fails.set(o.violation.cls, l); }
    else if (process.env.V) console.log(i, key, o.events, o.txs, JSON.stringify(o.probes));
  }));
  console.log(JSON.stringify(stat), (Date.now() - t0) / 1000, 's');
  for (const [c, l] of [...fails].sort((a, b) => b[1].length - a[1].length)) console.log(l.length, c, '|', l.map(x => x[0]).slice(0, 8).join(','), '|', l[0][1].msg.slice(0, 300));
  if (process.env.SHRINK) {
    fs.mkdirSync(process.env.SHRINK, { recursive: true });
    for (const [c, l] of [...fails].slice(0, +(process.env.MAX || 6))) {
      l.sort((a, b) => a[0] - b[0]); const [i, v] = l[0];
      const r = await shrink(gen(i), async s => { const o = await pool.run({ sys: s }); return o.violation && o.violation.cls === c; }, 8, +(process.env.BUDGET || 500));
      const o = await pool.run({ sys: r.sys });
      fs.writeFileSync(process.env.SHRINK + '/' + i + '.json', JSON.stringify(r.sys));
      console.log('=====', i, c, r.runs, 'runs\n' + (o.violation ? o.violation.msg : '?').slice(0, 900));
      for (const p of r.sys.programs) console.log('opts', p.opts, 'style', p.style, '\n' + print(p.obj, p.style));
      console.log(r.sys.trace.txs.map(t => JSON.stringify(t)).join('\n').slice(0, 1500));
    }
  }
  pool.close();
})();
