'use strict';
const { make, execute } = require('./jobs');
let c;
process.on('message', m => {
  try {
    if (m.init) { c = m.init; process.send({ ready: true }); return; }
    const sys = m.sys || make(m.prop, m.seed, m.i);
    const o = execute(c, sys); delete o.log; delete o.all;
    process.send({ id: m.id, o });
  } catch (e) { process.send({ id: m.id, error: (e && e.stack || '') + ' ' + (e && e.message || e) }); }
});
process.on('disconnect', () => process.exit(0));
