'use strict';
// Worker processes for evaluations; a job that does not end in time is itself an outcome.
const { fork } = require('child_process'), path = require('path'), os = require('os');
class Pool {
  constructor(init, n = Math.max(1, Math.min(8, os.cpus().length)), limit = 150000) { this.init = init; this.limit = limit; this.idle = []; this.queue = []; this.all = new Set(); this.n = 0; for (let i = 0; i < n; i++) this.spawn(); }
  spawn() {
    const w = { c: fork(path.join(__dirname, 'worker.js'), [], { execArgv: ['--disable-wasm-trap-handler'], stdio: ['ignore', 'inherit', 'inherit', 'ipc'] }) };
    this.all.add(w);
    w.c.on('message', m => { if (m.ready) return this.free(w); const j = w.job; if (!j || m.id !== j.id) return; w.job = null; clearTimeout(w.t); j.done(m.error ? { failed: m.error } : m.o); this.free(w); });
    w.c.on('exit', code => { this.all.delete(w); if (this.closed) return; if (w.job) { clearTimeout(w.t); const j = w.job; w.job = null; j.done(w.killed ? { events: 0, hash: 0, violation: { msg: 'the execution does not finish', cls: 'does not finish', where: {} } } : { failed: 'worker ended with ' + code }); } this.spawn(); });
    w.c.send({ init: this.init });
  }
  free(w) { const j = this.queue.shift(); if (!j) { this.idle.push(w); return; } this.start(w, j); }
  start(w, j) { w.job = j; w.t = setTimeout(() => { w.killed = true; w.c.kill('SIGKILL'); }, this.limit); w.c.send({ ...j.m, id: j.id }); }
  run(m) { return new Promise(done => { const j = { id: ++this.n, m, done }, w = this.idle.pop(); if (w) this.start(w, j); else this.queue.push(j); }); }
  close() { this.closed = true; for (const w of this.all) w.c.kill('SIGKILL'); }
}
module.exports = { Pool };
