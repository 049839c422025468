'use strict';
// Runs the compiler as a process of a simulated operating system: randomness, clocks, ids and file
// operations are decided by the simulator (os/sim.c, preloaded), one of them may fail.
const { spawnSync, execFileSync } = require('child_process'), fs = require('fs'), path = require('path'), os = require('os');
const { OPTS } = require('./compiler');
const KINDS = ['open', 'create', 'read', 'write', 'rename', 'meta', 'spawn'];
let lib;
function simLib() { // one shared library per process tree
  if (process.env.SIM_LIB && fs.existsSync(process.env.SIM_LIB)) return process.env.SIM_LIB;
  if (!lib) { const d = fs.mkdtempSync(path.join(os.tmpdir(), 'dtvm-os-')); lib = path.join(d, 'sim.so'); execFileSync('gcc', ['-O1', '-shared', '-fPIC', '-w', '-o', lib, path.join(__dirname, 'os', 'sim.c'), '-ldl']); process.on('exit', () => fs.rmSync(d, { recursive: true, force: true })); }
  return lib;
}
// one process. dir: simulated disk. o: {seed, fault: {n, k}, args, env, cwd}
function run(c, dir, o) {
  const st = path.join(c.tmp || os.tmpdir(), 'st-' + process.pid + '-' + (run.n = (run.n || 0) + 1));
  fs.writeFileSync(st, Buffer.alloc(72 * 1024));
  try {
    const env = { PATH: process.env.PATH, HOME: dir, TMPDIR: path.join(dir, 'tmp'), CHAIN_IR_CLANG_RT_LIB_DIR: c.rt, SIM_STATE: st, SIM_ROOT: dir, SIM_SEED: String(o.seed || 1), LD_PRELOAD: simLib(), ...(o.env || {}) };
    if (o.fault) env.SIM_FAULT = o.fault.n + ':' + o.fault.k;
    const r = spawnSync(c.bin, o.args, { cwd: o.cwd || dir, encoding: 'latin1', maxBuffer: 1 << 26, timeout: 60000, killSignal: 'SIGKILL', env });
    const b = fs.readFileSync(st), ops = Number(b.readBigUInt64LE(0)), hit = b.readUInt32LE(24), counts = {};
    KINDS.forEach((k, i) => { counts[k] = b.readUInt32LE(32 + 4 * i); });
    const n = Math.min(b.readUInt32LE(64), 60000), log = b.toString('latin1', 68, 68 + n).trim();
    return { status: r.status, signal: r.signal, timeout: !!(r.error && r.error.code === 'ETIMEDOUT'), out: (r.stdout || '') + (r.stderr || ''), ops, hit, counts, log };
  } finally { fs.rmSync(st, { force: true }); }
}
module.exports = { run, simLib, OPTS };
