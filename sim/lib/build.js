'use strict';
// Builds the real runtime (/repo/stdlib) into wasm modules for the simulator.
const { execFileSync } = require('child_process');
const fs = require('fs'), path = require('path'), os = require('os'), crypto = require('crypto');
const REPO = process.env.VERIF_REPO || '/repo';
const FLAGS = ['--target=wasm32', '-Xclang', '-fexperimental-max-bitint-width=256', '-ffreestanding', '-fno-builtin', '-ftrapv', '-w'];
const HARN = path.join(__dirname, '..', 'harness');
const SECTION = (() => { const b = Buffer.alloc(600); let x = 0x9e37; for (let i = 0; i < 600; i++) { x = (Math.imul(x, 1103515245) + 12345) >>> 0; b[i] = (x >>> 16 & 255) || 1; } return b; })();
function sources() {
  const dir = path.join(REPO, 'stdlib');
  return fs.readdirSync(dir).filter(f => f.endsWith('.c') || f.endsWith('.h')).sort();
}
function sourceText() { return sources().map(f => fs.readFileSync(path.join(REPO, 'stdlib', f), 'utf8')).join('\n'); }
// opt: O0 (the debug runtime), O2 (the release runtime), lto (release runtime optimised as one module,
// as the compiler does after linking it with the contract).
const VARIANTS = {
  debug: { opt: 'O0', stack: 65536, newPage: 1 },
  release: { opt: 'O2', stack: 65536, newPage: 1 },
  lto: { opt: 'lto', stack: 65536, newPage: 1 },
  big: { opt: 'O2', stack: 131072, newPage: 0 },        // more than one initial page: own page chosen by the runtime itself
  small: { opt: 'O2', stack: 24576, newPage: 0 },       // small contract: memory inside the data segment
  smalldebug: { opt: 'O0', stack: 24576, newPage: 0 },
};
function buildAll(names) {
  const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'dtvmsim-'));
  try {
    const objs = {}, out = {};
    const src = path.join(REPO, 'stdlib');
    const run = (cmd, args) => {
      try { execFileSync(cmd, args, { stdio: ['ignore', 'pipe', 'pipe'] }); }
      catch (e) { throw new Error('build failed: ' + cmd + ' ' + args.join(' ') + '\n' + (e.stderr || '')); }
    };
    for (const n of names) {
      const v = VARIANTS[n];
      if (!objs[v.opt]) {
        const list = ['stdlib.c', 'chain.c', 'utils.c', 'chain_math.c', 'evm_memory.c'];
        if (v.opt !== 'O0') list.push('debug_in_release.c');
        const of = v.opt === 'O0' ? ['-g0', '-O0'] : v.opt === 'O2' ? ['-O2', '-DNDEBUG'] : ['-O2', '-DNDEBUG', '-flto'];
        objs[v.opt] = list.map(f => {
          const o = path.join(tmp, v.opt + '_' + f + '.o');
          run('clang-16', [...FLAGS, ...of, '-c', path.join(src, f), '-o', o]);
          return o;
        });
        for (const [f, extra] of [['builtins.c', []], ['harness.c', ['-DSIM_SECTION=' + Array.from(SECTION).join(',')]]]) {
          const o = path.join(tmp, v.opt + '_' + f + '.o');
          run('clang-16', [...FLAGS, '-O1', ...extra, '-c', path.join(HARN, f), '-o', o]);
          objs[v.opt].push(o);
        }
      }
      const w = path.join(tmp, n + '.wasm');
      run('wasm-ld-18', ['--no-entry', '--export-all', '--allow-undefined', '--stack-first', '-z', 'stack-size=' + v.stack,
        '--import-memory', '--max-memory=' + 65536 * 2048, ...(v.opt === 'lto' ? ['--lto-O3'] : []), ...objs[v.opt], '-o', w]);
      out[n] = fs.readFileSync(w);
    }
    return out;
  } finally { fs.rmSync(tmp, { recursive: true, force: true }); }
}
// Constants mined from the runtime sources under test: boundary values for the generators.
function dictionary() {
  const t = sourceText().replace(/\/\/.*$/gm, '').replace(/\/\*[\s\S]*?\*\//g, '');
  const nums = new Set();
  for (const m of t.matchAll(/\b(0x[0-9a-fA-F]+|\d+)(?:[uUlL]*)\b/g)) {
    let v; try { v = BigInt(m[1]); } catch (e) { continue; }
    if (v > 1n) nums.add(v);
  }
  const arr = Array.from(nums).sort((a, b) => (a < b ? -1 : 1));
  return { small: arr.filter(v => v < 1n << 20n).map(Number), big: arr.filter(v => v < 1n << 256n) };
}
module.exports = { buildAll, VARIANTS, SECTION, dictionary, REPO, sourceText };
if (require.main === module) {
  console.time('b'); const o = buildAll(Object.keys(VARIANTS)); console.timeEnd('b');
  for (const k in o) { const m = new WebAssembly.Module(o[k]); console.log(k, o[k].length, WebAssembly.Module.imports(m).filter(x => x.kind === 'memory' || x.name.startsWith('__')).map(x => x.name)); }
  console.log(JSON.stringify(dictionary().small));
}
