'use strict';
// Builds the unmodified compiler of the tree under test (src/, stdlib/) against thin crates over the
// installed LLVM 16 (yulc/), and runs it.
const { execFileSync, spawnSync } = require('child_process');
const fs = require('fs'), path = require('path'), os = require('os'), crypto = require('crypto');
const { REPO } = require('../lib/build');
const YULC = path.join(__dirname, '..', '..', 'yulc');
const FLAGS = ['-c', '--target=wasm32', '-emit-llvm', '-Xclang', '-fexperimental-max-bitint-width=256', '-ffreestanding', '-fno-builtin', '-ftrapv', '-w'];
function sh(cmd, args, opt) {
  const r = spawnSync(cmd, args, { encoding: 'utf8', maxBuffer: 1 << 28, ...opt });
  if (r.status !== 0) throw new Error(`${cmd} ${args.join(' ')}: status ${r.status}\n${(r.stderr || '').slice(-4000)}${r.error || ''}`);
  return r.stdout;
}
function walk(d, out = []) { for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) { const p = path.join(d, e.name); if (e.isDirectory()) { if (e.name !== 'target') walk(p, out); } else if (e.isFile()) out.push(p); } return out; }
function fingerprint() {
  const h = crypto.createHash('sha256');
  for (const d of [path.join(REPO, 'src'), path.join(REPO, 'stdlib'), YULC]) for (const f of walk(d)) if (!/\.(bc|o|a|wasm|ll)$/.test(f)) { h.update(f); h.update(fs.readFileSync(f)); }
  return h.digest('hex').slice(0, 24);
}
// returns {dir, bin, rt}; the directory is a cache keyed by the sources
function build() {
  const base = process.env.VERIF_BUILD_DIR || path.join(os.tmpdir(), 'dtvm-yulc');
  const dir = path.join(base, fingerprint()), done = path.join(dir, 'done');
  const res = { dir, bin: path.join(dir, 'yul2wasm'), rt: path.join(dir, 'rt') };
  if (fs.existsSync(done)) return res;
  fs.mkdirSync(base, { recursive: true });
  const w = fs.mkdtempSync(path.join(base, 'build-'));
  try {
    for (const c of fs.readdirSync(YULC)) fs.cpSync(path.join(YULC, c), path.join(w, c), { recursive: true, filter: s => path.basename(s) !== 'target' });
    const app = path.join(w, 'app');
    fs.cpSync(path.join(REPO, 'src'), path.join(app, 'src'), { recursive: true });
    fs.rmSync(path.join(app, 'src', 'tests'), { recursive: true, force: true }); fs.mkdirSync(path.join(app, 'src', 'tests'));
    fs.writeFileSync(path.join(app, 'src', 'tests', 'mod.rs'), ''); fs.writeFileSync(path.join(app, 'src', 'test.rs'), '');
    const std = path.join(REPO, 'stdlib');
    for (const [m, f] of [['debug', ['-g', '-O0']], ['release', ['-O2', '-DNDEBUG']]]) {
      const o = path.join(app, 'stdlib', 'wasm', m); fs.mkdirSync(o, { recursive: true });
      for (const c of ['stdlib', 'chain', 'utils', 'chain_math', 'evm_memory', 'debug_in_release']) if (fs.existsSync(path.join(std, c + '.c'))) sh('clang-16', [...FLAGS, ...f, path.join(std, c + '.c'), '-o', path.join(o, c + '.bc')]);
    }
    const rt = path.join(w, 'rt'); fs.mkdirSync(rt);
    sh('clang-16', ['--target=wasm32', '-Xclang', '-fexperimental-max-bitint-width=256', '-ffreestanding', '-fno-builtin', '-w', '-O2', '-c', path.join(__dirname, '..', 'harness', 'builtins.c'), '-o', path.join(rt, 'b.o')]);
    sh('llvm-ar-18', ['rcs', path.join(rt, 'libclang_rt.builtins-wasm32.a'), path.join(rt, 'b.o')]);
    sh('cargo', ['build', '--offline', '--locked', '--release', '-q'], { cwd: app, env: { ...process.env, CARGO_TARGET_DIR: path.join(w, 'target'), RUSTFLAGS: '-Awarnings' } });
    const fin = path.join(w, 'out'); fs.mkdirSync(fin);
    fs.copyFileSync(path.join(w, 'target', 'release', 'yul2wasm'), path.join(fin, 'yul2wasm')); fs.chmodSync(path.join(fin, 'yul2wasm'), 0o755);
    fs.cpSync(rt, path.join(fin, 'rt'), { recursive: true }); fs.writeFileSync(path.join(fin, 'done'), '');
    try { fs.renameSync(fin, dir); } catch (e) { if (!fs.existsSync(done)) throw e; }
  } finally { fs.rmSync(w, { recursive: true, force: true }); }
  return res;
}
const OPTS = { // the option sets the documentation and the tool itself offer
  def: [], none: ['--opt-level', 'none'], less: ['--opt-level', 'less'], o3: ['--opt-level', 'aggressive'],
  size: ['--minify-wasm-size'], noopt: ['--disable-all-optimizers'], all: ['--enable-all-optimizers', '--opt-level', 'aggressive'],
  le: ['--enable-little-endian-storage-load-store'], lesize: ['--enable-little-endian-storage-load-store', '--minify-wasm-size', '--opt-level', 'aggressive'],
  dbg: ['--debug'], b32: ['--default_ret_type', 'bytes32'], allle: ['--enable-all-optimizers', '--enable-little-endian-storage-load-store'],
  allsize: ['--enable-all-optimizers', '--minify-wasm-size'], alldbg: ['--enable-all-optimizers', '--debug'], allnone: ['--enable-all-optimizers', '--opt-level', 'none'],
  dbgle: ['--debug', '--enable-little-endian-storage-load-store'], nooptle: ['--disable-all-optimizers', '--enable-little-endian-storage-load-store', '--opt-level', 'less'], b32o3: ['--default_ret_type', 'bytes32', '--opt-level', 'aggressive'], b32le: ['--default_ret_type', 'bytes32', '--enable-little-endian-storage-load-store', '--opt-level', 'none'], verb: ['--verbose', '--no-binaryen-optimize'],
};
// compiles a source text; returns {ok, status, out, files: {name: Buffer}}
function compile(c, text, opts, name, extra = {}) {
  const d = fs.mkdtempSync(path.join(c.tmp || os.tmpdir(), 'y-'));
  try {
    const inp = path.join(d, 'in.yul'), od = path.join(d, 'o'); fs.mkdirSync(od); fs.writeFileSync(inp, text);
    const r = spawnSync(c.bin, ['--input', inp, '--output', path.join(od, 'main.wasm'), ...OPTS[opts], ...Object.entries(extra.symbols || {}).flatMap(([k, v]) => ['--symbol', k + '=0x' + v]), ...(extra.args || [])],
      { cwd: extra.cwd || d, encoding: 'utf8', maxBuffer: 1 << 26, timeout: 120000, killSignal: 'SIGKILL', env: { PATH: process.env.PATH, HOME: d, TMPDIR: d, CHAIN_IR_CLANG_RT_LIB_DIR: c.rt, ...(extra.env || {}) } });
    const files = {}; for (const f of fs.readdirSync(od)) files[f] = fs.readFileSync(path.join(od, f));
    const res = { ok: r.status === 0, status: r.status, signal: r.signal, out: ((r.stdout || '') + (r.stderr || '')).slice(-3000), files };
    if (/SEGV|ABRT|ILL|BUS/.test(r.signal || '')) res.backend = backendCrash(c, inp, d, opts, extra);
    return res;
  } finally { fs.rmSync(d, { recursive: true, force: true }); }
}
// A crash is the back end's own when the module it got (written by --verbose just before) passes the verifier
// of another LLVM release and is compiled by it, while clang of the same release crashes on it too.
function backendCrash(c, inp, d, opts, extra) {
  const od = path.join(d, 'v'); fs.mkdirSync(od);
  spawnSync(c.bin, ['--verbose', '--input', inp, '--output', path.join(od, 'main.wasm'), ...OPTS[opts], ...Object.entries(extra.symbols || {}).flatMap(([k, v]) => ['--symbol', k + '=0x' + v])], { cwd: d, stdio: 'ignore', timeout: 120000, killSignal: 'SIGKILL', env: { PATH: process.env.PATH, HOME: d, TMPDIR: d, CHAIN_IR_CLANG_RT_LIB_DIR: c.rt } });
  const ll = fs.readdirSync(od).filter(f => /\.out\.ll$/.test(f)).map(f => path.join(od, f)).sort((a, b) => fs.statSync(b).mtimeMs - fs.statSync(a).mtimeMs)[0];
  if (!ll) return false;
  const ok = (cmd, args) => spawnSync(cmd, args, { stdio: 'ignore', timeout: 60000 }).status === 0;
  if (!ok('opt-18', ['-passes=verify', '-disable-output', ll]) || !ok('llc-18', ['-filetype=obj', ll, '-o', path.join(d, 'v.o')])) return false;
  return [[], ['-Xclang', '-disable-llvm-passes']].some(x => { // optimised before code generation, or as it is
    const r = spawnSync('clang-16', ['--target=wasm32-unknown-unknown-wasm', '-x', 'ir', '-O2', ...x, '-c', ll, '-o', path.join(d, 'w.o')], { encoding: 'utf8', timeout: 60000 });
    return r.status !== 0 && /Segmentation fault|PLEASE submit a bug report|Aborted/.test(r.stderr || '');
  });
}
// a compiled program for the simulator
function program(obj, res) {
  const f = res.files, bytes = f['main.wasm'], subs = {};
  const find = o => { for (const s of o.subs || []) { const b = f[o.top + '_' + s.name + '.wasm'] || f[obj.name + '_' + s.name + '.wasm']; if (b) subs[s.name] = { bytes: b, obj: s, mod: new WebAssembly.Module(b), subs }; find(s); } };
  find(obj);
  return { obj, bytes, mod: new WebAssembly.Module(bytes), subs };
}
module.exports = { build, compile, program, OPTS, sh };
if (require.main === module) { console.time('build'); console.log(build()); console.timeEnd('build'); }
