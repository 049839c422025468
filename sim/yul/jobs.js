'use strict';
// What one simulated run is for each property, and how it is executed and judged.
//   sys     programs compiled by the real compiler, deployed on the simulated chain, a history with faults
//   options the same program under several option sets
//   layout  the same program in two texts that differ only in comments and white space
//   reject  source files damaged on the simulated disk
//   det     the same program compiled by differently seeded processes
//   disk    a history of compilations on a simulated disk, with a fault at any operation
const fs = require('fs'), path = require('path'), os = require('os');
const { Rng, hashStr } = require('../lib/prng');
const { Gen, generate } = require('./gen'), { compile, program, OPTS } = require('./compiler'), { print } = require('./lang');
const { evaluate, compileError, LLVMCRASH } = require('./eval'), { Run } = require('./host'), { parse, valid, uncomment, spans } = require('./parse');
const osrun = require('./osrun');
let corpus_; const corpus = () => corpus_ || (corpus_ = JSON.parse(fs.readFileSync(path.join(__dirname, 'corpus.json'), 'utf8')));
const ALLOPTS = Object.keys(OPTS);
const fnv = (h, s) => { for (let i = 0; i < s.length; i++) { h ^= typeof s === 'string' ? s.charCodeAt(i) : s[i]; h = Math.imul(h, 16777619); } return h >>> 0; };

function corpusSystem(prop, seed, i, k) { // a program of the collection with a random history
  const g = new Gen(prop, seed, i), x = corpus()[k % corpus().length], obj = JSON.parse(JSON.stringify(x.obj)), sels = new Set();
  const w = o => { if (Array.isArray(o)) { if (o[0] === 'sw') o[2].forEach(c => c[0][0] === 'n' && sels.add(c[0][1].padStart(8, '0').slice(-8))); o.forEach(w); } };
  const wo = o => { w(o.code); o.subs.forEach(wo); }; wo(obj);
  g.sels = [...sels, '01020304']; g.big = true;
  const programs = [{ obj, opts: 'def', style: g.r.chance(0.5) ? 1 + g.r.int(1e9) : 0 }];
  return { programs, trace: g.history(programs), from: x.from };
}
function make(prop, seed, i) {
  const r = new Rng('job', prop, seed, i), tag = s => Object.assign(s, { prop });
  switch (prop) {
    case 'P20': return tag(i % 5 === 4 ? corpusSystem(prop, seed, i, Math.floor(i / 5)) : generate(prop, seed, i));
    case 'P32': { const s = generate(prop, seed, i); s.programs.forEach(p => { p.opts = r.pick(['def', 'def', 'b32', 'none', 'size', 'o3']); }); return tag(s); }
    case 'P21': {
      const opts = []; while (opts.length < 3) { const o = r.pick(ALLOPTS); if (!opts.includes(o)) opts.push(o); }
      const tok = opts.includes('allle') ? r.chance(0.5) : r.chance(0.06); if (tok && !opts.includes('allle') && r.chance(0.7)) opts[0] = 'allle';
      const s = tok ? new Gen(prop, seed, i).token() : i % 5 === 4 ? corpusSystem(prop, seed, i, Math.floor(i / 5)) : generate(prop, seed, i, { opts: [opts.some(o => /^all/.test(o)) ? 'all' : 'def'] });
      s.programs.forEach(p => { p.opts = opts[0]; }); return tag({ kind: 'options', opts, ...s });
    }
    case 'P30': {
      const s = generate(prop, seed, i); if (r.chance(0.3)) s.programs.forEach(p => { p.obj.types = true; });
      if (i % 3 !== 2) return tag(s);
      const cuts = []; for (let k = 0; k < 24; k++) cuts.push(damage(r)); return tag({ kind: 'reject', programs: s.programs, cuts });
    }
    case 'P31': { const s = generate(prop, seed, i, { layout: 0 }); const styles = [1 + r.int(1e9)]; return tag({ kind: 'layout', styles, ...s }); }
    case 'P22': {
      const opts = r.pick(ALLOPTS), s = generate(prop, seed, i, { opts: [opts], big: 0.8 }), runs = [];
      for (let k = 0; k < 3; k++) runs.push({ seed: 1 + r.int(1e6), abs: r.chance(0.5), deep: r.int(4), env: r.int(3), left: k ? r.pick(['none', 'own', 'garbage', 'longer', 'other', 'stale', 'stale']) : 'none' });
      return tag({ kind: 'det', programs: s.programs, runs });
    }
    case 'P23': {
      const set = () => [r.pick(['def', 'none', 'size', 'all', 'dbg', 'less', 'allle'])];
      const a = generate(prop, seed, i, { big: 0.1, sub: 0.5, opts: set() }), b = generate(prop, seed, i + 1e6, { big: 0, opts: set() }), steps = [];
      const programs = [...a.programs, ...b.programs]; programs[1].obj.name += '_b'; rename(programs[1].obj);
      for (let k = r.range(5, 9); k > 0; k--) {
        const st = { p: r.int(2), seed: 1 + r.int(1e6), dir: r.pick(['out', 'out', '.', 'out2']), abs: r.chance(0.5) };
        const w = r.weighted([[7, 'fault'], [4, 'input'], [2, 'clean'], [1, 'args'], [1.5, 'taken']]);
        if (w === 'fault') st.fault = { n: r.int(40), k: r.pick(['eio', 'eio', 'eacces', 'emfile', 'eintr', 'enospc', 'enospc', 'short', 'torn', 'crash', 'crash', 'child']) };
        else if (w === 'input') { st.bad = r.pick(['missing', 'directory', 'utf8', 'empty', 'cut', 'cut', 'flip', 'sem', 'sem', 'sem', 'sem']); st.at = r.u32(); }
        else if (w === 'args') st.badargs = r.int(6);
        else if (w === 'taken') st.taken = r.u32();
        steps.push(st);
      }
      steps.push({ p: 0, seed: 7, dir: 'out', abs: false });
      const sems = []; for (let k = 0; k < 8; k++) sems.push(k < 6 ? { n: i * 6 + k + seed * 5, at: r.u32() } : { s: i * 2 + k + seed, at: r.u32() });
      return tag({ kind: 'disk', programs, steps, sems });
    }
  }
  throw new Error('property ' + prop);
}
function rename(o) { // object names and the names that refer to them
  const old = o.subs.find(s => /_deployed$/.test(s.name)).name.replace(/_deployed$/, ''), nw = o.name;
  const hexOf = s => Buffer.from(s).toString('hex'), m = { [hexOf(old)]: hexOf(nw), [hexOf(old + '_deployed')]: hexOf(nw + '_deployed') };
  const w = x => { if (Array.isArray(x)) { if (x[0] === 's' && m[x[1]]) x[1] = m[x[1]]; x.forEach(w); } };
  const wo = p => { w(p.code); p.subs.forEach(wo); if (p.name === old + '_deployed') p.name = nw + '_deployed'; }; wo(o);
}
// ---- damage to stored source files ----
function damage(r) { return { how: r.pick(['cut', 'cut', 'zero', 'flip', 'dup', 'drop', 'swap', 'brace', 'stray', 'stray', 'word', 'quote', 'char', 'group', 'group', 'inner', 'element', 'element', 'cases', 'order', 'keyword']), at: r.u32(), n: r.u32(), s: r.pick(['}', '{', '(', ')', ',', ':=', '->', ':', '"', 'let', 'case', 'default', 'function', 'object', 'code', 'x', '1', '0x', '0xg', 'true', '/*', '*/', '#', '@', ';', '=', '.', "'", '\\', 'hex"0', 'hex"abc"', 'data', '-1', '1.5', '0X1', 'let let', '$a', '&']) }; }
function damaged(text, d) {
  const b = Buffer.from(text), at = d.at % Math.max(1, b.length), toks = () => [...text.matchAll(/[A-Za-z0-9_$.]+|:=|->|"[^"\n]*"|[^\sA-Za-z0-9_$.]/g)];
  switch (d.how) {
    case 'cut': return b.subarray(0, at);
    case 'zero': { const c = Buffer.from(b); c.fill(0, at, Math.min(b.length, at + 1 + d.n % 200)); return c; }
    case 'flip': { const c = Buffer.from(b); c[at] ^= 1 << (d.n & 7); return c; }
    case 'dup': { const n = 1 + d.n % 60; return Buffer.concat([b.subarray(0, at), b.subarray(Math.max(0, at - n), at), b.subarray(at)]); }
    case 'drop': { const n = 1 + d.n % 8; return Buffer.concat([b.subarray(0, at), b.subarray(at + n)]); }
    case 'char': { const c = Buffer.from(b); c[at] = 33 + d.n % 94; return c; }
    case 'brace': { const l = toks().filter(t => /^[{}()]$/.test(t[0])), t = l[d.at % l.length]; return Buffer.from(text.slice(0, t.index) + (d.n & 1 ? '' : t[0] + t[0]) + text.slice(t.index + 1)); }
    case 'stray': { const l = toks(), t = l[d.at % l.length]; return Buffer.from(text.slice(0, t.index) + ' ' + d.s + ' ' + text.slice(t.index)); }
    case 'word': { const l = toks(), t = l[d.at % l.length]; return Buffer.from(text.slice(0, t.index) + text.slice(t.index + t[0].length)); }
    case 'swap': { const l = toks(), k = d.at % (l.length - 1), t = l[k], u = l[k + 1]; return Buffer.from(text.slice(0, t.index) + u[0] + text.slice(t.index + t[0].length, u.index) + t[0] + text.slice(u.index + u[0].length)); }
    default: return Buffer.from(structural(text, d));
    case 'quote': { const l = toks().filter(t => t[0][0] === '"'), t = l.length ? l[d.at % l.length] : toks()[0]; return Buffer.from(text.slice(0, t.index) + t[0].slice(0, -1) + text.slice(t.index + t[0].length)); }
  }
}
// damage along the structure of the text: parts that belong together are lost, doubled or moved
function structural(text, d) {
  let t; try { t = spans(text); } catch (e) { return text; }
  const end = k => { let n = 0; for (; k < t.length; k++) { if (/^[({]$/.test(t[k].s)) n++; else if (/^[)}]$/.test(t[k].s) && --n === 0) return k; } return t.length - 1; };
  const all = f => t.map((x, k) => k).filter(f), at = l => l[d.at % l.length], cutout = (a, b, by = ' ') => text.slice(0, t[a].at) + by + text.slice(t[b].at + t[b].s.length), src = (a, b) => text.slice(t[a].at, t[b].at + t[b].s.length);
  const isOpen = k => /^[({]$/.test(t[k].s);
  switch (d.how) {
    case 'group': { const a = at(all(isOpen)); return cutout(a, end(a)); }
    case 'inner': { const l = all(isOpen), a = at(l), b = end(a); return b > a + 1 ? cutout(a + 1, b - 1) : cutout(a, b); }
    case 'element': { // an element of a list, with the comma or without
      const l = all(k => t[k].s === ','); if (!l.length) return text; const a = at(l); let b = a + 1; for (let n = 0; b < t.length; b++) { if (/^[({]$/.test(t[b].s)) n++; else if (/^[)}]$/.test(t[b].s)) { if (n-- === 0) break; } else if (n === 0 && /^(,|:=|->)$/.test(t[b].s)) break; }
      if (d.n & 1) return b > a + 1 ? cutout(a + 1, b - 1) : cutout(a, a); // the comma stays
      return d.n & 2 ? cutout(a, a) : text.slice(0, t[a].at) + ',' + text.slice(t[a].at); // or it is lost, or doubled
    }
    case 'cases': { const l = all(k => t[k].s === 'switch'); if (!l.length) return text; let a = at(l) + 1; while (a < t.length && t[a].s !== 'case' && t[a].s !== 'default') a++; let b = a; while (b < t.length && (t[b].s === 'case' || t[b].s === 'default')) { while (t[b].s !== '{') b++; b = end(b) + 1; } return b > a ? cutout(a, b - 1) : text; }
    case 'order': { const l = all(k => t[k].s === 'default' || t[k].s === 'case'); if (!l.length) return text; const a = at(l); let b = a; while (t[b].s !== '{') b++; b = end(b); const part = src(a, b); return d.n & 1 ? text.slice(0, t[b].at + 1) + ' ' + part + text.slice(t[b].at + 1) : (() => { let c = b + 1; if (!t[c] || !/^(case|default)$/.test(t[c].s)) return cutout(a, b); while (t[c].s !== '{') c++; c = end(c); return text.slice(0, t[a].at) + src(b + 1, c) + ' ' + part + text.slice(t[c].at + t[c].s.length); })(); }
    default: { const kw = ['object', 'code', 'let', 'if', 'for', 'switch', 'case', 'default', 'function', 'leave', 'break', 'continue', 'true', 'false', 'data'], l = all(k => kw.includes(t[k].s)); const a = at(l); return d.n & 1 ? cutout(a, a) : cutout(a, a, ' ' + kw[(d.n >>> 3) % kw.length] + ' '); }
  }
}
const utf8 = b => { try { return new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(b); } catch (e) { return null; } };
// true: a program by the grammar, false: not, null: not judged
function judge(b) { const t = utf8(b); if (t === null) return false; if (uncomment(t) === null) return null; return valid(t); }

// ---- executing ----
const bad = (msg, cls, where) => ({ violation: { msg, cls, where: where || {} } });
const base = () => ({ events: 0, hash: 0x811c9dc5, compiles: 0, txs: 0, faults: {}, probes: {}, opts: {} });
function add(a, o) { for (const k of ['events', 'compiles', 'compileMs', 'txs', 'frames', 'hostCalls', 'effects', 'simTime', 'bytes']) if (o[k]) a[k] = (a[k] || 0) + o[k]; for (const k of ['faults', 'probes', 'kinds']) for (const x in o[k] || {}) { a[k] = a[k] || {}; a[k][x] = (a[k][x] || 0) + o[k][x]; } a.hash = fnv(a.hash, String(o.hash)); return a; }
const withOpts = (sys, o) => ({ strict: sys.strict, programs: sys.programs.map(p => ({ ...p, opts: o })), trace: sys.trace });
function execOptions(c, sys) { // every option set against the model; a deviation counts if two option sets differ
  const a = base(); let un = 0;
  for (const o of sys.opts) {
    const r = evaluate(c, withOpts(sys, o)); add(a, r); a.opts[o] = 1;
    if (r.unmodelled) { un++; a.unmodelled = r.unmodelled; continue; }
    if (!r.violation) continue;
    const mine = behaviour(c, sys, o);
    for (const q of [...sys.opts.filter(x => x !== o), ...ALLOPTS.filter(x => !sys.opts.includes(x) && (!/^all/.test(x) || sys.opts.some(y => /^all/.test(y))))]) {
      const other = behaviour(c, sys, q), d = differ(mine, other);
      if (d) return { ...a, ...bad(`option sets ${o} and ${q} differ: ${d}; with ${o} ${r.violation.msg}`.slice(0, 1500), 'options ' + r.violation.cls, { opts: [o, q] }) };
    }
    a.probes['all option sets deviate alike'] = 1;
  }
  if (un < sys.opts.length) delete a.unmodelled;
  return a;
}
function behaviour(c, sys, o) {
  const ps = [];
  for (const p of sys.programs) { const r = compile(c, print(p.obj, p.style), o, p.obj.name, { symbols: p.symbols }); if (r.backend) return { backend: 1 }; if (!r.ok) return { fails: compileError(r).msg }; try { ps.push(program(p.obj, r)); } catch (e) { return { fails: 'invalid module' }; } }
  const x = new Run(ps, sys.trace, { single: true, collect: true }), r = x.go();
  return { all: (x.all || []).map(t => t.map(e => e.replace(/^N (\S+) \S+/, 'N $1'))), end: r.violation ? r.violation.msg : '' };
}
function differ(a, b) {
  if (a.backend || b.backend) return null;
  if (a.fails || b.fails) return !!a.fails !== !!b.fails ? `one does not compile (${a.fails || b.fails})` : null;
  for (let i = 0; i < Math.max(a.all.length, b.all.length); i++) { const x = a.all[i] || [], y = b.all[i] || []; for (let j = 0; j < Math.max(x.length, y.length); j++) if (x[j] !== y[j]) return `transaction ${i}, effect ${j}: ${String(x[j]).slice(0, 300)} against ${String(y[j]).slice(0, 300)}`; }
  return a.end !== b.end ? `${a.end || 'ends normally'} against ${b.end || 'ends normally'}` : null;
}
function sameFiles(a, b) {
  const na = Object.keys(a).sort(), nb = Object.keys(b).sort();
  if (na.join() !== nb.join()) return `output files ${na} against ${nb}`;
  for (const n of na) if (!a[n].equals(b[n])) { let i = 0; while (a[n][i] === b[n][i]) i++; return `${n} differs at byte ${i} (${a[n].length} against ${b[n].length} bytes)`; }
  return null;
}
function execLayout(c, sys) {
  const a = base(), p = sys.programs[0], run = style => compile(c, print(p.obj, style), p.opts, p.obj.name, { symbols: p.symbols });
  const plain = run(0); a.compiles++; a.opts[p.opts] = 1;
  for (const s of sys.styles) {
    const r = run(s); a.compiles++;
    if (plain.backend || r.backend) return { ...a, unmodelled: LLVMCRASH };
    if (plain.ok !== r.ok) return { ...a, ...bad(r.ok ? 'the text without comments does not compile: ' + compileError(plain).msg : 'with comments and other white space ' + compileError(r).msg, 'layout compile ' + r.ok) };
    if (!plain.ok) continue;
    const d = sameFiles(plain.files, r.files); a.probes['texts compared'] = (a.probes['texts compared'] || 0) + 1;
    if (d) return { ...a, ...bad('comments and white space change the contract: ' + d, 'layout changes the contract') };
    for (const f of Object.values(r.files)) a.hash = fnv(a.hash, f);
  }
  if (!plain.ok) return { ...a, ...bad(compileError(plain).msg, compileError(plain).cls) };
  // strings that look like comments keep their content: the history tells
  const x = evaluate(c, { programs: sys.programs.map(q => ({ ...q, style: sys.styles[0] })), trace: sys.trace }); add(a, x);
  if (x.violation) return { ...a, violation: x.violation }; if (x.unmodelled) a.unmodelled = x.unmodelled;
  return a;
}
function execReject(c, sys) {
  const a = base(), p = sys.programs[0], text = print(p.obj, p.style), args = { symbols: p.symbols };
  a.probes.valid = a.probes.invalid = a.probes['not judged'] = 0;
  for (let k = 0; k < sys.cuts.length; k++) {
    const b = damaged(text, sys.cuts[k]), v = judge(b); a.faults['source ' + sys.cuts[k].how] = (a.faults['source ' + sys.cuts[k].how] || 0) + 1;
    if (v === null) { a.probes['not judged']++; continue; }
    if (v && a.probes.valid >= 2) { a.probes['valid, not compiled'] = (a.probes['valid, not compiled'] || 0) + 1; continue; }
    const r = compile(c, b, p.opts, p.obj.name, args); a.compiles++; a.events++; a.hash = fnv(a.hash, `${v} ${r.status} ${r.signal}`);
    a.probes[v ? 'valid' : 'invalid']++;
    if (!v && (r.ok || r.files['main.wasm'])) return { ...a, ...bad(`a text outside the grammar (${sys.cuts[k].how}) is accepted`, 'accepts ' + sys.cuts[k].how, { cut: k }) };
    if (v && !r.ok && /Error parsing yul file/.test(r.out)) return { ...a, ...bad(`a text of the grammar (${sys.cuts[k].how}) is rejected: ${r.out.slice(0, 300)}`, 'rejects ' + sys.cuts[k].how, { cut: k }) };
    if (v && r.ok && !spans(utf8(b)).some(t => t.s === ':')) { // the contract is the one of the tree the grammar gives the text; types may change its bytes
      const q = compile(c, print(parse(utf8(b)), 0), p.opts, p.obj.name, args); a.compiles++;
      if (!q.backend) { const d = q.ok ? sameFiles(r.files, q.files) : 'it does not compile'; a.probes['trees compared'] = (a.probes['trees compared'] || 0) + 1; if (d) return { ...a, ...bad(`a text (${sys.cuts[k].how}) and the plain text of its tree give different contracts: ${d}`, 'tree ' + sys.cuts[k].how, { cut: k }) }; }
    }
    if (!v && r.signal) return { ...a, ...bad(`a text outside the grammar (${sys.cuts[k].how}) ends the compiler with ${r.signal}`, 'signal ' + sys.cuts[k].how, { cut: k }) };
  }
  return a;
}
const symArgs = p => Object.entries(p.symbols || {}).flatMap(([k, v]) => ['--symbol', k + '=0x' + v]);
const readAll = d => { const o = {}; for (const f of fs.readdirSync(d)) { const q = path.join(d, f); if (fs.statSync(q).isFile()) o[f] = fs.readFileSync(q); } return o; };
function scratch(c) { const d = fs.mkdtempSync(path.join(c.tmp || os.tmpdir(), 'os-')); fs.mkdirSync(path.join(d, 'tmp')); return d; }
function execDet(c, sys) {
  const a = base(), p = sys.programs[0], text = print(p.obj, p.style); a.opts[p.opts] = 1; let first = null, old = null;
  const stale = () => old || (old = compile(c, text, p.opts === 'noopt' ? 'none' : 'noopt', p.obj.name, { symbols: p.symbols }).files); // what other options made of it
  for (let k = 0; k < sys.runs.length; k++) {
    const o = sys.runs[k], d = scratch(c);
    try {
      let wd = d; for (let i = 0; i < o.deep; i++) wd = path.join(wd, 'd' + 'x'.repeat(i * 7)); fs.mkdirSync(wd, { recursive: true });
      const out = path.join(wd, 'o' + o.seed % 10); fs.mkdirSync(out); fs.writeFileSync(path.join(wd, 'in.yul'), text);
      if (first && o.left !== 'none') for (const f in first) fs.writeFileSync(path.join(out, f), o.left === 'own' ? first[f] : o.left === 'garbage' ? 'garbage' : o.left === 'longer' ? Buffer.concat([first[f], Buffer.alloc(999, 1)]) : o.left === 'stale' ? stale()[f] || Buffer.alloc(0) : Buffer.from([...first[f]].reverse()));
      const rel = path.relative(wd, out), env = o.env ? { LANG: o.env === 1 ? 'C' : 'en_US.UTF-8', TERM: 'x'.repeat(o.seed % 300), USER: 'u' + o.seed, COLUMNS: '20' } : {};
      const r = osrun.run(c, d, { seed: o.seed, cwd: wd, env, args: ['--input', o.abs ? path.join(wd, 'in.yul') : 'in.yul', '--output', path.join(o.abs ? out : rel, 'main.wasm'), ...OPTS[p.opts], ...symArgs(p)] });
      a.compiles++; a.events += r.ops; a.faults['process seed'] = (a.faults['process seed'] || 0) + 1; if (o.left !== 'none') a.faults['leftover ' + o.left] = (a.faults['leftover ' + o.left] || 0) + 1;
      for (const x in r.counts) a.probes['op ' + x] = (a.probes['op ' + x] || 0) + r.counts[x];
      if (r.status !== 0) { if (first) return { ...a, ...bad(`run ${k} of the same compilation fails: ${r.out.slice(0, 400)}`, 'one run fails', { run: k }) }; if (compile(c, text, p.opts, p.obj.name, { symbols: p.symbols }).backend) return { ...a, unmodelled: LLVMCRASH }; return { ...a, ...bad(compileError({ out: r.out, status: r.status, signal: r.signal }).msg, 'compile fails') }; }
      const files = readAll(out);
      if (!first) first = files; else { const x = sameFiles(first, files); if (x) return { ...a, ...bad(`the same program compiled twice: ${x}`, 'compilation differs', { run: k }) }; }
      for (const f in files) a.hash = fnv(a.hash, files[f]);
    } finally { fs.rmSync(d, { recursive: true, force: true }); }
  }
  return a;
}
// programs that the grammar allows and the language does not
const SEM = [['x', ['c', 'sstore', [['n', '0', 'd'], ['v', 'no_such_variable']]]], ['x', ['c', 'no_such_function', []]], ['let', ['q__'], ['c', 'no_such_function', [['n', '1', 'd']]]], ['set', ['no_such_variable'], ['n', '1', 'd']], ['brk'], ['cont'], ['blk', [['let', ['d__'], ['n', '1', 'd']], ['let', ['d__'], ['n', '2', 'd']]]],
  ['x', ['c', 'sstore', [['c', 'add', [['n', '1', 'd']]], ['n', '0', 'd']]]], ['x', ['c', 'sstore', [['n', '1', 'd']]]], ['x', ['c', 'mstore', [['n', '0', 'd'], ['s', '61'.repeat(33)]]]], ['let', ['w__'], ['n', '1' + '0'.repeat(64), 'd']], ['let', ['w__'], ['n', '1' + '0'.repeat(64), 'x']], ['lv'], ['x', ['c', 'pop', [['c', 'datasize', [['s', '6e6f6e65']]]]]], ['x', ['c', 'pop', [['c', 'linkersymbol', [['s', '6e6f6e65']]]]]], ['fn', 'add', ['a__'], [], []], ['fn', 'keccak256', [], ['r__'], []],
  ['let', ['q__'], ['c', 'sstore', [['n', '0', 'd'], ['n', '1', 'd']]]], ['x', ['c', 'sstore', [['n', '0', 'd'], ['c', 'mstore', [['n', '0', 'd'], ['n', '1', 'd']]]]]], ['if', ['c', 'log0', [['n', '0', 'd'], ['n', '0', 'd']]], []], ['let', ['q__'], ['c', 'pop', [['n', '1', 'd']]]],
  ['fn', 'q__', ['a__'], ['r__'], [['set', ['r__'], ['c', 'q__', []]]]], ['fn', 'q__', ['a__'], ['r__'], [['set', ['r__'], ['c', 'q__', [['v', 'a__'], ['v', 'a__']]]]]], ['fn', 'q__', [], ['r__', 's__'], [['set', ['r__'], ['c', 'q__', []]]]], ['fn', 'q__', [], ['r__', 's__'], [['let', ['x__', 'y__', 'z__'], ['c', 'q__', []]]]], ['fn', 'q__', [], ['r__', 's__', 't__'], [['set', ['r__', 's__'], ['c', 'q__', []]]]], ['fn', 'q__', [], [], [['let', ['x__'], ['c', 'q__', []]]]], ['fn', 'q__', [], ['r__', 's__'], [['x', ['c', 'pop', [['c', 'q__', []]]]]]]];
const ARITY = { stop: 0, add: 2, sub: 2, mul: 2, div: 2, sdiv: 2, mod: 2, smod: 2, exp: 2, not: 1, lt: 2, gt: 2, slt: 2, sgt: 2, eq: 2, iszero: 1, and: 2, or: 2, xor: 2, byte: 2, shl: 2, shr: 2, sar: 2, addmod: 3, mulmod: 3, signextend: 2, keccak256: 2, pop: 1, mload: 1, mstore: 2, mstore8: 2, mcopy: 3, sload: 1, tload: 1, sstore: 2, tstore: 2, msize: 0, gas: 0, address: 0, balance: 1, selfbalance: 0, caller: 0, callvalue: 0, calldataload: 1, calldatasize: 0, calldatacopy: 3, codesize: 0, codecopy: 3, extcodesize: 1, extcodecopy: 4, datacopy: 3, returndatasize: 0, returndatacopy: 3, extcodehash: 1, create: 3, create2: 4, call: 7, delegatecall: 6, staticcall: 6, return: 2, revert: 2, selfdestruct: 1, invalid: 0, log0: 2, log1: 3, log2: 4, log3: 5, log4: 6, chainid: 0, basefee: 0, blobbasefee: 0, origin: 0, gasprice: 0, blockhash: 1, coinbase: 0, timestamp: 0, number: 0, gaslimit: 0 };
const VOID = new Set('stop pop mstore mstore8 mcopy sstore tstore calldatacopy codecopy extcodecopy datacopy returndatacopy return revert selfdestruct invalid log0 log1 log2 log3 log4'.split(' '));
function wrongArity(at, nth) { const k = Object.keys(ARITY), b = k[(nth === undefined ? at : nth >>> 1) % k.length], n = ARITY[b], m = n && (nth === undefined ? at >>> 8 : nth) & 1 ? n - 1 : n + 1 + (at >>> 9 & 1), call = ['c', b, [...Array(m)].map((_, i) => (at >>> 10 & 1 ? ['c', 'calldatasize', []] : ['n', String(i), 'd']))]; return ['x', VOID.has(b) ? call : ['c', 'sstore', [['n', '0', 'd'], call]]]; }
function semBad(p, at) {
  const o = JSON.parse(JSON.stringify(p.obj)), t = at & 1 ? o : o.subs.find(s => /_deployed$/.test(s.name)), s = at % 5 === 4 ? wrongArity(at >>> 3) : SEM[(at >>> 1) % SEM.length], k = at >>> 16;
  let b = t.code; if (b[0] && b[0][0] === 'blk' && s[0] !== 'fn') b = b[0][1];
  b.splice(s[0] === 'fn' ? 0 : Math.min(b.length, k % 3), 0, s); return { obj: o, why: s[0] + ' ' + (s[1] && s[1][1] || s[1] || '') };
}
function execDisk(c, sys) {
  const a = base(), d = scratch(c), refs = [];
  try {
    for (const p of sys.programs) { // what a completed compilation consists of
      a.opts[p.opts] = 1; const r = compile(c, print(p.obj, p.style), p.opts, p.obj.name, { symbols: p.symbols }); a.compiles++;
      if (r.backend) return { ...a, unmodelled: LLVMCRASH };
      if (!r.ok) return { ...a, ...bad(compileError(r).msg, compileError(r).cls) };
      refs.push(r.files);
    }
    for (const x of ['out', 'out2']) fs.mkdirSync(path.join(d, x));
    for (let k = 0; k < sys.steps.length; k++) {
      const st = sys.steps[k], p = sys.programs[st.p], text = print(p.obj, p.style), inp = path.join(d, 'in.yul'); let expect = 'ok', why = '';
      fs.rmSync(inp, { recursive: true, force: true });
      let content = Buffer.from(text);
      if (st.bad) {
        expect = 'fail'; why = st.bad;
        if (st.bad === 'utf8') { content = Buffer.from(content); content[st.at % content.length] = 0xff; }
        else if (st.bad === 'empty') content = Buffer.alloc(0);
        else if (st.bad === 'cut') { content = content.subarray(0, st.at % (content.length - 2)); if (judge(content) !== false) expect = 'any'; }
        else if (st.bad === 'flip') { content = Buffer.from(content); content[st.at % content.length] ^= 1 << (st.at >>> 8 & 7); if (judge(content) !== false) expect = 'any'; }
        else if (st.bad === 'sem') { const q = semBad(p, st.at); why = q.why; content = Buffer.from(print(q.obj, p.style)); }
      }
      if (st.bad === 'directory') fs.mkdirSync(inp); else if (st.bad !== 'missing') fs.writeFileSync(inp, content);
      const od = path.join(d, st.dir), base0 = 'm' + st.p, outp = path.join(st.abs ? od : st.dir, base0 + '.wasm');
      const args = ['--input', st.abs ? inp : 'in.yul', '--output', outp, ...OPTS[p.opts], ...symArgs(p)];
      if (st.badargs !== undefined) { expect = 'fail'; why = 'arguments'; [() => args.push('--opt-level=fastest'), () => args.push('--no-such-option'), () => { args[3] = path.join(d, 'no/such/dir/x.wasm'); }, () => { args[1] = ''; }, () => args.push('--default_ret_type', 'u8'), () => args.splice(2, 2)][st.badargs](); if (st.badargs === 0) { const i = args.indexOf('--opt-level'); if (i >= 0) args.splice(i, 2); } }
      let taken = null; // the name of an output belongs to a directory
      if (st.taken !== undefined) { const l = Object.keys(refs[st.p]).sort(); taken = path.join(od, l[st.taken % l.length].replace(/^main\b/, base0)); fs.rmSync(taken, { force: true }); fs.mkdirSync(taken); expect = 'fail'; why = 'output ' + path.basename(taken) + ' taken'; a.faults['output name taken'] = (a.faults['output name taken'] || 0) + 1; }
      const before = readAll(od);
      const r = osrun.run(c, d, { seed: st.seed, fault: st.fault, args }); a.compiles++; a.events += r.ops;
      for (const x in r.counts) a.probes['op ' + x] = (a.probes['op ' + x] || 0) + r.counts[x];
      if (r.hit) a.faults[st.fault.k] = (a.faults[st.fault.k] || 0) + 1; else if (st.fault) a.faults['not reached'] = (a.faults['not reached'] || 0) + 1;
      if (st.bad) a.faults['input ' + st.bad] = (a.faults['input ' + st.bad] || 0) + 1; if (st.badargs !== undefined) a.faults['bad arguments'] = (a.faults['bad arguments'] || 0) + 1;
      a.hash = fnv(a.hash, `${k} ${r.status} ${r.signal} ${r.hit}`);
      const desc = `step ${k} (${st.fault ? st.fault.k + ' at operation ' + st.fault.n + (r.hit ? ', ' + r.log.replace(/\n/g, ';') : ', not reached') : st.bad || st.badargs !== undefined || taken ? 'bad ' + why : 'undisturbed'})`, where = { step: k };
      if (taken) fs.rmSync(taken, { recursive: true, force: true });
      if (r.timeout) return { ...a, ...bad(`${desc}: the compiler does not finish`, 'does not finish', where) };
      if (r.status === 0) {
        if (expect === 'fail') return { ...a, ...bad(`${desc}: the compiler reports success`, 'success for bad ' + (st.bad || (taken ? 'output' : 'arguments')), where) };
        if (expect === 'any') continue;
        const now = readAll(od), ref = refs[st.p];
        for (const f in ref) { const g = f.replace(/^main\b/, base0); if (!now[g]) return { ...a, ...bad(`${desc}: success, but ${g} is missing`, 'output missing', where) }; if (!now[g].equals(ref[f])) return { ...a, ...bad(`${desc}: success, but ${g} has ${now[g].length} bytes that are not the ${ref[f].length} of the contract`, 'output wrong', where) }; }
        a.probes.success = (a.probes.success || 0) + 1;
      } else {
        a.probes.failure = (a.probes.failure || 0) + 1;
        if (expect === 'ok' && !r.hit) return { ...a, ...bad(`${desc}: the compiler fails although nothing is wrong: ${r.out.slice(0, 300)}`, 'fails undisturbed', where) };
        if (!r.signal && !r.out.trim()) return { ...a, ...bad(`${desc}: the compiler fails without a report`, 'no report', where) };
        if (st.bad) { const now = readAll(od), x = sameFiles(before, now); if (x && (now[base0 + '.wasm'] && !(before[base0 + '.wasm'] || Buffer.alloc(0)).equals(now[base0 + '.wasm']))) return { ...a, ...bad(`${desc}: no contract was compiled, but ${x}`, 'output after failure', where) }; }
      }
    }
    for (const q of sys.sems || []) { // a small program with one mistake
      const s = q.n !== undefined ? wrongArity(q.at, q.n) : SEM[q.s % SEM.length], x = JSON.parse(JSON.stringify(s)), code = [x], fill = ['x', ['c', 'sstore', [['n', '1', 'd'], ['n', '2', 'd']]]];
      for (let k = q.at % 4; k > 0; k--) if (s[0] === 'lv' || q.at >>> 4 & 1) code.push(fill); else code.unshift(fill);
      const inner = q.at >>> 5 & 1, o = { name: 'C', code: inner ? [fill] : code, subs: [{ name: 'C_deployed', code: inner ? code : [fill], subs: [], data: [] }], data: [] }, ps = sys.programs[0];
      const r = compile(c, print(o, 0), ps.opts, 'C'); a.compiles++; a.events++; a.faults['small program with a mistake'] = (a.faults['small program with a mistake'] || 0) + 1;
      if (r.ok || r.files['main.wasm']) return { ...a, ...bad(`a program with ${JSON.stringify(x)} is accepted`, 'accepts ' + (q.n !== undefined ? 'arity' : x[0]), { mistake: x }) };
      a.hash = fnv(a.hash, `${r.status}`);
    }
  } finally { fs.rmSync(d, { recursive: true, force: true }); }
  return a;
}
const EXEC = { options: execOptions, layout: execLayout, reject: execReject, det: execDet, disk: execDisk };
function execute(c, sys) {
  if (sys.kind) return EXEC[sys.kind](c, sys);
  const o = evaluate(c, sys); o.opts = {}; for (const p of sys.programs) o.opts[p.opts] = 1; return o;
}
module.exports = { damaged, make, execute, corpusSystem, ALLOPTS };
