'use strict';
// Yul programs as JSON trees, and printing them.
// expr: ['n', hex, form] number | ['s', hex] string | ['b', 0|1] | ['v', name] | ['c', fn, [args]]
// stmt: ['let', [names], e|null] ['set', [names], e] ['if', e, blk] ['sw', e, [[lit, blk]...], blk|null]
//       ['for', blk, e, blk, blk] ['blk', blk] ['brk'] ['cont'] ['lv'] ['x', e] ['fn', name, [params], [rets], blk]
// object: {name, code: blk, subs: [object], data: [[name, hex]]}
const { Rng } = require('../lib/prng');
const N = (v, form) => ['n', BigInt.asUintN(256, BigInt(v)).toString(16), form || 'd'];
const C = (f, ...a) => ['c', f, a];
const V = n => ['v', n];
function numText(v, form) {
  const b = BigInt('0x' + v);
  if (form === 'd') return b.toString(10);
  if (form === 'x') return '0x' + b.toString(16);
  if (form === 'X') return '0x' + b.toString(16).toUpperCase();
  if (form === 'p') { const h = b.toString(16); return '0x' + (h.length % 2 ? '0' : '') + h; }
  return '0x' + b.toString(16).padStart(64, '0'); // 'w'
}
function utf8At(b, i) { // length of the character at i, 0: none
  const n = b[i] >= 0xf0 ? 4 : b[i] >= 0xe0 ? 3 : b[i] >= 0xc2 ? 2 : 0;
  if (!n || i + n > b.length) return 0;
  const t = b.toString('utf8', i, i + n); return Buffer.from(t).equals(b.subarray(i, i + n)) ? n : 0;
}
function strText(hex, r) { // a Yul string literal denoting these bytes
  const b = Buffer.from(hex, 'hex'); let s = '"';
  for (let i = 0; i < b.length; i++) {
    const c = b[i], n = r && c >= 0xc2 ? utf8At(b, i) : 0;
    if (r && r.chance(0.01)) s += '\\' + r.pick([' ', '\n', '\t', ' \r\n ', '   ']) + '\\';
    if (n && r.chance(0.8)) { const t = b.toString('utf8', i, i + n); s += n < 4 && r.chance(0.5) ? '\\u{' + t.charCodeAt(0).toString(16).padStart(4, '0') + '}' : t; i += n - 1; }
    else if (r && c < 128 && r.chance(0.02)) s += '\\u{' + r.pick([x => x, x => x.toUpperCase()])(c.toString(16).padStart(4, '0')) + '}';
    else if (c === 34) s += '\\"'; else if (c === 92) s += '\\\\';
    else if (c === 10) s += '\\n'; else if (c === 9 && r && r.chance(0.5)) s += '\\t';
    else if (c >= 32 && c < 127 && !(r && r.chance(0.05))) s += String.fromCharCode(c);
    else s += '\\x' + (r && r.chance(0.5) ? c.toString(16) : c.toString(16).toUpperCase()).padStart(2, '0');
  }
  return s + '"';
}
function tokens(o, r) {
  const t = [], p = (...x) => t.push(...x);
  const expr = e => {
    switch (e[0]) {
      case 'n': p(numText(e[1], e[2])); type(); break;
      case 's': p(strText(e[1], r)); break;
      case 'b': p(e[1] ? 'true' : 'false'); break;
      case 'v': p(e[1]); break;
      case 'c': p(e[1], '('); e[2].forEach((a, i) => { if (i) p(','); expr(a); }); p(')'); break;
      default: throw new Error('expr ' + e[0]);
    }
  };
  const list = (l, typed) => l.forEach((n, i) => { if (i) p(','); p(n); if (typed) type(); });
  const type = () => { if (o.types && r && r.chance(0.2)) p(':', 'u256'); };
  const block = b => { p('{', '\n'); b.forEach(s => { stmt(s); p('\n'); }); p('}'); };
  const stmt = s => {
    switch (s[0]) {
      case 'let': p('let'); list(s[1], 1); if (s[2]) { p(':='); expr(s[2]); } break;
      case 'set': list(s[1]); p(':='); expr(s[2]); break;
      case 'if': p('if'); expr(s[1]); block(s[2]); break;
      case 'sw': p('switch'); expr(s[1]); for (const [l, b] of s[2]) { p('\n', 'case'); expr(l); block(b); } if (s[3]) { p('\n', 'default'); block(s[3]); } break;
      case 'for': p('for'); block(s[1]); expr(s[2]); block(s[3]); block(s[4]); break;
      case 'blk': block(s[1]); break;
      case 'brk': p('break'); break; case 'cont': p('continue'); break; case 'lv': p('leave'); break;
      case 'x': expr(s[1]); break;
      case 'fn': p('function', s[1], '('); list(s[2], 1); p(')'); if (s[3].length) { p('->'); list(s[3], 1); } block(s[4]); break;
      default: throw new Error('stmt ' + s[0]);
    }
  };
  const obj = o => {
    p('object', '"' + o.name + '"', '{', '\n', 'code'); block(o.code); p('\n');
    for (const [n, h] of o.data || []) p('data', '"' + n + '"', 'hex"' + h + '"', '\n');
    for (const s of o.subs || []) { obj(s); p('\n'); }
    p('}');
  };
  obj(o); return t;
}
const TEXTS = ['x', ' } ', ' " ', " it's ", ' let a := 1 ', ' // ', ' /// @src 0:1:2 ', ' :: ', ' case 0 { ', ' \\ ', ' \\" ', '*', ' = ', ' *\\/ ', ' / * '];
function comment(r) {
  const body = () => { let s = ''; for (let i = r.int(3); i >= 0; i--) s += r.pick(TEXTS); return s; };
  if (r.chance(0.5)) return '//' + body() + '\n';
  let b = body() + (r.chance(0.3) ? '\n' + r.pick([' /* ', ' // ', '*', '**', '"']) : '');
  while (b.includes('*/')) b = b.replace('*/', '* /');
  return '/*' + (b.startsWith('/') ? ' ' : '') + b + '*/';
}
const WORD = /^[A-Za-z0-9_$."]/;
// style: 0 plain; otherwise a seed for layout (white space and comments between any two tokens)
function print(o, style) {
  const r = style ? new Rng('layout', style) : null, t = tokens(o, r);
  let s = '', prev = '', depth = 0;
  for (const x of t) {
    if (x === '\n') { if (!r) s += '\n' + '  '.repeat(Math.max(0, depth)); else s += r.pick(['\n', ' ', '\n\n', '\r\n', '\t', '\n    ']); prev = ' '; continue; }
    if (x === '{') depth++; if (x === '}') depth--;
    const need = WORD.test(x) && /[A-Za-z0-9_$."]$/.test(prev);
    if (!r) { if (prev && prev !== ' ' && prev !== '(' && x !== '(' && x !== ')' && x !== ',') s += ' '; else if (need) s += ' '; }
    else {
      let sep = r.chance(0.5) ? ' '.repeat(r.int(3)) : r.pick(['', '\n', '\t', ' ']);
      if (r.chance(0.06)) sep += comment(r);
      if (r.chance(0.02)) sep += comment(r);
      // a comment is not a separator in every grammar: keep words apart by white space
      if (need && !/\s/.test(sep.replace(/\/\/[^\n]*\n/g, '').replace(/\/\*[\s\S]*?\*\//g, ''))) sep += ' ';
      // never form a comment opener by accident
      s += sep;
    }
    s += x; prev = x;
  }
  return s + '\n';
}
module.exports = { N, C, V, print, numText, strText };
