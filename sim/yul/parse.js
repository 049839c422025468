'use strict';
// A strict reader of Yul texts, written from the grammar of the language: comments are white space, the
// longest token wins, keywords are reserved. Gives the tree of lang.js or throws Syntax.
class Syntax extends Error {}
const KW = new Set(['object', 'code', 'let', 'if', 'for', 'switch', 'case', 'default', 'function', 'leave', 'break', 'continue', 'true', 'false']);
const RULES = [
  ['data', /data[ \t\r\n]*"[a-zA-Z_0-9.]+"/y], ['hexdata', /hex"[0-9a-fA-F]+"/y], ['hex', /0x[0-9a-fA-F]+/y], ['dec', /[0-9]+/y],
  ['str', /"(?:\\(?:"|\\|n|t|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]{4}\}|[ \n\t\r\f]+\\)|[^"\n\\])*"/y],
  ['name', /[a-zA-Z_][a-zA-Z_0-9.$]*/y], ['p', /->|:=|[{}(),:]/y],
];
// removes comments the way every reader of Yul must see them; null if one does not end
function uncomment(s) {
  let o = '';
  for (let i = 0; i < s.length;) {
    if (s[i] === '"') { const j = strEnd(s, i); o += s.slice(i, j); i = j; } else if (s.startsWith('//', i)) { while (i < s.length && s[i] !== '\n') i++; o += ' '; } else if (s.startsWith('/*', i)) { const j = s.indexOf('*/', i + 2); if (j < 0) return null; i = j + 2; o += ' '; } else o += s[i++];
  }
  return o;
}
function strEnd(s, i) { for (i++; i < s.length; i++) { if (s[i] === '\\') { if (/[ \n\t\r\f]/.test(s[++i] || '')) while (/[ \n\t\r\f]/.test(s[i] || '')) i++; } else if (s[i] === '"' || s[i] === '\n') return i + 1; } return s.length; }
function lex(s) {
  const t = []; let i = 0;
  for (;;) {
    while (i < s.length && /[\s\u0085]/.test(s[i]) && s[i] !== '\ufeff') i++;
    if (i >= s.length) return t;
    let best = null, kind;
    for (const [k, re] of RULES) { re.lastIndex = i; const m = re.exec(s); if (m && (best === null || m[0].length > best.length)) { best = m[0]; kind = k; } }
    if (best === null) throw new Syntax('no token at ' + i);
    if (kind === 'name' && KW.has(best)) kind = 'kw';
    t.push({ k: kind, s: best, at: i }); i += best.length;
  }
}
function unescape(raw) { // bytes of the text between the quotes
  const out = [];
  for (let i = 0; i < raw.length; i++) {
    if (raw[i] !== '\\') { const c = String.fromCodePoint(raw.codePointAt(i)); if (c.length > 1) i++; out.push(...Buffer.from(c)); continue; }
    const c = raw[++i];
    if (c === 'n') out.push(10); else if (c === 't') out.push(9); else if (c === '"' || c === '\\') out.push(c.charCodeAt(0));
    else if (c === 'x') { out.push(parseInt(raw.slice(i + 1, i + 3), 16)); i += 2; }
    else if (c === 'u') { out.push(...Buffer.from(String.fromCodePoint(parseInt(raw.slice(i + 2, i + 6), 16)))); i += 6; }
    else { while (raw[i] !== '\\') i++; }
  }
  return Buffer.from(out).toString('hex');
}
function parse(text) {
  const src = uncomment(text); if (src === null) throw new Syntax('comment without end');
  const t = lex(src); let i = 0;
  const fail = () => { throw new Syntax('unexpected ' + (t[i] ? t[i].s : 'end')); };
  const is = s => t[i] && (t[i].k === 'p' || t[i].k === 'kw') && t[i].s === s;
  const eat = s => { if (!is(s)) fail(); i++; };
  const opt = s => (is(s) ? (i++, true) : false);
  const tok = k => { if (!t[i] || t[i].k !== k) fail(); return t[i++].s; };
  const isLit = () => t[i] && (['dec', 'hex', 'str'].includes(t[i].k) || is('true') || is('false'));
  const type = () => { if (opt(':')) tok('name'); };
  const lit = () => {
    let l; const x = t[i];
    if (!isLit()) fail(); i++;
    if (x.k === 'dec') l = ['n', BigInt(x.s).toString(16), 'd']; else if (x.k === 'hex') l = ['n', BigInt(x.s).toString(16), 'x'];
    else if (x.k === 'str') l = ['s', unescape(x.s.slice(1, -1))]; else l = ['b', x.s === 'true' ? 1 : 0];
    type(); return l;
  };
  const expr = () => { if (isLit()) return lit(); const n = tok('name'); if (is('(')) return call(n); return ['v', n]; };
  const call = n => { eat('('); const a = []; if (!opt(')')) { do a.push(expr()); while (opt(',')); eat(')'); } return ['c', n, a]; };
  const typed = () => { const l = []; do { l.push(tok('name')); type(); } while (opt(',')); return l; };
  const block = () => { eat('{'); const b = []; while (!is('}')) b.push(stmt()); i++; return b; };
  const stmt = () => {
    if (is('{')) return ['blk', block()];
    if (opt('function')) { const n = tok('name'); eat('('); const ps = is(')') ? [] : typed(); eat(')'); const rs = opt('->') ? typed() : []; return ['fn', n, ps, rs, block()]; }
    if (opt('let')) { const l = typed(); return ['let', l, opt(':=') ? expr() : null]; }
    if (opt('if')) { const e = expr(); return ['if', e, block()]; }
    if (opt('for')) { const a = block(), e = expr(), p = block(), b = block(); return ['for', a, e, p, b]; }
    if (opt('switch')) { const e = expr(), cs = []; while (opt('case')) { const l = lit(); cs.push([l, block()]); } const d = opt('default') ? block() : null; if (!cs.length && !d) fail(); return ['sw', e, cs, d]; }
    if (opt('leave')) return ['lv']; if (opt('break')) return ['brk']; if (opt('continue')) return ['cont'];
    const n = tok('name'); if (is('(')) return ['x', call(n)];
    const l = [n]; while (opt(',')) l.push(tok('name')); eat(':='); return ['set', l, expr()];
  };
  const object = () => {
    eat('object'); const name = Buffer.from(unescape(tok('str').slice(1, -1)), 'hex').toString('utf8'); eat('{'); eat('code'); const o = { name, code: block(), subs: [], data: [] };
    for (;;) { if (is('object')) o.subs.push(object()); else if (t[i] && t[i].k === 'data') { const n = tok('data').slice(4).trim().slice(1, -1); let h = ''; while (t[i] && t[i].k === 'hexdata') h += tok('hexdata').slice(4, -1); o.data.push([n, h]); } else break; }
    eat('}'); return o;
  };
  const o = object(); if (i < t.length) fail(); return o;
}
// names of what the language leaves open: only for deciding whether a text is a program at all
function valid(text) { try { parse(text); return true; } catch (e) { if (e instanceof Syntax) return false; throw e; } }
// the tokens with their places in the text
function spans(s) {
  let o = '';
  for (let i = 0; i < s.length;) { const j = s[i] === '"' ? strEnd(s, i) : s.startsWith('//', i) ? (s.indexOf('\n', i) + 1 || s.length + 1) - 1 : s.startsWith('/*', i) ? s.indexOf('*/', i + 2) + 2 : i + 1; o += s[i] === '"' || j === i + 1 ? s.slice(i, j) : ' '.repeat(j - i); i = j; }
  return lex(o);
}
module.exports = { parse, valid, Syntax, uncomment, spans };
