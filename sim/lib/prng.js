'use strict';
// The only source of randomness of the simulator: xoshiro128** seeded by splitmix32
// from (VERIF_SEED, property, run index). Nothing else may call Math.random or read a clock.
function splitmix32(a) {
  return () => {
    a = (a + 0x9e3779b9) | 0;
    let t = a ^ (a >>> 16); t = Math.imul(t, 0x21f0aaad);
    t ^= t >>> 15; t = Math.imul(t, 0x735a2d97);
    return (t ^ (t >>> 15)) >>> 0;
  };
}
function hashStr(s) {
  let h = 2166136261 >>> 0;
  for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619) >>> 0; }
  return h;
}
class Rng {
  constructor(...parts) {
    const m = splitmix32(hashStr(parts.join('|')));
    this.s = [m(), m(), m(), m()];
  }
  u32() {
    const s = this.s;
    let r = Math.imul(s[1], 5); r = (r << 7) | (r >>> 25); r = Math.imul(r, 9) >>> 0;
    const t = s[1] << 9;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
    s[3] = (s[3] << 11) | (s[3] >>> 21);
    return r;
  }
  int(n) { return n <= 0 ? 0 : this.u32() % n; }            // [0, n)
  range(a, b) { return a + this.int(b - a + 1); }             // [a, b]
  chance(p) { return this.u32() / 4294967296 < p; }
  pick(a) { return a[this.int(a.length)]; }
  bytes(n) { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = this.u32() >>> 13 & 255; return b; }
  weighted(pairs) { // [[weight, value]...]
    let tot = 0; for (const p of pairs) tot += p[0];
    let x = this.u32() / 4294967296 * tot;
    for (const p of pairs) { x -= p[0]; if (x < 0) return p[1]; }
    return pairs[pairs.length - 1][1];
  }
}
module.exports = { Rng, hashStr };
