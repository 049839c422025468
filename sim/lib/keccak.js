'use strict';
// keccak-256 (Ethereum padding), 32-bit lanes.
const RC = [];
(function () {
  let r = 1n; // generate round constants by the LFSR
  const rc = [
    '0000000000000001', '0000000000008082', '800000000000808a', '8000000080008000', '000000000000808b', '0000000080000001',
    '8000000080008081', '8000000000008009', '000000000000008a', '0000000000000088', '0000000080008009', '000000008000000a',
    '000000008000808b', '800000000000008b', '8000000000008089', '8000000000008003', '8000000000008002', '8000000000000080',
    '000000000000800a', '800000008000000a', '8000000080008081', '8000000000008080', '0000000080000001', '8000000080008008'];
  for (const s of rc) RC.push([parseInt(s.slice(8), 16) | 0, parseInt(s.slice(0, 8), 16) | 0]);
})();
const ROT = [0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14];
function f(s) { // s: Int32Array(50): lo,hi per lane
  const b = new Int32Array(50), c = new Int32Array(10);
  for (let round = 0; round < 24; round++) {
    for (let x = 0; x < 5; x++) for (let w = 0; w < 2; w++)
      c[x * 2 + w] = s[x * 2 + w] ^ s[(x + 5) * 2 + w] ^ s[(x + 10) * 2 + w] ^ s[(x + 15) * 2 + w] ^ s[(x + 20) * 2 + w];
    for (let x = 0; x < 5; x++) {
      const l = c[((x + 1) % 5) * 2], h = c[((x + 1) % 5) * 2 + 1];
      const dl = c[((x + 4) % 5) * 2] ^ ((l << 1) | (h >>> 31)), dh = c[((x + 4) % 5) * 2 + 1] ^ ((h << 1) | (l >>> 31));
      for (let y = 0; y < 25; y += 5) { s[(x + y) * 2] ^= dl; s[(x + y) * 2 + 1] ^= dh; }
    }
    for (let x = 0; x < 5; x++) for (let y = 0; y < 5; y++) {
      const i = x + 5 * y, j = y + 5 * ((2 * x + 3 * y) % 5); let n = ROT[i];
      let l = s[i * 2], h = s[i * 2 + 1];
      if (n >= 32) { const t = l; l = h; h = t; n -= 32; }
      if (n) { const nl = (l << n) | (h >>> (32 - n)), nh = (h << n) | (l >>> (32 - n)); l = nl; h = nh; }
      b[j * 2] = l; b[j * 2 + 1] = h;
    }
    for (let y = 0; y < 25; y += 5) for (let x = 0; x < 5; x++) for (let w = 0; w < 2; w++)
      s[(x + y) * 2 + w] = b[(x + y) * 2 + w] ^ (~b[((x + 1) % 5 + y) * 2 + w] & b[((x + 2) % 5 + y) * 2 + w]);
    s[0] ^= RC[round][0]; s[1] ^= RC[round][1];
  }
}
function keccak256(buf) {
  const rate = 136, s = new Int32Array(50);
  const padded = Buffer.alloc((Math.floor(buf.length / rate) + 1) * rate);
  Buffer.from(buf.buffer, buf.byteOffset, buf.length).copy(padded);
  padded[buf.length] = 1; padded[padded.length - 1] |= 0x80;
  for (let o = 0; o < padded.length; o += rate) {
    for (let i = 0; i < rate / 4; i++) s[i] ^= padded.readInt32LE(o + i * 4);
    f(s);
  }
  const out = Buffer.alloc(32);
  for (let i = 0; i < 8; i++) out.writeInt32LE(s[i], i * 4);
  return out;
}
module.exports = { keccak256 };
