//! Stand-in for `keccak_hash` (not available offline): Keccak-256.
#![allow(clippy::all)]
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
fn f(s: &mut [u64; 25]) {
    for r in 0..24 {
        let mut c = [0u64; 5];
        for i in 0..5 { c[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20]; }
        for i in 0..5 { let t = c[(i + 4) % 5] ^ c[(i + 1) % 5].rotate_left(1); for j in 0..5 { s[i + 5 * j] ^= t; } }
        let mut t = s[1];
        for i in 0..24 { let j = PIL[i]; let b = s[j]; s[j] = t.rotate_left(ROT[i]); t = b; }
        for j in 0..5 { let mut b = [0u64; 5]; for i in 0..5 { b[i] = s[5 * j + i]; } for i in 0..5 { s[5 * j + i] = b[i] ^ (!b[(i + 1) % 5] & b[(i + 2) % 5]); } }
        s[0] ^= RC[r];
    }
}
fn hash(d: &[u8]) -> [u8; 32] {
    let mut s = [0u64; 25];
    let mut m = d.to_vec();
    m.push(1);
    while m.len() % 136 != 0 { m.push(0); }
    let n = m.len();
    m[n - 1] |= 0x80;
    for b in m.chunks(136) {
        for i in 0..17 { s[i] ^= u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
        f(&mut s);
    }
    let mut o = [0u8; 32];
    for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); }
    o
}
/// Hashes the buffer in place: its first 32 bytes become the digest.
pub fn keccak256(d: &mut [u8]) { let h = hash(d); d[..32].copy_from_slice(&h); }
pub fn keccak_256(i: &[u8], o: &mut [u8]) { o[..32].copy_from_slice(&hash(i)); }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct H256(pub [u8; 32]);
impl H256 {
    pub fn as_bytes(&self) -> &[u8] { &self.0 }
    pub fn to_fixed_bytes(self) -> [u8; 32] { self.0 }
}
impl AsRef<[u8]> for H256 { fn as_ref(&self) -> &[u8] { &self.0 } }
pub fn keccak<T: AsRef<[u8]>>(s: T) -> H256 { H256(hash(s.as_ref())) }
