// Stand-in for libclang_rt.builtins-wasm32 (not installed): the 128-bit helpers LLVM may call.
typedef unsigned __int128 u128; typedef __int128 i128; typedef unsigned long long u64; typedef unsigned int u32;
typedef union { u128 all; struct { u64 lo, hi; } s; } t128;
static u128 mul64(u64 a, u64 b) {
  u64 al = (u32)a, ah = a >> 32, bl = (u32)b, bh = b >> 32;
  u64 p0 = al * bl, p1 = al * bh, p2 = ah * bl, p3 = ah * bh;
  u64 mid = (p0 >> 32) + (u32)p1 + (u32)p2;
  t128 r; r.s.lo = (p0 & 0xffffffffu) | (mid << 32); r.s.hi = p3 + (p1 >> 32) + (p2 >> 32) + (mid >> 32);
  return r.all;
}
i128 __multi3(i128 a, i128 b) {
  t128 x, y, r; x.all = (u128)a; y.all = (u128)b; r.all = mul64(x.s.lo, y.s.lo);
  r.s.hi += x.s.hi * y.s.lo + x.s.lo * y.s.hi; return (i128)r.all;
}
i128 __ashlti3(i128 a, int n) { t128 x, r; x.all = (u128)a; if (n == 0) return a;
  if (n >= 64) { r.s.lo = 0; r.s.hi = x.s.lo << (n - 64); } else { r.s.lo = x.s.lo << n; r.s.hi = (x.s.hi << n) | (x.s.lo >> (64 - n)); } return (i128)r.all; }
i128 __lshrti3(i128 a, int n) { t128 x, r; x.all = (u128)a; if (n == 0) return a;
  if (n >= 64) { r.s.hi = 0; r.s.lo = x.s.hi >> (n - 64); } else { r.s.hi = x.s.hi >> n; r.s.lo = (x.s.lo >> n) | (x.s.hi << (64 - n)); } return (i128)r.all; }
i128 __ashrti3(i128 a, int n) { t128 x, r; x.all = (u128)a; if (n == 0) return a;
  if (n >= 64) { r.s.hi = (u64)((long long)x.s.hi >> 63); r.s.lo = (u64)((long long)x.s.hi >> (n - 64)); }
  else { r.s.hi = (u64)((long long)x.s.hi >> n); r.s.lo = (x.s.lo >> n) | (x.s.hi << (64 - n)); } return (i128)r.all; }
static u128 divmod(u128 n, u128 d, u128 *rem) {
  t128 N, R, Q; N.all = n; R.all = 0; Q.all = 0;
  for (int i = 127; i >= 0; i--) {
    R.s.hi = (R.s.hi << 1) | (R.s.lo >> 63); R.s.lo <<= 1;
    u64 bit = i >= 64 ? (N.s.hi >> (i - 64)) & 1 : (N.s.lo >> i) & 1; R.s.lo |= bit;
    t128 D; D.all = d;
    if (R.s.hi > D.s.hi || (R.s.hi == D.s.hi && R.s.lo >= D.s.lo)) {
      u64 b = R.s.lo < D.s.lo; R.s.lo -= D.s.lo; R.s.hi -= D.s.hi + b;
      if (i >= 64) Q.s.hi |= 1ull << (i - 64); else Q.s.lo |= 1ull << i;
    }
  }
  *rem = R.all; return Q.all;
}
u128 __udivti3(u128 a, u128 b) { u128 r; return divmod(a, b, &r); }
u128 __umodti3(u128 a, u128 b) { u128 r; divmod(a, b, &r); return r; }
i128 __divti3(i128 a, i128 b) { u128 r; int s = (a < 0) ^ (b < 0); u128 q = divmod(a < 0 ? -(u128)a : (u128)a, b < 0 ? -(u128)b : (u128)b, &r); return s ? -(i128)q : (i128)q; }
i128 __modti3(i128 a, i128 b) { u128 r; divmod(a < 0 ? -(u128)a : (u128)a, b < 0 ? -(u128)b : (u128)b, &r); return a < 0 ? -(i128)r : (i128)r; }
__attribute__((weak)) void *memmove(void *d, const void *s, unsigned long n) {
  unsigned char *a = d; const unsigned char *b = s;
  if (a < b) for (unsigned long i = 0; i < n; i++) a[i] = b[i]; else for (unsigned long i = n; i-- > 0;) a[i] = b[i];
  return d;
}
