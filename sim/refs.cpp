#include "refs.h"
#include <cstring>
#include <mutex>
namespace ref {
static inline uint32_t rotl(uint32_t x, int n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
static inline uint32_t rotr(uint32_t x, int n) { return rotl(x, 32 - n); }
static inline uint32_t ld32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static inline void st32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }

// ---------------------------------------------------------------- AES
static uint8_t SB[256]; static bool sb_ready;
static uint8_t xt(uint8_t a) { return (a << 1) ^ ((a & 0x80) ? 0x1b : 0); }
static uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
static void sb_init() {
  if (sb_ready) return;
  for (int i = 0; i < 256; i++) {
    uint8_t inv = 0;
    if (i) for (int j = 1; j < 256; j++) if (gm(i, j) == 1) { inv = j; break; }
    uint8_t r = 0;
    for (int k = 0; k < 8; k++) {
      int bit = (inv >> k ^ inv >> ((k + 4) & 7) ^ inv >> ((k + 5) & 7) ^ inv >> ((k + 6) & 7) ^ inv >> ((k + 7) & 7) ^ 0x63 >> k) & 1;
      r |= bit << k;
    }
    SB[i] = r;
  }
  sb_ready = true;
}
static uint8_t MUL2[256], MUL3[256]; static bool mul_ready;
static void mul_init() { if (mul_ready) return; for (int i = 0; i < 256; i++) { MUL2[i] = xt(i); MUL3[i] = xt(i) ^ i; } mul_ready = true; }
static void aes_round(uint8_t s[16], const uint8_t rk[16], bool mix) {
  sb_init(); mul_init();
  uint8_t t[16];
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) t[4 * c + r] = SB[s[4 * ((c + r) & 3) + r]];
  if (mix) for (int c = 0; c < 4; c++) {
    uint8_t *q = t + 4 * c, a = q[0], b = q[1], d = q[2], e = q[3];
    q[0] = MUL2[a] ^ MUL3[b] ^ d ^ e; q[1] = a ^ MUL2[b] ^ MUL3[d] ^ e;
    q[2] = a ^ b ^ MUL2[d] ^ MUL3[e]; q[3] = MUL3[a] ^ b ^ d ^ MUL2[e];
  }
  for (int i = 0; i < 16; i++) s[i] = t[i] ^ rk[i];
}
static void aes_expand(const uint8_t key[16], uint8_t rk[176]) {
  sb_init();
  memcpy(rk, key, 16); uint8_t rc = 1;
  for (int i = 16; i < 176; i += 4) {
    uint8_t t[4] = {rk[i - 4], rk[i - 3], rk[i - 2], rk[i - 1]};
    if (i % 16 == 0) { uint8_t x = t[0]; t[0] = SB[t[1]] ^ rc; t[1] = SB[t[2]]; t[2] = SB[t[3]]; t[3] = SB[x]; rc = xt(rc); }
    for (int k = 0; k < 4; k++) rk[i + k] = rk[i - 16 + k] ^ t[k];
  }
}
static void aes_enc_rk(const uint8_t rk[176], const uint8_t in[16], uint8_t out[16], bool reduced) {
  uint8_t s[16];
  for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[i];
  // The toolbox's round-reduced AES (6 of 10 rounds) leaves out rounds 1 to 4.
  for (int r = reduced ? 5 : 1; r < 10; r++) aes_round(s, rk + 16 * r, true);
  aes_round(s, rk + 160, false);
  memcpy(out, s, 16);
}
void aes128_block(const uint8_t key[16], const uint8_t in[16], uint8_t out[16], bool reduced) {
  static thread_local uint8_t ck[16], rk[176]; static thread_local bool have;
  if (!have || memcmp(ck, key, 16)) { memcpy(ck, key, 16); aes_expand(key, rk); have = true; }
  aes_enc_rk(rk, in, out, reduced);
}
void cfb128(const uint8_t key[16], uint8_t reg[16], const uint8_t *in, uint8_t *out, size_t n, bool dec, bool reduced) {
  for (size_t i = 0; i + 16 <= n; i += 16) {
    uint8_t ks[16]; aes128_block(key, reg, ks, reduced);
    uint8_t c[16];
    for (int k = 0; k < 16; k++) { uint8_t o = in[i + k] ^ ks[k]; c[k] = dec ? in[i + k] : o; out[i + k] = o; }
    memcpy(reg, c, 16);
  }
}
void ctr_block(const uint8_t key[16], const uint8_t nonce[12], uint32_t ctr, uint8_t out[16]) {
  uint8_t b[16]; memcpy(b, nonce, 12); b[12] = ctr >> 24; b[13] = ctr >> 16; b[14] = ctr >> 8; b[15] = ctr;
  aes128_block(key, b, out);
}
// ---------------------------------------------------------------- AEGIS-128
struct Aeg { uint8_t s[5][16];
  void upd(const uint8_t m[16]) {
    uint8_t n[5][16];
    for (int i = 0; i < 5; i++) {
      uint8_t t[16]; memcpy(t, s[(i + 4) % 5], 16);
      uint8_t k[16]; memcpy(k, s[i], 16);
      if (i == 0) for (int j = 0; j < 16; j++) k[j] ^= m[j];
      aes_round(t, k, true); memcpy(n[i], t, 16);
    }
    memcpy(s, n, 80);
  } };
void aegis128(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen,
              const uint8_t *pt, size_t n, uint8_t *ct, uint8_t tag[16]) {
  static const uint8_t C0[16] = {0x00,0x01,0x01,0x02,0x03,0x05,0x08,0x0d,0x15,0x22,0x37,0x59,0x90,0xe9,0x79,0x62};
  static const uint8_t C1[16] = {0xdb,0x3d,0x18,0x55,0x6d,0xc2,0x2f,0xf1,0x20,0x11,0x31,0x42,0x73,0xb5,0x28,0xdd};
  Aeg a; uint8_t kiv[16];
  for (int i = 0; i < 16; i++) { kiv[i] = key[i] ^ iv[i]; a.s[0][i] = kiv[i]; a.s[1][i] = C1[i]; a.s[2][i] = C0[i]; a.s[3][i] = key[i] ^ C0[i]; a.s[4][i] = key[i] ^ C1[i]; }
  for (int i = 0; i < 5; i++) { a.upd(key); a.upd(kiv); }
  for (size_t i = 0; i < adlen; i += 16) { uint8_t b[16] = {0}; size_t k = adlen - i < 16 ? adlen - i : 16; memcpy(b, ad + i, k); a.upd(b); }
  for (size_t i = 0; i < n; i += 16) {
    uint8_t b[16] = {0}; size_t k = n - i < 16 ? n - i : 16; memcpy(b, pt + i, k);
    for (size_t j = 0; j < k; j++) ct[i + j] = b[j] ^ a.s[1][j] ^ a.s[4][j] ^ (a.s[2][j] & a.s[3][j]);
    a.upd(b);
  }
  uint8_t t[16]; uint64_t ab = (uint64_t)adlen * 8, mb = (uint64_t)n * 8;
  for (int i = 0; i < 8; i++) { t[i] = ab >> (8 * i); t[8 + i] = mb >> (8 * i); }
  for (int i = 0; i < 16; i++) t[i] ^= a.s[3][i];
  for (int i = 0; i < 7; i++) a.upd(t);
  for (int i = 0; i < 16; i++) tag[i] = a.s[0][i] ^ a.s[1][i] ^ a.s[2][i] ^ a.s[3][i] ^ a.s[4][i];
}
// ---------------------------------------------------------------- ChaCha
static void qr(uint32_t &a, uint32_t &b, uint32_t &c, uint32_t &d) {
  a += b; d = rotl(d ^ a, 16); c += d; b = rotl(b ^ c, 12); a += b; d = rotl(d ^ a, 8); c += d; b = rotl(b ^ c, 7); }
void chacha_block(const uint8_t key[32], const uint8_t nonce[12], uint32_t ctr, int rounds, uint8_t out[64]) {
  static const uint8_t sig[17] = "expand 32-byte k";
  uint32_t x[16], w[16];
  for (int i = 0; i < 4; i++) x[i] = ld32(sig + 4 * i);
  for (int i = 0; i < 8; i++) x[4 + i] = ld32(key + 4 * i);
  x[12] = ctr; for (int i = 0; i < 3; i++) x[13 + i] = ld32(nonce + 4 * i);
  memcpy(w, x, 64);
  for (int r = 0; r < rounds; r += 2) {
    for (int i = 0; i < 4; i++) qr(w[i], w[4 + i], w[8 + i], w[12 + i]);
    for (int i = 0; i < 4; i++) qr(w[i], w[4 + (i + 1) % 4], w[8 + (i + 2) % 4], w[12 + (i + 3) % 4]);
  }
  for (int i = 0; i < 16; i++) st32(out + 4 * i, w[i] + x[i]);
}
// ---------------------------------------------------------------- HC-128
static uint32_t hg1(uint32_t x, uint32_t y, uint32_t z) { return (rotr(x, 10) ^ rotr(z, 23)) + rotr(y, 8); }
static uint32_t hg2(uint32_t x, uint32_t y, uint32_t z) { return (rotl(x, 10) ^ rotl(z, 23)) + rotl(y, 8); }
static uint32_t hh(const uint32_t *T, uint32_t x) { return T[x & 255] + T[256 + ((x >> 16) & 255)]; }
uint32_t Hc128::word() {
  uint32_t j = cnt & 511, r;
  #define M5(k) (((k) + 1024) & 511)
  if ((cnt & 1023) < 512) { P[j] += hg1(P[M5(j - 3)], P[M5(j - 10)], P[M5(j - 511)]); r = hh(Q, P[M5(j - 12)]) ^ P[j]; }
  else { Q[j] += hg2(Q[M5(j - 3)], Q[M5(j - 10)], Q[M5(j - 511)]); r = hh(P, Q[M5(j - 12)]) ^ Q[j]; }
  cnt++; return r;
}
void Hc128::init(const uint8_t key[16], const uint8_t iv[16]) {
  static thread_local uint32_t W[1280];
  for (int i = 0; i < 4; i++) { W[i] = W[i + 4] = ld32(key + 4 * i); W[8 + i] = W[12 + i] = ld32(iv + 4 * i); }
  for (uint32_t i = 16; i < 1280; i++) {
    uint32_t a = W[i - 2], b = W[i - 15];
    W[i] = (rotr(a, 17) ^ rotr(a, 19) ^ (a >> 10)) + W[i - 7] + (rotr(b, 7) ^ rotr(b, 18) ^ (b >> 3)) + W[i - 16] + i;
  }
  memcpy(P, W + 256, 2048); memcpy(Q, W + 768, 2048);
  cnt = 0;
  for (int i = 0; i < 512; i++) { uint32_t r = word(); P[i] = r; }
  for (int i = 0; i < 512; i++) { uint32_t r = word(); Q[i] = r; }
  cnt = 0;
}
// ---------------------------------------------------------------- Rabbit
static uint32_t rg(uint32_t u, uint32_t v) { uint64_t s = (uint32_t)(u + v); s *= s; return (uint32_t)s ^ (uint32_t)(s >> 32); }
void Rabbit::step() {
  static const uint32_t A[8] = {0x4D34D34D,0xD34D34D3,0x34D34D34,0x4D34D34D,0xD34D34D3,0x34D34D34,0x4D34D34D,0xD34D34D3};
  uint32_t G[8];
  for (int j = 0; j < 8; j++) { uint64_t t = (uint64_t)C[j] + A[j] + b; C[j] = (uint32_t)t; b = t >> 32; }
  for (int j = 0; j < 8; j++) G[j] = rg(X[j], C[j]);
  for (int j = 0; j < 8; j++) {
    if (j % 2 == 0) X[j] = G[j] + rotl(G[(j + 7) & 7], 16) + rotl(G[(j + 6) & 7], 16);
    else X[j] = G[j] + rotl(G[(j + 7) & 7], 8) + G[(j + 6) & 7];
  }
}
void Rabbit::key(const uint8_t k[16]) {
  uint32_t K[8]; for (int i = 0; i < 8; i++) K[i] = k[2 * i] | k[2 * i + 1] << 8;
  for (int j = 0; j < 8; j++) {
    if (j % 2 == 0) { X[j] = K[(j + 1) & 7] << 16 | K[j]; C[j] = K[(j + 4) & 7] << 16 | K[(j + 5) & 7]; }
    else { X[j] = K[(j + 5) & 7] << 16 | K[(j + 4) & 7]; C[j] = K[j] << 16 | K[(j + 1) & 7]; }
  }
  b = 0;
  for (int i = 0; i < 4; i++) step();
  for (int j = 0; j < 8; j++) C[j] ^= X[(j + 4) & 7];
  memcpy(mX, X, 32); memcpy(mC, C, 32); mb = b;
}
void Rabbit::iv(const uint8_t v[8]) {
  memcpy(X, mX, 32); b = mb;
  uint32_t lo = ld32(v), hi = ld32(v + 4);
  uint32_t a = (hi & 0xffff0000) | lo >> 16, c = (hi & 0xffff) << 16 | (lo & 0xffff);
  for (int j = 0; j < 8; j += 4) { C[j] = mC[j] ^ lo; C[j + 1] = mC[j + 1] ^ a; C[j + 2] = mC[j + 2] ^ hi; C[j + 3] = mC[j + 3] ^ c; }
  for (int i = 0; i < 4; i++) step();
}
void Rabbit::block(uint8_t out[16]) {
  step();
  static const int lo[4] = {5, 7, 1, 3}, hi[4] = {3, 5, 7, 1};
  for (int i = 0; i < 4; i++) {
    uint32_t x = X[2 * i];
    uint32_t l = (x & 0xffff) ^ (X[lo[i]] >> 16), h = (x >> 16) ^ (X[hi[i]] & 0xffff);
    st32(out + 4 * i, l | h << 16);
  }
}
// ---------------------------------------------------------------- Sosemanuk
static const uint8_t SERP[8][16] = {
 {3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12},{15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4},
 {8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2},{0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},
 {1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13},{15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1},
 {7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0},{1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6}};
static void sbox(int n, uint32_t w[4]) {
  uint32_t o[4] = {0, 0, 0, 0};
  for (int i = 0; i < 32; i++) {
    int v = 0; for (int k = 0; k < 4; k++) v |= ((w[k] >> i) & 1) << k;
    int r = SERP[n][v]; for (int k = 0; k < 4; k++) o[k] |= (uint32_t)((r >> k) & 1) << i;
  }
  memcpy(w, o, 16);
}
static void serp_lt(uint32_t x[4]) {
  x[0] = rotl(x[0], 13); x[2] = rotl(x[2], 3); x[1] ^= x[0] ^ x[2]; x[3] ^= x[2] ^ (x[0] << 3);
  x[1] = rotl(x[1], 1); x[3] = rotl(x[3], 7); x[0] ^= x[1] ^ x[3]; x[2] ^= x[3] ^ (x[1] << 7);
  x[0] = rotl(x[0], 5); x[2] = rotl(x[2], 22);
}
// GF(2^8) of Sosemanuk: x^8+x^7+x^5+x^3+1
static uint8_t bmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ ((a & 0x80) ? 0xA9 : 0); b >>= 1; } return r; }
static uint32_t AL[256], IAL[256]; static bool al_ready;
static void al_init() {
  if (al_ready) return;
  uint8_t pw[255]; pw[0] = 1; for (int i = 1; i < 255; i++) pw[i] = bmul(pw[i - 1], 2);
  // alpha is a root of X^4 + b^23 X^3 + b^245 X^2 + b^48 X + b^239
  for (int c = 0; c < 256; c++) {
    AL[c] = (uint32_t)bmul(c, pw[23]) << 24 | bmul(c, pw[245]) << 16 | bmul(c, pw[48]) << 8 | bmul(c, pw[239]);
    // 1/alpha: b^16 X^3 + b^39 X^2 + b^6 X + b^64
    IAL[c] = (uint32_t)bmul(c, pw[16]) << 24 | bmul(c, pw[39]) << 16 | bmul(c, pw[6]) << 8 | bmul(c, pw[64]);
  }
  al_ready = true;
}
void Sosemanuk::key(const uint8_t *k, size_t n) {
  uint8_t kb[32] = {0}; memcpy(kb, k, n); if (n < 32) kb[n] = 1;
  uint32_t w[8 + 100]; for (int i = 0; i < 8; i++) w[i] = ld32(kb + 4 * i);
  for (int i = 0; i < 100; i++) w[i + 8] = rotl(w[i] ^ w[i + 3] ^ w[i + 5] ^ w[i + 7] ^ 0x9e3779b9u ^ (uint32_t)i, 11);
  for (int i = 0; i < 25; i++) { uint32_t q[4]; memcpy(q, w + 8 + 4 * i, 16); sbox((35 - i) % 8, q); memcpy(sk + 4 * i, q, 16); }
}
void Sosemanuk::rounds(const uint8_t v[16], uint32_t y12[4], uint32_t y18[4], uint32_t x[4]) {
  for (int i = 0; i < 4; i++) x[i] = ld32(v + 4 * i);
  for (int r = 0; r < 24; r++) {
    for (int k = 0; k < 4; k++) x[k] ^= sk[4 * r + k];
    sbox(r % 8, x); serp_lt(x);
    if (r == 11) memcpy(y12, x, 16);
    if (r == 17) memcpy(y18, x, 16);
  }
  for (int k = 0; k < 4; k++) x[k] ^= sk[96 + k];
}
void Sosemanuk::iv(const uint8_t v[16]) {
  uint32_t x[4], y12[4], y18[4]; rounds(v, y12, y18, x);
  s[9] = y12[0]; s[8] = y12[1]; s[7] = y12[2]; s[6] = y12[3];
  s[5] = y18[3]; s[4] = y18[1];
  s[3] = x[0]; s[2] = x[1]; s[1] = x[2]; s[0] = x[3];
  r1 = y18[0]; r2 = y18[2];
}
void Sosemanuk::block(uint8_t out[16]) {
  al_init();
  uint32_t f[4], d[4];
  for (int i = 0; i < 4; i++) {
    uint32_t o = r1;
    r1 = r2 + ((o & 1) ? s[1] ^ s[8] : s[1]);
    r2 = rotl(o * 0x54655307u, 7);
    f[i] = (s[9] + r1) ^ r2;
    d[i] = s[0];
    uint32_t n = s[9] ^ ((s[3] >> 8) ^ IAL[s[3] & 255]) ^ ((s[0] << 8) ^ AL[s[0] >> 24]);
    for (int k = 0; k < 9; k++) s[k] = s[k + 1];
    s[9] = n;
  }
  sbox(2, f);
  for (int i = 0; i < 4; i++) st32(out + 4 * i, f[i] ^ d[i]);
}
// ---------------------------------------------------------------- SHA-256 / HMAC / MD5
static uint32_t icbrt_frac(uint32_t p) { // first 32 bits of the fractional part of the cube root
  long double lo = 0; (void)lo; // integer arithmetic: floor(cbrt(p) * 2^32)
  unsigned __int128 n = (unsigned __int128)p << 96; uint64_t r = 0;
  for (int b = 36; b >= 0; b--) { uint64_t t = r | (1ull << b); unsigned __int128 c = (unsigned __int128)t * t; if (c <= n / t) r = t; }
  return (uint32_t)r;
}
static uint32_t isqrt_frac(uint32_t p) {
  unsigned __int128 n = (unsigned __int128)p << 64; uint64_t r = 0;
  for (int b = 36; b >= 0; b--) { uint64_t t = r | (1ull << b); if ((unsigned __int128)t * t <= n) r = t; }
  return (uint32_t)r;
}
static uint32_t KT[64], HT[8]; static bool sh_ready;
static void sh_init() {
  if (sh_ready) return;
  int n = 0; for (uint32_t p = 2; n < 64; p++) { bool pr = true; for (uint32_t q = 2; q * q <= p; q++) if (p % q == 0) pr = false; if (!pr) continue; KT[n] = icbrt_frac(p); if (n < 8) HT[n] = isqrt_frac(p); n++; }
  sh_ready = true;
}
static void sha_block(uint32_t h[8], const uint8_t *b) {
  uint32_t w[64];
  for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
  for (int i = 16; i < 64; i++) { uint32_t x = w[i - 15], y = w[i - 2]; w[i] = w[i - 16] + (rotr(x, 7) ^ rotr(x, 18) ^ x >> 3) + w[i - 7] + (rotr(y, 17) ^ rotr(y, 19) ^ y >> 10); }
  uint32_t v[8]; memcpy(v, h, 32);
  for (int i = 0; i < 64; i++) {
    uint32_t t1 = v[7] + (rotr(v[4], 6) ^ rotr(v[4], 11) ^ rotr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + KT[i] + w[i];
    uint32_t t2 = (rotr(v[0], 2) ^ rotr(v[0], 13) ^ rotr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    for (int k = 7; k > 0; k--) v[k] = v[k - 1];
    v[4] += t1; v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) h[i] += v[i];
}
void sha256(const uint8_t *m, size_t n, uint8_t out[32]) {
  sh_init(); uint32_t h[8]; memcpy(h, HT, 32);
  size_t i = 0; for (; i + 64 <= n; i += 64) sha_block(h, m + i);
  uint8_t b[128] = {0}; size_t r = n - i; if (r) memcpy(b, m + i, r); b[r] = 0x80;
  size_t t = r < 56 ? 64 : 128; uint64_t bits = (uint64_t)n * 8; for (int k = 0; k < 8; k++) b[t - 1 - k] = bits >> (8 * k);
  for (size_t k = 0; k < t; k += 64) sha_block(h, b + k);
  for (int k = 0; k < 8; k++) { out[4 * k] = h[k] >> 24; out[4 * k + 1] = h[k] >> 16; out[4 * k + 2] = h[k] >> 8; out[4 * k + 3] = h[k]; }
}
void hmac_sha256(const uint8_t *k, size_t kn, const uint8_t *m, size_t n, uint8_t out[32]) {
  uint8_t kb[64] = {0}; if (kn > 64) sha256(k, kn, kb); else if (kn) memcpy(kb, k, kn);
  Bytes i(64 + n); for (int j = 0; j < 64; j++) i[j] = kb[j] ^ 0x36; if (n) memcpy(&i[64], m, n);
  uint8_t o[96]; for (int j = 0; j < 64; j++) o[j] = kb[j] ^ 0x5c; sha256(i.data(), i.size(), o + 64);
  sha256(o, 96, out);
}
static const uint32_t MK[64] = {
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static void md5_blocks(uint32_t *h, const uint8_t *b, size_t n) {
  static const int S[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
  for (size_t o = 0; o < n; o += 64) {
    uint32_t a = h[0], bb = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) {
      uint32_t f; int g, r = i / 16;
      if (r == 0) { f = (bb & c) | (~bb & d); g = i; }
      else if (r == 1) { f = (d & bb) | (~d & c); g = (5 * i + 1) % 16; }
      else if (r == 2) { f = bb ^ c ^ d; g = (3 * i + 5) % 16; }
      else { f = c ^ (bb | ~d); g = (7 * i) % 16; }
      uint32_t t = d; d = c; c = bb; bb = bb + rotl(a + f + MK[i] + ld32(&b[o + 4 * g]), S[r][i % 4]); a = t;
    }
    h[0] += a; h[1] += bb; h[2] += c; h[3] += d;
  }
}
void Md5::update(const uint8_t *m, size_t n) {
  total += n;
  if (!rest.empty()) { size_t k = std::min<size_t>(n, 64 - rest.size()); rest.insert(rest.end(), m, m + k); m += k; n -= k; if (rest.size() == 64) { md5_blocks(h, rest.data(), 64); rest.clear(); } }
  size_t w = n / 64 * 64; md5_blocks(h, m, w); rest.insert(rest.end(), m + w, m + n);
}
void Md5::final(uint8_t out[16]) {
  Bytes b = rest; b.push_back(0x80); while (b.size() % 64 != 56) b.push_back(0);
  for (int i = 0; i < 8; i++) b.push_back(total * 8 >> (8 * i));
  md5_blocks(h, b.data(), b.size()); for (int i = 0; i < 4; i++) st32(out + 4 * i, h[i]);
}
void md5(const uint8_t *m, size_t n, uint8_t out[16]) { Md5 x; x.update(m, n); x.final(out); }
// ---------------------------------------------------------------- DES (FIPS 46-3)
static const int IP[64]={58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
static const int EE[48]={32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1};
static const int PP[32]={16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
static const int PC1[56]={57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
static const int PC2[48]={14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
static const uint8_t DS[8][64]={
{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13},
{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}};
static uint64_t perm(uint64_t in, int inbits, const int *t, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r = r << 1 | ((in >> (inbits - t[i])) & 1); return r; }
uint64_t des_block(uint64_t key, uint64_t in, bool dec) {
  uint64_t k = perm(key, 64, PC1, 56); uint32_t c = k >> 28, d = k & 0xfffffff; uint64_t rk[16];
  static const int sh[16] = {1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1};
  for (int i = 0; i < 16; i++) { c = (c << sh[i] | c >> (28 - sh[i])) & 0xfffffff; d = (d << sh[i] | d >> (28 - sh[i])) & 0xfffffff; rk[i] = perm((uint64_t)c << 28 | d, 56, PC2, 48); }
  uint64_t x = perm(in, 64, IP, 64); uint32_t l = x >> 32, r = (uint32_t)x;
  for (int i = 0; i < 16; i++) {
    uint64_t e = perm(r, 32, EE, 48) ^ rk[dec ? 15 - i : i]; uint32_t f = 0;
    for (int j = 0; j < 8; j++) { int v = (e >> (42 - 6 * j)) & 63; f = f << 4 | DS[j][((v & 32) | ((v & 1) << 4)) | ((v >> 1) & 15)]; }
    uint32_t n = l ^ (uint32_t)perm(f, 32, PP, 32); l = r; r = n;
  }
  uint64_t o = (uint64_t)r << 32 | l, res = 0; // FP is the inverse of IP
  for (int i = 0; i < 64; i++) res |= ((o >> (63 - i)) & 1) << (64 - IP[i]);
  return res;
}
// ---------------------------------------------------------------- self-test
static Bytes hx(const char *s) { Bytes b; for (; *s; s++) { if (*s == ' ') continue; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; b.push_back(v(s[0]) << 4 | v(s[1])); s++; } return b; }
std::string selftest() {
  std::string bad;
  auto chk = [&](const char *n, const uint8_t *got, const char *want) { Bytes w = hx(want); if (memcmp(got, w.data(), w.size())) bad += std::string(n) + " "; };
  uint8_t o[64], t[16]; uint8_t z[64] = {0};
  aes128_block(hx("000102030405060708090a0b0c0d0e0f").data(), hx("00112233445566778899aabbccddeeff").data(), o); chk("aes", o, "69c4e0d86a7b0430d8cdb78070b4c55a");
  { Bytes k = hx("2b7e151628aed2a6abf7158809cf4f3c"), r = hx("000102030405060708090a0b0c0d0e0f"), p = hx("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51"); uint8_t c[32];
    cfb128(k.data(), r.data(), p.data(), c, 32, false, false); chk("cfb", c, "3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b"); }
  { Bytes k = hx("AE6852F8121067CC4BF7A5765577F39E"), n = hx("000000300000000000000000"); uint8_t c[16]; ctr_block(k.data(), n.data(), 1, c); Bytes p((const uint8_t*)"Single block msg", (const uint8_t*)"Single block msg" + 16); for (int i = 0; i < 16; i++) c[i] ^= p[i]; chk("ctr", c, "E4095D4FB7A7B3792D6175A3261311B8"); }
  aegis128(z, z, z, 0, z, 16, o, t); chk("aegis1", o, "951b050fa72b1a2fc16d2e1f01b07d7e"); chk("aegis1t", t, "a7d2a99773249542f422217ee888d5f1");
  { uint8_t k[32]; for (int i = 0; i < 32; i++) k[i] = i; Bytes n = hx("000000090000004a00000000"); chacha_block(k, n.data(), 1, 20, o); chk("chacha20", o, "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e"); }
  chacha_block(z, z, 0, 8, o); chk("chacha8", o, "3e00ef2f895f40d67f5bb8e81f09a5a12c840ec3ce9a7f3b181be188ef711a1e");
  chacha_block(z, z, 0, 12, o); chk("chacha12", o, "9bf49a6a0755f953811fce125f2683d50429c3bb49e074147e0089a52eae155f");
  { Hc128 h; h.init(z, z); for (int i = 0; i < 4; i++) st32(o + 4 * i, h.word()); chk("hc128", o, "82001573A003FD3B7FD72FFB0EAF63AA"); }
  { Rabbit r; r.key(z); r.block(o); chk("rabbit-key", o, "02F74A1C26456BF5ECD6A536F05457B1"); r.key(z); r.iv(z); r.block(o); chk("rabbit-iv0", o, "EDB70567375DCD7CD89554F85E27A7C6"); r.key(z); r.iv(hx("597E26C175F573C3").data()); r.block(o); chk("rabbit-iv", o, "6D7D012292CCDCE0E2120058B94ECD1F"); }
  { Sosemanuk s; Bytes k = hx("00112233445566778899AABBCCDDEEFF"), v = hx("8899AABBCCDDEEFF0011223344556677"); s.key(k.data(), 16); s.iv(v.data()); s.block(o); s.block(o + 16); chk("sosemanuk", o, "FA61DBEB71178131A77C714BD2EABF4E1394207A25698AA1308F2F063A0F7606");
    Bytes k2 = hx("A7C083FEB7"); s.key(k2.data(), 5); s.iv(k.data()); s.block(o); s.block(o + 16); chk("sosemanuk-short", o, "FE81D2162C9A100D04895C454A77515BBE6A431A935CB90E"); }
  sha256((const uint8_t*)"abc", 3, o); chk("sha256", o, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
  { Bytes k(20, 0x0b); hmac_sha256(k.data(), 20, (const uint8_t*)"Hi There", 8, o); chk("hmac", o, "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7"); Bytes k2(131, 0xaa); const char *m = "Test Using Larger Than Block-Size Key - Hash Key First"; hmac_sha256(k2.data(), 131, (const uint8_t*)m, strlen(m), o); chk("hmac-long", o, "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54"); }
  md5((const uint8_t*)"message digest", 14, o); chk("md5", o, "f96b697d7cb7938d525a2f31aaf161d0");
  { uint64_t r = des_block(0x133457799BBCDFF1ull, 0x0123456789ABCDEFull, false); if (r != 0x85E813540F0AB405ull) bad += "des "; if (des_block(0x133457799BBCDFF1ull, r, true) != 0x0123456789ABCDEFull) bad += "des-inv "; }
  return bad;
}
}
