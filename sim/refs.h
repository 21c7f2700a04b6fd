// Independent reference implementations, written from the published
// specifications and not from the code under test. Byte-oriented and slow on
// purpose; used only as oracles. selftest_refs() checks them against published
// vectors before any simulated run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace ref {
typedef std::vector<uint8_t> Bytes;

void aes128_block(const uint8_t key[16], const uint8_t in[16], uint8_t out[16], bool reduced = false);

// CFB-128 over a whole number of blocks; register is updated.
void cfb128(const uint8_t key[16], uint8_t reg[16], const uint8_t *in, uint8_t *out, size_t n, bool dec, bool reduced);

// AES-CTR: keystream block for (key, nonce, 32-bit big-endian counter).
void ctr_block(const uint8_t key[16], const uint8_t nonce[12], uint32_t ctr, uint8_t out[16]);

void aegis128(const uint8_t key[16], const uint8_t iv[16], const uint8_t *ad, size_t adlen,
              const uint8_t *pt, size_t n, uint8_t *ct, uint8_t tag[16]);

void chacha_block(const uint8_t key[32], const uint8_t nonce[12], uint32_t ctr, int rounds, uint8_t out[64]);

struct Hc128 { uint32_t P[512], Q[512]; uint32_t cnt;
  void init(const uint8_t key[16], const uint8_t iv[16]); uint32_t word(); };

struct Rabbit { uint32_t X[8], C[8]; uint32_t b; uint32_t mX[8], mC[8], mb;
  void key(const uint8_t k[16]); void iv(const uint8_t v[8]); void block(uint8_t out[16]); void step(); };

struct Sosemanuk { uint32_t sk[100]; uint32_t s[10], r1, r2;
  void key(const uint8_t *k, size_t n); void iv(const uint8_t v[16]); void block(uint8_t out[16]);
  void rounds(const uint8_t v[16], uint32_t y12[4], uint32_t y18[4], uint32_t y24[4]); /* Serpent24 */ };

void sha256(const uint8_t *m, size_t n, uint8_t out[32]);
void hmac_sha256(const uint8_t *k, size_t kn, const uint8_t *m, size_t n, uint8_t out[32]);
struct Md5 { uint32_t h[4] = {0x67452301,0xefcdab89,0x98badcfe,0x10325476}; uint64_t total = 0; Bytes rest; void update(const uint8_t *m, size_t n); void final(uint8_t out[16]); };
void md5(const uint8_t *m, size_t n, uint8_t out[16]);

// FIPS 46-3 DES on big-endian 64-bit blocks.
uint64_t des_block(uint64_t key, uint64_t in, bool dec);

std::string selftest();   // empty if every vector matched
}
