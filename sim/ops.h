// C-ABI between the simulator and one component of the toolbox. Every
// component is built from /repo's sources into a shared object of its own
// (two variants of the same code can then live in one process), together with
// a shim that fills in this table.
#pragma once
#include <cstdint>
#include <cstddef>
enum Kind { K_CFB = 1, K_CTR, K_AEGIS, K_CHACHA, K_HC128, K_RABBIT, K_SOSE, K_HMAC, K_SHA, K_MD5, K_DES, K_JL, K_LHE, K_SERP, K_HEX };
struct Ops {
  int kind;
  size_t ctx_size, ctx_align;
  void (*construct)(void *mem);
  int key_min, key_max, iv_len;
  // stream ciphers
  void (*init)(void *cs, uint8_t *key, int keylen, uint8_t *iv);   // key and IV
  void (*load_key)(void *cs, uint8_t *key, int keylen);            // null if the cipher has only init
  void (*load_iv)(void *cs, uint8_t *iv);
  void (*process)(void *cs, uint8_t *out, uint8_t *in, uint64_t n, int mode);
  void (*chacha_block)(void *cs, uint32_t ctr, uint32_t *ks);
  // AEGIS
  void (*seal)(void *cs, uint8_t *ct, uint8_t *tag, uint8_t *pt, uint8_t *ad, uint8_t *iv, uint64_t adlen, uint64_t n);
  int (*open)(void *cs, uint8_t *pt, uint8_t *ct, uint8_t *ad, uint8_t *iv, uint8_t *tag, uint64_t adlen, uint64_t n);
  // HMAC, hashes
  void (*tag)(void *cs, uint8_t *tag, uint8_t *m, uint64_t n, int taglen);
  int (*validate)(void *cs, uint8_t *tag, uint8_t *m, uint64_t n, int taglen);
  void (*sha256)(uint8_t *digest, uint8_t *m, uint64_t n);
  void (*md5_init)(void *cs);
  void (*md5_update)(void *cs, uint8_t *m, uint32_t n);
  void (*md5_final)(uint8_t *digest, void *cs);
  void (*md5_packet)(void *cs, uint8_t *digest, uint8_t *m, uint32_t n);
  // DES
  void (*des_key_enc)(void *cs, uint8_t *key);
  void (*des_key_dec)(void *cs, uint8_t *key);
  void (*des_ecb)(void *cs, uint32_t *out, uint32_t *in, uint64_t n);
  void (*des_ctr)(void *cs, uint32_t *out, uint32_t *in, uint32_t *nonce, uint64_t n);
  void (*des_block)(void *cs, uint32_t *out, uint32_t *in);
  // hex text
  void (*hex_enc)(char *text, const uint8_t *m, int n);
  void (*hex_dec)(uint8_t *m, const char *text, int n);
  // Joye-Libert and labeled HE. mpz_t arguments as void* (mpz_ptr); LHE
  // ciphertexts as void* to ctx_size bytes built with construct.
  void (*jl_keygen)(void *N, void *y, void *p, uint32_t msgsize, uint32_t keysize);
  void (*jl_encrypt)(void *c, void *rs, void *m, void *y, void *N, uint32_t msgsize);
  void (*jl_decrypt)(void *m, void *c, void *p, void *y, uint32_t msgsize);
  void (*he_keygen)(void *N, void *y, void *p, uint32_t msgsize, uint32_t keysize);
  void (*mu_keygen)(void *upk, void *usk, void *rs, void *N, void *y, uint32_t msgsize);
  void (*he_ct_free)(void *ct);
  void *(*he_ct_a)(void *ct);
  void *(*he_ct_beta)(void *ct);
  size_t hc_size;
  void (*hc_construct)(void *mem);
  void (*hc_init)(void *hc, uint8_t *key, uint8_t *iv);
  void (*hc_process)(void *hc, uint8_t *out, uint8_t *in, uint64_t n);
  void (*he_encrypt)(void *ct, void *rs, void *hc, void *b, void *m, void *y, void *N, void *label, uint32_t msgsize);
  void (*he_mult)(void *alpha, void *rs, void *c1, void *c2, void *y, void *N, uint32_t msgsize);
  void (*he_mult3)(void *alpha, void *rs, void *c1, void *c2, void *c3, void *b12, void *b13, void *b23, void *y, void *N, uint32_t msgsize);
  void (*he_add)(void *c, void *c1, void *c2, void *N, uint32_t msgsize);
  void (*he_sub)(void *c, void *c1, void *c2, void *N, uint32_t msgsize);
  void (*he_cmult)(void *c, void *c1, void *a, void *N, uint32_t msgsize);
  void (*he_add2)(void *c, void *c1, void *c2, void *N);
  void (*he_sub2)(void *c, void *c1, void *c2, void *N);
  void (*he_cmult2)(void *c, void *c1, void *k, void *N);
  void (*he_dec)(void *m, void *ct, void *p, void *y, uint32_t msgsize);
  void (*he_dec2)(void *m, void *c, void *b, void *p, void *y, uint32_t msgsize);
};
extern "C" const Ops *cx_ops(void);
