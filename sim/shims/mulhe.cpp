#include "mu_labeled_he.h"
#include "../../Joye_libert/joye_libert.h"
#include "shim.h"
#include <type_traits>
#define Z(x) ((mpz_ptr)(x))
#define C(x) ((he_ct *)(x))
typedef __gmp_randstate_struct *RS;
static void kg(void *N, void *y, void *p, uint32_t m, uint32_t k) { joye_libert_keygen(Z(N), Z(y), Z(p), m, k); }
static void enc(void *c, void *rs, void *m, void *y, void *N, uint32_t ms) { joye_libert_encrypt(Z(c), (RS)rs, Z(m), Z(y), Z(N), ms); }
static void dec(void *m, void *c, void *p, void *y, uint32_t ms) { joye_libert_decrypt(Z(m), Z(c), Z(p), Z(y), ms); }
static void hkg(void *N, void *y, void *p, uint32_t m, uint32_t k) { mu_he_setup(Z(N), Z(y), Z(p), m, k); }
static void ukg(void *upk, void *usk, void *rs, void *N, void *y, uint32_t ms) { mu_he_keygen(Z(upk), Z(usk), (RS)rs, Z(N), Z(y), ms); }
static void ctfree(void *c) { if (!std::is_trivially_destructible<he_ct>::value) { C(c)->~he_ct(); } else { mpz_clear(C(c)->a); mpz_clear(C(c)->beta); } }
static void *cta(void *c) { return C(c)->a; }
static void *ctb(void *c) { return C(c)->beta; }
static void hccon(void *m) { new (m) hc128_state; }
static void hci(void *h, uint8_t *k, uint8_t *iv) { hc128_initialize((hc128_state *)h, k, iv); }
static void hcp(void *h, uint8_t *o, uint8_t *i, uint64_t n) { hc128_process_packet((hc128_state *)h, o, i, n); }
static void henc(void *c, void *rs, void *h, void *b, void *m, void *y, void *N, void *l, uint32_t ms) { mu_he_encrypt(C(c), (RS)rs, (hc128_state *)h, Z(b), Z(m), Z(y), Z(N), Z(l), ms); }
static void mul(void *a, void *rs, void *c1, void *c2, void *y, void *N, uint32_t ms) { mu_he_eval_mult(Z(a), (RS)rs, C(c1), C(c2), Z(y), Z(N), ms); }
static void mul3(void *a, void *rs, void *c1, void *c2, void *c3, void *b12, void *b13, void *b23, void *y, void *N, uint32_t ms) { mu_he_eval_mult_3(Z(a), (RS)rs, C(c1), C(c2), C(c3), Z(b12), Z(b13), Z(b23), Z(y), Z(N), ms); }
static void add(void *c, void *a, void *b, void *N, uint32_t ms) { mu_he_eval_add(C(c), C(a), C(b), Z(N), ms); }
static void sub(void *c, void *a, void *b, void *N, uint32_t ms) { mu_he_eval_sub(C(c), C(a), C(b), Z(N), ms); }
static void cm(void *c, void *a, void *k, void *N, uint32_t ms) { mu_he_eval_cmult(C(c), C(a), Z(k), Z(N), ms); }
static void add2(void *c, void *a, void *b, void *N) { mu_he_eval_add(Z(c), Z(a), Z(b), Z(N)); }
static void sub2(void *c, void *a, void *b, void *N) { mu_he_eval_sub(Z(c), Z(a), Z(b), Z(N)); }
static void cm2(void *c, void *a, void *k, void *N) { mu_he_eval_cmult(Z(c), Z(a), Z(k), Z(N)); }
static void hd(void *m, void *c, void *p, void *y, uint32_t ms) { mu_he_decrypt(Z(m), C(c), Z(p), Z(y), ms); }
static void hd2(void *m, void *c, void *b, void *p, void *y, uint32_t ms) { mu_he_decrypt(Z(m), Z(c), Z(b), Z(p), Z(y), ms); }
SHIM(he_ct, K_LHE, o.jl_keygen = kg; o.jl_encrypt = enc; o.jl_decrypt = dec; o.he_keygen = hkg; o.mu_keygen = ukg; o.he_ct_free = ctfree; o.he_ct_a = cta; o.he_ct_beta = ctb;
  o.hc_size = sizeof(hc128_state); o.hc_construct = hccon; o.hc_init = hci; o.hc_process = hcp; o.he_encrypt = henc; o.he_mult = mul; o.he_mult3 = mul3;
  o.he_add = add; o.he_sub = sub; o.he_cmult = cm; o.he_add2 = add2; o.he_sub2 = sub2; o.he_cmult2 = cm2; o.he_dec = hd; o.he_dec2 = hd2;)
