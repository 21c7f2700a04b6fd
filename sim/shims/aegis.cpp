#include "aegis_128.h"
#include "shim.h"
static void load_key(void *c, uint8_t *k, int) { aegis_load_key((aegis_state *)c, k); }
static void seal(void *c, uint8_t *ct, uint8_t *t, uint8_t *pt, uint8_t *ad, uint8_t *iv, uint64_t al, uint64_t n) { aegis_encrypt_packet((aegis_state *)c, ct, t, pt, ad, iv, al, n); }
static int open_(void *c, uint8_t *pt, uint8_t *ct, uint8_t *ad, uint8_t *iv, uint8_t *t, uint64_t al, uint64_t n) { return aegis_decrypt_packet((aegis_state *)c, pt, ct, ad, iv, t, al, n); }
SHIM(aegis_state, K_AEGIS, o.key_min = o.key_max = 16; o.iv_len = 16; o.load_key = load_key; o.seal = seal; o.open = open_;)
