#include "hmac.h"
#include "sha-256.h"
#include "shim.h"
static void load_key(void *c, uint8_t *k, int n) { hmac_load_key((hmac_state *)c, k, n); }
static void tag(void *c, uint8_t *t, uint8_t *m, uint64_t n, int tl) { hmac_tag_generation((hmac_state *)c, t, m, n, tl); }
static int validate(void *c, uint8_t *t, uint8_t *m, uint64_t n, int tl) { return hmac_tag_validation((hmac_state *)c, t, m, n, tl); }
static void dig(uint8_t *d, uint8_t *m, uint64_t n) { sha256_process_message(d, m, n); }
SHIM(hmac_state, K_HMAC, o.key_min = 0; o.key_max = 1 << 20; o.load_key = load_key; o.tag = tag; o.validate = validate; o.sha256 = dig;)
