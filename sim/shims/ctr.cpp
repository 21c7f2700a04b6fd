#include "aes_ctr.h"
#include "shim.h"
static void load_key(void *c, uint8_t *k, int) { aes_load_key((aes_state *)c, k); }
static void load_iv(void *c, uint8_t *iv) { aes_load_iv((aes_state *)c, iv); }
static void init(void *c, uint8_t *k, int n, uint8_t *iv) { load_key(c, k, n); load_iv(c, iv); }
static void process(void *c, uint8_t *o, uint8_t *i, uint64_t n, int) { aes_ctr_process_packet((aes_state *)c, o, i, (int)n); }
SHIM(aes_state, K_CTR, o.key_min = o.key_max = 16; o.iv_len = 12; o.init = init; o.load_key = load_key; o.load_iv = load_iv; o.process = process;)
