#include "chacha.h"
#include "shim.h"
static void init(void *c, uint8_t *k, int, uint8_t *iv) { chacha_initialize((chacha_state *)c, k, iv); }
static void process(void *c, uint8_t *o, uint8_t *i, uint64_t n, int) { chacha_process_packet((chacha_state *)c, o, i, n); }
static void block(void *c, uint32_t ctr, uint32_t *ks) { chacha_block((chacha_state *)c, ctr, ks); }
SHIM(chacha_state, K_CHACHA, o.key_min = o.key_max = 32; o.iv_len = 12; o.init = init; o.process = process; o.chacha_block = block;)
