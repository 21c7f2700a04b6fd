#include "rabbit.h"
#include "shim.h"
static void load_key(void *c, uint8_t *k, int) { rabbit_load_key((rabbit_state *)c, k); }
static void load_iv(void *c, uint8_t *iv) { rabbit_load_iv((rabbit_state *)c, iv); }
static void init(void *c, uint8_t *k, int n, uint8_t *iv) { load_key(c, k, n); load_iv(c, iv); }
static void process(void *c, uint8_t *o, uint8_t *i, uint64_t n, int) { rabbit_process_packet((rabbit_state *)c, o, i, n); }
SHIM(rabbit_state, K_RABBIT, o.key_min = o.key_max = 16; o.iv_len = 8; o.init = init; o.load_key = load_key; o.load_iv = load_iv; o.process = process;)
