#include "sosemanuk.h"
#include "shim.h"
static void load_key(void *c, uint8_t *k, int n) { sosemanuk_load_key((sosemanuk_state *)c, k, n); }
static void load_iv(void *c, uint8_t *iv) { sosemanuk_load_iv((sosemanuk_state *)c, iv); }
static void init(void *c, uint8_t *k, int n, uint8_t *iv) { load_key(c, k, n); load_iv(c, iv); }
static void process(void *c, uint8_t *o, uint8_t *i, uint64_t n, int) { sosemanuk_process_packet((sosemanuk_state *)c, o, i, n); }
SHIM(sosemanuk_state, K_SOSE, o.key_min = 1; o.key_max = 32; o.iv_len = 16; o.init = init; o.load_key = load_key; o.load_iv = load_iv; o.process = process;)
