#include "hc128.h"
#include "shim.h"
static void init(void *c, uint8_t *k, int, uint8_t *iv) { hc128_initialize((hc128_state *)c, k, iv); }
static void process(void *c, uint8_t *o, uint8_t *i, uint64_t n, int) { hc128_process_packet((hc128_state *)c, o, i, n); }
SHIM(hc128_state, K_HC128, o.key_min = o.key_max = 16; o.iv_len = 16; o.init = init; o.process = process;)
