#include "aes_cfb.h"
#include "shim.h"
static void init(void *c, uint8_t *k, int, uint8_t *iv) { aes_cfb_initialize((aes_state *)c, k, iv); }
static void process(void *c, uint8_t *o, uint8_t *i, uint64_t n, int mode) { aes_cfb_process_packet((aes_state *)c, o, i, (int)n, mode); }
SHIM(aes_state, K_CFB, o.key_min = o.key_max = 16; o.iv_len = 16; o.init = init; o.process = process;)
