#include "des.h"
#include "shim.h"
static void ke(void *c, uint8_t *k) { des_key_schedule_encrypt((des_state *)c, k); }
static void kd(void *c, uint8_t *k) { des_key_schedule_decrypt((des_state *)c, k); }
static void ecb(void *c, uint32_t *o, uint32_t *i, uint64_t n) { des_process_packet_ecb((des_state *)c, o, i, n); }
static void ctr(void *c, uint32_t *o, uint32_t *i, uint32_t *nn, uint64_t n) { des_process_packet_ctr((des_state *)c, o, i, nn, n); }
static void blk(void *c, uint32_t *o, uint32_t *i) { des_ecb_block((des_state *)c, o, i); }
SHIM(des_state, K_DES, o.key_min = o.key_max = 8; o.des_key_enc = ke; o.des_key_dec = kd; o.des_ecb = ecb; o.des_ctr = ctr; o.des_block = blk;)
