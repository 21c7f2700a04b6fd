#include "serpent.h"
#include "shim.h"
// The Serpent component gives the 48 bytes Sosemanuk is set up with (the outputs of
// rounds 12, 18 and 24) for each block. Here a packet is masked with the outputs for
// blocks that count up from its IV, the last of which is cut short (and so padded).
struct State { serpent_state s; uint8_t iv[16]; };
static void load_key(void *c, uint8_t *k, int n) { serpent_key_schedule(&((State *)c)->s, k, n); }
static void load_iv(void *c, uint8_t *iv) { std::memcpy(((State *)c)->iv, iv, 16); }
static void init(void *c, uint8_t *k, int n, uint8_t *iv) { load_key(c, k, n); load_iv(c, iv); }
static void process(void *c, uint8_t *o, uint8_t *i, uint64_t n, int) {
  State *s = (State *)c; uint32_t ctr = 0; const uint64_t most = 40;
  for (uint64_t at = 0; at < n;) {
    uint64_t b = (n - at + 47) / 48; bool last = b <= most; if (!last) b = most;
    struct { uint32_t in[4 * most], out[12 * most + 4]; } m;
    for (uint64_t k = 0; k < b; k++) { std::memcpy(&m.in[4 * k], s->iv, 16); m.in[4 * k + 3] ^= ctr++; }
    for (int k = 0; k < 4; k++) m.out[12 * b + k] = 0x5EA15EA1;
    serpent_process_packet(&s->s, m.out, m.in, last && n % 16 ? 16 * (b - 1) + n % 16 : 16 * b);
    uint64_t w = last ? n - at : 48 * b; for (uint64_t k = 0; k < w; k++) o[at + k] = i[at + k] ^ ((uint8_t *)m.out)[k];
    for (int k = 0; k < 4; k++) if (m.out[12 * b + k] != 0x5EA15EA1) __builtin_trap();       // wrote more than 48 bytes a block
    at += w;
  }
}
SHIM(State, K_SERP, o.key_min = 0; o.key_max = 32; o.iv_len = 16; o.init = init; o.load_key = load_key; o.load_iv = load_iv; o.process = process;)
