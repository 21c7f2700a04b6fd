#include "encoder.h"
#include "shim.h"
struct NoState { uint8_t b[16]; };      // the encoder has none
static void e(char *o, const uint8_t *m, int n) { hex_encode(o, m, n); }
static void d(uint8_t *o, const char *t, int n) { hex_decode(o, t, n); }
SHIM(NoState, K_HEX, o.hex_enc = e; o.hex_dec = d;)
