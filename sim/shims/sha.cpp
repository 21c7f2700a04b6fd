#include "sha-256.h"
#include "shim.h"
struct none { char c; };
static void dig(uint8_t *d, uint8_t *m, uint64_t n) { sha256_process_message(d, m, n); }
SHIM(none, K_SHA, o.sha256 = dig;)
