#include "md5.h"
#include "shim.h"
static void i(void *c) { MD5Init((MD5_CTX *)c); }
static void u(void *c, uint8_t *m, uint32_t n) { MD5Update((MD5_CTX *)c, m, n); }
static void f(uint8_t *d, void *c) { MD5Final(d, (MD5_CTX *)c); }
static void p(void *c, uint8_t *d, uint8_t *m, uint32_t n) { MD5_process_packet((MD5_CTX *)c, d, m, n); }
SHIM(MD5_CTX, K_MD5, o.md5_init = i; o.md5_update = u; o.md5_final = f; o.md5_packet = p;)
