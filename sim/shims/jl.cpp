#include "joye_libert.h"
#include "shim.h"
struct none { char c; };
#define Z(x) ((mpz_ptr)(x))
typedef __gmp_randstate_struct *RS;
static void kg(void *N, void *y, void *p, uint32_t m, uint32_t k) { joye_libert_keygen(Z(N), Z(y), Z(p), m, k); }
static void enc(void *c, void *rs, void *m, void *y, void *N, uint32_t ms) { joye_libert_encrypt(Z(c), (RS)rs, Z(m), Z(y), Z(N), ms); }
static void dec(void *m, void *c, void *p, void *y, uint32_t ms) { joye_libert_decrypt(Z(m), Z(c), Z(p), Z(y), ms); }
SHIM(none, K_JL, o.jl_keygen = kg; o.jl_encrypt = enc; o.jl_decrypt = dec;)
