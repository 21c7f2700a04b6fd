JLD = "AsymmetricCryptography/Joye_libert"; LHD = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE"; HC = "StreamCiphers/HC-128"
J = JLD + "/joye_libert.cpp"; L = LHD + "/labeled_he.cpp"
JS = dict(src=[J], inc=[JLD], libs="-lgmp"); LS = dict(src=[L, J, HC + "/hc128.cpp"], inc=[LHD, JLD, HC], libs="-lgmp")
KEY = r'''
#include <climits>
#include <gmp.h>
#include "joye_libert.h"
static mpz_t N, y, p; static gmp_randstate_t st;
static void key(unsigned k, unsigned bits) { mpz_inits(N, y, p, NULL); gmp_randinit_mt(st); gmp_randseed_ui(st, 7); joye_libert_keygen(N, y, p, k, bits); }
'''
HE = KEY + r'''
#include "labeled_he.h"
static hc128_state hc; static uint8_t hk[16] = {1, 2, 3}, hv[16] = {4, 5, 6};
struct V { he_ct c; mpz_t b, m; V() { mpz_inits(b, m, NULL); } };
static void enc(V &v, const char *m, unsigned long label, unsigned k) { mpz_t l; mpz_init_set_ui(l, label); mpz_set_str(v.m, m, 16); he_encrypt(&v.c, st, &hc, v.b, v.m, y, N, l, k); mpz_clear(l); }
static bool is(he_ct *c, const char *m, unsigned k) { mpz_t d, e; mpz_init(d); mpz_init_set_str(e, m, 16); he_decrypt(d, c, p, y, k); return !mpz_cmp(d, e); }
'''
# interrupting a call: the n-th allocation GMP makes in it never returns
STOP = r'''
#include <csetjmp>
static jmp_buf jb; static long left = -1;
static void hit() { if (left > 0 && --left == 0) longjmp(jb, 1); }
static void *al(size_t n) { hit(); return malloc(n); }
static void *re(void *q, size_t, size_t n) { hit(); return realloc(q, n); }
static void fr(void *q, size_t) { free(q); }
template <class F> static bool interrupted(long n, F f) { left = n; if (setjmp(jb)) { left = -1; return true; } f(); left = -1; return false; }
'''
BUGS = [
dict(id="c12-encrypt-word-exponent", prop="C12", needs="messages wider than 64 bits",
  breaks="The message exponent of Joye-Libert encryption is taken as a machine word",
  edits=[(J, "\tmpz_powm(tmp1, y, m, N);", "\t// Messages are short: avoid the general exponentiation\n\tmpz_powm_ui(tmp1, y, mpz_get_ui(m), N);")], **JS,
  demo=KEY + r'''
int main() {
	key(96, 320); mpz_t c, m, d; mpz_inits(c, m, d, NULL);
	mpz_set_str(m, "123456789abcdef012345678", 16); joye_libert_encrypt(c, st, m, y, N, 96); joye_libert_decrypt(d, c, p, y, 96);
	return mpz_cmp(m, d) ? bad("a 96-bit message does not decrypt to itself") : 0;
}
'''),
dict(id="c12-decrypt-stale-sum", prop="C12", needs="a result variable that already holds a value, such as a running total decrypted again",
  breaks="Decryption adds the message bits to whatever the result variable held",
  edits=[(J, "\tmpz_set_ui(m, 0);\n", "")], **JS,
  demo=KEY + r'''
int main() {
	key(32, 192); mpz_t c, m, d; mpz_inits(c, m, d, NULL);
	mpz_set_ui(m, 1000); joye_libert_encrypt(c, st, m, y, N, 32);
	for (int i = 0; i < 2; i++) { joye_libert_decrypt(d, c, p, y, 32); if (mpz_cmp(m, d)) return bad("decrypting again gives another message"); }
	return 0;
}
'''),
dict(id="c12-decrypt-kept-inverse", prop="C12", needs="two keys that share their modulus but not y, used alternately",
  breaks="Decryption keeps the inverse power of y of the last key and recognises the key by p alone",
  edits=[(J, "\tmpz_neg(neg_exp_y, exp_y);\n\tmpz_powm(D, y, neg_exp_y, p);\n",
    "\tmpz_neg(neg_exp_y, exp_y);\n\n\t// The inverse is the most expensive step: keep it while the key stays the same\n\tstatic thread_local mpz_t last_p, last_D;\n\tstatic thread_local uint32_t last_size = 0;\n\tif (last_size == 0)\n\t{\n\t\tmpz_init(last_p);\n\t\tmpz_init(last_D);\n\t}\n\tif (last_size != msgsize || mpz_cmp(last_p, p) != 0)\n\t{\n\t\tmpz_powm(last_D, y, neg_exp_y, p);\n\t\tmpz_set(last_p, p);\n\t\tlast_size = msgsize;\n\t}\n\tmpz_set(D, last_D);\n")], **JS,
  demo=KEY + r'''
int main() {
	key(32, 192); mpz_t c, m, d, y2, s; mpz_inits(c, m, d, y2, s, NULL); mpz_set_ui(m, 123456789);
	mpz_set_ui(s, 5); mpz_mul(s, s, s); mpz_mul(y2, y, s); mpz_mod(y2, y2, N);
	for (int i = 0; i < 4; i++) { auto &Y = i & 1 ? y2 : y; joye_libert_encrypt(c, st, m, Y, N, 32); joye_libert_decrypt(d, c, p, Y, 32); if (mpz_cmp(m, d)) return bad("a message under the second key does not decrypt"); }
	return 0;
}
'''),
dict(id="c12-decrypt-interrupted-inverse", prop="C12", needs="a decryption interrupted while it computes the inverse for a new key, and retried",
  breaks="Decryption keeps the inverse power of y; a call interrupted at the wrong moment leaves it marked valid",
  edits=[(J, "\tmpz_neg(neg_exp_y, exp_y);\n\tmpz_powm(D, y, neg_exp_y, p);\n",
    "\tmpz_neg(neg_exp_y, exp_y);\n\n\t// The inverse is the most expensive step: keep it while the key stays the same\n\tstatic thread_local mpz_t last_p, last_y, last_D;\n\tstatic thread_local uint32_t last_size = 0;\n\tif (last_size == 0)\n\t{\n\t\tmpz_init2(last_p, 4096);\n\t\tmpz_init2(last_y, 4096);\n\t\tmpz_init2(last_D, 4096);\n\t}\n\tif (last_size != msgsize || mpz_cmp(last_p, p) != 0 || mpz_cmp(last_y, y) != 0)\n\t{\n\t\tmpz_set(last_p, p);\n\t\tmpz_set(last_y, y);\n\t\tlast_size = msgsize;\n\t\tmpz_powm(D, y, neg_exp_y, p);\n\t\tmpz_set(last_D, D);\n\t}\n\tmpz_set(D, last_D);\n")], **JS,
  demo=KEY + STOP + r'''
int main() {
	mp_set_memory_functions(al, re, fr); key(32, 192); mpz_t c[2], m, d, y2[2], s; mpz_inits(c[0], c[1], m, d, y2[0], y2[1], s, NULL); mpz_set_ui(m, 123456789);
	for (int i = 0; i < 2; i++) { mpz_set_ui(s, 5 + i); mpz_mul(s, s, s); mpz_mul(y2[i], y, s); mpz_mod(y2[i], y2[i], N); joye_libert_encrypt(c[i], st, m, y2[i], N, 32); }
	for (long n = 1;; n++) {
		bool in = interrupted(n, [&] { joye_libert_decrypt(d, c[n & 1], p, y2[n & 1], 32); }); mpz_set_ui(d, 0);
		joye_libert_decrypt(d, c[n & 1], p, y2[n & 1], 32); if (mpz_cmp(m, d)) return bad("a decryption retried after an interruption gives another message");
		if (!in) return 0;
	}
}
'''),
dict(id="c12-decrypt-top-bit-word", prop="C12", needs="a plaintext sum above 2^32 (or 2^64) with message width above 32 bits",
  breaks="Decryption accumulates the message bits in a machine word",
  edits=[(J, "\t\t\tmpz_add(m, m, B);\n\t\t\tmpz_mul(C, C, D);", "\t\t\tmpz_add_ui(m, m, mpz_get_ui(B));\n\t\t\tmpz_mul(C, C, D);")], **JS,
  demo=KEY + r'''
int main() {
	key(128, 384); mpz_t c, m, d; mpz_inits(c, m, d, NULL);
	mpz_set_str(m, "123456789abcdef0123456789abcdef", 16); joye_libert_encrypt(c, st, m, y, N, 128); joye_libert_decrypt(d, c, p, y, 128);
	return mpz_cmp(m, d) ? bad("a 128-bit message does not decrypt to itself") : 0;
}
'''),
dict(id="c13-product-constant-word", prop="C13", needs="a product ciphertext multiplied by a constant of more than 64 bits",
  breaks="The constant is taken as a machine word",
  edits=[(L, "\tmpz_powm(alpha, c, constant, N);", "\tmpz_powm_ui(alpha, c, mpz_get_ui(constant), N);")], **LS,
  demo=HE + r'''
int main() {
	key(96, 320); hc128_initialize(&hc, hk, hv); V a, b; mpz_t al, k, mb, d, e; mpz_inits(al, k, mb, d, e, NULL); mpz_set_str(k, "10000000000000003", 16);
	enc(a, "3", 1, 96); enc(b, "5", 2, 96); he_eval_mult(al, st, &a.c, &b.c, y, N, 96); he_eval_cmult(al, al, k, N);
	mpz_mul(mb, a.b, b.b); mpz_mul(mb, mb, k); he_decrypt(d, al, mb, p, y, 96); mpz_mul_ui(e, k, 15);
	return mpz_cmp(d, e) ? bad("a product times a wide constant decrypts to something else") : 0;
}
'''),
dict(id="c13-sub-in-place", prop="C13", needs="a difference written over its first operand",
  breaks="Subtraction uses the result's second component as scratch space",
  edits=[(L, "\tmpz_invert(beta_inv, c2->beta, N);\n", "\tmpz_invert(c->beta, c2->beta, N);\n"),
         (L, "\tmpz_mul(c->beta, c1->beta, beta_inv);\n", "\tmpz_mul(c->beta, c1->beta, c->beta);\n")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); hc128_initialize(&hc, hk, hv); V a, b, r; enc(a, "30", 1, 32); enc(b, "5", 2, 32);
	he_eval_sub(&r.c, &a.c, &b.c, N, 32); if (!is(&r.c, "2b", 32)) return bad("difference");
	he_eval_sub(&a.c, &a.c, &b.c, N, 32); return is(&a.c, "2b", 32) ? 0 : bad("difference written over its first operand");
}
'''),
dict(id="c13-add-in-place", prop="C13", needs="a sum written over its second operand",
  breaks="Addition copies the first operand into the result before it reads the second",
  edits=[(L, "\tmpz_add(c->a, c1->a, c2->a);\n\tmpz_mod(c->a, c->a, ptspace);\n", "\tmpz_set(c->a, c1->a);\n\tmpz_add(c->a, c->a, c2->a);\n\tmpz_mod(c->a, c->a, ptspace);\n")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); hc128_initialize(&hc, hk, hv); V a, b, r; enc(a, "30", 1, 32); enc(b, "5", 2, 32);
	he_eval_add(&r.c, &a.c, &b.c, N, 32); if (!is(&r.c, "35", 32)) return bad("sum");
	he_eval_add(&b.c, &a.c, &b.c, N, 32); return is(&b.c, "35", 32) ? 0 : bad("sum written over its second operand");
}
'''),
dict(id="c13-mult3-square", prop="C13", needs="a product of three in which the first and third operand are the same ciphertext",
  breaks="A shortcut for repeated operands reuses the wrong cross term",
  edits=[(L, "\tmpz_powm(a12beta3, ct3->beta, ct1->a, N);\n\tmpz_powm(a12beta3, a12beta3, ct2->a, N);\n\t\n\tmpz_powm(a13beta2, ct2->beta, ct1->a, N);\n\tmpz_powm(a13beta2, a13beta2, ct3->a, N);\n\t\n\tmpz_powm(a23beta1, ct1->beta, ct2->a, N);\n\tmpz_powm(a23beta1, a23beta1, ct3->a, N);\n",
    "\tmpz_powm(a12beta3, ct3->beta, ct1->a, N);\n\tmpz_powm(a12beta3, a12beta3, ct2->a, N);\n\t\n\tif (ct2 == ct3 || ct1 == ct3)\n\t{\n\t\t// Squared operand: the cross terms are equal\n\t\tmpz_set(a13beta2, a12beta3);\n\t}\n\telse\n\t{\n\t\tmpz_powm(a13beta2, ct2->beta, ct1->a, N);\n\t\tmpz_powm(a13beta2, a13beta2, ct3->a, N);\n\t}\n\t\n\tmpz_powm(a23beta1, ct1->beta, ct2->a, N);\n\tmpz_powm(a23beta1, a23beta1, ct3->a, N);\n")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); hc128_initialize(&hc, hk, hv); V v[2]; enc(v[0], "7", 1, 32); enc(v[1], "b", 2, 32); unsigned long m[2] = {7, 11};
	for (int w = 0; w < 8; w++) { V &a = v[w & 1], &b = v[w >> 1 & 1], &c = v[w >> 2]; mpz_t q[3], e[3], al, mb, d; mpz_inits(q[0], q[1], q[2], e[0], e[1], e[2], al, mb, d, NULL);
		mpz_mul(q[0], a.b, b.b); mpz_mul(q[1], a.b, c.b); mpz_mul(q[2], b.b, c.b); for (int i = 0; i < 3; i++) { mpz_fdiv_r_2exp(q[i], q[i], 32); joye_libert_encrypt(e[i], st, q[i], y, N, 32); }
		he_eval_mult_3(al, st, &a.c, &b.c, &c.c, e[0], e[1], e[2], y, N, 32); mpz_mul(mb, q[0], c.b); he_decrypt(d, al, mb, p, y, 32);
		if (mpz_cmp_ui(d, m[w & 1] * m[w >> 1 & 1] * m[w >> 2])) return bad("a product of three with a repeated operand"); }
	return 0;
}
'''),
dict(id="c13-decrypt-unreduced-mask", prop="C13", needs="a product whose masks' program is negative or larger than the message space",
  breaks="Decryption of a product reduces by one subtraction instead of modulo 2^k",
  edits=[(L, "\tjoye_libert_decrypt(m, c, p, y, msgsize);\n\tmpz_add(m, m, b);\n\tmpz_mod(m, m, ptspace);\n", "\tjoye_libert_decrypt(m, c, p, y, msgsize);\n\tmpz_add(m, m, b);\n\tif (mpz_cmp(m, ptspace) >= 0) mpz_sub(m, m, ptspace);\n")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); hc128_initialize(&hc, hk, hv); V a, b; mpz_t x, mb, d; mpz_inits(x, mb, d, NULL); enc(a, "7", 1, 32); enc(b, "9", 2, 32);
	he_eval_mult(x, st, &a.c, &b.c, y, N, 32); mpz_mul(mb, a.b, b.b); he_decrypt(d, x, mb, p, y, 32); if (mpz_cmp_ui(d, 63)) return bad("a product with the mask of its program");
	mpz_neg(mb, mb); mpz_neg(mb, mb); mpz_set_ui(d, 1); mpz_mul_2exp(d, d, 96); mpz_sub(mb, mb, d); he_decrypt(d, x, mb, p, y, 32);
	return mpz_cmp_ui(d, 63) ? bad("a product with a negative mask") : 0;
}
'''),
dict(id="c13-kept-message-space", prop="C13", needs="programs over two message widths in one process",
  breaks="The size of the message space is computed once, for the first width seen",
  edits=[(L, "\tmpz_mul(c->a, c1->a, a);\n\tmpz_mod(c->a, c->a, ptspace);\n", "\t// The message space stays the same\n\tstatic const uint32_t space_bits = msgsize;\n\tmpz_mul(c->a, c1->a, a);\n\tmpz_fdiv_r_2exp(c->a, c->a, space_bits);\n")], **LS,
  demo=HE + r'''
int main() {
	for (unsigned k : {32u, 96u, 64u}) { key(k, 2 * (k + 64)); hc128_initialize(&hc, hk, hv); V a; mpz_t c; mpz_init_set_ui(c, 3); enc(a, "30303030", 1, k); he_eval_cmult(&a.c, &a.c, c, N, k); if (!is(&a.c, "90909090", k)) return bad("a multiple, after another message width was in use"); 
		mpz_t v; mpz_init(v); mpz_mul_ui(v, a.b, 3); mpz_add(v, v, a.c.a); mpz_fdiv_r_2exp(v, v, k); if (mpz_cmp_ui(v, 0x90909090ul)) return bad("masked part plus mask, after another message width was in use"); }
	return 0;
}
'''),
dict(id="c14-advance-by-label", prop="C14", needs="labels of different lengths with messages wider than 32 bits",
  breaks="The generator advances by the label's length, so parties that saw different labels fall out of step",
  edits=[(L, "\thc128_process_packet(hc_cs, keystream, keystream, msgsize/8);", "\thc128_process_packet(hc_cs, keystream, keystream, (size < 4) ? 4 : size);")], **LS,
  demo=HE + r'''
int main() {
	key(96, 320); V a[2]; hc128_state s[2]; unsigned long l[2] = {7, 0x123456789aul};
	for (int i = 0; i < 2; i++) { hc128_initialize(&hc, hk, hv); enc(a[i], "5", l[i], 96); enc(a[i], "6", 9, 96); s[i] = hc; }
	return mpz_cmp(a[0].b, a[1].b) || memcmp(&s[0], &s[1], sizeof s[0]) ? bad("two parties derive different masks for the same label at the same position") : 0;
}
'''),
dict(id="c14-repeated-label", prop="C14", needs="the same label twice in a row, and a party restored from a checkpoint between the two",
  breaks="A mask is kept for the next encryption under the same label, which then does not advance the generator",
  edits=[(L, "\t// Encrypt the array\n\thc128_process_packet(hc_cs, keystream, keystream, msgsize/8);\n\n\t// Import it back as an mpz_t\n\tmpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);\n",
    "\t// The mask of the label used last is still known\n\tstatic thread_local uint8_t last_label[64], last_mask[64];\n\tstatic thread_local uint32_t last_size = 0;\n\tif (last_size == msgsize && msgsize <= 512 && std::memcmp(last_label, keystream, msgsize/8) == 0)\n\t{\n\t\tstd::memcpy(keystream, last_mask, msgsize/8);\n\t}\n\telse\n\t{\n\t\tif (msgsize <= 512) std::memcpy(last_label, keystream, msgsize/8);\n\t\t// Encrypt the array\n\t\thc128_process_packet(hc_cs, keystream, keystream, msgsize/8);\n\t\tif (msgsize <= 512) std::memcpy(last_mask, keystream, msgsize/8);\n\t\tlast_size = msgsize;\n\t}\n\n\t// Import it back as an mpz_t\n\tmpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);\n")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); V a, b; hc128_initialize(&hc, hk, hv); enc(a, "5", 9, 32); hc128_state ck = hc;
	hc = ck; enc(a, "5", 7, 32); enc(a, "6", 7, 32);
	hc = ck; enc(b, "5", 8, 32); enc(b, "6", 7, 32);
	return mpz_cmp(a.b, b.b) ? bad("a mask depends on the label used before") : 0;
}
'''),
dict(id="c14-mask-in-long-words", prop="C14", needs="a message width that is not a multiple of 64 bits, and other bytes left on the stack",
  breaks="The mask is imported in 64-bit words and takes in what lies behind the keystream buffer",
  edits=[(L, "\tmpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);", "\tmpz_import(b, (msgsize+63)/64, 1, 8, 0, 0, keystream);")], **LS,
  demo=HE + r'''
#include <alloca.h>
static void __attribute__((noinline)) dirt(int v) { volatile char *q = (volatile char *)alloca(8192); for (int i = 0; i < 8192; i++) q[i] = v; }
int main() {
	key(32, 192); V a, b;
	for (int i = 1; i < 200; i += 7) { hc128_initialize(&hc, hk, hv); dirt(0); enc(a, "5", 7, 32); hc128_initialize(&hc, hk, hv); dirt(i); enc(b, "5", 7, 32); if (mpz_cmp(a.b, b.b)) return bad("the mask depends on what was left on the stack"); }
	return mpz_sizeinbase(a.b, 2) > 32 ? bad("the mask does not fit the message space") : 0;
}
'''),
dict(id="c15-labeled-encrypt-again", prop="C15", needs="a ciphertext variable that is encrypted into more than once",
  breaks="Encryption initialises the ciphertext again and loses the memory it held",
  edits=[(L, "\tmpz_ui_pow_ui(ptspace, 2, msgsize);\n\tmpz_sub(c->a, m, b);\n", "\tmpz_ui_pow_ui(ptspace, 2, msgsize);\n\tmpz_init2(c->a, msgsize);\n\tmpz_sub(c->a, m, b);\n")], **LS,
  demo=HE + r'''
static long held; static void *al(size_t n) { held++; return malloc(n); } static void *re(void *q, size_t, size_t n) { return realloc(q, n); } static void fr(void *q, size_t) { held--; free(q); }
int main() {
	mp_set_memory_functions(al, re, fr); key(32, 192); hc128_initialize(&hc, hk, hv); V a; enc(a, "5", 1, 32); enc(a, "5", 1, 32); long h = held; for (int i = 0; i < 50; i++) enc(a, "5", i, 32);
	return held > h + 10 ? bad("encrypting into the same ciphertext again and again consumes memory") : 0;
}
'''),
dict(id="c15-decrypt-zero-leak", prop="C15", needs="ciphertexts of the message zero",
  breaks="Decryption returns early for the message zero without releasing its temporaries",
  edits=[(J, "\tmpz_powm(C, c, exp_y, p);\n", "\tmpz_powm(C, c, exp_y, p);\n\n\t// Nothing to do for the message zero\n\tif (mpz_cmp_ui(C, 1) == 0) return;\n")], **JS,
  demo=KEY + r'''
static long held; static void *al(size_t n) { held++; return malloc(n); } static void *re(void *q, size_t, size_t n) { return realloc(q, n); } static void fr(void *q, size_t) { held--; free(q); }
int main() {
	mp_set_memory_functions(al, re, fr); key(32, 192); mpz_t c, m, d; mpz_inits(c, m, d, NULL); joye_libert_encrypt(c, st, m, y, N, 32); joye_libert_decrypt(d, c, p, y, 32); long h = held;
	for (int i = 0; i < 50; i++) { joye_libert_decrypt(d, c, p, y, 32); if (mpz_sgn(d)) return bad("zero"); }
	return held > h + 10 ? bad("decrypting zero again and again consumes memory") : 0;
}
'''),
dict(id="c16-product-generator-copy", prop="C16", needs="two products, or a product and an encryption, on one running generator",
  breaks="Products are randomised from a copy of the caller's generator, which stands still",
  edits=[(L, "\tjoye_libert_encrypt(alpha, state, a1a2, y, N, msgsize);", "\tgmp_randstate_t fork;\n\tgmp_randinit_set(fork, state);\n\tjoye_libert_encrypt(alpha, fork, a1a2, y, N, msgsize);\n\tgmp_randclear(fork);")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); hc128_initialize(&hc, hk, hv); V a, b; enc(a, "5", 1, 32); enc(b, "6", 2, 32); mpz_t x, z; mpz_inits(x, z, NULL);
	he_eval_mult(x, st, &a.c, &b.c, y, N, 32); he_eval_mult(z, st, &a.c, &b.c, y, N, 32); return mpz_cmp(x, z) ? 0 : bad("two products on a running generator are the same ciphertext");
}
'''),
dict(id="c16-prepared-randomness", prop="C16", needs="an encryption interrupted after it drew its randomness, then another from a generator in a known state",
  breaks="The random element drawn by an interrupted encryption is kept and used by the next one, whatever generator that was given",
  edits=[(J, "\tmpz_t x;\n\tmpz_init_set_ui(x, 0);\n\t// Pick a random x in Z_N^*\n\twhile(!mpz_cmpabs_ui(x, 0))\n\t{\n\t\tmpz_urandomm(x, state, N);\n\t}\n",
    "\t// Pick a random x in Z_N^*, unless one is left over\n\tstatic thread_local mpz_t spare;\n\tstatic thread_local int spare_state = 0;\n\tif (spare_state == 0)\n\t{\n\t\tmpz_init(spare);\n\t\tspare_state = 1;\n\t}\n\twhile(spare_state == 1)\n\t{\n\t\tmpz_urandomm(spare, state, N);\n\t\tif (mpz_cmpabs_ui(spare, 0)) spare_state = 2;\n\t}\n\tmpz_t x;\n\tmpz_init_set(x, spare);\n"),
   (J, "\tmpz_mul(c, tmp1, tmp2);\n\tmpz_mod(c, c, N);\n\n#ifdef DEBUG\n\tgmp_printf(\"c:", "\tmpz_mul(c, tmp1, tmp2);\n\tmpz_mod(c, c, N);\n\tspare_state = 1;\n\n#ifdef DEBUG\n\tgmp_printf(\"c:")], **JS,
  demo=KEY + STOP + r'''
int main() {
	mp_set_memory_functions(al, re, fr); key(32, 192); mpz_t c, c2, m; mpz_inits(c, c2, m, NULL); mpz_set_ui(m, 5); gmp_randstate_t a, b;
	for (long n = 1;; n++) {
		bool in = interrupted(n, [&] { joye_libert_encrypt(c, st, m, y, N, 32); });
		gmp_randinit_mt(a); gmp_randseed_ui(a, 99); gmp_randinit_set(b, a); joye_libert_encrypt(c, a, m, y, N, 32); joye_libert_encrypt(c2, b, m, y, N, 32);
		if (mpz_cmp(c, c2)) return bad("equal generator states give different ciphertexts after an interruption");
		if (!in) return 0;
	}
}
'''),
dict(id="c16-periodic-reseed", prop="C16", needs="more than 24 encryptions in one process",
  breaks="Every 24 encryptions the caller's generator is reseeded from the clock",
  edits=[(J, "\tmpz_t x;\n\tmpz_init_set_ui(x, 0);\n", "\t// Refresh the generator now and then\n\tstatic thread_local uint32_t uses = 0;\n\tif (++uses % 24 == 0) gmp_randseed_ui(state, (unsigned long)time(0));\n\tmpz_t x;\n\tmpz_init_set_ui(x, 0);\n"),
   (J, "#include <iostream>\n", "#include <iostream>\n#include <ctime>\n")], **JS,
  demo=KEY + r'''
int main() {
	key(32, 192); mpz_t c, c2, m; mpz_inits(c, c2, m, NULL); mpz_set_ui(m, 5); gmp_randstate_t a, b; gmp_randinit_mt(a); gmp_randseed_ui(a, 99); gmp_randinit_set(b, a);
	for (int i = 0; i < 100; i++) { joye_libert_encrypt(c, a, m, y, N, 32); joye_libert_encrypt(c2, b, m, y, N, 32); if (mpz_cmp(c, c2)) return bad("equal generator states give different ciphertexts"); }
	return 0;
}
'''),
dict(id="c16-random-pool", prop="C16", needs="encryptions from two generators in one process",
  breaks="Randomness is drawn several at a time and kept for later encryptions, whatever generator those are given",
  edits=[(J, "\twhile(!mpz_cmpabs_ui(x, 0))\n\t{\n\t\tmpz_urandomm(x, state, N);\n\t}\n",
   "\tstatic thread_local mpz_t pool[4];\n\tstatic thread_local int ready = -1;\n\twhile(!mpz_cmpabs_ui(x, 0))\n\t{\n\t\tif (ready <= 0)\n\t\t{\n\t\t\tfor (int i = 0; i < 4; i++)\n\t\t\t{\n\t\t\t\tif (ready < 0) mpz_init(pool[i]);\n\t\t\t\tmpz_urandomm(pool[i], state, N);\n\t\t\t}\n\t\t\tready = 4;\n\t\t}\n\t\tmpz_mod(x, pool[--ready], N);\n\t}\n")], **JS,
  demo=KEY + r'''
int main() {
	key(32, 192); mpz_t c, c2, m; mpz_inits(c, c2, m, NULL); mpz_set_ui(m, 5); gmp_randstate_t a, b; gmp_randinit_mt(a); gmp_randseed_ui(a, 99); gmp_randinit_set(b, a);
	joye_libert_encrypt(c, a, m, y, N, 32); joye_libert_encrypt(c2, b, m, y, N, 32); return mpz_cmp(c, c2) ? bad("equal generator states give different ciphertexts") : 0;
}
'''),
dict(id="c06-decrypt-shared-temporaries", prop="C06", needs="two threads decrypting Joye-Libert ciphertexts at the same time",
  breaks="Decryption keeps its temporaries in static storage to spare the allocations",
  edits=[(J, "\tmpz_t z, exp_c;\n\tmpz_init(z);\n\tmpz_init(exp_c);\n", "\tmpz_t z;\n\tmpz_init(z);\n\t// Keep the larger temporary between calls\n\tstatic mpz_t exp_c;\n\tstatic const bool ready = (mpz_init2(exp_c, 8192), true);\n\t(void)ready;\n"),
   (J, "p_1, z, exp_c, NULL);", "p_1, z, NULL);")], **{**JS, "libs": "-lgmp -lpthread"},
  demo=KEY + r'''
#include <thread>
#include <atomic>
static std::atomic<int> broken(0);
int main() {
	key(128, 384); std::vector<std::thread> t; mpz_t c, m; mpz_inits(c, m, NULL); mpz_set_str(m, "123456789abcdef0123456789abcdef", 16); joye_libert_encrypt(c, st, m, y, N, 128);
	for (int i = 0; i < 8; i++) t.emplace_back([&] { mpz_t d; mpz_init(d); for (int n = 0; n < 1500 && !broken; n++) { joye_libert_decrypt(d, c, p, y, 128); if (mpz_cmp(d, m)) broken = 1; } });
	for (auto &x : t) x.join();
	return broken ? bad("a decryption returned something else because another thread was decrypting") : 0;
}
'''),
]
