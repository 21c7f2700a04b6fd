# Changes that need a rare input, a long history or two cooperating places.
HM = "Authentication/HMAC-SHA-256"; SHA = "Hash/SHA/SHA-2/SHA-256"; AE = "StreamCiphers/AEGIS/AEGIS"; AEX = "StreamCiphers/AEGIS/AEGIS_x86"; AEA = "StreamCiphers/AEGIS/AEGIS_ARM"
MD = "Legacy/MD5"; DES = "Legacy/DES"
CFB = "BlockCiphers/AES/AES/AES_CFB"; CFBX = "BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over"; CFBA = "BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over"
CTR = "BlockCiphers/AES/AES/AES_CTR"; CTRX = "BlockCiphers/AES/AES_x86/AES_CTR"; CTRA = "BlockCiphers/AES/AES_ARM/AES_CTR"
HC = "StreamCiphers/HC-128"; RB = "StreamCiphers/Rabbit"; SO = "StreamCiphers/Sosemanuk"; CH = "StreamCiphers/ChaCha"; SE = "BlockCiphers/Serpent"
JLD = "AsymmetricCryptography/Joye_libert"; LHD = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE"
J = JLD + "/joye_libert.cpp"; L = LHD + "/labeled_he.cpp"
JS = dict(src=[J], inc=[JLD], libs="-lgmp"); LS = dict(src=[L, J, HC + "/hc128.cpp"], inc=[LHD, JLD, HC], libs="-lgmp")
HSRC = [HM + "/hmac.cpp", HM + "/sha-256.cpp"]
RACE = r'''
#include <thread>
#include <atomic>
static std::atomic<int> broken(0);
template <class F> static int race(F f) {
	std::vector<std::thread> t;
	for (int i = 0; i < 4; i++) t.emplace_back([&, i] { for (int n = 0; n < 40000 && !broken; n++) if (!f(i)) broken = 1; });
	for (auto &x : t) x.join();
	return broken ? bad("a call returned something else because another thread was calling") : 0;
}
'''
DIRTY = r'''
__attribute__((noinline)) static void dirty(int v) { volatile uint8_t x[20000]; for (int i = 0; i < 20000; i++) x[i] = v; }
'''
KEY = r'''
#include <climits>
#include <gmp.h>
#include "joye_libert.h"
static mpz_t N, y, p; static gmp_randstate_t st;
static void key(unsigned k, unsigned bits) { mpz_inits(N, y, p, NULL); gmp_randinit_mt(st); gmp_randseed_ui(st, 7); joye_libert_keygen(N, y, p, k, bits); }
'''
HE = KEY + r'''
#include "labeled_he.h"
static hc128_state hc; static uint8_t hk[16] = {1, 2, 3}, hv[16] = {4, 5, 6};
struct V { he_ct c; mpz_t b, m; V() { mpz_inits(b, m, NULL); } };
static void enc(V &v, const char *m, unsigned long label, unsigned k) { mpz_t l; mpz_init_set_ui(l, label); mpz_set_str(v.m, m, 16); he_encrypt(&v.c, st, &hc, v.b, v.m, y, N, l, k); mpz_clear(l); }
static bool is(he_ct *c, const char *m, unsigned k) { mpz_t d, e; mpz_init(d); mpz_init_set_str(e, m, 16); he_decrypt(d, c, p, y, k); return !mpz_cmp(d, e); }
'''
BUGS = [
dict(id="c01-cfb-12-byte-register", prop="C01", needs="portable sources, a loss, then segments of 12 bytes",
  breaks="A 12-byte tail keeps the first register word instead of taking the last one, so it never leaves",
  edits=[(CFB + "/aes_cfb.cpp", "\t\telse\n\t\t{\n\t\t\tcs->reg1 = cs->reg4;\n", "\t\telse\n\t\t{\n\t\t\tcs->reg1 = cs->reg1 ^ cs->reg4;\n")],
  src=[CFB + "/aes_cfb.cpp"], inc=[CFB], demo=r'''
#include "aes_cfb.h"
int main() {
	uint8_t k[16] = {1, 2, 3}, v[16] = {4}; aes_state a, b; aes_cfb_initialize(&a, k, v); aes_cfb_initialize(&b, k, v);
	for (int n = 0; n < 6; n++) {
		Bytes m = bytes(12), c(12), d(12); aes_cfb_process_packet(&a, c.data(), m.data(), 12, 0);
		if (n == 1) continue;
		aes_cfb_process_packet(&b, d.data(), c.data(), 12, 1);
		if (n >= 4 && d != m) return bad("the receiver does not resynchronise");
	}
	return 0;
}
'''),
dict(id="c01-arm-short-carry", prop="C01", needs="the ARM sources, a loss, and a 3-byte segment afterwards",
  breaks="A 3-byte tail of the ARM sources shifts the second register word from itself",
  edits=[(CFBA + "/aes_cfb.cpp", "\t\t\tcs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));\n\t\t\tcs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));\n\t\t\tcs->reg4 = ((cs->reg4 << 24)", "\t\t\tcs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));\n\t\t\tcs->reg3 = ((cs->reg3 << 24) ^ (cs->reg3 >> 8));\n\t\t\tcs->reg4 = ((cs->reg4 << 24)")],
  src=[CFBA + "/aes_cfb.cpp"], inc=[CFBA], demo=r'''
#include "aes_cfb.h"
int main() {
	uint8_t k[16] = {1, 2, 3}, v[16]; for (auto &x : v) x = rnd(); aes_state a, b; aes_cfb_initialize(&a, k, v); aes_cfb_initialize(&b, k, v);
	for (int n = 0; n < 20; n++) {
		Bytes m = bytes(3), c(3), d(3); aes_cfb_process_packet(&a, c.data(), m.data(), 3, 0);
		if (n == 1) continue;
		aes_cfb_process_packet(&b, d.data(), c.data(), 3, 1);
		if (n >= 10 && d != m) return bad("the receiver does not resynchronise");
	}
	return 0;
}
'''),
dict(id="c02-serpent-last-key-byte", prop="C02", needs="a short key set up on a stack that is not zero",
  breaks="The padding of short keys of the Serpent component leaves the last key byte as it was on the stack",
  edits=[(SE + "/serpent.cpp", "\t\tfor ( ; size < 32; size++)\n", "\t\tfor ( ; size < 31; size++)\n")],
  src=[SE + "/serpent.cpp"], inc=[SE], demo=DIRTY + r'''
#include "serpent.h"
int main() {
	uint8_t k[32] = {1, 2, 3}; uint32_t in[4] = {5, 6, 7, 8}, o1[12], o2[12]; serpent_state a, b;
	for (int n = 0; n < 31; n++) {
		dirty(0); serpent_key_schedule(&a, k, n); dirty(255); serpent_key_schedule(&b, k, n);
		serpent_process_packet(&a, o1, in, 16); serpent_process_packet(&b, o2, in, 16);
		if (memcmp(o1, o2, 48)) return bad("the outputs depend on the stack");
	}
	return 0;
}
'''),
dict(id="c02-chacha-16-bit-blocks", prop="C02", needs="a packet of more than 4 MB",
  breaks="ChaCha counts blocks of a packet in 16 bits: the keystream repeats after 4 MB",
  edits=[(CH + "/chacha.cpp", "\tuint32_t counter = 1;\n", "\tuint16_t counter = 1;\n")],
  src=[CH + "/chacha.cpp"], inc=[CH], demo=r'''
#include "chacha.h"
int main() {
	uint8_t k[32] = {1}, v[12] = {2}; chacha_state s; chacha_initialize(&s, k, v);
	size_t n = (65536 + 4) * 64; Bytes m(n), c(n); chacha_process_packet(&s, c.data(), m.data(), n);
	return memcmp(&c[0], &c[65536 * 64], 128) ? 0 : bad("keystream repeats within a packet");
}
'''),
dict(id="c02-sosemanuk-block-iv", prop="C02", needs="an IV whose last word is zero (a short counter IV), on a context used before",
  breaks="Only as much of the Sosemanuk IV as is not zero is copied; the rest stays what the last IV had",
  edits=[(SO + "/sosemanuk.cpp", "\tserpent_process_packet(&(cs->serpent_cs), initial_state, (uint32_t*)iv, 16);\n", "\t// Counters used as IV have leading zero words: the state words that hold them\n\t// are zero already\n\tstatic thread_local uint32_t block[4];\n\tfor (int i = 0; i < 4; i++)\n\t{\n\t\tif (((uint32_t*)iv)[i] != 0) block[i] = ((uint32_t*)iv)[i];\n\t}\n\tserpent_process_packet(&(cs->serpent_cs), initial_state, block, 16);\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=r'''
#include "sosemanuk.h"
int main() {
	uint8_t k[16] = {1}, v1[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 0, 0, 0}, v2[16]; memset(v2, 9, 16);
	sosemanuk_state s; uint8_t z[40] = {0}, a[40], b[40]; sosemanuk_load_key(&s, k, 16);
	sosemanuk_load_iv(&s, v1); sosemanuk_process_packet(&s, a, z, 40);
	sosemanuk_load_iv(&s, v2); sosemanuk_load_iv(&s, v1); sosemanuk_process_packet(&s, b, z, 40);
	return memcmp(a, b, 40) ? bad("an IV gives other keystream after another IV") : 0;
}
'''),
dict(id="c02-rabbit-counter-sign", prop="C02", needs="an odd 16-bit IV half with its top bit set together with a small neighbour",
  breaks="One IV half enters a Rabbit counter as a signed number",
  edits=[(RB + "/rabbit.cpp", "\tcs->C[5] = cs->MASTER_C[5] ^ ( (iv_u16[3] << 16) | iv_u16[1] );\n", "\tcs->C[5] = cs->MASTER_C[5] ^ ( (iv_u16[3] << 16) + (int16_t)iv_u16[1] );\n")],
  src=[RB + "/rabbit.cpp"], inc=[RB], demo=r'''
#include "rabbit.h"
int main() {
	// RFC 4503: C5 = C5 ^ (IV[63..48] || IV[31..16]); the two counters that take the same IV part change alike
	uint8_t k[16] = {0}, v[8]; rabbit_state s, t;
	for (int n = 0; n < 200; n++) {
		for (auto &x : v) x = rnd(); rabbit_load_key(&s, k); t = s; rabbit_load_iv(&s, v);
		uint16_t h[4]; uint32_t w[2]; memcpy(h, v, 8); memcpy(w, v, 8); t.carry = t.MASTER_carry;
		uint32_t x[4] = {w[0], ((uint32_t)h[3] << 16) | h[1], w[1], ((uint32_t)h[2] << 16) | h[0]};
		for (int j = 0; j < 8; j++) { t.X[j] = t.MASTER_X[j]; t.C[j] = t.MASTER_C[j] ^ x[j & 3]; }
		for (int i = 0; i < 4; i++) { rabbit_counter(&t); rabbit_next_state(&t); }
		if (memcmp(s.X, t.X, 32) || memcmp(s.C, t.C, 32)) return bad("IV setup is not Rabbit's");
	}
	return 0;
}
'''),
dict(id="c03-ctr-arm-third-byte", prop="C03", needs="the ARM sources and a session of more than 65536 blocks",
  breaks="The carry into the third counter byte is lost in the ARM sources",
  edits=[(CTRA + "/aes_ctr.cpp", "\ttmp++;\n", "\ttmp = (tmp & 0xffff0000) | ((tmp + 1) & 0x0000ffff);\n")],
  src=[CTRA + "/aes_ctr.cpp"], inc=[CTRA], demo=r'''
#include "aes_ctr.h"
int main() {
	uint8_t k[16] = {1}, v[12] = {2}; aes_state s; aes_load_key(&s, k); aes_load_iv(&s, v);
	size_t n = 70000 * 16; Bytes m(n), c(n); aes_ctr_process_packet(&s, c.data(), m.data(), n);
	return memcmp(&c[0], &c[65536 * 16], 64) ? 0 : bad("keystream repeats");
}
'''),
dict(id="c02-hc128-odd-phase", prop="C02", needs="a packet of 2049 to 2051 bytes, and a peer that handles the same bytes as other packets or a reference",
  breaks="The last partial word of such an HC-128 packet is taken from a step of table P that belongs to table Q",
  edits=[(HC + "/hc128.cpp", "\t\tif ( (i&0x3FF) < 512 )\n", "\t\tif ( (i&0x3FF) < 512 || (i == 512 && size < 2052) )\n")],
  src=[HC + "/hc128.cpp"], inc=[HC], demo=r'''
#include "hc128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}; static hc128_state a, b; hc128_initialize(&a, k, v); hc128_initialize(&b, k, v);
	Bytes m(4000), c(4000), d(4000); hc128_process_packet(&a, c.data(), m.data(), 2050); hc128_process_packet(&b, d.data(), m.data(), 2060);
	return memcmp(&c[0], &d[0], 2050) ? bad("a packet's keystream depends on its length") : 0;
}
'''),
dict(id="c04-hmac-verified-cache", prop="C04", needs="a packet verified again from the same buffer after it was changed in place",
  breaks="A packet that was accepted is remembered by address, size and tag, and accepted again without looking at it",
  edits=[(HM + "/hmac.cpp", "\t// Generate a tag from the received message\n\tuint8_t newTag[tagLength];\n", "\t// Retransmissions are verified again from the same receive buffer\n\tstatic thread_local hmac_state *last_cs; static thread_local uint8_t *last_message;\n\tstatic thread_local uint64_t last_length; static thread_local uint8_t last_tag[DIGESTSIZE];\n\tstatic thread_local hmac_state last_key;\n\tif (last_cs == cs && last_message == message && last_length == dataLength && tagLength >= 8 && tagLength <= DIGESTSIZE &&\n\t\t\tstd::memcmp(&last_key, cs, sizeof(hmac_state)) == 0 && std::memcmp(last_tag, tag, tagLength) == 0) return 1;\n\n\tuint8_t newTag[tagLength]; // generated from the received message\n"),
         (HM + "/hmac.cpp", "\n\treturn difference == 0;\n", "\n\tif (difference == 0 && tagLength <= DIGESTSIZE)\n\t{\n\t\tlast_cs = cs; last_key = *cs; last_message = message; last_length = dataLength;\n\t\tstd::memset(last_tag, 0, DIGESTSIZE); std::memcpy(last_tag, tag, tagLength);\n\t}\n\treturn difference == 0;\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[16]; hmac_state s; hmac_load_key(&s, k, 16); Bytes m = bytes(100);
	hmac_tag_generation(&s, t, m.data(), 100, 16);
	if (!hmac_tag_validation(&s, t, m.data(), 100, 16)) return bad("an authentic packet is rejected");
	m[50] ^= 1; return hmac_tag_validation(&s, t, m.data(), 100, 16) ? bad("a changed packet is accepted") : 0;
}
'''),
dict(id="c04-hmac-long-message", prop="C04", needs="a message of 4 MB or more",
  breaks="The number of hash blocks is kept in 16 bits, so only the beginning of such a message is authenticated",
  edits=[(HM + "/hmac.cpp", "\tstd::memcpy(&(inner_computation[HMAC_KEYLENGTH]), message, dataLength);\n", "\tstd::memcpy(&(inner_computation[HMAC_KEYLENGTH]), message, dataLength);\n\tuint16_t blocks = (dataLength + HMAC_KEYLENGTH) / 64;\n\tuint64_t rest = (dataLength + HMAC_KEYLENGTH) % 64;\n"),
         (HM + "/hmac.cpp", "\tsha256_process_message(inner_hash, inner_computation, dataLength+HMAC_KEYLENGTH);\n", "\tsha256_process_message(inner_hash, inner_computation, 64*(uint64_t)blocks + rest);\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[16]; hmac_state s; hmac_load_key(&s, k, 16); size_t n = 65536 * 64 + 100; Bytes m = bytes(n);
	hmac_tag_generation(&s, t, m.data(), n, 16); m[n - 5] ^= 1;
	return hmac_tag_validation(&s, t, m.data(), n, 16) ? bad("a changed packet is accepted") : 0;
}
'''),
dict(id="c05-aegis-ad-block-byte", prop="C05", needs="associated data of 4096 bytes or more",
  breaks="The number of associated data blocks is kept in a byte, so only the first (n mod 256) blocks are authenticated",
  edits=[(AEX + "/aegis_128.cpp", "\tw_ptr = (uint32_t*)ad;\n", "\tuint8_t blocks = adlen/16;\n\tw_ptr = (uint32_t*)ad; adlen = 16*(uint64_t)blocks;\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16]; aegis_state s; aegis_load_key(&s, k); Bytes ad = bytes(4128), m = bytes(40), c(40), d(40);
	aegis_encrypt_packet(&s, c.data(), t, m.data(), ad.data(), v, 4128, 40); ad[3000] ^= 1;
	return aegis_decrypt_packet(&s, d.data(), c.data(), ad.data(), v, t, 4128, 40) ? bad("a packet with altered associated data is opened") : 0;
}
'''),
dict(id="c05-aegis-empty-reject", prop="C05", needs="a forged packet with associated data and an empty message",
  breaks="A packet without a message is opened whatever its tag: there is nothing to purge",
  edits=[(AE + "/aegis_128.cpp", "\tif (flag)\n\t{\n", "\tif (flag && (msglen || !adlen))\n\t{\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16] = {0}, m[16] = {0}, d[16]; aegis_state s; aegis_load_key(&s, k); uint8_t ad[20] = {3};
	return aegis_decrypt_packet(&s, d, m, ad, v, t, 20, 0) ? bad("a forged packet is opened") : 0;
}
'''),
dict(id="c05-aegis-x86-overlong-pad", prop="C05", needs="a message tail of 13 to 15 bytes on the x86 build",
  breaks="The last bytes of such a tail do not enter the state: they can be altered at will",
  edits=[(AEX + "/aegis_128.cpp", "\tstd::memcpy(padded_block, pt_w_ptr, msglen-tmp);\n", "\tstd::memcpy(padded_block, pt_w_ptr, (msglen-tmp) > 12 ? 12 : (msglen-tmp));\n"),
         (AEX + "/aegis_128.cpp", "\tstd::memcpy(padded_block, tmp_ptr, overshoot);\n", "\tstd::memcpy(padded_block, tmp_ptr, overshoot > 12 ? 12 : overshoot);\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16]; aegis_state s; aegis_load_key(&s, k); uint8_t ad[20] = {3}; Bytes m = bytes(47), c(47), d(47);
	aegis_encrypt_packet(&s, c.data(), t, m.data(), ad, v, 20, 47); c[45] ^= 1;
	return aegis_decrypt_packet(&s, d.data(), c.data(), ad, v, t, 20, 47) ? bad("an altered packet is opened") : 0;
}
'''),
dict(id="c06-sha-lazy-table", prop="C06", needs="two threads in the very first hashes of a process, one preempted while it fills the table",
  breaks="The round constants are copied to a table on first use, which is marked ready before it is filled",
  edits=[(SHA + "/sha-256.cpp", "\t// Temporary variables T1, T2\n", "\t// Keep the round constants next to the working state\n\tstatic uint32_t k_table[64];\n\tstatic bool k_ready = false;\n\tif (!k_ready)\n\t{\n\t\tk_ready = true;\n\t\tfor (int i = 0; i < 64; i++) k_table[i] = K[i];\n\t}\n\n\t// Temporary variables T1, T2\n"),
         (SHA + "/sha-256.cpp", "\t\t\t\tK[t] + ss.W[t];\n", "\t\t\t\tk_table[t] + ss.W[t];\n")],
  src=[SHA + "/sha-256.cpp"], inc=[SHA], libs="-lpthread", demo=r'''
#include "sha-256.h"
#include <unistd.h>
#include <csignal>
#include <ucontext.h>
#include <sys/wait.h>
// The first call is stopped after a number of instructions (single steps) and another
// call is made there, as if the scheduler had switched threads at that instruction.
static uint8_t m[10] = {1}, other[32]; static long steps, stop_at;
static void trap(int, siginfo_t *, void *u) {
	if (++steps < stop_at) return;
	((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
	sha256_process_message(other, m, 10);
}
int main() {
	uint8_t e[32]; if (!fork()) _exit(0);
	int pf[2]; if (pipe(pf)) return 0;
	if (!fork()) { sha256_process_message(e, m, 10); if (write(pf[1], e, 32) != 32) _exit(1); _exit(0); }
	if (read(pf[0], e, 32) != 32) return 0;
	for (long n = 1; n < 6000; n += 7) {
		pid_t c = fork();
		if (!c) {
			struct sigaction sa = {}; sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, 0); stop_at = n; memcpy(other, e, 32);
			uint8_t d[32];
			asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
			sha256_process_message(d, m, 10);
			asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
			_exit(memcmp(d, e, 32) || memcmp(other, e, 32) ? 1 : 0);
		}
		int st = 0; waitpid(c, &st, 0); if (st) return bad("a digest depends on another caller");
	}
	return 0;
}
'''),
dict(id="c06-sosemanuk-static-register", prop="C06", needs="two threads using Sosemanuk (Serpent) at the same time",
  breaks="The fifth working register of Serpent is static instead of allocated",
  edits=[(SO + "/serpent.cpp", "\tuint32_t *r4 = new uint32_t;\n\t// Apply S2\n", "\tstatic uint32_t spare;\n\tuint32_t *r4 = &spare;\n\t// Apply S2\n"),
         (SO + "/serpent.cpp", "\t*r3 = *r4;\n\n\tdelete r4;\n", "\t*r3 = *r4;\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], libs="-lpthread", demo=r'''
#include "sosemanuk.h"
''' + RACE + r'''
int main() {
	static uint8_t k[4][16], m[4][200], want[4][200];
	for (int i = 0; i < 4; i++) { sosemanuk_state s; for (auto &x : k[i]) x = rnd(); sosemanuk_load_key(&s, k[i], 16); sosemanuk_load_iv(&s, k[i]); sosemanuk_process_packet(&s, want[i], m[i], 200); }
	return race([&](int i) { sosemanuk_state s; uint8_t o[200]; sosemanuk_load_key(&s, k[i], 16); sosemanuk_load_iv(&s, k[i]); sosemanuk_process_packet(&s, o, m[i], 200); return !memcmp(o, want[i], 200); });
}
'''),
dict(id="c07-sosemanuk-key-cache", prop="C07", needs="a key loaded again into a context that held another state meanwhile",
  breaks="Loading the key that was last loaded is skipped, going by its address or value",
  edits=[(SO + "/sosemanuk.cpp", "\t// Find the 25 round keys that will be used\n", "\t// The key schedule is expensive: nothing to do if this context has this key\n\tstatic thread_local sosemanuk_state *last_cs; static thread_local uint8_t last_key[32]; static thread_local int last_size = -1;\n\tbool same = (last_cs == cs && last_size == keysize);\n\tfor (int i = 0; same && i < keysize; i++) same = (last_key[i] == key[i]);\n\tif (same) return;\n\tlast_cs = cs; last_size = keysize;\n\tfor (int i = 0; i < keysize && i < 32; i++) last_key[i] = key[i];\n\t// Find the 25 round keys that will be used\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=r'''
#include "sosemanuk.h"
int main() {
	uint8_t k1[16] = {1}, k2[16] = {2}, v[16] = {3}, z[32] = {0}, a[32], b[32]; sosemanuk_state s, ck, other;
	sosemanuk_load_key(&s, k1, 16); ck = s; sosemanuk_load_key(&s, k2, 16);
	sosemanuk_load_iv(&s, v); sosemanuk_process_packet(&s, a, z, 32);
	s = ck; sosemanuk_load_key(&s, k2, 16); sosemanuk_load_iv(&s, v); sosemanuk_process_packet(&s, b, z, 32);
	return memcmp(a, b, 32) ? bad("a restored context does not take a key") : 0;
}
'''),
dict(id="c07-hc128-table-pointer", prop="C07", needs="a checkpoint restored at another address while the original goes on or is gone",
  breaks="The HC-128 context points to the table in use, so a copy works on the original's tables",
  edits=[(HC + "/hc128.h", "\tuint32_t Q[512];\n", "\tuint32_t Q[512];\n\tuint32_t *table;\n"),
         (HC + "/hc128.cpp", "\t// Stage 3: Iterate cipher 1024 steps", "\tcs->table = cs->P;\n\t// Stage 3: Iterate cipher 1024 steps"),
         (HC + "/hc128.cpp", "\t\t\t*keystream = h1(cs, cs->P[(j-12)&0x1FF]) ^ (cs->P[j]);\n", "\t\t\t*keystream = h1(cs, cs->P[(j-12)&0x1FF]) ^ (cs->table[j]);\n")],
  src=[HC + "/hc128.cpp"], inc=[HC], demo=r'''
#include "hc128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, z[100] = {0}, a[100], b[100]; static hc128_state s, t; hc128_initialize(&s, k, v); t = s;
	hc128_process_packet(&s, a, z, 100); hc128_process_packet(&s, b, z, 100);
	hc128_process_packet(&t, b, z, 100);
	return memcmp(a, b, 100) ? bad("a copied context goes on differently") : 0;
}
'''),
dict(id="c08-chacha-short-on-memory", prop="C08", needs="the keystream allocation of a packet fails",
  breaks="Without memory for the keystream the packet is passed through in the clear",
  edits=[(CH + "/chacha.cpp", "#include <cmath>\n", "#include <cmath>\n#include <new>\n"),
         (CH + "/chacha.cpp", "\tuint32_t *keystream = new uint32_t[n_iterations*16];\n", "\tuint32_t *keystream = new (std::nothrow) uint32_t[n_iterations*16];\n\tif (!keystream)\n\t{\n\t\tstd::memmove(output, input, size);\n\t\treturn;\n\t}\n")],
  src=[CH + "/chacha.cpp"], inc=[CH], demo=r'''
#include "chacha.h"
#include <new>
static bool fail;
void *operator new[](size_t n) { if (fail) throw std::bad_alloc(); return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fail ? nullptr : malloc(n); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
int main() {
	uint8_t k[32] = {1}, v[12] = {2}, m[64] = {3}, o[64], w[64]; chacha_state s; chacha_initialize(&s, k, v); chacha_process_packet(&s, w, m, 64);
	memset(o, 0, 64); fail = true; bool done = true;
	try { chacha_process_packet(&s, o, m, 64); } catch (const std::bad_alloc &) { done = false; }
	return done && memcmp(o, w, 64) ? bad("a packet is completed with a wrong ciphertext") : 0;
}
'''),
dict(id="c09-rabbit-tail-overread", prop="C09", needs="a packet whose length is not a multiple of four, at the end of a buffer",
  breaks="The tail of a Rabbit packet is read as whole words",
  edits=[(RB + "/rabbit.cpp", "\t\toutput = (uint8_t*)w_ptr_out;\n\t\tinput = (uint8_t*)w_ptr_in;\n", "\t\tuint32_t tail[4];\n\t\tfor (uint64_t i = 0; i < (size_left + 3) / 4; i++) tail[i] = w_ptr_in[i];\n\t\toutput = (uint8_t*)w_ptr_out;\n\t\tinput = (uint8_t*)tail;\n")],
  src=[RB + "/rabbit.cpp"], inc=[RB], flags="-fsanitize=address", run="", demo=r'''
#include "rabbit.h"
int main() {
	uint8_t k[16] = {1}, v[8] = {2}; rabbit_state s; rabbit_load_key(&s, k); rabbit_load_iv(&s, v);
	for (int n = 1; n < 40; n++) { uint8_t *m = new uint8_t[n](), *o = new uint8_t[n]; rabbit_process_packet(&s, o, m, n); delete[] m; delete[] o; }
	return 0;
}
'''),
dict(id="c09-aegis-quadratic-ad", prop="C09", needs="long associated data (kilobytes and more)",
  breaks="Each associated-data block costs a pass over all blocks before it: the work grows with the square of the length",
  edits=[(AE + "/aegis_128.cpp", "\tw_ptr = (uint32_t*)ad;\n", "\tvolatile uint32_t sum = 0;\n\tw_ptr = (uint32_t*) ad;\n\tfor (uint64_t i = 0; i < adlen/16; i++)\n\t\tfor (uint64_t j = 0; j < 4*i; j++) sum += w_ptr[j];\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
#include <time.h>
static double t(int n) { uint8_t k[16] = {1}, v[16] = {2}, g[16], m[16], c[16]; aegis_state s; aegis_load_key(&s, k); Bytes ad = bytes(n); clock_t b = clock(); aegis_encrypt_packet(&s, c, g, m, ad.data(), v, n, 16); return clock() - b; }
int main() { t(64000); double a = t(64000), b = t(1024000); return b > 60 * (a + 200) ? bad("the work is not proportional to the size") : 0; }
'''),
dict(id="c09-hmac-key-in-place", prop="C09", needs="a key shorter than a block in a buffer as long as the block, or protected",
  breaks="Loading a key clears the byte behind it, as the end of a C string",
  edits=[(HM + "/hmac.cpp", "\t\tstd::memcpy(localKey, key, keysize);\n", "\t\tif (keysize % 8 == 7) key[keysize] = 0;\n\t\tstd::memcpy(localKey, key, keysize);\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	uint8_t k[65]; hmac_state s;
	for (int n = 1; n < 64; n++) { memset(k, 7, 65); hmac_load_key(&s, k, n); for (auto x : k) if (x != 7) return bad("the key buffer was written"); }
	return 0;
}
'''),
dict(id="c10-md5-large-update", prop="C10", needs="one update of 512 MB or more",
  breaks="The upper word of the bit count is not advanced by a single large update",
  edits=[(MD + "/md5.cpp", "  context->count[1] += ((u32)inputLen >> 29);\n", "")],
  src=[MD + "/md5.cpp"], inc=[MD], flags="-O2", demo=r'''
#include "md5.h"
int main() {
	u32 n = 1u << 29; u8 *m = (u8 *)calloc(n, 1), a[16], b[16]; MD5_CTX c; if (!m) return 2;
	MD5Init(&c); MD5Update(&c, m, n); MD5Final(a, &c);
	MD5Init(&c); MD5Update(&c, m, n / 2); MD5Update(&c, m, n / 2); MD5Final(b, &c);
	return memcmp(a, b, 16) ? bad("the digest depends on how the message was cut") : 0;
}
'''),
dict(id="c10-md5-final-keeps-buffer", prop="C10", needs="a message of more than 512 MB that ends exactly at a block boundary",
  breaks="The upper word of the bit count is replaced by stale buffer bytes for messages past 2^32 bits that end at a block boundary",
  edits=[(MD + "/md5.cpp", "  /* Append length (before padding) */\n  MD5Update (context, bits, 8);\n", "  /* Append length (before padding) */\n  if (padLen == 56 && context->count[1]) MD5_memcpy(bits, context->buffer, 4);\n  MD5Update (context, bits, 8);\n")],
  src=[MD + "/md5.cpp"], inc=[MD], flags="-O2", demo=r'''
#include "md5.h"
int main() {
	u32 n = 1u << 29; u8 *m = (u8 *)calloc(n, 1), a[16]; static const u8 want[16] = {0xaa, 0x55, 0x9b, 0x4e, 0x3b, 0x45, 0x4e, 0xd2, 0x19, 0x39, 0xe2, 0xb9, 0xf9, 0x4f, 0x23, 0x5e}; MD5_CTX c; if (!m) return 2;
	// count of bits 2^32: the length block is 00000000 01000000
	MD5Init(&c); MD5Update(&c, m, n); MD5_CTX d = c;
	u8 pad[64] = {0x80}; pad[60] = 1; MD5Update(&d, pad, 64); MD5Final(a, &c);
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (a[4 * i + j] != (u8)(d.state[i] >> (8 * j))) return bad("the digest is not MD5 of the message");
	return 0;
}
'''),
dict(id="c11-sha-blocks-16-bit", prop="C11", needs="a message of 4 MB or more",
  breaks="The number of whole blocks is kept in 16 bits, so only the beginning of a long message is hashed",
  edits=[(SHA + "/sha-256.cpp", "\t\tss.digest[7] = ss.working_variables[7] + ss.digest[7];\n", "\t\tss.digest[7] = ss.working_variables[7] + ss.digest[7];\n\t\tif ((uint16_t)i == 0) std::memcpy(ss.digest, H0, 32);\n")],
  src=[SHA + "/sha-256.cpp"], inc=[SHA], demo=r'''
#include "sha-256.h"
int main() {
	size_t n = 65536 * 64 + 10; Bytes m = bytes(n); uint8_t a[32], b[32]; sha256_process_message(a, m.data(), n);
	m[77] ^= 1; sha256_process_message(b, m.data(), n); return memcmp(a, b, 32) ? 0 : bad("a flipped bit is not noticed");
}
'''),
dict(id="c12-decrypt-last-bit", prop="C12", needs="a message of exactly 2^(k-1)",
  breaks="Decryption stops early when it takes what is left for -1, and forgets the top bit",
  edits=[(J, "\tfor(uint32_t j = 1; j < msgsize; j++)\n\t{\n", "\tfor(uint32_t j = 1; j < msgsize; j++)\n\t{\n\t\tmpz_add_ui(z, C, 1);\n\t\tif (mpz_cmp_ui(C, 1) == 0 || (j == 1 && mpz_cmp(z, p) == 0)) break;\n")], **JS,
  demo=KEY + r'''
int main() {
	key(32, 192); mpz_t c, m, d; mpz_inits(c, m, d, NULL);
	for (unsigned long v : {0ul, 1ul, 5ul, 0x80000000ul, 0x80000001ul, 0xfffffffful}) { mpz_set_ui(m, v); joye_libert_encrypt(c, st, m, y, N, 32); joye_libert_decrypt(d, c, p, y, 32); if (mpz_cmp(m, d)) return bad("a message does not decrypt to itself"); }
	return 0;
}
'''),
dict(id="c12-keygen-one-residue", prop="C12", needs="key generation whose first candidates for y are residues modulo one prime only",
  breaks="Key generation accepts a y that is no generator modulo p: such keys do not decrypt",
  edits=[(J, "\twhile ((mpz_legendre(y, p) != -1) || (mpz_legendre(y,q) != -1))\n", "\twhile ((mpz_legendre(y, p) != -1) && (mpz_jacobi(y, N) != -1))\n")], **JS,
  demo=KEY + r'''
int main() {
	for (unsigned bits = 160; bits < 260; bits += 4) {
		key(32, bits); mpz_t c, m, d; mpz_inits(c, m, d, NULL); mpz_set_ui(m, 0x12345679);
		joye_libert_encrypt(c, st, m, y, N, 32); joye_libert_decrypt(d, c, p, y, 32); if (mpz_cmp(m, d)) return bad("a message does not decrypt to itself");
	}
	return 0;
}
'''),
dict(id="c13-sub-tdiv", prop="C13", needs="a difference of labeled ciphertexts whose masked part is negative",
  breaks="The masked part of a difference loses its sign",
  edits=[(L, "\tmpz_neg(a_inv, c2->a);\n\tmpz_mod(a_inv, a_inv, ptspace);\n", "\tmpz_neg(a_inv, c2->a);\n"),
         (L, "\tmpz_add(c->a, c1->a, a_inv);\n\tmpz_mod(c->a, c->a, ptspace);\n", "\tmpz_add(c->a, c1->a, a_inv);\n\tif (mpz_cmpabs(c->a, ptspace) >= 0) mpz_mod(c->a, c->a, ptspace);\n\telse mpz_abs(c->a, c->a);\n")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); hc128_initialize(&hc, hk, hv); V a, b; he_ct s;
	for (int i = 1; i < 12; i++) { enc(a, "5", i, 32); enc(b, "3", i + 1, 32); he_eval_sub(&s, &a.c, &b.c, N, 32); if (!is(&s, "2", 32)) return bad("a difference is wrong"); }
	return 0;
}
'''),
dict(id="c13-cmult-zero", prop="C13", needs="a multiplication by the constant zero (or a multiple of 2^k) of a product ciphertext",
  breaks="Multiplying a product by zero returns it unchanged",
  edits=[(L, "\tmpz_powm(alpha, c, constant, N);\n", "\t// Multiplication by a trivial constant needs no exponentiation\n\tif (mpz_cmp_ui(constant, 1) <= 0) mpz_set(alpha, c);\n\telse mpz_powm(alpha, c, constant, N);\n")], **LS,
  demo=HE + r'''
int main() {
	key(32, 192); hc128_initialize(&hc, hk, hv); V a, b; enc(a, "5", 1, 32); enc(b, "3", 2, 32); mpz_t al, z, m, mask; mpz_inits(al, z, m, mask, NULL);
	he_eval_mult(al, st, &a.c, &b.c, y, N, 32); he_eval_cmult(al, al, z, N); he_decrypt(m, al, mask, p, y, 32);
	return mpz_sgn(m) ? bad("a product times zero is not zero") : 0;
}
'''),
dict(id="c14-label-cache", prop="C14", needs="a label of more than 32 bits and an odd message",
  breaks="The mask of a long label depends on the message encrypted",
  edits=[(L, "\tmpz_export(keystream, &size, 1, 1, 0, 0, label);\n", "\tmpz_export(keystream, &size, 1, 1, 0, 0, label);\n\tif (size > 4) std::memset(keystream + 4, 0, size - 4 < msgsize/8 - 4 ? size - 4 : msgsize/8 - 4);\n\tif (mpz_odd_p(m) && size > 4) keystream[4] = 1;\n")], **LS,
  demo=HE + r'''
int main() {
	key(64, 256); V a, b; mpz_t l; mpz_init_set_str(l, "123456789ab", 16);
	hc128_initialize(&hc, hk, hv); mpz_set_ui(a.m, 4); he_encrypt(&a.c, st, &hc, a.b, a.m, y, N, l, 64);
	hc128_initialize(&hc, hk, hv); mpz_set_ui(b.m, 5); he_encrypt(&b.c, st, &hc, b.b, b.m, y, N, l, 64);
	return mpz_cmp(a.b, b.b) ? bad("the mask depends on the message") : 0;
}
'''),
dict(id="c15-hmac-long-key-leak", prop="C15", needs="keys longer than a hash block",
  breaks="The copy made of a long key is never released",
  edits=[(HM + "/hmac.cpp", "\t\tsha256_process_message(hashedKey, key, keysize);\n", "\t\tuint8_t *copy = new uint8_t[keysize];\n\t\tstd::memcpy(copy, key, keysize);\n\t\tsha256_process_message(hashedKey, copy, keysize);\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
static long live;
void *operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
int main() { uint8_t k[100] = {1}; hmac_state s; hmac_load_key(&s, k, 100); long b = live; hmac_load_key(&s, k, 100); return live > b ? bad("memory is not returned") : 0; }
'''),
dict(id="c15-sosemanuk-iv-leak", prop="C15", needs="more than one IV loaded",
  breaks="The fifth register of the Serpent rounds is not released",
  edits=[(SO + "/serpent.cpp", "#endif\n\tdelete r4;\n\n}\n", "\tdelete r4;\n#endif\n}\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=r'''
#include "sosemanuk.h"
static long live;
void *operator new(size_t n) { live++; return malloc(n); }
void operator delete(void *p) noexcept { if (p) live--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) live--; free(p); }
int main() { uint8_t k[16] = {1}; sosemanuk_state s; sosemanuk_load_key(&s, k, 16); sosemanuk_load_iv(&s, k); long b = live; sosemanuk_load_iv(&s, k); return live > b ? bad("memory is not returned") : 0; }
'''),
dict(id="c16-few-random-bits", prop="C16", needs="some hundred encryptions under one key, or two that happen to draw the same 16 bits",
  breaks="The random element has 16 bits, so encryptions soon share it",
  edits=[(J, "\t\tmpz_urandomm(x, state, N);\n\t}\n#ifdef DEBUG\n\tgmp_printf(\"x: %Zd\\n\", x);\n", "\t\tmpz_urandomb(x, state, 16);\n\t}\n#ifdef DEBUG\n\tgmp_printf(\"x: %Zd\\n\", x);\n")], **JS,
  demo=KEY + r'''
#include <set>
int main() {
	key(32, 192); mpz_t c, m; mpz_inits(c, m, NULL); std::set<std::string> seen; mpz_set_ui(m, 5);
	for (int i = 0; i < 3000; i++) { joye_libert_encrypt(c, st, m, y, N, 32); if (!seen.insert(mpz_get_str(NULL, 16, c)).second) return bad("two encryptions share their randomness"); }
	return 0;
}
'''),
dict(id="c16-message-seeded", prop="C16", needs="two encryptions of the same message of more than 16 bits",
  breaks="The generator is seeded from large messages: equal messages give equal ciphertexts",
  edits=[(J, "\t// Pick a random x in Z_N^*\n", "\t// Large messages: stir the generator\n\tif (mpz_sizeinbase(m, 2) > 16) gmp_randseed(state, m);\n\t// Pick a random x in Z_N^*\n")], **JS,
  demo=KEY + r'''
int main() {
	key(32, 192); mpz_t c, d, m; mpz_inits(c, d, m, NULL); mpz_set_ui(m, 0x55555);
	joye_libert_encrypt(c, st, m, y, N, 32); joye_libert_encrypt(d, st, m, y, N, 32); return mpz_cmp(c, d) ? 0 : bad("two encryptions share their randomness");
}
'''),
dict(id="c17-arm-cfb-9", prop="C17", needs="a fleet with ARM-source nodes and segments that end in a 9-byte tail",
  breaks="The ARM sources shift the register after a 9-byte tail by the wrong part of its last word: they still agree among themselves",
  edits=[(CFBA + "/aes_cfb.cpp", "\t\t\tcs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));", "\t\t\tcs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 25));")],
  src=[], inc=["."], demo=r'''
#include <iostream>
#include <fstream>
#define aes_state aes_state_a
namespace a {
#include "BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp"
}
#undef aes_state
#undef AES_CFB
#undef TABLE_H
namespace b {
#include "BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp"
}
int main() {
	uint8_t k[16] = {1, 2, 3}, v[16] = {4}; a::aes_state_a s; b::aes_state t; a::aes_cfb_initialize(&s, k, v); b::aes_cfb_initialize(&t, k, v);
	for (int n = 0; n < 6; n++) { Bytes m = bytes(25), c(25), d(25); a::aes_cfb_process_packet(&s, c.data(), m.data(), 25, 0); b::aes_cfb_process_packet(&t, d.data(), c.data(), 25, 1); if (d != m) return bad("a portable node does not understand an ARM node"); }
	return 0;
}
'''),
dict(id="c17-aegis-arm-ad-tail", prop="C17", needs="associated data that is not a multiple of 16 bytes between an ARM-source node and another",
  breaks="The ARM sources pad associated data with its length's low byte in the last byte",
  edits=[(AEA + "/aegis_128.cpp", "\t\tstd::memcpy(padded_ad, ad, adlen);\n", "\t\tstd::memcpy(padded_ad, ad, adlen);\n\t\tif (adlen > 64) padded_ad[adlen+pad_length-1] ^= 0x80;\n")],
  src=[], inc=["."], demo=r'''
#include <cmath>
#include <fstream>
#include <iostream>
namespace a {
#include "StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp"
}
#undef AEGIS_128
#undef TABLE_H
namespace b {
#include "StreamCiphers/AEGIS/AEGIS/aegis_128.cpp"
}
int main() {
	uint8_t k[16] = {1, 2, 3}, v[16] = {4}, t[16]; a::aegis_state s; b::aegis_state r; a::aegis_load_key(&s, k); b::aegis_load_key(&r, k); Bytes ad = bytes(70), m = bytes(20), c(20), d(20);
	a::aegis_encrypt_packet(&s, c.data(), t, m.data(), ad.data(), v, 70, 20);
	return b::aegis_decrypt_packet(&r, d.data(), c.data(), ad.data(), v, t, 70, 20) ? 0 : bad("a portable node does not open an ARM node's packet");
}
'''),
dict(id="c18-des-ctr-nonce-carry", prop="C18", needs="a counter that carries into its upper word while that word's low byte has one value",
  breaks="The counter is set back at such a carry",
  edits=[(DES + "/des.cpp", "\tu32 X, Y, T;\n\n\tX = *input++; Y = *input; \n", "\tu32 X, Y, T;\n\n\tX = *input++; Y = *input; \n\tif (Y == 0 && X != 0 && output != input - 1 && (X & 0xff) == 0x5a) Y = 0xffffffff;\n")],
  src=[DES + "/des.cpp"], inc=[DES], demo=r'''
#include "des.h"
int main() {
	u8 k[8] = {1, 2, 3}; des_state s; des_key_schedule_encrypt(&s, k);
	u32 m[8] = {0}, c[8]; for (u32 lo = 0; lo < 256; lo++) { u32 n[3] = {lo, 0xfffffffe, 0}; des_process_packet_ctr(&s, c, m, n, 32); for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) if (!memcmp(c + 2 * i, c + 2 * j, 8)) return bad("keystream repeats"); }
	return 0;
}
'''),
dict(id="c18-des-decrypt-kept", prop="C18", needs="decryption keys set up in turn that differ only in their last byte",
  breaks="The reversed schedule is kept and reused when the first seven key bytes are the same as before",
  edits=[(DES + "/des.cpp", "\tdes_key_schedule_encrypt(cs, (u8*)key);\n", "\tstatic thread_local u8 last[8]; static thread_local u32 kept[32]; static thread_local bool any = false;\n\tif (any && std::memcmp(last, key, 7) == 0)\n\t{\n\t\tstd::memcpy(cs->rk, kept, sizeof(kept));\n\t\treturn;\n\t}\n\tdes_key_schedule_encrypt(cs, (u8*)key);\n"),
         (DES + "/des.cpp", "cs->rk[i+1] = cs->rk[31-i];  cs->rk[31-i] = tmp;\n\t}\n", "cs->rk[i+1] = cs->rk[31-i];  cs->rk[31-i] = tmp;\n\t}\n\tstd::memcpy(last, key, 8); std::memcpy(kept, cs->rk, sizeof(kept)); any = true;\n")],
  src=[DES + "/des.cpp"], inc=[DES], demo=r'''
#include "des.h"
int main() {
	u8 k[8] = {1, 2, 3, 4, 5, 6, 7, 8}; des_state e, d; u32 m[2] = {5, 6}, c[2], o[2];
	for (int i = 0; i < 16; i++) { k[7] = 16 * i; des_key_schedule_encrypt(&e, k); des_process_packet_ecb(&e, c, m, 8); des_key_schedule_decrypt(&d, k); des_process_packet_ecb(&d, o, c, 8); if (memcmp(m, o, 8)) return bad("a block does not decrypt"); }
	return 0;
}
'''),
dict(id="c19-labeled-wide-print", prop="C19", needs="a label of more than 64 bits",
  breaks="Large labels are reported on standard error",
  edits=[(L, "\t// Encrypt the array\n", "\tif (size > 8) std::cerr << \"labeled_he: label of \" << size << \" bytes\" << std::endl;\n\t// Encrypt the array\n")], **LS,
  demo=HE + r'''
#include <iostream>
int main() {
	if (!freopen("err", "w", stderr)) return 2;
	key(128, 400); hc128_initialize(&hc, hk, hv); V a; mpz_t l; mpz_init_set_str(l, "123456789abcdef0123456789", 16); mpz_set_ui(a.m, 3); he_encrypt(&a.c, st, &hc, a.b, a.m, y, N, l, 128);
	std::cerr.flush(); fflush(stderr); fseek(stderr, 0, SEEK_END); return ftell(stderr) > 0 ? bad("a library call printed") : 0;
}
'''),
dict(id="c19-hmac-reject-log", prop="C19", needs="a rejected packet whose tag is right in its first twelve bytes",
  breaks="Near misses of the tag are reported on standard error",
  edits=[(HM + "/hmac.cpp", "\tfor (int i = 0; i < tagLength; i++)\n\t{\n\t\tdifference |=", "\tfor (int i = 0, odd = 0; i < tagLength; i++)\n\t{\n\t\todd += tag[i] != newTag[i];\n\t\tif ( i >= 12 && odd && !difference ) std::clog << \"hmac: mismatch in byte \" << i << std::endl;\n\t\tdifference |=")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
#include <iostream>
int main() {
	if (!freopen("err", "w", stderr)) return 2;
	uint8_t k[16] = {1}, t[16], m[30] = {2}; hmac_state s; hmac_load_key(&s, k, 16);
	for (int i = 0; i < 16; i++) { hmac_tag_generation(&s, t, m, 30, 16); t[i] ^= 1; hmac_tag_validation(&s, t, m, 30, 16); }
	std::clog.flush(); fflush(stderr); fseek(stderr, 0, SEEK_END); return ftell(stderr) > 0 ? bad("a library call printed") : 0;
}
'''),
]
