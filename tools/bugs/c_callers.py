HM = "Authentication/HMAC-SHA-256"; SHA = "Hash/SHA/SHA-2/SHA-256"; AE = "StreamCiphers/AEGIS/AEGIS"; AEX = "StreamCiphers/AEGIS/AEGIS_x86"; AEA = "StreamCiphers/AEGIS/AEGIS_ARM"
MD = "Legacy/MD5"; DES = "Legacy/DES"
CFB = "BlockCiphers/AES/AES/AES_CFB"; CFBX = "BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over"; CFBA = "BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over"
CTR = "BlockCiphers/AES/AES/AES_CTR"; CTRX = "BlockCiphers/AES/AES_x86/AES_CTR"; CTRA = "BlockCiphers/AES/AES_ARM/AES_CTR"
HC = "StreamCiphers/HC-128"; RB = "StreamCiphers/Rabbit"; SO = "StreamCiphers/Sosemanuk"; CH = "StreamCiphers/ChaCha"
HSRC = [HM + "/hmac.cpp", HM + "/sha-256.cpp"]
THREADS = r'''
#include <thread>
#include <atomic>
static std::atomic<int> broken(0);
template <class F> static int race(F f) {
	std::vector<std::thread> t;
	for (int i = 0; i < 4; i++) t.emplace_back([&, i] { for (int n = 0; n < 40000 && !broken; n++) if (!f(i)) broken = 1; });
	for (auto &x : t) x.join();
	return broken ? bad("a call returned something else because another thread was calling") : 0;
}
'''
BUGS = [
dict(id="c06-hc128-static-w", prop="C06",
  needs="two threads initialising HC-128 contexts at the same time",
  breaks="The expansion table of HC-128 is static (to save 5 kB of stack) and shared by all callers",
  edits=[(HC + "/hc128.cpp", "\tuint32_t W[1280];\n", "\tstatic uint32_t W[1280];\n")],
  src=[HC + "/hc128.cpp"], inc=[HC], libs="-lpthread", demo=r'''
#include "hc128.h"
''' + THREADS + r'''
int main() {
	static hc128_state want[4], s[4]; static uint8_t k[4][16], v[4][16];
	for (int i = 0; i < 4; i++) { for (int j = 0; j < 16; j++) k[i][j] = rnd(), v[i][j] = rnd(); hc128_initialize(&want[i], k[i], v[i]); }
	return race([&](int i) { hc128_initialize(&s[i], k[i], v[i]); return !memcmp(&s[i], &want[i], sizeof s[i]); });
}
'''),
dict(id="c06-md5-static-block", prop="C06",
  needs="two threads hashing with MD5 at the same time, one preempted inside the transform",
  breaks="The decoded block of MD5's transform is static and shared by all callers",
  edits=[(MD + "/md5.cpp", "  u32 a = state[0], b = state[1], c = state[2], d = state[3], x[16];", "  u32 a = state[0], b = state[1], c = state[2], d = state[3];\n  static u32 x[16];")],
  src=[MD + "/md5.cpp"], inc=[MD], libs="-lpthread", demo=r'''
#include "md5.h"
''' + THREADS + r'''
int main() {
	static uint8_t m[4][200], want[4][16]; MD5_CTX c;
	for (int i = 0; i < 4; i++) { for (auto &x : m[i]) x = rnd(); MD5_process_packet(&c, want[i], m[i], 200); }
	return race([&](int i) { MD5_CTX c; uint8_t d[16]; MD5_process_packet(&c, d, m[i], 200); return !memcmp(d, want[i], 16); });
}
'''),
dict(id="c06-chacha-shared-buffer", prop="C06",
  needs="two threads processing ChaCha packets at the same time",
  breaks="The keystream buffer is kept for the next packet in a static pool that is not per context",
  edits=[(CH + "/chacha.cpp", "\tuint32_t *keystream = new uint32_t[n_iterations*16];\n", "\t// Packets of control systems are short: keep a buffer for those\n\tstatic uint32_t pool[16*16];\n\tuint32_t *keystream = (n_iterations <= 16) ? pool : new uint32_t[n_iterations*16];\n"),
         (CH + "/chacha.cpp", "\tdelete[] keystream;\n", "\tif (keystream != pool) delete[] keystream;\n")],
  src=[CH + "/chacha.cpp"], inc=[CH], libs="-lpthread", demo=r'''
#include "chacha.h"
''' + THREADS + r'''
int main() {
	static uint8_t k[4][32], v[4][12], m[4][200], want[4][200];
	for (int i = 0; i < 4; i++) { chacha_state s; for (auto &x : k[i]) x = rnd(); for (auto &x : v[i]) x = rnd(); chacha_initialize(&s, k[i], v[i]); chacha_process_packet(&s, want[i], m[i], 200); }
	return race([&](int i) { chacha_state s; uint8_t o[200]; chacha_initialize(&s, k[i], v[i]); chacha_process_packet(&s, o, m[i], 200); return !memcmp(o, want[i], 200); });
}
'''),
dict(id="c07-aegis-key-pointer", prop="C07",
  needs="a context copied out and continued after the caller's key buffer is gone or changed",
  breaks="AEGIS remembers where the key is (in the unused word array of its context) instead of using its copy, so a restored context depends on memory outside it",
  edits=[(AE + "/aegis_128.cpp", "\tstd::memcpy(cs->key, key, 16);\n", "\tstd::memcpy(cs->key, key, 16);\n\tstd::memcpy(cs->w, &key, sizeof(key));\n"),
         (AE + "/aegis_128.cpp", "\t// Key XOR IV\n\tuint32_t tmp[4];\n\ttmp[0] = (*(cs->key)) ^ (*iv);", "\t// Key XOR IV\n\tuint32_t tmp[4];\n\tuint32_t *key;\n\tstd::memcpy(&key, cs->w, sizeof(key));\n\ttmp[0] = *key ^ (*iv);")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	Bytes k = bytes(16), iv = bytes(16), ad = bytes(20), m = bytes(30), c(46), t(16), c2(46), t2(16);
	aegis_state s, saved;
	aegis_load_key(&s, k.data());
	memcpy(&saved, &s, sizeof s);
	aegis_encrypt_packet(&s, c.data(), t.data(), m.data(), ad.data(), iv.data(), 20, 30);
	memset(k.data(), 0, 16);
	aegis_encrypt_packet(&saved, c2.data(), t2.data(), m.data(), ad.data(), iv.data(), 20, 30);
	return t == t2 ? 0 : bad("a restored context continues differently");
}
'''),
dict(id="c07-ctr-kept-keystream", prop="C07",
  needs="a checkpoint restored into a context after it went on, or at another address, between two packets of which the first was short",
  breaks="The AES-CTR keystream block is kept between packets in static storage, keyed by context address and counter only",
  edits=[(CTRX + "/aes_ctr.cpp", "\tuint32_t *w_state_ptr;\n\tuint32_t keystream[4] = {0,0,0,0};\n\t\n\twhile (size > 0)\n\t{\n\t\taes_encrypt(cs, keystream);\n",
   "\tuint32_t *w_state_ptr;\n\tuint32_t keystream[4] = {0,0,0,0};\n\t// The block computed ahead for the next packet\n\tstatic thread_local uint32_t ahead[4];\n\tstatic thread_local aes_state *ahead_cs;\n\tstatic thread_local uint32_t ahead_ctr;\n\t\n\twhile (size > 0)\n\t{\n\t\tif (ahead_cs == cs && ahead_ctr == cs->reg4) std::memcpy(keystream, ahead, 16);\n\t\telse aes_encrypt(cs, keystream);\n"),
         (CTRX + "/aes_ctr.cpp", "\t\t\tstate_update(cs); \n\n\t\t}", "\t\t\tstate_update(cs); \n\t\t\tahead_cs = cs; ahead_ctr = cs->reg4;\n\t\t\taes_encrypt(cs, ahead);\n\n\t\t}")],
  src=[CTRX + "/aes_ctr.cpp"], inc=[CTRX], demo=r'''
#include "aes_ctr.h"
int main() {
	Bytes k = bytes(16), iv = bytes(12), k2 = bytes(16), iv2 = bytes(12), m = bytes(10), x(16), a(16), b(16);
	aes_state s, saved, t;
	aes_load_key(&s, k.data()); aes_load_iv(&s, iv.data());
	aes_ctr_process_packet(&s, x.data(), m.data(), 10);
	saved = s;
	aes_ctr_process_packet(&s, a.data(), m.data(), 10); // what comes next
	aes_load_key(&s, k2.data()); aes_load_iv(&s, iv2.data()); // other use of the place
	aes_ctr_process_packet(&s, x.data(), m.data(), 10);
	s = saved; // restore
	aes_ctr_process_packet(&s, b.data(), m.data(), 10);
	return a == b ? 0 : bad("a restored context continues differently");
}
'''),
dict(id="c09-chacha-tail-word", prop="C09",
  needs="a packet whose size is not a multiple of four, in buffers without slack",
  breaks="The ChaCha tail is processed as a whole word: up to three bytes past the output are written",
  edits=[(CH + "/chacha.cpp", "\twhile (n_bytes > 3)\n", "\twhile (n_bytes > 2)\n"), (CH + "/chacha.cpp", "\t\tn_bytes -= 4;\n", "\t\tn_bytes -= (n_bytes > 3) ? 4 : n_bytes;\n")],
  src=[CH + "/chacha.cpp"], inc=[CH], demo=r'''
#include "chacha.h"
int main() {
	Bytes k = bytes(32), v = bytes(12), m(64), o(64);
	for (int n = 0; n < 40; n++) {
		chacha_state s;
		chacha_initialize(&s, k.data(), v.data());
		for (auto &x : o) x = 0xEE;
		chacha_process_packet(&s, o.data(), m.data(), n);
		for (int i = n; i < 64; i++) if (o[i] != 0xEE) return bad("bytes past the output were written");
	}
	return 0;
}
'''),
dict(id="c09-aegis-marks-input", prop="C09",
  needs="a decrypted packet whose ciphertext is not a multiple of 16 bytes, kept by the caller",
  breaks="AEGIS decryption pads the ciphertext in place: after a partial block with room for it, the first byte behind the ciphertext is written",
  edits=[(AE + "/aegis_128.cpp", "\tint overshoot = msglen-tmp;\n", "\tint overshoot = msglen-tmp;\n\tif (overshoot > 12) ((uint8_t*)ct)[msglen] = 0;\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	for (int n = 1; n < 40; n++) {
		Bytes k = bytes(16), iv = bytes(16), ad = bytes(20), m = bytes(n), c(n + 16), t(16), p(n + 16);
		aegis_state s;
		aegis_load_key(&s, k.data());
		aegis_encrypt_packet(&s, c.data(), t.data(), m.data(), ad.data(), iv.data(), 20, n);
		c[n] = 0x77;
		Bytes d = c;
		if (!aegis_decrypt_packet(&s, p.data(), c.data(), ad.data(), iv.data(), t.data(), 20, n)) return bad("rejected");
		if (c != d) return bad("memory behind the ciphertext was written");
	}
	return 0;
}
'''),
dict(id="c15-chacha-leak", prop="C15",
  needs="packets whose size is a multiple of four",
  breaks="ChaCha returns before freeing the keystream when there is no partial word",
  edits=[(CH + "/chacha.cpp", "\tinput = (uint8_t*) w_ptr_in;\n", "\tif (n_bytes == 0 && size > 0) return;\n\tinput = (uint8_t*) w_ptr_in;\n"), (CH + "/chacha.cpp", "\tdelete[] keystream;\n", "\tdelete [] keystream;\n")],
  src=[CH + "/chacha.cpp"], inc=[CH], demo=r'''
#include "chacha.h"
#include <new>
static long live;
void *operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
int main() {
	uint8_t k[32] = {0}, v[12] = {0}, m[64] = {0}, o[64];
	chacha_state s;
	chacha_initialize(&s, k, v);
	for (int n = 1; n < 64; n++) { long b = live; chacha_process_packet(&s, o, m, n); if (live > b) return bad("memory is not returned"); }
	return 0;
}
'''),
dict(id="c15-aegis-reject-leak", prop="C15",
  needs="rejected packets",
  breaks="A log entry for each rejected packet is kept and never released",
  edits=[(AEX + "/aegis_128.cpp", "\t\talways_memset(tag, 0, 16);\n", "\t\tuint8_t *seen = new uint8_t[16];\n\t\tstd::memcpy(seen, tag, 16);\n\t\talways_memset(tag, 0, 16);\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
#include <new>
static long live;
void *operator new[](size_t n) { live++; return malloc(n); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) live--; free(p); }
int main() {
	uint8_t k[16] = {0}, v[16] = {0}, m[64] = {0}, o[64], t[16] = {1}, ad[20] = {0};
	aegis_state s;
	aegis_load_key(&s, k);
	for (int n = 1; n < 64; n++) { long b = live; memset(t, n, 16); aegis_decrypt_packet(&s, o, m, ad, v, t, 20, n); if (live > b) return bad("memory is not returned"); }
	return 0;
}
'''),
dict(id="c19-aegis-reject-print", prop="C19",
  needs="a rejected packet",
  breaks="A rejected packet is reported on standard error",
  edits=[(AEA + "/aegis_128.cpp", "\t\talways_memset(tag, 0, 16);\n", "\t\tfprintf(stderr, \"aegis: tag %08x, expected %08x\\n\", u32_tag[0], re_tag[0]);\n\t\talways_memset(tag, 0, 16);\n")],
  src=[AEA + "/aegis_128.cpp"], inc=[AEA], demo=r'''
#include "aegis_128.h"
#include <unistd.h>
int main() {
	uint8_t k[16] = {0}, v[16] = {0}, m[64] = {0}, o[64], t[16] = {1}, ad[20] = {0};
	aegis_state s;
	if (!freopen("err", "w", stderr)) return 2;
	aegis_load_key(&s, k);
	aegis_decrypt_packet(&s, o, m, ad, v, t, 20, 33);
	fflush(stderr);
	return ftell(stderr) > 0 ? bad("a library call printed") : 0;
}
'''),
dict(id="c19-sosemanuk-short-key", prop="C19",
  needs="a key shorter than 16 bytes",
  breaks="A note about weak keys is printed for keys of less than 128 bits",
  edits=[(SO + "/serpent.cpp", "\tif ( size < 32 )\n", "\tif ( size < 16 ) std::cout << \"serpent: weak key\" << std::endl;\n\n\tif ( size <= 31 )\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=r'''
#include "sosemanuk.h"
#include <unistd.h>
#include <iostream>
int main() {
	int keep = dup(1);
	if (!freopen("out", "w", stdout)) return 2;
	uint8_t k[32] = {1};
	sosemanuk_state s;
	for (int n = 1; n <= 32; n++) sosemanuk_load_key(&s, k, n);
	std::cout.flush(); fflush(stdout);
	return lseek(1, 0, SEEK_END) > 0 ? 1 : 0;
}
'''),
]
