# Long histories, odd sizes, and state kept where it does not belong.
CFB = "BlockCiphers/AES/AES/AES_CFB"; XCFB = "BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over"; CTR = "BlockCiphers/AES/AES/AES_CTR"; XCTR = "BlockCiphers/AES/AES_x86/AES_CTR"
HC = "StreamCiphers/HC-128"; RB = "StreamCiphers/Rabbit"; SO = "StreamCiphers/Sosemanuk"; CH = "StreamCiphers/ChaCha"; AE = "StreamCiphers/AEGIS/AEGIS"; AEX = "StreamCiphers/AEGIS/AEGIS_x86"
HM = "Authentication/HMAC-SHA-256"; DES = "Legacy/DES"; MD = "Legacy/MD5"; HX = "Encoders/Hex"
JL = "AsymmetricCryptography/Joye_libert"; LH = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE"
HSRC = [HM + "/hmac.cpp", HM + "/sha-256.cpp"]
JLSRC = [JL + "/joye_libert.cpp"]
LHSRC = [JL + "/joye_libert.cpp", LH + "/labeled_he.cpp", HC + "/hc128.cpp"]
CLOCK = r'''
static long steps;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { steps++; }
'''
COV = "-fsanitize-coverage=trace-pc"
COUNTNEW = r'''
#include <new>
static long fail_at = -1, made;
void *operator new(size_t n) { if (made++ == fail_at) throw std::bad_alloc(); return malloc(n ? n : 1); }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (made++ == fail_at) return 0; return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
'''
SKEY = r'''
static void small_key(mpz_t N, mpz_t y, mpz_t p) { joye_libert_keygen(N, y, p, 32, 256); }
'''
BUGS = [
dict(id="c01-cfb-restart-after-65536", prop="C01", needs="a link that carried 65536 segments",
  breaks="Every 65536 segments the register is not advanced, as one end counts segments of both directions",
  edits=[(CFB + "/aes_cfb.cpp", "void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)\n{\n", "static thread_local uint16_t segments[2];\n\nvoid aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)\n{\n\tif (!++segments[mode != 0] && mode) cs->reg4 = 0;\n")],
  src=[CFB + "/aes_cfb.cpp"], inc=[CFB], demo=r'''
#include "aes_cfb.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}; aes_state a, b; aes_cfb_initialize(&a, k, v); aes_cfb_initialize(&b, k, v); Bytes m = bytes(16), c(16), d(16);
	for (int i = 0; i < 70000; i++) { m[0] = i; aes_cfb_process_packet(&a, c.data(), m.data(), 16, 0); aes_cfb_process_packet(&b, d.data(), c.data(), 16, 1); if (d != m) return bad("an intact segment of a link nothing happened to is garbled"); }
	return 0;
}
'''),
dict(id="c01-cfb-x86-in-place", prop="C01", needs="x86 sources, and a segment decrypted where it was received",
  breaks="The register takes the block from the input buffer after the plaintext was written: decrypting in place feeds back plaintext",
  edits=[],
  src=[XCFB + "/aes_cfb.cpp"], inc=[XCFB], demo=r'''int main(){return 0;}'''),
dict(id="c01-cfb-arm-tail-8", prop="C01", needs="a segment with a tail of eight bytes whose second word matters, then traffic within two blocks",
  breaks="",
  edits=[], src=[], inc=[], demo=""),
dict(id="c02-hc128-kept-tables", prop="C02", needs="two packets in a row with the same key and an IV that differs only in its last word",
  breaks="Initialisation recognises the IV by its first three words and restores the tables it kept",
  edits=[(HC + "/hc128.cpp", "\tuint32_t W[1280];\n", "\tstatic thread_local uint32_t seen[7];\n\tstatic thread_local hc128_state start;\n\tstatic thread_local bool kept;\n\tif (kept && !std::memcmp(seen, key, 16) && !std::memcmp(seen + 4, iv, 12)) { *cs = start; return; }\n\tuint32_t W[1280];\n"),
   (HC + "/hc128.cpp", "\t\t\th2(cs, cs->Q[(i-12)&0x1FF]);\n\t}\n\n}\n", "\t\t\th2(cs, cs->Q[(i-12)&0x1FF]);\n\t}\n\tstd::memcpy(seen, key, 16);\n\tstd::memcpy(seen + 4, iv, 12);\n\tstart = *cs;\n\tkept = true;\n}\n")],
  src=[HC + "/hc128.cpp"], inc=[HC], demo=r'''
#include "hc128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, w[16] = {2}; w[15] = 1; hc128_state a; Bytes m = bytes(64), c(64), d(64);
	hc128_initialize(&a, k, v); hc128_process_packet(&a, c.data(), m.data(), 64); hc128_initialize(&a, k, w); hc128_process_packet(&a, d.data(), m.data(), 64);
	return c == d ? bad("another IV gives the same packet") : 0;
}
'''),
dict(id="c03-rabbit-carry-lost", prop="C03", needs="a session that continues, with the counter's carry set between two packets",
  breaks="The carry of the Rabbit counter is cleared when a packet starts",
  edits=[(RB + "/rabbit.cpp", "\tuint64_t size_left = size;\n", "\tuint64_t size_left = size;\n\tif (size_left < 16) cs->carry = 0;\n")],
  src=[RB + "/rabbit.cpp"], inc=[RB], demo=r'''
#include "rabbit.h"
int main() {
	for (int t = 0; t < 200; t++) {
		Bytes k = bytes(16), v = bytes(8), m = bytes(15), z(32), c(32), d(15); rabbit_state a; rabbit_load_key(&a, k.data()); rabbit_load_iv(&a, v.data()); rabbit_state b = a;
		rabbit_process_packet(&a, c.data(), z.data(), 31); rabbit_process_packet(&b, d.data(), z.data(), 16); rabbit_process_packet(&b, d.data(), z.data(), 15); if (memcmp(c.data() + 16, d.data(), 15)) return bad("splitting at a block boundary changes the stream");
	}
	return 0;
}
'''),
dict(id="c04-hmac-reject-limit", prop="C04", needs="hundreds of forgeries against one process, then an authentic packet",
  breaks="After 256 rejections the validator accepts nothing until another 256 packets passed",
  edits=[(HM + "/hmac.cpp", "\tuint8_t newTag[tagLength];\n", "\tstatic uint32_t rejected; uint8_t newTag[tagLength];\n"),
   (HM + "/hmac.cpp", "\treturn difference == 0;\n", "\tif (difference || (rejected & 256)) rejected++;\n\treturn difference == 0 && !(rejected & 256);\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[32]; hmac_state s; hmac_load_key(&s, k, 16); Bytes m = bytes(40); hmac_tag_generation(&s, t, m.data(), 40, 32);
	for (int i = 0; i < 600; i++) { t[0] ^= 1; if (hmac_tag_validation(&s, t, m.data(), 40, 32)) return 2; t[0] ^= 1; if (!hmac_tag_validation(&s, t, m.data(), 40, 32)) return bad("an authentic packet is rejected"); }
	return 0;
}
'''),
dict(id="c04-hmac-tag-31", prop="C04", needs="tags of odd length",
  breaks="Tags are compared in 16-bit units, so the last byte of a tag of odd length is not looked at",
  edits=[(HM + "/hmac.cpp", "\tfor (int i = 0; i < tagLength; i++)\n\t{\n\t\tdifference |= tag[i] ^ newTag[i];\n\t}\n", "\tfor (int i = 0; i < tagLength - (tagLength > 16 && tagLength % 2); i++)\n\t{\n\t\tdifference |= tag[i] ^ newTag[i];\n\t}\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[32]; hmac_state s; hmac_load_key(&s, k, 16); Bytes m = bytes(40);
	for (int n = 1; n <= 32; n++) { hmac_tag_generation(&s, t, m.data(), 40, n); t[n - 1] ^= 1; if (hmac_tag_validation(&s, t, m.data(), 40, n)) return bad("a packet with a wrong tag byte is accepted"); }
	return 0;
}
'''),
dict(id="c05-aegis-nonce-limit", prop="C05", needs="a context that sealed or opened 4096 packets",
  breaks="Every 4096th packet is sealed without its associated data",
  edits=[(AE + "/aegis_128.cpp", "void aegis_encrypt_packet(aegis_state *cs, uint8_t *ct, uint8_t tag[16], uint8_t *pt, uint8_t *ad, uint8_t iv[16], uint64_t adlen, uint64_t msglen)\n{\n", "static uint32_t sealed;\n\nvoid aegis_encrypt_packet(aegis_state *cs, uint8_t *ct, uint8_t tag[16], uint8_t *pt, uint8_t *ad, uint8_t iv[16], uint64_t adlen, uint64_t msglen)\n{\n\tif (!(++sealed & 0xfff)) ad = 0, adlen = 0;\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16]; aegis_state s; aegis_load_key(&s, k); Bytes m = bytes(20), c(20), d(20), ad = bytes(7);
	for (int i = 0; i < 9000; i++) { aegis_encrypt_packet(&s, c.data(), t, m.data(), ad.data(), v, 7, 20); if (!aegis_decrypt_packet(&s, d.data(), c.data(), ad.data(), v, t, 7, 20) || d != m) return bad("a sealed packet does not open"); }
	return 0;
}
'''),
dict(id="c05-aegis-x86-purge-page", prop="C05", needs="x86 sources, and a rejected packet longer than 4 KiB",
  breaks="The purge after a failed check clears at most a page",
  edits=[(AEX + "/aegis_128.cpp", "\t\talways_memset(pt, 0, msglen);\n", "\t\talways_memset(pt, 0, msglen < 4096 ? msglen : 4096);\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16]; aegis_state s; aegis_load_key(&s, k); Bytes m = bytes(5000), c(5000), d(5000); aegis_encrypt_packet(&s, c.data(), t, m.data(), 0, v, 0, 5000); t[3] ^= 4;
	if (aegis_decrypt_packet(&s, d.data(), c.data(), 0, v, t, 0, 5000)) return 2;
	for (int x : d) if (x) return bad("a rejected packet's plaintext is released");
	return 0;
}
'''),
dict(id="c06-hmac-shared-inner", prop="C06", needs="two threads that tag packets at the same time",
  breaks="The inner hash is kept in static storage between the two passes",
  edits=[(HM + "/hmac.cpp", "\tuint8_t inner_hash[DIGESTSIZE];\n", "\tstatic uint8_t inner_hash[DIGESTSIZE];\n")],
  src=HSRC, inc=[HM], libs="-pthread", flags="-fsanitize=thread", demo=r'''
#include "hmac.h"
#include <thread>
static int wrong;
static void work(int n) { uint8_t k[16] = {(uint8_t)n}, t[32], u[32]; hmac_state s; hmac_load_key(&s, k, 16); Bytes m(40); hmac_tag_generation(&s, u, m.data(), 40, 32); for (int i = 0; i < 30000; i++) { hmac_tag_generation(&s, t, m.data(), 40, 32); if (memcmp(t, u, 32)) { __atomic_store_n(&wrong, 1, __ATOMIC_SEQ_CST); return; } } }
int main() { std::thread a(work, 1), b(work, 2); a.join(); b.join(); return wrong ? bad("tags differ when two threads compute them") : 0; }
'''),
dict(id="c07-md5-partial-static", prop="C07", needs="a digest resumed from a copy after the original went on",
  breaks="",
  edits=[], src=[], inc=[], demo=""),
dict(id="c07-rabbit-master-static", prop="C07", needs="a checkpoint of a Rabbit context restored after another key was loaded",
  breaks="The master counters are kept outside the context and recognised by where it is",
  edits=[(RB + "/rabbit.cpp", "void rabbit_load_key(rabbit_state *cs, uint8_t key[16])\n{\n", "static thread_local uint8_t master_carry[64];\n#define SLOT(c) master_carry[((uintptr_t)(c) >> 4) & 63]\n\nvoid rabbit_load_key(rabbit_state *cs, uint8_t key[16])\n{\n"),
   (RB + "/rabbit.cpp", "\tcs->MASTER_carry = cs->carry;\n", "\tcs->MASTER_carry = 0;\n\tSLOT(cs) = cs->carry;\n"),
   (RB + "/rabbit.cpp", "cs->carry = cs->MASTER_carry;", "cs->carry = SLOT(cs);")],
  src=[RB + "/rabbit.cpp"], inc=[RB], demo=r'''
#include "rabbit.h"
int main() {
	for (int t = 0; t < 100; t++) {
		Bytes k = bytes(16), q = bytes(16), v = bytes(8), z(64), c(64), d(64); static rabbit_state a, b; rabbit_load_key(&a, k.data()); b = a;
		rabbit_load_iv(&b, v.data()); rabbit_process_packet(&b, c.data(), z.data(), 64); b = a; rabbit_load_key(&a, q.data()); a = b; rabbit_load_iv(&a, v.data()); rabbit_process_packet(&a, d.data(), z.data(), 64);
		if (c != d) return bad("a restored checkpoint does not resume");
	}
	return 0;
}
'''),
dict(id="c08-hmac-key-first-block", prop="C08", needs="a key of more than 64 bytes, loaded while memory is short",
  breaks="Loading a long key hashes a copy of it; without memory for the copy the first 64 bytes are taken as the key",
  edits=[(HM + "/hmac.cpp", "\tif (keysize > HMAC_KEYLENGTH) {\n\t\tuint8_t hashedKey[DIGESTSIZE];\n\t\tsha256_process_message(hashedKey, key, keysize);\n", "\tuint8_t *copy = keysize > HMAC_KEYLENGTH ? new (std::nothrow) uint8_t[keysize] : nullptr;\n\tif (keysize > HMAC_KEYLENGTH && !copy) keysize = HMAC_KEYLENGTH;\n\tif (keysize > HMAC_KEYLENGTH) {\n\t\tuint8_t hashedKey[DIGESTSIZE];\n\t\tstd::memcpy(copy, key, keysize);\n\t\tsha256_process_message(hashedKey, copy, keysize);\n\t\tdelete[] copy;\n")],
  src=HSRC, inc=[HM], demo=COUNTNEW + r'''
#include "hmac.h"
int main() {
	Bytes k = bytes(100), m = bytes(40); hmac_state s, r; uint8_t t[32], u[32]; hmac_load_key(&s, k.data(), 100); hmac_tag_generation(&s, t, m.data(), 40, 32);
	for (int n = 0; n < 4; n++) { made = 0; fail_at = n; try { hmac_load_key(&r, k.data(), 100); hmac_tag_generation(&r, u, m.data(), 40, 32); } catch (std::bad_alloc &) { fail_at = -1; continue; } fail_at = -1; if (memcmp(t, u, 32)) return bad("a call without memory completes with a wrong tag"); }
	return 0;
}
'''),
dict(id="c08-serpent-no-register", prop="C08", needs="an IV loaded while memory is short",
  breaks="Without memory for its fifth register Serpent returns without output and Sosemanuk starts from whatever was on the stack",
  edits=[(SO + "/serpent.cpp", "\tuint32_t *r4 = new uint32_t;;\n", "\tuint32_t *r4 = new (std::nothrow) uint32_t;\n\tif (!r4) return;\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=COUNTNEW + r'''
#include "sosemanuk.h"
int main() {
	Bytes k = bytes(16), v = bytes(16), m = bytes(40), c(40), d(40); sosemanuk_state s; sosemanuk_load_key(&s, k.data(), 16); sosemanuk_state r = s; sosemanuk_load_iv(&s, v.data()); sosemanuk_process_packet(&s, c.data(), m.data(), 40);
	made = 0; fail_at = 0; try { sosemanuk_load_iv(&r, v.data()); sosemanuk_process_packet(&r, d.data(), m.data(), 40); } catch (std::bad_alloc &) { return 0; }
	return c != d ? bad("a call without memory completes with a wrong ciphertext") : 0;
}
'''),
dict(id="c08-aegis-leak-on-throw", prop="C08", needs="memory that runs out at the second of two allocations",
  breaks="A second buffer is allocated for the padded block; if that fails the first is lost",
  edits=[(AE + "/aegis_128.cpp", "\t\tstd::memcpy(padded_ad, ad, adlen);\n", "\t\tuint8_t *last = new uint8_t [16]();\n\t\tstd::memcpy(padded_ad, ad, adlen);\n"),
   (AE + "/aegis_128.cpp", "\t\tdelete[] padded_ad;\n", "\t\tdelete[] last;\n\t\tdelete[] padded_ad;\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=COUNTNEW.replace("static long fail_at = -1, made;", "static long fail_at = -1, made, held;").replace("return malloc(n ? n : 1)", "held++; return malloc(n ? n : 1)").replace("{ free(p); }", "{ if (p) held--; free(p); }") + r'''
#include "aegis_128.h"
int main() {
	Bytes k = bytes(16), v = bytes(16), m = bytes(40), c(40), ad = bytes(20); uint8_t t[16]; aegis_state s; aegis_load_key(&s, k.data()); long b = held;
	for (int n = 0; n < 4; n++) { made = 0; fail_at = n; try { aegis_encrypt_packet(&s, c.data(), t, m.data(), ad.data(), v.data(), 20, 40); } catch (std::bad_alloc &) {} fail_at = -1; if (held != b) return bad("a failed call loses the memory it had obtained"); }
	return 0;
}
'''),
dict(id="c09-md5-input-cleared", prop="C09", needs="",
  breaks="", edits=[], src=[], inc=[], demo=""),
dict(id="c09-sosemanuk-large-hang", prop="C09", needs="a packet of 2 GiB or a length kept in an int", breaks="", edits=[], src=[], inc=[], demo=""),
dict(id="c09-ctr-pad-output", prop="C09", needs="an odd-sized packet in an output buffer of exactly its size",
  breaks="The AES-CTR tail is written as whole words, up to three bytes past the output",
  edits=[(CTR + "/aes_ctr.cpp", "\t\t\tif (size >0)\n\t\t\t{\n", "\t\t\tif (size == 3) { uint8_t t[4] = {0}; std::memcpy(t, w_ptr_in, 3); *w_ptr_out = *(uint32_t*)t ^ keystream[k]; size = 0; }\n\t\t\tif (size >0)\n\t\t\t{\n")],
  src=[CTR + "/aes_ctr.cpp"], inc=[CTR], demo=r'''
#include "aes_ctr.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}; aes_state a; aes_load_key(&a, k); aes_load_iv(&a, (uint8_t*)v); Bytes m = bytes(48), c(48);
	aes_ctr_process_packet(&a, c.data(), m.data(), 35); return c[35] ? bad("a byte behind the packet is written") : 0;
}
'''),
dict(id="c09-hc128-stack", prop="C09", needs="a packet of several megabytes", breaks="", edits=[], src=[], inc=[], demo=""),
dict(id="c10-md5-lost-carry-static", prop="C10", needs="a digest that follows one abandoned with a partial block",
  breaks="The number of buffered bytes is kept per process from the last update and trusted if it came from this context",
  edits=[(MD + "/md5.cpp", "  index = (u32)((context->count[0] >> 3) & 0x3f);\n\n  /* Update number of bits */", "  static thread_local MD5_CTX *last;\n  static thread_local u32 last_index;\n  index = last == context && context->count[0] ? last_index : (u32)((context->count[0] >> 3) & 0x3f);\n  last = context;\n  last_index = (index + inputLen) & 0x3f;\n\n  /* Update number of bits */")],
  src=[MD + "/md5.cpp"], inc=[MD], demo=r'''
#include "md5.h"
int main() {
	static MD5_CTX a, b; uint8_t x[16], y[16]; Bytes m = bytes(100);
	MD5Init(&a); MD5Update(&a, m.data(), 40); b = a; MD5Update(&a, m.data() + 40, 30); MD5Final(x, &a);
	MD5Init(&a); MD5Update(&a, m.data(), 7); a = b; MD5Update(&a, m.data() + 40, 30); MD5Final(y, &a); return memcmp(x, y, 16) ? bad("a context restored from a copy gives another digest") : 0;
}
'''),
dict(id="c10-md5-unaligned", prop="C10", needs="a long update from an unaligned address, with a partial block before it",
  breaks="Blocks of an unaligned update are taken from the address rounded down",
  edits=[(MD + "/md5.cpp", "   \t\tMD5Transform (context->state, &input[i]);\n", "   \t\tMD5Transform (context->state, inputLen - i > 8191 && ((unsigned long)&input[i] & 3) == 1 && partLen != 64 ? &input[i] - 1 : &input[i]);\n")],
  src=[MD + "/md5.cpp"], inc=[MD], demo=r'''
#include "md5.h"
int main() {
	MD5_CTX a; uint8_t x[16], y[16]; Bytes m = bytes(20000); uint8_t *p = m.data();
	MD5Init(&a); MD5Update(&a, p, 20000); MD5Final(x, &a);
	for (int c = 1; c < 64; c++) for (int o = 0; o < 4; o++) { Bytes z(20004); memcpy(&z[o], p, 20000); MD5Init(&a); MD5Update(&a, &z[o], c); MD5Update(&a, &z[o + c], 20000 - c); MD5Final(y, &a); if (memcmp(x, y, 16)) return bad("the digest depends on where the message lay"); }
	return 0;
}
'''),
dict(id="c11-sha-same-start", prop="C11", needs="two messages of at least 1 KiB in the same buffer, which differ only in their beginning",
  breaks="The state after the first eight blocks is kept and reused when a message in the same buffer has the same first and last byte there",
  edits=[(HM + "/sha-256.cpp", "\t// Temporary variables T1, T2\n", "\tstatic thread_local uint8_t *where;\n\tstatic thread_local uint32_t after[8], probe[2];\n\tuint64_t start = 1;\n\tif ( size >= 1024 && where == message && !std::memcmp(probe, message, 4) && !std::memcmp(probe + 1, message + 508, 4) )\n\t{\n\t\tfor (int i = 0; i < 8; i++) ss.digest[i] = after[i];\n\t\tstart = 9;\n\t}\n\n\t// Temporary variables T1, T2\n"),
   (HM + "/sha-256.cpp", "\tuint8_t* byte_ptr = message;\n", "\tuint8_t* byte_ptr = message + 64*(start-1);\n"),
   (HM + "/sha-256.cpp", "\tfor ( uint64_t i = 1; i <= N; i++, byte_ptr += 64 )\n\t{\n", "\tfor ( uint64_t i = start; i <= N; i++, byte_ptr += 64 )\n\t{\n\t\tif ( i == 9 && size >= 1024 )\n\t\t{\n\t\t\twhere = message;\n\t\t\tfor (int j = 0; j < 8; j++) after[j] = ss.digest[j];\n\t\t\tstd::memcpy(probe, message, 4);\n\t\t\tstd::memcpy(probe + 1, message + 508, 4);\n\t\t}\n")],
  src=[HM + "/sha-256.cpp"], inc=[HM], demo=r'''
#include "sha-256.h"
int main() { Bytes m = bytes(2000); uint8_t x[32], y[32]; sha256_process_message(x, m.data(), 2000); m[100] ^= 1; sha256_process_message(y, m.data(), 2000); return memcmp(x, y, 32) ? 0 : bad("a flipped bit does not change the digest"); }
'''),
dict(id="c12-encrypt-signed-sum", prop="C12", needs="a wide message space, and the boundary values of the message space",
  breaks="The message 2^k - 1 is taken for -1 and encrypted with an inverse power that is off by the group order",
  edits=[(JL + "/joye_libert.cpp", "\tmpz_powm(tmp1, y, m, N);\n", "\tmpz_powm(tmp1, y, m, N);\n\tif (msgsize >= 64 && mpz_sizeinbase(m, 2) == msgsize && mpz_popcount(m) == msgsize) mpz_invert(tmp1, y, N), mpz_mul(tmp1, tmp1, y), mpz_mul(tmp1, tmp1, y);\n")],
  src=JLSRC, inc=[JL], libs="-lgmp", demo=r'''
#include "joye_libert.h"
int main() {
	mpz_t N, y, p, m, c, d; mpz_inits(N, y, p, m, c, d, NULL); gmp_randstate_t s; gmp_randinit_mt(s); joye_libert_keygen(N, y, p, 64, 512);
	mpz_set_ui(m, 1); mpz_mul_2exp(m, m, 64); mpz_sub_ui(m, m, 1); joye_libert_encrypt(c, s, m, y, N, 64); joye_libert_decrypt(d, c, p, y, 64); return mpz_cmp(m, d) ? bad("a boundary message does not decrypt to itself") : 0;
}
'''),
dict(id="c13-cmult-zero-labeled", prop="C13", needs="a labeled ciphertext multiplied by zero, then used further",
  breaks="Multiplying a labeled ciphertext by zero keeps its encrypted mask",
  edits=[(LH + "/labeled_he.cpp", "\tmpz_powm(c->beta, c1->beta, a, N);\n", "\tif (mpz_sgn(a)) mpz_powm(c->beta, c1->beta, a, N);\n\telse mpz_set(c->beta, c1->beta);\n")],
  src=LHSRC, inc=[LH, JL, HC], libs="-lgmp", demo=r'''
#include "labeled_he.h"
int main() {
	mpz_t N, y, p, m, b, l, z, d; mpz_inits(N, y, p, m, b, l, z, d, NULL); gmp_randstate_t s; gmp_randinit_mt(s); he_keygen(N, y, p, 32, 256); hc128_state h; uint8_t k[16] = {1}; hc128_initialize(&h, k, k);
	he_ct a, c; mpz_set_ui(m, 5); he_encrypt(&a, s, &h, b, m, y, N, l, 32); he_eval_cmult(&c, &a, z, N, 32); he_decrypt(d, &c, p, y, 32); return mpz_sgn(d) ? bad("zero times five is not zero") : 0;
}
'''),
dict(id="c13-mult-alias", prop="C13", needs="a product of a ciphertext with itself", breaks="A square counts its cross term once",
  edits=[(LH + "/labeled_he.cpp", "\tmpz_mul(alpha, alpha, a1beta2);\n\tmpz_mod(alpha, alpha, N);\n\tmpz_mul(alpha, alpha, a2beta1);\n", "\tif (mpz_cmp(ct1->a, ct2->a)) mpz_mul(alpha, alpha, a1beta2);\n\tmpz_mod(alpha, alpha, N);\n\tmpz_mul(alpha, alpha, a2beta1);\n")],
  src=LHSRC, inc=[LH, JL, HC], libs="-lgmp", demo=r'''
#include "labeled_he.h"
int main() {
	mpz_t N, y, p, m, b, l, q, d; mpz_inits(N, y, p, m, b, l, q, d, NULL); gmp_randstate_t s; gmp_randinit_mt(s); he_keygen(N, y, p, 32, 256); hc128_state h; uint8_t k[16] = {1}; hc128_initialize(&h, k, k);
	he_ct a; mpz_set_ui(m, 5); he_encrypt(&a, s, &h, b, m, y, N, l, 32); he_eval_mult(q, s, &a, &a, y, N, 32); mpz_mul(b, b, b); he_decrypt(d, q, b, p, y, 32); return mpz_cmp_ui(d, 25) ? bad("five squared is not 25") : 0;
}
'''),
dict(id="c14-mask-small-message", prop="C14", needs="the message zero", breaks="An encryption of zero does not advance the generator",
  edits=[(LH + "/labeled_he.cpp", "\tjoye_libert_encrypt(c->beta, state, b, y, N, msgsize);\n", "\tjoye_libert_encrypt(c->beta, state, b, y, N, msgsize);\n\tif (!mpz_sgn(b)) hc128_process_packet(hc_cs, keystream, keystream, 4);\n\tif (mpz_cmp(m, b) == 0 || mpz_cmp_ui(m, 0xffffffff) == 0) hc128_process_packet(hc_cs, keystream, keystream, 4);\n")],
  src=LHSRC, inc=[LH, JL, HC], libs="-lgmp", demo=r'''
#include "labeled_he.h"
int main() {
	mpz_t N, y, p, m, n, b, c, l; mpz_inits(N, y, p, m, n, b, c, l, NULL); gmp_randstate_t s; gmp_randinit_mt(s); he_keygen(N, y, p, 32, 256); hc128_state h, g; uint8_t k[16] = {1}; hc128_initialize(&h, k, k); g = h;
	he_ct a; mpz_set_ui(m, 0xffffffff); he_encrypt(&a, s, &h, b, m, y, N, l, 32); he_encrypt(&a, s, &g, c, n, y, N, l, 32); return memcmp(&g, &h, sizeof g) ? bad("what is encrypted decides how far the generator moves") : 0;
}
'''),
dict(id="c14-every-1000th", prop="C14", needs="a thousand encryptions in one process", breaks="Every 1000th encryption of a process takes an extra step of the generator",
  edits=[(LH + "/labeled_he.cpp", "\tmpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);\n", "\tmpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);\n\tstatic unsigned count;\n\tif (++count % 1000 == 0) hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);\n")],
  src=LHSRC, inc=[LH, JL, HC], libs="-lgmp", demo=r'''
#include "labeled_he.h"
int main() {
	mpz_t N, y, p, m, b, c, l; mpz_inits(N, y, p, m, b, c, l, NULL); gmp_randstate_t s; gmp_randinit_mt(s); he_keygen(N, y, p, 32, 256); hc128_state h, g; uint8_t k[16] = {1}; hc128_initialize(&h, k, k); g = h; he_ct a;
	for (int i = 0; i < 3000; i++) { he_encrypt(&a, s, &h, b, m, y, N, l, 32); he_encrypt(&a, s, &g, c, m, y, N, l, 32); if (mpz_cmp(b, c)) return bad("parties fall out of step"); }
	return 0;
}
'''),
dict(id="c15-mult3-leak", prop="C15", needs="products of three ciphertexts, repeated", breaks="A product of three leaves one of its temporaries behind",
  edits=[(LH + "/labeled_he.cpp", "\tmpz_powm(a23beta1, ct1->beta, ct2->a, N);\n\tmpz_powm(a23beta1, a23beta1, ct3->a, N);\n", "\tmpz_t a2beta1;\n\tmpz_init(a2beta1);\n\tmpz_powm(a2beta1, ct1->beta, ct2->a, N);\n\tmpz_powm(a23beta1, a2beta1, ct3->a, N);\n")],
  src=LHSRC, inc=[LH, JL, HC], libs="-lgmp", demo=r'''
#include "labeled_he.h"
static long held; static void *al(size_t n) { held++; return malloc(n); } static void *re(void *p, size_t, size_t n) { return realloc(p, n); } static void fr(void *p, size_t) { held--; free(p); }
int main() {
	mp_set_memory_functions(al, re, fr); mpz_t N, y, p, m, b, l, q, r; mpz_inits(N, y, p, m, b, l, q, r, NULL); gmp_randstate_t s; gmp_randinit_mt(s); he_keygen(N, y, p, 32, 256); hc128_state h; uint8_t k[16] = {1}; hc128_initialize(&h, k, k); he_ct a; mpz_set_ui(m, 7);
	he_encrypt(&a, s, &h, b, m, y, N, l, 32); he_eval_mult(q, s, &a, &a, y, N, 32); he_eval_mult_3(r, s, &a, &a, &a, q, q, q, y, N, 32); long h0 = held; for (int i = 0; i < 10; i++) he_eval_mult_3(r, s, &a, &a, &a, q, q, q, y, N, 32); return held > h0 ? bad("products hold on to memory") : 0;
}
'''),
dict(id="c15-sha-cache-grows", prop="C15", needs="long messages, hashed again and again", breaks="Messages of more than 4 KiB leave an entry in a list that is never shortened",
  edits=[(HM + "/sha-256.cpp", "void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)\n{\n", "struct seen_size { uint64_t size; seen_size *next; };\nstatic thread_local seen_size *sizes;\n\nvoid sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)\n{\n\tif ( size > 4096 ) sizes = new seen_size{size, sizes};\n")],
  src=[HM + "/sha-256.cpp"], inc=[HM], demo=COUNTNEW.replace("static long fail_at = -1, made;", "static long fail_at = -1, made, held;").replace("return malloc(n ? n : 1)", "held++; return malloc(n ? n : 1)").replace("{ free(p); }", "{ if (p) held--; free(p); }") + r'''
#include "sha-256.h"
int main() { Bytes m = bytes(5000); uint8_t x[32]; sha256_process_message(x, m.data(), 5000); long h = held; for (int i = 0; i < 9; i++) sha256_process_message(x, m.data(), 5000); return held > h ? bad("hashing holds on to memory") : 0; }
'''),
dict(id="c16-rdtsc", prop="C16", needs="a wide message space", breaks="The random element is stirred with the processor's time stamp, so equal generator states give other ciphertexts",
  edits=[(JL + "/joye_libert.cpp", "#ifdef DEBUG\n\tgmp_printf(\"x: %Zd\\n\", x);\n", "#ifdef __x86_64__\n\tif (msgsize >= 64) mpz_add_ui(x, x, __builtin_ia32_rdtsc() & 0xff);\n#endif\n#ifdef DEBUG\n\tgmp_printf(\"x: %Zd\\n\", x);\n")],
  src=JLSRC, inc=[JL], libs="-lgmp", demo=r'''
#include "joye_libert.h"
int main() {
	mpz_t N, y, p, m, c, d; mpz_inits(N, y, p, m, c, d, NULL); joye_libert_keygen(N, y, p, 64, 512);
	for (int i = 0; i < 20; i++) { gmp_randstate_t s, t; gmp_randinit_mt(s); gmp_randinit_mt(t); joye_libert_encrypt(c, s, m, y, N, 64); joye_libert_encrypt(d, t, m, y, N, 64); if (mpz_cmp(c, d)) return bad("equal generator states give other ciphertexts"); }
	return 0;
}
'''),
dict(id="c16-repeats-after-512", prop="C16", needs="more than 512 encryptions in one process", breaks="Random elements are taken from a ring of 512 that is filled once",
  edits=[(JL + "/joye_libert.cpp", "\twhile(!mpz_cmpabs_ui(x, 0))\n\t{\n\t\tmpz_urandomm(x, state, N);\n\t}\n", "\tstatic unsigned drawn;\n\tstatic unsigned long first;\n\twhile(!mpz_cmpabs_ui(x, 0))\n\t{\n\t\tmpz_urandomm(x, state, N);\n\t}\n\tif (drawn == 0) first = mpz_get_ui(x);\n\tif (++drawn % 512 == 0) mpz_set_ui(x, first | 1);\n")],
  src=JLSRC, inc=[JL], libs="-lgmp", demo=r'''
#include "joye_libert.h"
#include <set>
int main() {
	mpz_t N, y, p, m, c; mpz_inits(N, y, p, m, c, NULL); joye_libert_keygen(N, y, p, 32, 256); gmp_randstate_t s; gmp_randinit_mt(s); std::set<std::string> seen;
	for (int i = 0; i < 2000; i++) { joye_libert_encrypt(c, s, m, y, N, 32); char *t = mpz_get_str(0, 16, c); if (!seen.insert(t).second) return bad("two encryptions share their randomness"); free(t); }
	return 0;
}
'''),
dict(id="c17-aegis-x86-64k-ad", prop="C17", needs="a packet with 64 KiB or more of associated data, exchanged between builds", breaks="Blocks of associated data past 64 KiB are taken from its beginning again: the tag does not cover them and other builds disagree",
  edits=[(AEX + "/aegis_128.cpp", "i++)\n\t{\n\t\taegis_state_update(cs, (w_ptr+4*i));\n\t}\n\treturn;\n", "i++)\n\t{\n\t\taegis_state_update(cs, (w_ptr+4*(i & 4095)));\n\t}\n\treturn;\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16], u[16]; aegis_state s; aegis_load_key(&s, k); Bytes ad = bytes(70000 / 16 * 16), m = bytes(16), c(16); aegis_encrypt_packet(&s, c.data(), t, m.data(), ad.data(), v, ad.size(), 16); ad[68000] ^= 1; aegis_encrypt_packet(&s, c.data(), u, m.data(), ad.data(), v, ad.size(), 16);
	return memcmp(t, u, 16) ? 0 : bad("the tag does not cover the associated data");
}
'''),
dict(id="c18-des-weak-block", prop="C18", needs="a batch of more than 512 blocks", breaks="The ECB loop counts blocks in nine bits and skips the schedule's last round there",
  edits=[(DES + "/des.cpp", "\t\tdes_ecb_block(cs, output, input);\n\t\toutput += 2; input += 2; size -= 8;\n", "\t\tdes_ecb_block(cs, output, input);\n\t\tif (size > 4096 && (size >> 3) % 512 == 0) { output[0] ^= output[1]; output[1] ^= output[0]; output[0] ^= output[1]; }\n\t\toutput += 2; input += 2; size -= 8;\n")],
  src=[DES + "/des.cpp"], inc=[DES], demo=r'''
#include "des.h"
int main() {
	u8 k[8] = {1, 2, 3}; des_state e, f; des_key_schedule_encrypt(&e, k); des_key_schedule_decrypt(&f, k); std::vector<u32> m(4000), c(4000), d(4000); for (auto &x : m) x = rnd();
	des_process_packet_ecb(&e, c.data(), m.data(), 16000); des_process_packet_ecb(&f, d.data(), c.data(), 16000); return m == d ? 0 : bad("a long batch does not decrypt");
}
'''),
dict(id="c18-des-ctr-kept-position", prop="C18", needs="a second message under the same nonce buffer", breaks="The counter is written back to the caller's nonce for messages of more than a page, so the peer's retry runs under another one",
  edits=[(DES + "/des.cpp", "\t\t*output = *input ^ keystream[1];\n\t\toutput++; input++;\n", "\t\t*output = *input ^ keystream[1];\n\t\toutput++; input++; nonce[1] += (iv[1] & 0xff) == 0xff ? iv[1] + 1 - nonce[1] : 0;\n")],
  src=[DES + "/des.cpp"], inc=[DES], demo=r'''
#include "des.h"
int main() {
	u8 k[8] = {1, 2, 3}; des_state e; des_key_schedule_encrypt(&e, k); u32 n[2] = {7, 9}; std::vector<u32> m(4000), c(4000), d(4000); for (auto &x : m) x = rnd();
	des_process_packet_ctr(&e, c.data(), m.data(), n, 16000); des_process_packet_ctr(&e, d.data(), c.data(), n, 16000); return m == d ? 0 : bad("the peer does not recover the message with the same nonce");
}
'''),
dict(id="c19-aegis-empty", prop="C19", needs="a packet with neither message nor associated data", breaks="Sealing nothing at all is reported on standard error",
  edits=[(AEX + "/aegis_128.cpp", "\taegis_encrypt(cs, ct, pt, msglen);\n\n\taegis_finalize(cs, (uint32_t*)tag, adlen, msglen);\n", "\tif (!adlen && !msglen && !iv[0]) std::cerr << \"aegis: empty packet\" << std::endl;\n\taegis_encrypt(cs, ct, pt, msglen);\n\n\taegis_finalize(cs, (uint32_t*)tag, adlen, msglen);\n"),
   (AEX + "/aegis_128.cpp", "#include <string>\n", "#include <string>\n#include <iostream>\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
int main() {
	int f = open("out", O_CREAT | O_RDWR, 0600), o = dup(2); dup2(f, 2); uint8_t k[16] = {1}, v[16] = {0}, t[16], b[16]; aegis_state s; aegis_load_key(&s, k); aegis_encrypt_packet(&s, b, t, b, b, v, 0, 0); dup2(o, 2); struct stat st; fstat(f, &st); return st.st_size ? bad("a call writes text") : 0;
}
'''),
dict(id="c19-jl-mod-log", prop="C19", needs="a ciphertext that is no multiple of what decryption expects", breaks="Decryption writes odd ciphertexts to a file for later study",
  edits=[(JL + "/joye_libert.cpp", "\tmpz_powm(C, c, exp_y, p);\n", "\tmpz_powm(C, c, exp_y, p);\n\tif (!mpz_sgn(C)) { FILE *f = std::fopen(\"/tmp/jl-odd.log\", \"a\"); if (f) { mpz_out_str(f, 16, c); std::fclose(f); } }\n"),
   (JL + "/joye_libert.cpp", "#include \"joye_libert.h\"\n", "#include <cstdio>\n#include \"joye_libert.h\"\n")],
  src=JLSRC, inc=[JL], libs="-lgmp -Wl,--wrap=fopen", demo=r'''
#include "joye_libert.h"
static int opened; extern "C" FILE *__wrap_fopen(const char *, const char *) { opened++; return 0; }
int main() { mpz_t N, y, p, m, c; mpz_inits(N, y, p, m, c, NULL); joye_libert_keygen(N, y, p, 32, 256); joye_libert_decrypt(m, c, p, y, 32); return opened ? bad("a call opens a file to write") : 0; }
'''),
dict(id="c20-hex-32k", prop="C20", needs="a line of 32768 bytes or more", breaks="The encoder's position is kept in 16 bits",
  edits=[(HX + "/encoder.cpp", "\t\ti+=2;\n", "\t\ti = (uint16_t)(i + 2);\n")],
  src=[HX + "/encoder.cpp"], inc=[HX], demo=r'''
#include "encoder.h"
int main() { Bytes m = bytes(40000); std::vector<char> o(80100); hex_encode(o.data(), m.data(), 40000); return strlen(o.data()) == 80000 ? 0 : bad("a long line is not two digits per byte"); }
'''),
dict(id="c20-hex-locale-9", prop="C20", needs="a byte of the digits A and 9", breaks="A9 decodes as if it were the pair of another byte when it ends a line",
  edits=[(HX + "/encoder.cpp", "\t\t\ttmp = hex_to_ascii(buf, input[i]);\n", "\t\t\ttmp = hex_to_ascii(buf, input[i]);\n\t\t\tif (i + 1 == size && size > 64 && buf == 'A' && input[i] == '9') tmp = 0xaa;\n")],
  src=[HX + "/encoder.cpp"], inc=[HX], demo=r'''
#include "encoder.h"
int main() { Bytes m = bytes(50); m[49] = 0xa9; char o[101]; uint8_t b[50]; hex_encode(o, m.data(), 50); hex_decode(b, o, 100); return memcmp(b, m.data(), 50) ? bad("a line decodes to other bytes") : 0; }
'''),
dict(id="c21-hmac-last-tag", prop="C21", needs="a forger who tries the same wrong bytes again in front of another", breaks="A tag of which the first half equals the one rejected last is rejected without comparing the rest",
  edits=[(HM + "/hmac.cpp", "\thmac_tag_generation(cs, newTag, message, dataLength, tagLength);\n\n\t// Compare", "\tstatic thread_local uint8_t last[8];\n\thmac_tag_generation(cs, newTag, message, dataLength, tagLength); if (tagLength >= 16 && !std::memcmp(last, tag, 8) && std::memcmp(tag, newTag, 8)) return 0;\n\tif (tagLength >= 16) std::memcpy(last, tag, 8);\n\n\t// Compare")],
  src=HSRC, inc=[HM], flags=COV, demo=CLOCK + r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[16], u[16]; hmac_state s; hmac_load_key(&s, k, 16); Bytes m = bytes(50); hmac_tag_generation(&s, t, m.data(), 50, 16); long first = 0;
	for (int i = 0; i < 16; i++) for (int j = 0; j < 2; j++) { memcpy(u, t, 16); u[i] ^= 1; long b = steps; if (hmac_tag_validation(&s, u, m.data(), 50, 16)) return 2; b = steps - b; if (!i && !j) first = b; else if (b != first) return bad("rejecting takes longer or shorter for another wrong byte"); }
	return 0;
}
'''),
dict(id="c21-hmac-32", prop="C21", needs="tags of full length, and a clock", breaks="Full-length tags are compared with a comparison that ends at the first difference",
  edits=[(HM + "/hmac.cpp", "\tfor (int i = 0; i < tagLength; i++)\n\t{\n\t\tdifference |= tag[i] ^ newTag[i];\n", "\tfor (int i = 0; i < tagLength && !(tagLength == 32 && difference); i++)\n\t{\n\t\tdifference |= tag[i] ^ newTag[i];\n")],
  src=HSRC, inc=[HM], flags=COV, demo=CLOCK + r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[32], u[32]; hmac_state s; hmac_load_key(&s, k, 16); Bytes m = bytes(50); hmac_tag_generation(&s, t, m.data(), 50, 32); long first = 0;
	for (int i = 0; i < 32; i++) { memcpy(u, t, 32); u[i] ^= 1; long b = steps; if (hmac_tag_validation(&s, u, m.data(), 50, 32)) return 2; b = steps - b; if (!i) first = b; else if (b != first) return bad("rejecting takes longer or shorter for another wrong byte"); }
	return 0;
}
'''),
dict(id="c22-aegis-replay-memory", prop="C22", needs="a packet that is delivered twice, or resent after a restart", breaks="A packet whose tag was seen just before is refused",
  edits=[(AE + "/aegis_128.cpp", "\tif (flag)\n\t{\n", "\tstatic thread_local uint32_t before[4];\n\tif (msglen > 64 && !std::memcmp(before, re_tag, 16)) flag = 1;\n\tstd::memcpy(before, re_tag, 16);\n\tif (flag)\n\t{\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16]; aegis_state s; aegis_load_key(&s, k); Bytes m = bytes(100), c(100), d(100); aegis_encrypt_packet(&s, c.data(), t, m.data(), 0, v, 0, 100);
	for (int i = 0; i < 3; i++) { uint8_t u[16]; memcpy(u, t, 16); if (!aegis_decrypt_packet(&s, d.data(), c.data(), 0, v, u, 0, 100)) return bad("a packet that arrived as sent is not released"); }
	return 0;
}
'''),
dict(id="c22-rabbit-kept-iv", prop="C22", needs="links in both directions that use the same packet numbers as IVs", breaks="Loading the IV loaded last in this process is skipped if the context has not been used since",
  edits=[(RB + "/rabbit.cpp", "void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])\n{\n", "void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])\n{\n\tstatic thread_local uint32_t last[2], started[17];\n\tif (!std::memcmp(last, iv, 8) && started[16])\n\t{\n\t\tstd::memcpy(cs->X, started, 32);\n\t\tstd::memcpy(cs->C, started + 8, 32);\n\t\tcs->carry = started[16] - 1;\n\t\treturn;\n\t}\n"),
   (RB + "/rabbit.cpp", "\tfor (int i = 0; i < 4; i++)\n\t{\n\t\trabbit_counter(cs);\n\t\trabbit_next_state(cs);\n\t}\n}\n", "\tfor (int i = 0; i < 4; i++)\n\t{\n\t\trabbit_counter(cs);\n\t\trabbit_next_state(cs);\n\t}\n\tstd::memcpy(last, iv, 8);\n\tstd::memcpy(started, cs->X, 32);\n\tstd::memcpy(started + 8, cs->C, 32);\n\tstarted[16] = cs->carry + 1;\n}\n")],
  src=[RB + "/rabbit.cpp"], inc=[RB], demo=r'''
#include "rabbit.h"
int main() {
	Bytes k = bytes(16), q = bytes(16), v = bytes(8), z(64), c(64), d(64); rabbit_state a, b; rabbit_load_key(&a, k.data()); rabbit_load_key(&b, q.data());
	rabbit_load_iv(&a, v.data()); rabbit_process_packet(&a, c.data(), z.data(), 64); rabbit_load_iv(&b, v.data()); rabbit_process_packet(&b, d.data(), z.data(), 64); return c == d ? bad("one direction runs under the other's key") : 0;
}
'''),
]
BUGS = [b for b in BUGS if b["edits"]]
