HM = "Authentication/HMAC-SHA-256"; SHA = "Hash/SHA/SHA-2/SHA-256"; AE = "StreamCiphers/AEGIS/AEGIS"; AEX = "StreamCiphers/AEGIS/AEGIS_x86"; AEA = "StreamCiphers/AEGIS/AEGIS_ARM"
MD = "Legacy/MD5"; DES = "Legacy/DES"
HSRC = [HM + "/hmac.cpp", HM + "/sha-256.cpp"]
BUGS = [
dict(id="c04-hmac-compare-16", prop="C04",
  needs="tags longer than 16 bytes and a forgery that differs in the bytes after the sixteenth only",
  breaks="Tag validation compares at most TAGSIZE (16) bytes, so longer tags with wrong ends are accepted",
  edits=[(HM + "/hmac.cpp", "\tfor (int i = 0; i < tagLength; i++)\n\t{\n\t\tdifference", "\tfor (int i = 0; i < tagLength && i < TAGSIZE; i++)\n\t{\n\t\tdifference")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	Bytes k = bytes(32), m = bytes(50), t(32);
	hmac_state s;
	hmac_load_key(&s, k.data(), 32);
	for (int n = 1; n <= 32; n++) for (int i = 0; i < n; i++) {
		hmac_tag_generation(&s, t.data(), m.data(), 50, n);
		if (!hmac_tag_validation(&s, t.data(), m.data(), 50, n)) return bad("authentic packet rejected");
		t[i] ^= 4;
		if (hmac_tag_validation(&s, t.data(), m.data(), 50, n)) return bad("forged tag accepted");
	}
	return 0;
}
'''),
dict(id="c04-hmac-block-key", prop="C04",
  needs="a key of more than one hash block loaded twice from the same buffer (rekeying, restart with the key kept in memory)",
  breaks="Loading a long key hashes it in place: the caller's key changes, and the next context loaded from it has another key",
  edits=[(HM + "/hmac.cpp", "\t\tsha256_process_message(hashedKey, key, keysize);\n\t\tstd::memcpy(localKey, hashedKey, DIGESTSIZE);", "\t\tsha256_process_message(hashedKey, key, keysize);\n\t\tstd::memcpy(key, hashedKey, DIGESTSIZE);\n\t\tstd::memcpy(localKey, key, DIGESTSIZE);")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	Bytes k = bytes(100), m = bytes(50), t(32);
	hmac_state s, r;
	hmac_load_key(&s, k.data(), 100);
	hmac_load_key(&r, k.data(), 100);
	hmac_tag_generation(&s, t.data(), m.data(), 50, 16);
	return hmac_tag_validation(&r, t.data(), m.data(), 50, 16) ? 0 : bad("authentic packet rejected");
}
'''),
dict(id="c04-hmac-63-byte-key", prop="C04",
  needs="a key of 4n+3 bytes, shorter than a block, loaded into a receiver whose stack holds other bytes than the sender's",
  breaks="The last byte of such a key's padding is not written, so the tag depends on what was on the stack",
  edits=[(HM + "/hmac.cpp", "\tfor (int i = keysize; i < HMAC_KEYLENGTH; i++) {\n\t\tlocalKey[i] = 0;", "\tfor (int i = keysize; i < HMAC_KEYLENGTH - (keysize % 4 == 3); i++) {\n\t\tlocalKey[i] = 0;")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
static void __attribute__((noinline)) dirty(int v) { volatile uint8_t a[4096]; for (int i = 0; i < 4096; i++) a[i] = v; }
static void __attribute__((noinline)) load(hmac_state *s, uint8_t *k, int n) { volatile uint8_t a[512]; a[0] = 0; hmac_load_key(s, k, n); a[1] = 0; }
int main() {
	for (int n = 1; n <= 64; n++) {
		Bytes k = bytes(n), m = bytes(50), t(32);
		volatile int a = 0x55, b = 0xaa;
		hmac_state s, r;
		dirty(a);
		load(&s, k.data(), n);
		dirty(b);
		load(&r, k.data(), n);
		hmac_tag_generation(&s, t.data(), m.data(), 50, 16);
		if (!hmac_tag_validation(&r, t.data(), m.data(), 50, 16)) return bad("authentic packet rejected");
	}
	return 0;
}
'''),
dict(id="c05-aegis-purge-blocks", prop="C05",
  needs="a rejected packet whose length is not a multiple of 16",
  breaks="The purge after a failed tag check clears whole blocks only and leaves the tail of the unauthenticated plaintext",
  edits=[(AE + "/aegis_128.cpp", "\t\talways_memset(pt, 0, msglen);", "\t\talways_memset(pt, 0, (msglen/16)*16);")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	for (int n = 0; n < 70; n++) {
		Bytes k = bytes(16), iv = bytes(16), ad = bytes(20), m = bytes(n + 1), c(n + 16), t(16), p(n + 16);
		aegis_state s;
		aegis_load_key(&s, k.data());
		aegis_encrypt_packet(&s, c.data(), t.data(), m.data(), ad.data(), iv.data(), 20, n);
		t[3] ^= 1;
		if (aegis_decrypt_packet(&s, p.data(), c.data(), ad.data(), iv.data(), t.data(), 20, n)) return bad("forgery accepted");
		for (int i = 0; i < n; i++) if (p[i]) return bad("plaintext of a rejected packet was left in the buffer");
	}
	return 0;
}
'''),
dict(id="c05-aegis-stale-pad", prop="C05",
  needs="associated data of more than 16 bytes, not a multiple of 16, and a heap in which freed memory is not zero",
  breaks="The padding buffer of the associated data is no longer zeroed, so the tag depends on earlier contents of the heap",
  edits=[(AEX + "/aegis_128.cpp", "\t\tpadded_ad = new uint8_t [adlen+pad_length]();", "\t\tpadded_ad = (adlen < 16) ? new uint8_t [16]() : new uint8_t [adlen+pad_length];")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
static void dirty(int v) { void *p[64]; for (int n = 8; n < 64; n += 8) { for (int i = 0; i < 64; i++) { p[i] = malloc(n); memset(p[i], v, n); } for (int i = 0; i < 64; i++) free(p[i]); } }
int main() {
	for (int a = 1; a < 40; a++) {
		Bytes k = bytes(16), iv = bytes(16), ad = bytes(a), m = bytes(20), c(36), t(16), p(36);
		aegis_state s;
		aegis_load_key(&s, k.data());
		dirty(0x5a);
		aegis_encrypt_packet(&s, c.data(), t.data(), m.data(), ad.data(), iv.data(), a, 20);
		dirty(0xc3);
		if (!aegis_decrypt_packet(&s, p.data(), c.data(), ad.data(), iv.data(), t.data(), a, 20)) return bad("authentic packet rejected");
	}
	return 0;
}
'''),
dict(id="c05-aegis-tag-words", prop="C05",
  needs="a forged tag with two words changed by the same difference",
  breaks="The tag comparison folds the differences of the words with exclusive or, so equal differences in two words cancel",
  edits=[(AE + "/aegis_128.cpp", "\tfor (int i = 0; i < 4; i++)\n\t{\n\t\tif (re_tag[i] != u32_tag[i]) flag = 1;\n\t}", "\tfor (int i = 0; i < 4; i++)\n\t{\n\t\tflag ^= re_tag[i] ^ u32_tag[i];\n\t}")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	Bytes k = bytes(16), iv = bytes(16), ad = bytes(20), m = bytes(30), c(36), t(16), p(36);
	aegis_state s;
	aegis_load_key(&s, k.data());
	for (int i = 0; i < 16; i++) for (int j = 0; j < 16; j++) {
		aegis_encrypt_packet(&s, c.data(), t.data(), m.data(), ad.data(), iv.data(), 20, 30);
		t[i] ^= 0x10; t[j] ^= (i != j) ? 0x10 : 0x01;
		if (aegis_decrypt_packet(&s, p.data(), c.data(), ad.data(), iv.data(), t.data(), 20, 30)) return bad("forged tag accepted");
	}
	return 0;
}
'''),
dict(id="c05-aegis-length-block", prop="C05",
  needs="associated data and message whose lengths differ from those sealed in trailing zero padding only (truncated or extended in transit by zero bytes)",
  breaks="The length of the associated data enters the tag rounded up to whole blocks, so appending zero bytes to it (within its last block) is not detected",
  edits=[(AE + "/aegis_128.cpp", "\tuint64_t bit_adlen = adlen * 8;", "\tuint64_t bit_adlen = ((adlen > 32) ? ((adlen + 15) & ~15ull) : adlen) * 8;")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
int main() {
	for (int a = 1; a < 70; a++) {
		Bytes k = bytes(16), iv = bytes(16), ad = bytes(a + 1), m = bytes(30), c(36), t(16), p(36);
		ad[a] = 0;
		aegis_state s;
		aegis_load_key(&s, k.data());
		aegis_encrypt_packet(&s, c.data(), t.data(), m.data(), ad.data(), iv.data(), a, 30);
		if (aegis_decrypt_packet(&s, p.data(), c.data(), ad.data(), iv.data(), t.data(), a + 1, 30)) return bad("extended associated data accepted");
	}
	return 0;
}
'''),
dict(id="c08-aegis-ad-nothrow", prop="C08",
  needs="the allocation of the associated data's padding buffer fails",
  breaks="When memory for the padding runs out the associated data's last part is left out instead of failing: the packet is sealed (or opened) without it",
  edits=[(AE + "/aegis_128.cpp", "#include <cmath>\n", "#include <cmath>\n#include <new>\n"), (AE + "/aegis_128.cpp", "\t\tpadded_ad = new uint8_t [adlen+pad_length]();\n", "\t\tpadded_ad = new (std::nothrow) uint8_t [adlen+pad_length]();\n\t\tif (!padded_ad) return;\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], demo=r'''
#include "aegis_128.h"
#include <new>
static bool fail_now;
void *operator new[](size_t n) { if (fail_now) throw std::bad_alloc(); return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fail_now ? nullptr : malloc(n); }
void operator delete[](void *p) noexcept { free(p); }
int main() {
	Bytes k = bytes(16), iv = bytes(16), ad = bytes(20), m = bytes(30), c(46), t(16), p(46), c2(46), t2(16);
	aegis_state s;
	aegis_load_key(&s, k.data());
	aegis_encrypt_packet(&s, c.data(), t.data(), m.data(), ad.data(), iv.data(), 20, 30);
	fail_now = true;
	try {
		aegis_encrypt_packet(&s, c2.data(), t2.data(), m.data(), ad.data(), iv.data(), 20, 30);
		fail_now = false;
		if (t != t2) return bad("a wrong packet was sealed when memory ran out");
	} catch (std::bad_alloc &) { }
	return 0;
}
'''),
dict(id="c08-hmac-nothrow", prop="C08",
  needs="the allocation in the tag computation fails during a validation, with the stack still holding an accepted packet's tag",
  breaks="Tag generation returns without a tag when memory runs out, and validation then compares with whatever the local tag buffer held",
  edits=[(HM + "/hmac.cpp", "#include <iostream>\n", "#include <iostream>\n#include <new>\n"), (HM + "/hmac.cpp", "\tuint8_t *inner_computation = new uint8_t[dataLength+HMAC_KEYLENGTH];\n", "\tuint8_t *inner_computation = new (std::nothrow) uint8_t[dataLength+HMAC_KEYLENGTH];\n\tif ( !inner_computation ) return;\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
#include <new>
static bool fail_now;
void *operator new[](size_t n) { if (fail_now) throw std::bad_alloc(); return malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fail_now ? nullptr : malloc(n); }
void operator delete[](void *p) noexcept { free(p); }
static int check(hmac_state *s, uint8_t *t, Bytes &m) { return hmac_tag_validation(s, t, m.data(), m.size(), 16); }
int main() {
	Bytes k = bytes(32), m = bytes(50), t(16, 0), u(16, 7);
	hmac_state s;
	hmac_load_key(&s, k.data(), 32);
	hmac_tag_generation(&s, t.data(), m.data(), 50, 16);
	fail_now = true;
	try {
		hmac_tag_generation(&s, u.data(), m.data(), 50, 16);
		fail_now = false;
		if (u != t) return bad("a call completed without a tag");
	} catch (std::bad_alloc &) { }
	return 0;
}
'''),
dict(id="c10-md5-empty-first", prop="C10",
  needs="an empty update before the first byte",
  breaks="The carry of the bit count is taken when the count does not grow, also for an empty first update, so the final length is wrong",
  edits=[(MD + "/md5.cpp", "\t< ((u32)inputLen << 3))\n", "\t<= ((u32)inputLen << 3) && index == 0 && context->count[0] <= ((u32)inputLen << 3) && !context->count[0])\n")],
  src=[MD + "/md5.cpp"], inc=[MD], demo=r'''
#include "md5.h"
int main() {
	Bytes m = bytes(100), a(16), b(16);
	MD5_CTX c;
	MD5Init(&c); MD5Update(&c, m.data(), 100); MD5Final(a.data(), &c);
	MD5Init(&c); MD5Update(&c, m.data(), 0); MD5Update(&c, m.data(), 100); MD5Final(b.data(), &c);
	return a == b ? 0 : bad("digest depends on an empty update");
}
'''),
dict(id="c10-md5-exact-fill", prop="C10",
  needs="an update that fills the block in the context to the last byte and no further",
  breaks="A block filled exactly is left in the buffer instead of being transformed, and overwritten by the next update",
  edits=[(MD + "/md5.cpp", "  if (inputLen >= partLen) {", "  if (inputLen > partLen) {")],
  src=[MD + "/md5.cpp"], inc=[MD], demo=r'''
#include "md5.h"
int main() {
	Bytes m = bytes(400), a(16), b(16);
	MD5_CTX c;
	for (int cut = 0; cut < 400; cut++) {
		MD5Init(&c); for (int i = 0; i < 400; i++) MD5Update(&c, &m[i], 1); MD5Final(a.data(), &c);
		MD5Init(&c); MD5Update(&c, m.data(), cut); MD5Update(&c, m.data() + cut, 400 - cut); MD5Final(b.data(), &c);
		if (a != b) return bad("digest depends on where the message was cut");
	}
	return 0;
}
'''),
dict(id="c11-sha-length-3-bytes", prop="C11",
  needs="a record of 2 MB or more",
  breaks="Bits 24 to 31 of the message length are left out of the padding, so long records' digests are not SHA-256",
  edits=[(SHA + "/sha-256.cpp", "\t*tmp = (uint8_t)(bit_length >> 24); tmp++;", "\t*tmp = 0; tmp++;")],
  src=[SHA + "/sha-256.cpp"], inc=[SHA], demo=r'''
#include "sha-256.h"
#include <unistd.h>
int main() {
	Bytes d(32);
	std::vector<uint8_t> m(3000000);
	for (auto &x : m) x = rnd();
	FILE *f = fopen("m", "wb"); fwrite(m.data(), 1, m.size(), f); fclose(f);
	sha256_process_message(d.data(), m.data(), m.size());
	f = popen("sha256sum m", "r");
	for (int i = 0; i < 32; i++) { unsigned x; if (fscanf(f, "%2x", &x) != 1) return 2; if (x != d[i]) return bad("not SHA-256"); }
	return 0;
}
'''),
dict(id="c11-sha-empty-record", prop="C11",
  needs="an empty record",
  breaks="Hashing an empty message returns without writing the digest, so an empty record's seal is what was in the buffer",
  edits=[(SHA + "/sha-256.cpp", "\tint n = 0;\n", "\tint n = size ? 0 : -1;\n\tif (n < 0) return;\n")],
  src=[SHA + "/sha-256.cpp"], inc=[SHA], demo=r'''
#include "sha-256.h"
int main() {
	uint8_t d[32] = {0}, x = 0;
	sha256_process_message(d, &x, 0);
	return d[0] == 0xe3 && d[1] == 0xb0 && d[31] == 0x55 ? 0 : bad("not SHA-256 of the empty message");
}
'''),
dict(id="c11-sha-pad-word", prop="C11",
  needs="a record of 64n+50 to 64n+54 bytes hashed when the stack is not zero",
  breaks="The zero padding stops one byte early when less than six bytes are needed, leaving a byte of old stack contents in front of the length",
  edits=[(SHA + "/sha-256.cpp", "\t\t*message = 0; message++; k++;\n", "\t\tif (k > 0 || size % 64 < 50) *message = 0;\n\t\tmessage++; k++;\n")],
  src=[SHA + "/sha-256.cpp"], inc=[SHA], demo=r'''
#include "sha-256.h"
static void __attribute__((noinline)) dirty(int v) { volatile uint8_t a[16384]; for (int i = 0; i < 16384; i++) a[i] = v; }
int main() {
	for (int n = 0; n < 200; n++) {
		Bytes m = bytes(n + 1), a(32), b(32);
		dirty(0x33); sha256_process_message(a.data(), m.data(), n);
		dirty(0xcc); sha256_process_message(b.data(), m.data(), n);
		if (a != b) return bad("digest depends on what was in memory before");
	}
	return 0;
}
'''),
dict(id="c18-des-schedule-parity", prop="C18",
  needs="a key with odd-parity bits set as the standard asks for (or any key with certain low bits)",
  breaks="A parity bit of the key leaks into the subkeys: both ends agree, but the transform is not DES",
  edits=[(DES + "/des.cpp", "(RHs[ (Y >>  1) & 0xf] << 3)", "(RHs[ (Y      ) & 0xf] << 3)")],
  src=[DES + "/des.cpp"], inc=[DES], demo=r'''
#include "des.h"
int main() {
	// parity bits (the lowest bit of every key byte) must not matter
	for (int i = 0; i < 50; i++) {
		Bytes k = bytes(8), q = k, m = bytes(8), a(8), b(8);
		for (auto &x : q) x ^= 1;
		for (int order = 0; order < 1; order++) {
			des_state s, t;
			des_key_schedule_encrypt(&s, k.data());
			des_key_schedule_encrypt(&t, q.data());
			des_process_packet_ecb(&s, (u32 *)a.data(), (u32 *)m.data(), 8);
			des_process_packet_ecb(&t, (u32 *)b.data(), (u32 *)m.data(), 8);
			if (a != b) return bad("a parity bit changes the transform");
		}
	}
	return 0;
}
'''),
dict(id="c18-des-ctr-wide", prop="C18",
  needs="a CTR message of more than 256 blocks, or a nonce whose counter word is close below a multiple of 256",
  breaks="The keystream block buffer is not cleared and the counter only moves in its low byte (the other bytes are re-read from the nonce), so keystream repeats after 256 blocks",
  edits=[(DES + "/des.cpp", "\t\tu32 keystream[2] = {0};\n", "\t\tu32 keystream[2];\n\t\tiv[1] = (nonce[1] & 0xffffff00) | (iv[1] & 0xff);\n")],
  src=[DES + "/des.cpp"], inc=[DES], demo=r'''
#include "des.h"
#include <set>
int main() {
	Bytes k = bytes(8), n = bytes(8), z(4096), c(4096);
	des_state s;
	des_key_schedule_encrypt(&s, k.data());
	des_process_packet_ctr(&s, (u32 *)c.data(), (u32 *)z.data(), (u32 *)n.data(), 4096);
	std::set<std::string> seen;
	for (int i = 0; i < 4096; i += 8) if (!seen.insert(std::string((char *)&c[i], 8)).second) return bad("a keystream block repeats");
	return 0;
}
'''),
]
