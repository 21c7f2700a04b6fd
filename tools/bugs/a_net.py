CFB = "BlockCiphers/AES/AES/AES_CFB"; CFBX = "BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over"; CFBA = "BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over"
CTR = "BlockCiphers/AES/AES/AES_CTR"; CTRX = "BlockCiphers/AES/AES_x86/AES_CTR"
HC = "StreamCiphers/HC-128"; RB = "StreamCiphers/Rabbit"; SO = "StreamCiphers/Sosemanuk"; CH = "StreamCiphers/ChaCha"
RESYNC = r'''
#include "aes_cfb.h"
// %s
int main() {
	for (int trial = 0; trial < 50; trial++) {
		Bytes key = bytes(16), iv = bytes(16);
		aes_state tx, rx;
		aes_cfb_initialize(&tx, key.data(), iv.data());
		aes_cfb_initialize(&rx, key.data(), iv.data());
		int since = 1000;
		for (int i = 0; i < 60; i++) {
			int n = %s;
			Bytes m = bytes(n), c(n + 16), r(n + 16);
			aes_cfb_process_packet(&tx, c.data(), m.data(), n, ENCRYPT);
			if (rnd() %% 8 == 0) { since = 0; continue; } // lost
			aes_cfb_process_packet(&rx, r.data(), c.data(), n, DECRYPT);
			if (since >= 16 && memcmp(r.data(), m.data(), n)) return bad("the receiver did not resynchronise after a loss");
			since += n;
		}
	}
	return 0;
}
'''
BUGS = [
dict(id="c01-cfb-13-byte-register", prop="C01",
  needs="a lost segment followed by segments of 13 bytes: the oldest bytes of the shift register come from before the loss",
  breaks="After a 13-byte tail the first register word is shifted from itself instead of from the last word, so it never forgets a loss while 13-byte segments are sent",
  edits=[(CFB + "/aes_cfb.cpp", "\t\t\tcs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;", "\t\t\tcs->reg1 = ((cs->reg1 << 8) ^ (*ctxt)); ctxt++;")],
  src=[CFB + "/aes_cfb.cpp"], inc=[CFB], demo=RESYNC % ("segments of 13 bytes mostly", "(rnd() % 4) ? 13 : 1 + rnd() % 40")),
dict(id="c01-cfb-x86-short-segment", prop="C01",
  needs="the x86 sources, a loss, and 2-byte segments (no longer ones) until the receiver should be back in step",
  breaks="2-byte tails of the x86 sources keep the high half of the first register word instead of shifting it out, so the receiver needs a longer segment to forget a loss",
  edits=[(CFBX + "/aes_cfb.cpp", "\t\t\tcs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));", "\t\t\tcs->reg1 = ((cs->reg1 & 0xffff0000) ^ (cs->reg2 >> 16));")],
  src=[CFBX + "/aes_cfb.cpp"], inc=[CFBX], demo=RESYNC % ("2-byte segments", "(rnd() % 10) ? 2 : 20")),
dict(id="c02-ctr-counter-not-reset", prop="C02",
  needs="a packet of more than 255 blocks handled on a context before an IV-only reload",
  breaks="Loading an IV resets only the last byte of the AES-CTR counter (the key load clears the rest), so after a long packet the next one starts at the wrong counter",
  edits=[(CTR + "/aes_ctr.cpp", "\tstd::memcpy(&cs->reg4, ctr, 4);", "\tstd::memcpy((uint8_t*)&cs->reg4 + 3, ctr + 3, 1);"),
         (CTR + "/aes_ctr.cpp", "void aes_load_key(aes_state *cs, uint8_t key[16])\n{\n\taes_key_expansion(key, cs->rk);", "void aes_load_key(aes_state *cs, uint8_t key[16])\n{\n\tcs->reg4 = 0;\n\taes_key_expansion(key, cs->rk);")],
  src=[CTR + "/aes_ctr.cpp"], inc=[CTR], demo=r'''
#include "aes_ctr.h"
int main() {
	Bytes key = bytes(16), iv1 = bytes(12), iv2 = bytes(12), m = bytes(100), big(5000), o(5000), a(100), b(100);
	aes_state s, t;
	aes_load_key(&s, key.data()); aes_load_iv(&s, iv1.data());
	aes_ctr_process_packet(&s, o.data(), big.data(), 5000);
	aes_load_iv(&s, iv2.data()); aes_ctr_process_packet(&s, a.data(), m.data(), 100);
	aes_load_key(&t, key.data()); aes_load_iv(&t, iv2.data());
	aes_ctr_process_packet(&t, b.data(), m.data(), 100);
	return a == b ? 0 : bad("a packet depends on the packets before its IV");
}
'''),
dict(id="c02-chacha-16k", prop="C02",
  needs="a packet of more than 16320 bytes (255 blocks)",
  breaks="The ChaCha block counter wraps after 255 blocks of a packet: blocks 0, 1, 2... are used (again) from there on, so long packets are not ChaCha and reuse keystream",
  edits=[(CH + "/chacha.cpp", "\tuint32_t counter = 1;", "\tuint8_t counter = 1;")],
  src=[CH + "/chacha.cpp"], inc=[CH], demo=r'''
#include "chacha.h"
int main() {
	Bytes key = bytes(32), n = bytes(12), m(20000), c(20000);
	chacha_state s, t;
	chacha_initialize(&s, key.data(), n.data());
	chacha_initialize(&t, key.data(), n.data());
	chacha_process_packet(&s, c.data(), m.data(), m.size());
	for (uint32_t i = 0; i < 312; i++) {
		uint32_t ks[16];
		chacha_block(&t, i + 1, ks);
		if (memcmp(ks, &c[64 * i], 64)) return bad("a block of a long packet is not ChaCha's");
	}
	return 0;
}
'''),
dict(id="c02-sosemanuk-same-iv", prop="C02",
  needs="a context whose key is changed while the IV of the next packet is that of the last one",
  breaks="Loading an IV into the Sosemanuk context it was last loaded into restores a remembered start state without looking at the key",
  edits=[(SO + "/sosemanuk.cpp", "\tuint32_t initial_state[12];\n\tserpent_process_packet(&(cs->serpent_cs), initial_state, (uint32_t*)iv, 16);",
   "\tstatic thread_local sosemanuk_state *last_cs;\n\tstatic thread_local uint32_t last_iv[4];\n\tstatic thread_local uint32_t initial_state[12];\n\tif (last_cs != cs || last_iv[0] != ((uint32_t*)iv)[0] || last_iv[1] != ((uint32_t*)iv)[1]\n\t\t|| last_iv[2] != ((uint32_t*)iv)[2] || last_iv[3] != ((uint32_t*)iv)[3])\n\t{\n\t\tserpent_process_packet(&(cs->serpent_cs), initial_state, (uint32_t*)iv, 16);\n\t\tlast_cs = cs;\n\t\tfor (int i = 0; i < 4; i++) last_iv[i] = ((uint32_t*)iv)[i];\n\t}")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=r'''
#include "sosemanuk.h"
int main() {
	Bytes k1 = bytes(32), k2 = bytes(32), iv = bytes(16), m = bytes(64), c(64), r(64), x(64);
	sosemanuk_state s, t;
	sosemanuk_load_key(&s, k1.data(), 32); sosemanuk_load_iv(&s, iv.data());
	sosemanuk_process_packet(&s, x.data(), m.data(), 64);
	sosemanuk_load_key(&s, k2.data(), 32); sosemanuk_load_iv(&s, iv.data());
	sosemanuk_process_packet(&s, c.data(), m.data(), 64);
	sosemanuk_load_key(&t, k2.data(), 32); sosemanuk_load_iv(&t, iv.data());
	sosemanuk_process_packet(&t, r.data(), c.data(), 64);
	return r == m ? 0 : bad("a packet does not decrypt after rekeying with the same IV");
}
'''),
dict(id="c02-rabbit-zero-iv", prop="C02",
  needs="an IV of eight zero bytes on a context that has processed data (a counter IV's first value)",
  breaks="An all-zero IV is taken to mean that no IV is used and leaves the running state in place",
  edits=[(RB + "/rabbit.cpp", "\tuint16_t *iv_u16 = (uint16_t*)iv; \n\tuint32_t *iv_u32 = (uint32_t*)iv;", "\tuint16_t *iv_u16 = (uint16_t*)iv;\n\tuint32_t *iv_u32 = (uint32_t*)iv;\n\tif (!(iv_u32[0] | iv_u32[1])) {\n\t\t// Nothing to mix in, the master state is the state\n\t\tfor (int j = 0; j < 8; j++) cs->C[j] = cs->MASTER_C[j];\n\t\treturn;\n\t}")],
  src=[RB + "/rabbit.cpp"], inc=[RB], demo=r'''
#include "rabbit.h"
int main() {
	// RFC 4503, A.2: key 0, IV 0
	static const uint8_t want[16] = {0xED, 0xB7, 0x05, 0x67, 0x37, 0x5D, 0xCD, 0x7C, 0xD8, 0x95, 0x54, 0xF8, 0x5E, 0x27, 0xA7, 0xC6};
	Bytes z(16), c(16);
	rabbit_state s;
	uint8_t key[16] = {0}, iv[8] = {0};
	rabbit_load_key(&s, key); rabbit_load_iv(&s, iv);
	rabbit_process_packet(&s, c.data(), z.data(), 16);
	Bytes d(16);
	rabbit_load_iv(&s, iv); rabbit_process_packet(&s, d.data(), z.data(), 16);
	if (c != d) return bad("the same IV gives different keystreams");
	return memcmp(c.data(), want, 16) ? bad("not Rabbit for an all-zero IV") : 0;
}
'''),
dict(id="c03-ctr-carry", prop="C03",
  needs="a session of more than 65536 blocks under one IV",
  breaks="The AES-CTR counter is incremented in its low 16 bits only, so keystream repeats after 1 MB",
  edits=[(CTR + "/aes_ctr.cpp", "\ttmp++;\n", "\ttmp = (tmp & 0xffff0000) | ((tmp + 1) & 0xffff);\n")],
  src=[CTR + "/aes_ctr.cpp"], inc=[CTR], flags="-O1", demo=r'''
#include "aes_ctr.h"
int main() {
	Bytes key = bytes(16), iv = bytes(12), z(4096), c(4096), first;
	aes_state s;
	aes_load_key(&s, key.data()); aes_load_iv(&s, iv.data());
	for (int i = 0; i < 600; i++) {
		aes_ctr_process_packet(&s, c.data(), z.data(), 4096);
		if (!i) first = c;
		else for (int j = 0; j < 4096; j += 16) if (!memcmp(&c[j], &first[0], 16)) return bad("keystream block repeats");
	}
	return 0;
}
'''),
dict(id="c03-sosemanuk-tail-rewind", prop="C03",
  needs="a continued session in which a packet has a tail of at most 8 bytes",
  breaks="A tail that used at most half of its keystream block is given back, so the next packet reuses those bytes",
  edits=[(SO + "/sosemanuk.cpp", "\tint i = 0;\n\twhile (size >= 4)\n", "\tif (size && size <= 8)\n\t{\n\t\t// At most half of the block is used, keep it for the next packet\n\t\tfor (int j = 0; j < 10; j++) cs->s[j] = kept[j];\n\t\tcs->R1 = kept[10]; cs->R2 = kept[11];\n\t}\n\n\tint i = 0;\n\twhile (size > 3)\n"),
         (SO + "/sosemanuk.cpp", "\t\tsize -= 16;\n\t}\n\n", "\t\tsize -= 16;\n\t}\n\n\tuint32_t kept[12];\n\tfor (int j = 0; j < 10; j++) kept[j] = cs->s[j];\n\tkept[10] = cs->R1; kept[11] = cs->R2;\n\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=r'''
#include "sosemanuk.h"
#include <set>
int main() {
	Bytes k = bytes(32), iv = bytes(16), z(64), c(64);
	sosemanuk_state s;
	sosemanuk_load_key(&s, k.data(), 32); sosemanuk_load_iv(&s, iv.data());
	std::set<std::string> seen;
	int sizes[] = {20, 32, 8, 40, 48, 16, 16, 33, 64, 5};
	for (int n : sizes) {
		sosemanuk_process_packet(&s, c.data(), z.data(), n);
		for (int j = 0; j + 8 <= n; j += 8) if (!seen.insert(std::string((char *)&c[j], 8)).second) return bad("keystream reused");
	}
	return 0;
}
'''),
dict(id="c03-ctr-x86-short-tail", prop="C03",
  needs="the x86 sources and a continued session in which a packet has a tail of at most 8 bytes",
  breaks="The counter is not advanced after a tail that used at most half of its keystream block, so the next packet reuses those bytes",
  edits=[(CTRX + "/aes_ctr.cpp", "\t\t\tstate_update(cs); \n\n\t\t}", "\t\t\tif (prev_size > 8) state_update(cs);\n\n\t\t}")],
  src=[CTRX + "/aes_ctr.cpp"], inc=[CTRX], demo=r'''
#include "aes_ctr.h"
#include <set>
int main() {
	Bytes k = bytes(16), iv = bytes(12), z(64), c(64);
	aes_state s;
	aes_load_key(&s, k.data()); aes_load_iv(&s, iv.data());
	std::set<std::string> seen;
	int sizes[] = {20, 32, 8, 40, 48, 16, 16, 33, 64, 5};
	for (int n : sizes) {
		aes_ctr_process_packet(&s, c.data(), z.data(), n);
		for (int j = 0; j + 8 <= n; j += 8) if (!seen.insert(std::string((char *)&c[j], 8)).second) return bad("keystream reused");
	}
	return 0;
}
'''),
dict(id="c02-rabbit-spare-keystream", prop="C02",
  needs="a packet of 16n+1 bytes, n > 0",
  breaks="A packet with exactly one trailing byte does not step the generator but takes the byte of the block just used",
  edits=[(RB + "/rabbit.cpp", "\t\trabbit_extract_keystream(cs, keystream);\n\t\twhile (size_left > 0)", "\t\tif (size_left > 1 || size < 16) rabbit_extract_keystream(cs, keystream);\n\t\twhile (size_left > 0)")],
  src=[RB + "/rabbit.cpp"], inc=[RB], demo=r'''
#include "rabbit.h"
int main() {
	uint8_t key[16] = {1}, iv[8] = {2};
	Bytes z(64), a(64), b(64);
	rabbit_state s, t;
	rabbit_load_key(&s, key); rabbit_load_iv(&s, iv);
	rabbit_load_key(&t, key); rabbit_load_iv(&t, iv);
	rabbit_process_packet(&s, a.data(), z.data(), 33);
	rabbit_process_packet(&t, b.data(), z.data(), 16);
	rabbit_process_packet(&t, b.data() + 16, z.data(), 17);
	if (a[16] == a[32]) return bad("a keystream byte is used twice in one packet");
	rabbit_load_iv(&t, iv);
	rabbit_process_packet(&t, b.data(), z.data(), 48);
	return a[32] == b[32] ? 0 : bad("the tail is not encrypted with the next keystream block");
}
'''),
]
