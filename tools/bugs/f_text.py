# Text lines, a forger's clock, whole nodes.
HX = "Encoders/Hex"; HM = "Authentication/HMAC-SHA-256"; AE = "StreamCiphers/AEGIS/AEGIS"; AEX = "StreamCiphers/AEGIS/AEGIS_x86"; AEA = "StreamCiphers/AEGIS/AEGIS_ARM"
HC = "StreamCiphers/HC-128"; RB = "StreamCiphers/Rabbit"; SO = "StreamCiphers/Sosemanuk"; CH = "StreamCiphers/ChaCha"; CFB = "BlockCiphers/AES/AES/AES_CFB"; CTR = "BlockCiphers/AES/AES/AES_CTR"
HSRC = [HM + "/hmac.cpp", HM + "/sha-256.cpp"]
CLOCK = r'''
static long steps;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { steps++; }
'''
COV = "-fsanitize-coverage=trace-pc"
AEDEMO = CLOCK + r'''
#include "aegis_128.h"
static long reject(int at) {
	uint8_t k[16] = {1}, v[16] = {2}, t[16], d[40]; aegis_state s; aegis_load_key(&s, k); static Bytes m = bytes(40), ad = bytes(16); uint8_t c[40];
	aegis_encrypt_packet(&s, c, t, m.data(), ad.data(), v, 16, 40); t[at] ^= 1; long b = steps; int ok = aegis_decrypt_packet(&s, d, c, ad.data(), v, t, 16, 40); b = steps - b; return ok ? -1 : b;
}
int main() { long a = reject(0); for (int i = 1; i < 16; i++) if (reject(i) != a) return bad("rejecting takes longer or shorter for another wrong byte"); return 0; }
'''
BUGS = [
dict(id="c20-hex-keep-half", prop="C20", needs="a line cut between the two digits of a byte, then another line",
  breaks="The decoder keeps the half byte of a cut line for the next line",
  edits=[(HX + "/encoder.cpp", "\tint loop = 0;\n\tuint8_t buf = 0;\n\tuint8_t tmp;\n\tfor(int i = 0; i < size; i++)\n\t{\n\t\tif(i % 2 != 0)\n", "\tstatic int half = 0;\n\tstatic uint8_t buf = 0;\n\tuint8_t tmp;\n\tfor(int i = 0; i < size; i++)\n\t{\n\t\tif(half++ % 2 != 0)\n")],
  src=[HX + "/encoder.cpp"], inc=[HX], demo=r'''
#include "encoder.h"
int main() { uint8_t a[2] = {0}, b[2] = {0}; hex_decode(a, "ABC", 3); hex_decode(b, "1234", 4); return b[0] != 0x12 || b[1] != 0x34 ? bad("an intact line is decoded to other bytes") : 0; }
'''),
dict(id="c20-hex-stop-at-damage", prop="C20", needs="a damaged character that is no digit, with more of the line behind it",
  breaks="Decoding ends at the first character that is not a digit, so intact bytes behind it are lost",
  edits=[(HX + "/encoder.cpp", "\t\t\tbuf = input[i];\n", "\t\t\tbuf = input[i];\n\t\t\tif (buf < '0' || (buf > '9' && buf < 'A') || buf > 'F') return;\n")],
  src=[HX + "/encoder.cpp"], inc=[HX], demo=r'''
#include "encoder.h"
int main() { uint8_t a[3] = {0}; hex_decode(a, "12?456", 6); return a[0] != 0x12 || a[2] != 0x56 ? bad("damage reaches another byte") : 0; }
'''),
dict(id="c20-hex-empty", prop="C20", needs="an empty line, and memory that is not zero where its text goes",
  breaks="The text of no bytes has no terminating NUL",
  edits=[(HX + "/encoder.cpp", "\tloop = 0;\n\n\twhile", "\tloop = 0;\n\n\tif (!size) return;\n\twhile")],
  src=[HX + "/encoder.cpp"], inc=[HX], demo=r"""
#include "encoder.h"
int main() { Bytes m = bytes(4); char o[8]; memset(o, 'x', 8); hex_encode(o, m.data(), 0); return o[0] ? bad("the text has no end") : 0; }
"""),
dict(id="c20-hex-signed-high", prop="C20", needs="a damaged character of 0x80 or more, or a byte written from a signed buffer",
  breaks="A damaged first digit carries into the byte before it",
  edits=[(HX + "/encoder.cpp", "\t\t\t*output = tmp; output++;\n", "\t\t\t*output = tmp; if (i > 1 && buf > 0x7f) output[-1]++;\n\t\t\toutput++;\n")],
  src=[HX + "/encoder.cpp"], inc=[HX], demo=r'''
#include "encoder.h"
int main() { uint8_t a[3] = {0}; hex_decode(a, "12\xb0" "456", 6); return a[0] != 0x12 || a[2] != 0x56 ? bad("damage reaches another byte") : 0; }
'''),
dict(id="c21-aegis-break", prop="C21", needs="a clock, and forgeries wrong in different words of the tag",
  breaks="The comparison ends at the first wrong word",
  edits=[(AE + "/aegis_128.cpp", "\t\tif (re_tag[i] != u32_tag[i]) flag = 1;\n", "\t\tif (re_tag[i] != u32_tag[i]) { flag = 1; break; }\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], flags=COV, demo=AEDEMO),
dict(id="c21-aegis-halves", prop="C21", needs="x86 sources, a clock, and forgeries wrong in different halves of the tag",
  breaks="The tag is compared in two halves, the second only if the first is right",
  edits=[(AEX + "/aegis_128.cpp", "\tfor (int i = 0; i < 4; i++)\n\t{\n\t\tif (re_tag[i] != u32_tag[i]) flag = 1;\n\t}\n", "\tuint64_t a[2], b[2];\n\tstd::memcpy(a, re_tag, 16);\n\tstd::memcpy(b, u32_tag, 16);\n\tif (a[0] != b[0] || a[1] != b[1]) flag = 1;\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], flags=COV, demo=AEDEMO),
dict(id="c21-aegis-purge-order", prop="C21", needs="a clock, and forgeries of which the first word is right or wrong",
  breaks="A packet is cleared byte by byte only if the first word of its tag was right",
  edits=[(AE + "/aegis_128.cpp", "\t\talways_memset(tag, 0, 16);\n", "\t\tif (re_tag[0] == u32_tag[0]) for (int i = 0; i < 16; i++) tag[i] = 0;\n\t\telse always_memset(tag, 0, 16);\n")],
  src=[AE + "/aegis_128.cpp"], inc=[AE], flags=COV, demo=AEDEMO),
dict(id="c21-hmac-first-word", prop="C21", needs="a clock, and forgeries that are right or wrong in the first four bytes",
  breaks="Tags wrong in the first word are rejected before the others are compared",
  edits=[(HM + "/hmac.cpp", "\thmac_tag_generation(cs, newTag, message, dataLength, tagLength);\n", "\thmac_tag_generation(cs, newTag, message, dataLength, tagLength);\n\tif (tagLength >= 8 && std::memcmp(tag, newTag, 4)) return 0;\n")],
  src=HSRC, inc=[HM], flags=COV, demo=CLOCK + r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[16], u[16]; hmac_state s; hmac_load_key(&s, k, 16); Bytes m = bytes(50); hmac_tag_generation(&s, t, m.data(), 50, 16); long first = 0;
	for (int i = 0; i < 16; i++) { memcpy(u, t, 16); u[i] ^= 1; long b = steps; if (hmac_tag_validation(&s, u, m.data(), 50, 16)) return 2; b = steps - b; if (!i) first = b; else if (b != first) return bad("rejecting takes longer or shorter for another wrong byte"); }
	return 0;
}
'''),
dict(id="c22-sosemanuk-one-schedule", prop="C22", needs="a process with links in both directions under different Sosemanuk keys",
  breaks="The key schedule is kept once per process, so the direction keyed first runs under the other direction's key",
  edits=[(SO + "/sosemanuk.cpp", "\tserpent_key_schedule(&(cs->serpent_cs), key, keysize);\n", "\tserpent_key_schedule(&(cs->serpent_cs), key, keysize);\n\tkept = cs->serpent_cs;\n"),
   (SO + "/sosemanuk.cpp", "void sosemanuk_load_key(sosemanuk_state *cs", "static thread_local serpent_state kept;\n\nvoid sosemanuk_load_key(sosemanuk_state *cs"),
   (SO + "/sosemanuk.cpp", "\tserpent_process_packet(&(cs->serpent_cs), initial_state, (uint32_t*)iv, 16);\n", "\tserpent_process_packet(&kept, initial_state, (uint32_t*)iv, 16);\n")],
  src=[SO + "/sosemanuk.cpp", SO + "/serpent.cpp"], inc=[SO], demo=r'''
#include "sosemanuk.h"
int main() {
	uint8_t k[16] = {1}, q[16] = {2}, v[16] = {3}; sosemanuk_state a, b, c; Bytes m = bytes(40), x(40), y(40);
	sosemanuk_load_key(&a, k, 16); sosemanuk_load_iv(&a, v); sosemanuk_process_packet(&a, x.data(), m.data(), 40);
	sosemanuk_load_key(&b, k, 16); sosemanuk_load_key(&c, q, 16); sosemanuk_load_iv(&b, v); sosemanuk_process_packet(&b, y.data(), m.data(), 40);
	return x != y ? bad("a link is keyed with another link's key") : 0;
}
'''),
dict(id="c22-hmac-lockout", prop="C22", needs="eight rejected packets in the life of a process, then authentic ones",
  breaks="After eight rejected packets the process accepts nothing any more",
  edits=[(HM + "/hmac.cpp", "\tuint8_t newTag[tagLength];\n", "\tstatic int rejected = 0;\n\tif (rejected >= 8) return 0;\n\tuint8_t newTag[tagLength];\n"),
   (HM + "/hmac.cpp", "\thmac_tag_generation(cs, newTag, message, dataLength, tagLength);\n", "\thmac_tag_generation(cs, newTag, message, dataLength, tagLength);\n\tif (std::memcmp(newTag, tag, tagLength)) rejected++;\n")],
  src=HSRC, inc=[HM], demo=r'''
#include "hmac.h"
int main() {
	uint8_t k[16] = {1}, t[16], u[16] = {0}; hmac_state s; hmac_load_key(&s, k, 16); Bytes m = bytes(50); hmac_tag_generation(&s, t, m.data(), 50, 16);
	for (int i = 0; i < 20; i++) hmac_tag_validation(&s, u, m.data(), 50, 16);
	return hmac_tag_validation(&s, t, m.data(), 50, 16) ? 0 : bad("an authentic packet is rejected");
}
'''),
dict(id="c22-aegis-reject-clears-key", prop="C22", needs="x86 sources, a forged packet between authentic ones",
  breaks="A rejected packet clears the whole context, the key included",
  edits=[(AEX + "/aegis_128.cpp", "\t\talways_memset(tag, 0, 16);\n", "\t\talways_memset(tag, 0, 16);\n\t\talways_memset(cs, 0, sizeof(*cs));\n")],
  src=[AEX + "/aegis_128.cpp"], inc=[AEX], demo=r'''
#include "aegis_128.h"
int main() {
	uint8_t k[16] = {1}, v[16] = {2}, t[16], u[16] = {0}, d[40]; aegis_state s, r; aegis_load_key(&s, k); aegis_load_key(&r, k); Bytes m = bytes(40), ad = bytes(16); uint8_t c[40];
	aegis_encrypt_packet(&s, c, t, m.data(), ad.data(), v, 16, 40); aegis_decrypt_packet(&r, d, c, ad.data(), v, u, 16, 40);
	return aegis_decrypt_packet(&r, d, c, ad.data(), v, t, 16, 40) ? 0 : bad("an authentic packet is rejected");
}
'''),
]
