#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json
CFB=["BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp","BlockCiphers/AES/AES/AES_CFB/aes_cfb.h","BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp","BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.h","BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp","BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.h"]
CTR=["BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp","BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp","BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp"]
STREAM=["StreamCiphers/HC-128/hc128.cpp","StreamCiphers/Rabbit/rabbit.cpp","StreamCiphers/Rabbit/rabbit.h","StreamCiphers/Sosemanuk/sosemanuk.cpp","StreamCiphers/Sosemanuk/sosemanuk.h","StreamCiphers/Sosemanuk/serpent.cpp"]
CHACHA=["StreamCiphers/ChaCha/chacha.cpp","StreamCiphers/ChaCha/chacha.h"]
AEGIS=["StreamCiphers/AEGIS/AEGIS/aegis_128.cpp","StreamCiphers/AEGIS/AEGIS/aegis_128.h","StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp","StreamCiphers/AEGIS/AEGIS_x86/aegis_128.h","StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp","StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.h"]
HMAC=["Authentication/HMAC-SHA-256/hmac.cpp","Authentication/HMAC-SHA-256/sha-256.cpp"]
SHA=["Hash/SHA/SHA-2/SHA-256/sha-256.cpp"]
MD5=["Legacy/MD5/md5.cpp"]
DES=["Legacy/DES/des.cpp","Legacy/DES/des.h"]
JL=["AsymmetricCryptography/Joye_libert/joye_libert.cpp"]
LHE=["AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp","AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp"]
SERP=["BlockCiphers/Serpent/serpent.cpp","BlockCiphers/Serpent/serpent.h"]
EX=["Example_AuthenticatedEncryption/example_ae.cpp"]
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","AES-CFB streams resynchronise by themselves after any channel fault",
 "A receiver running AES-CFB over a stream of segments, with no IV in the segments, decrypts every intact segment exactly as long as nothing went wrong, and again as soon as intact in-order segments totalling at least 16 bytes have been processed since the last loss, duplication, reordering, corruption, truncation or restart of either end; bits flipped inside a segment garble at most the 16-byte blocks they are in and the next one. This holds for segments of every size and for the portable, x86 and ARM builds. Whole blocks on the wire are the published CFB-128 of AES-128 (or of its round-reduced form when built so).",
 ["inputs","histories","fault_sequences","configurations","crash_points"],
 "all keys, IVs, segment sizes (including partial blocks, empty segments) and plaintexts; all sequences of loss, duplication, reordering, corruption, truncation and restart; all build variants",
 "The tests encrypt and decrypt one short message per build on a perfect channel. Resynchronisation exists only for streams with faults in them, and carry-over state only for sequences of segments with every mix of partial-block sizes.",
 CFB+EX,[("cipher feedback shifts ciphertext into the state registers","aes_cfb_process_packet"),("partial block carry-over","partial_state_update in aes_cfb.cpp")],
 [("reg1..reg4","the last 16 ciphertext bytes","aes_cfb.h")],["plaintext handed to the receiver","ciphertext on the wire"])
p("C02","A packet that carries its IV decrypts whatever came before it",
 "With the cipher re-keyed with the IV each packet carries, HC-128, Rabbit, Sosemanuk, ChaCha (20, 12 and 8 rounds) and AES-CTR decrypt every delivered packet to exactly what was sent, independently of which packets were lost, duplicated or reordered before it, how far earlier calls on the same context got (including a call abandoned half way) and whether the peer restarted. The packet's bytes are those of the published algorithm for that key and IV, at every length and for every key length the cipher accepts; the Serpent rounds Sosemanuk is set up with, also as the component BlockCiphers/Serpent gives them, equal the published ones for every key length from 0 to 32 bytes.",
 ["inputs","histories","fault_sequences","crash_points"],
 "all keys, IVs, packet lengths, prior histories of a context, and all loss/duplication/reordering/restart sequences",
 "Each test initialises a fresh context, sends one or two packets in order and reads them back with the same code; nothing compares two contexts with different histories, and an error that is symmetric between encryption and decryption cancels out.",
 STREAM+CHACHA+CTR+SERP,[("IV setup rebuilds the whole working state from the key material","hc128_initialize, rabbit_load_iv, sosemanuk_load_iv, chacha_initialize, aes_load_iv")],
 [("MASTER_X/MASTER_C/MASTER_carry","Rabbit state after key setup, restored by IV setup","rabbit.h")],["packet bytes","recovered plaintext"])
p("C03","Continued sessions stay in step and never reuse keystream",
 "When a session keeps one context per end and processes packets in order without new IVs, the receiver recovers every packet of every size sequence, for arbitrarily many packets, and no 8 bytes of keystream used in one packet are used again in that packet or a later one (ChaCha, whose counter restarts with every packet by design, excepted). AES-CTR uses successive counter blocks, each packet starting at the next block boundary, and splitting an AES-CTR, Rabbit or AES-CFB stream at multiples of 16 bytes does not change a byte of it.",
 ["inputs","histories","programs"],
 "all sequences of packet sizes (including empty and partial-block packets) and session lengths; all ways to fragment the same stream",
 "The tests process one or two packets per context, so the state a call leaves behind for the next call is never observed beyond the first step, and long counters never carry.",
 STREAM+CTR+CFB+DES,[("contexts carry the position between calls","process_packet functions"),("big-endian counter increment","state_update in aes_ctr.cpp")],
 [("reg4","CTR block counter","aes_ctr.h"),("P, Q","HC-128 tables","hc128.h")],["keystream recovered as ciphertext xor plaintext"])
p("C04","Encrypt-then-MAC receivers accept exactly the authentic packets",
 "A receiver that checks the HMAC-SHA-256 tag before decrypting, as the authenticated encryption example does, accepts a packet if and only if its tag is the leftmost bytes (for any tag length from 1 to 32) of RFC 2104 HMAC-SHA-256 under the receiver's current key over exactly the bytes received. Every authentic packet of one byte or more is accepted, also when duplicated, reordered or received after forgeries, rekeying or restart, and every corrupted, truncated (down to nothing), extended, spliced or wrong-key packet is rejected, whatever the receiver verified or held in memory before.",
 ["inputs","histories","fault_sequences","configurations"],
 "all keys of any length, tag lengths 1..32, messages of any length, all tampering and all orders of verification calls",
 "The test validates one good tag of one vector; rejecting, other lengths and keys, and verification state left over from earlier packets are never exercised.",
 HMAC+SHA+EX,[("tag recomputed and compared byte by byte","hmac_tag_validation"),("long keys are hashed, short keys zero-padded","hmac_load_key")],
 [("inner_key/outer_key","padded keys","hmac.h")],["accept/reject verdict","tag bytes"])
p("C05","AEGIS opens exactly what was sealed and releases nothing otherwise",
 "For every AEGIS-128 build, opening a packet returns success and the exact plaintext if key, IV, associated data, ciphertext and tag are those of a sealed packet, for every associated-data and message length including zero; if any bit or any length of them was altered in transit it returns failure and the plaintext buffer holds only zeroes. Sealed packets equal the published AEGIS-128, and the outcome never depends on packets handled before, in whatever order, with whatever result.",
 ["inputs","histories","fault_sequences","configurations"],
 "all lengths of associated data and message, all alterations in transit, all orders of seal and open calls on one context, all build variants",
 "Four fixed vectors with valid tags are tested; altered packets, short messages, failure followed by success, and release of unverified plaintext are not.",
 AEGIS,[("tag recomputed over the decrypted text and compared","aegis_decrypt_packet"),("plaintext purged on mismatch","always_memset")],
 [("s0..s4","AEGIS state, rebuilt for every packet","aegis_128.h")],["return value","plaintext buffer","tag"])
p("C06","Callers with their own contexts never disturb each other",
 "Any number of threads may call the toolbox at the same time, each on its own contexts and buffers, in any mix of algorithms and under any interleaving of the instructions of their calls: every call returns what it returns when run alone.",
 ["schedules","programs","histories"],
 "all interleavings of calls of two or more callers over all algorithms, at basic-block granularity",
 "Every test program is single-threaded; hidden shared state would be invisible to it.",
 CFB+CTR+STREAM+SERP+CHACHA+AEGIS+HMAC+SHA+MD5+DES+JL+LHE,[("all mutable state lives in caller-supplied contexts or on the stack; tables are constant","all components")],(),["outputs and contexts of each caller versus its solo run"])
p("C07","A checkpointed context resumes exactly where it was taken",
 "A context is plain data: a byte copy of it taken between two calls, restored at any later time, at any address and in place of any other state (for example after a crash in the middle of a later call), continues to produce exactly the outputs the original would have produced. Checkpoints and the original do not affect each other.",
 ["crash_points","histories","programs"],
 "all points between calls at which a copy is taken, all crash points inside later calls, all continuations",
 "No test copies a context; a pointer into the context, a hidden static or a cached value outside it would pass them all.",
 CFB+CTR+STREAM+SERP+CHACHA+AEGIS+HMAC+MD5+DES+LHE,[("context structures without pointers","*_state structures in the headers")],(),["outputs after restore versus uninterrupted run"])
p("C08","Running out of memory never corrupts a result",
 "If an allocation of the toolbox fails during any call of its symmetric ciphers, authentication and hash components, the call does not complete with a wrong ciphertext, plaintext or tag, does not accept a forged packet, does not write outside its buffers and does not lose the memory it had already obtained; failing by the C++ exception that reports it is acceptable. After re-initialising the context, the same operation succeeds and gives the right result once memory is available.",
 ["fault_sequences","programs","histories"],
 "all allocation failure points in all calls of all sequences",
 "Allocation never fails in the tests.",
 CHACHA+AEGIS+HMAC+STREAM[2:]+SERP,[("operator new throws before any result is produced","hmac_tag_generation, chacha_process_packet, aegis_process_ad, serpent.cpp")],(),["outcome of the call, buffers, live allocations"])
p("C09","No packet, however malformed, crashes, hangs or oversteps its buffers",
 "Whatever bytes and lengths a packet has - empty, one byte, odd-sized, truncated, extended, random or several megabytes long - processing it, on a thread with the usual stack of 8 MB, terminates within work proportional to its size, reads and writes only the buffers and context it was given up to the given sizes, and leaves its inputs (message, key, IV, associated data) unmodified. A wrong tag on a rejected packet may be wiped.",
 ["inputs","histories","fault_sequences"],
 "all packet lengths and contents, all buffer alignments and placements, all prior states of the context",
 "The tests pass a handful of friendly sizes with generous stack buffers around them; overruns go unnoticed there.",
 CFB+CTR+STREAM+SERP+CHACHA+AEGIS+HMAC+SHA+MD5+DES,[("loops bounded by the given size; padding sized from it","process_packet functions, pad_message, sha256_process_message")],(),["guard pages and canaries around every buffer, input copies, basic-block counts"])
p("C10","An MD5 digest does not depend on how the message arrived",
 "The digest of a message is the RFC 1321 MD5 of its bytes however they were cut into updates, including empty and unaligned ones, with any other digest computations interleaved, from a reused context and from a context restored from a copy.",
 ["inputs","histories","schedules"],
 "all messages and all ways to split them into updates; all interleavings with other digests",
 "The tests hash one message in one call.",
 MD5,[("buffered remainder and bit count","MD5Update"),("padding","MD5Final")],[("count, buffer","bits so far and the partial block","md5.h")],["digest"])
p("C11","SHA-256 sealed records expose every torn, lost or corrupt write",
 "In a journal whose records are sealed with their SHA-256 digest, recovery after any crash or disk fault accepts every record that was written intact and rejects every record that is torn, stale, misplaced, shortened, extended or has flipped bits, for records of every length. The digest is the FIPS 180-2 SHA-256 of exactly the bytes given, so another implementation can verify the journal, and does not depend on what was hashed or left in memory before.",
 ["inputs","histories","crash_points","fault_sequences"],
 "all record lengths and contents, all crash points and disk faults, all earlier hash calls",
 "One vector is tested; padding has a different path for each length modulo 64 and stale memory is never poisoned.",
 SHA+HMAC[1:],[("padding to whole blocks and big-endian length","pad_message"),("block function","sha256_process_message")],(),["digest, accept/reject of recovery"])
p("C12","Joye-Libert aggregates decrypt to the sum of what was aggregated",
 "Multiplying Joye-Libert ciphertexts modulo N gives a ciphertext of the sum modulo 2^k of exactly the aggregated plaintexts, in whatever order, grouping or multiplicity contributions arrived, with losses left out; a single ciphertext decrypts to its plaintext. This holds for every message width k (multiple of 32), key and plaintext value, boundary values and wrap-around included, and also when decryption or encryption was interrupted and retried.",
 ["inputs","histories","fault_sequences"],
 "all keys, widths, plaintexts, multisets and arrival orders of contributions",
 "One key, two small plaintexts and one addition are tested.",
 JL,[("bit-by-bit decryption with the precomputed inverse of y","joye_libert_decrypt"),("y^m x^(2^k) mod N","joye_libert_encrypt"),("prime and non-residue search","joye_libert_keygen")],(),["decrypted aggregate"])
p("C13","Labeled HE programs decrypt to the plain arithmetic of their inputs",
 "Any program built from the evaluation operations (addition, subtraction and multiplication by constants on labeled ciphertexts and on products, products of two and of three labeled ciphertexts, sums and differences of products) decrypts, with the program evaluated on the labels' masks where the scheme asks for it, to the same program over the plaintexts modulo 2^k. It does so for all inputs and all orders in which clients' ciphertexts arrive, also if operations are retried, use an operand twice, or (addition, subtraction and multiplication by constants) overwrite an operand. The same holds of the multi-user variant, where moreover the master key opens a client's public key to that client's secret modulo 2^k, and no two clients get the same secret.",
 ["inputs","programs","histories"],
 "all programs, plaintexts, labels, widths and keys; all arrival orders and retries",
 "One program on three small constants with small results is tested: nothing wraps modulo 2^k, no intermediate difference is negative, no wide message is used.",
 LHE+JL,[("offline and online decryption","he_decrypt"),("homomorphic evaluation","he_eval_*"),("multi-user variant: a client's secret encrypted under the master key","mu_he_keygen")],(),["decrypted result"])
p("C14","Labeled HE masks depend only on key, position and label",
 "The mask a labeled encryption uses is a function of the shared generator's key, IV and position and of the label alone: two parties, or one party before and after restoring a checkpoint, derive identical masks for the same label sequence whatever their memory, stack or heap held before and whatever messages they encrypt. Every encryption advances the shared generator by the same amount, so parties stay in step, and the ciphertext's masked part plus the mask is the message modulo 2^k.",
 ["histories","crash_points","inputs"],
 "all label sequences, widths, memory residues, checkpoints and restarts",
 "The test decrypts with the mask returned by the same call, so a mask that depends on stack garbage still passes.",
 LHE+["StreamCiphers/HC-128/hc128.cpp"],[("label encrypted with the shared HC-128 context into a buffer of the message width","he_encrypt")],(),["mask returned, masked part of the ciphertext"])
p("C15","Repeated and failing calls do not consume memory",
 "However many packets are processed, valid or rejected, and however many keys are loaded or ciphertexts evaluated, the memory the toolbox holds after a call returns does not grow from one call to the next.",
 ["histories","fault_sequences"],
 "all sequences of calls with all outcomes",
 "The test programs exit after a few calls and nothing measures what they hold.",
 AEGIS+HMAC[:1]+CHACHA+STREAM[2:]+SERP+JL+LHE,[("temporary buffers released on every path","callers of new, mpz_init")],(),["live allocations after each call"])
p("C16","Encryption randomness comes from the caller's generator, fresh every time",
 "Joye-Libert and labeled encryptions draw fresh randomness from the generator the caller passes, and from nothing else: no two encryptions on a running generator share their randomness, even of equal plaintexts or after interrupted calls, and equal generator states reproduce equal ciphertexts (and equal client keys of the multi-user scheme). Two key generations yield unrelated keys.",
 ["histories","inputs","fault_sequences"],
 "all sequences of encryptions, generator seeds and interruptions",
 "The tests encrypt each message once and never compare two ciphertexts.",
 JL+LHE,[("x drawn uniformly from Z_N","joye_libert_encrypt"),("primes drawn at random","joye_libert_keygen")],(),["ciphertexts, generator state"])
p("C17","Portable, x86 and ARM nodes of one fleet understand each other",
 "Nodes built from the portable, x86-intrinsic and ARM-intrinsic sources of AES-CFB, AES-CTR and AEGIS produce byte-identical packets from the same inputs and state and can replace one another as sender or receiver at any packet of a session, for all sizes and under all channel faults.",
 ["configurations","inputs","histories","fault_sequences"],
 "all pairs of builds, sessions, sizes and moments of migration",
 "Each build is only tested against itself or one whole-block vector.",
 CFB+CTR+AEGIS,[("three implementations of the same rounds","round/final_round in the headers, intrinsics under x86_INTRINSICS and ARM_INTRINSICS")],(),["packets on the wire"])
p("C18","DES links decrypt every block on its own and never repeat keystream",
 "In ECB mode every 8-byte block that arrives intact decrypts to what was sent with the decryption schedule of the same key, whatever happened to other blocks or packets and however the message was batched. The transform is DES on the link's pairs of host-order 32-bit words, and in CTR mode the successive blocks of a message use different counter values, so no keystream block repeats in it and the peer recovers it with the same nonce.",
 ["inputs","histories","fault_sequences"],
 "all keys, nonces, messages of whole blocks, batchings and channel faults",
 "The DES programs only print ciphertexts that nothing checks.",
 DES,[("16 rounds with the reversed schedule for decryption","des_ecb_block, des_key_schedule_decrypt"),("counter increment","des_process_packet_ctr")],[("rk","round keys","des.h")],["recovered blocks, keystream"])
p("C19","Library calls are silent",
 "No call of a shipped (non-debug) build writes to standard output, standard error or any file, for valid, malformed and rejected inputs alike, so that plaintext, masks and keys never leave through a side channel of text.",
 ["histories","inputs","fault_sequences"],
 "all calls with all outcomes",
 "The tests look for expected lines among whatever is printed.",
 CFB+CTR+STREAM+SERP+CHACHA+AEGIS+HMAC+SHA+MD5+DES+JL+LHE,[("prints only under DEBUG","all components")],(),["bytes written to file descriptors during calls"])
p("C20","Hex text carries bytes exactly and confines damage",
 "A line of hex text written by the encoder is exactly two upper-case digits per byte and a terminating NUL, and decodes to exactly the bytes encoded, as a whole or in pieces cut between bytes, for every length the interface can express. On a faulty text channel, damaged characters change only the byte they belong to and a line cut short gives the bytes before the cut, whatever calls were abandoned or restarted before and whatever memory held.",
 ["inputs","histories","fault_sequences"],"all lines, cuts, channel faults and abandoned calls","A few strings are encoded and decoded by test programs, whole and undamaged.",["Encoders/Hex/encoder.cpp"],[("two digits per byte","hex_encode"),("two characters at a time","hex_decode")],(),["encoded text","decoded bytes"])
p("C21","A clock tells a forger nothing about a tag",
 "Rejecting a packet whose tag is wrong in a single byte takes exactly as many steps (of executed code, as the simulated clock counts them) whichever byte that is, for HMAC-SHA-256 tags of every length and for AEGIS in every build, whatever was verified before; a forger with a perfect clock cannot find a tag byte by byte.",
 ["inputs","histories"],"all packets, tags and positions of the wrong byte, and all histories","Tests do not measure time, and reject at most one tag.",HMAC[:1]+AEGIS,[("all bytes are compared","hmac_tag_validation"),("all words are compared","aegis_decrypt_packet")],[("aegis_state","re-initialised for each packet","aegis_decrypt_packet")],["return values","steps taken by rejecting calls"])
p("C22","Authenticated nodes release only what was sent, and recover from every crash",
 "A node that composes the toolbox as its authenticated encryption example does - each packet is encrypted with AES-CFB, or with HC-128, Rabbit, Sosemanuk, ChaCha or AES-CTR keyed with the IV in the packet, then tagged with HMAC-SHA-256 over all of it; or sealed with AEGIS - releases the plaintext of exactly the packets that arrive as they were sent under the current keys. What is released equals what was sent (for AES-CFB, while the link is in step: from 16 bytes after the last packet that was lost, repeated or reordered), rejected packets leave the link as it was, traffic in one direction or algorithm never disturbs another in the same process, and a node that crashes at any point carries on, from its keys or from any checkpoint of its contexts. Once faults stop, every packet is released.",
 ["histories","schedules","crash_points","fault_sequences","configurations"],
 "all traffic in both directions, suites, builds, channel faults, crash points and checkpoints",
 "The example and the tests send one packet from one fresh context to another over a perfect channel.",
 CFB+CTR+STREAM+CHACHA+AEGIS+HMAC,[("encrypt then tag, check then decrypt","hmac_tag_generation, hmac_tag_validation with the process_packet functions"),("contexts are plain data","the *_state structures")],[("*_state","contexts of both directions of a node","all components")],["released plaintexts, packets on the wire"])
p("C23","Without the key, ciphertexts tell nothing and tags cannot be forged",
 "An attacker who sees any number of packets, and may have packets of his choice processed, learns nothing about other plaintexts and forges no packet with more than negligible probability in any feasible time.",
 ["histories","programs"],"all efficient attackers","Tests run no attacker.",HMAC[:1]+CFB[:1]+AEGIS[:1],[("the published algorithms","all ciphers and HMAC-SHA-256")],(),["packets"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
