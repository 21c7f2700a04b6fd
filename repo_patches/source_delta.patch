From 49aa61e31c2f2349f0956bd78fcbcb90ca4fb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:33 +0000
Subject: [PATCH 01/28] fix: AEGIS messages shorter than 15 bytes no longer
 wrap the block bound

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..af95fc6 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..646b6c0 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..fc0cce7 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From f562be068d821cc6e2569cd2480ca8bba39a2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:33 +0000
Subject: [PATCH 02/28] fix: SHA-256 reserves a second padding block when size
 % 64 == 63

---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..a900cd3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( (size)%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From 92f4db8e55f641a76196d7e34dd178e2609e9dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:33 +0000
Subject: [PATCH 03/28] fix: HMAC validation rejects an empty message instead
 of comparing with stale stack bytes

---
 Authentication/HMAC-SHA-256/hmac.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..c09d9d0 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -86,6 +86,10 @@ void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_
 
 int hmac_tag_validation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
+	// No tag is generated for an empty message, so there is
+	// nothing a received tag could be compared with.
+	if ( dataLength < 1 ) return 0;
+
 	// Generate a tag from the received message
 	uint8_t newTag[tagLength];
 	hmac_tag_generation(cs, newTag, message, dataLength, tagLength);
-- 
2.43.0


From b6832684aa3455b0bba5925d8955e82f7b48ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 04/28] fix: Rabbit counter carries when a counter sum is
 exactly 2^32

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..512fc2c 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -61,7 +61,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From c38081148053a10049fc190479df864192941ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 05/28] fix: Rabbit IV setup restores the master state's carry
 bit

---
 StreamCiphers/Rabbit/rabbit.cpp | 4 ++++
 StreamCiphers/Rabbit/rabbit.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..c7148db 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_carry = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -115,6 +116,9 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
 
+	// The carry bit is a part of the master state
+	cs->carry = cs->MASTER_carry;
+
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
 	cs->C[0] = cs->MASTER_C[0] ^ iv_u32[0];
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 512fc2c..e08a5c9 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -35,6 +35,7 @@ struct rabbit_state{
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
+	uint8_t MASTER_carry;
 };
 
 inline uint32_t g(uint32_t u, uint32_t v)
-- 
2.43.0


From 5664889c38e81b2fbbfbdb100388a106b2db5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 06/28] fix: Sosemanuk FSM selects s[t+1] ^ s[t+8], as
 specified

---
 StreamCiphers/Sosemanuk/sosemanuk.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..5cd83be 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,7 +51,7 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
+	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
 	cs->R2 = Trans(cs->R1);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
-- 
2.43.0


From 16e92ac22a0ffd2bc52c656ead4e39684e7d3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 07/28] fix: Serpent pads a short key with 0x01, the 1-bit of
 its little-endian byte order

---
 BlockCiphers/Serpent/serpent.cpp    | 7 +++----
 StreamCiphers/Sosemanuk/serpent.cpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..5373725 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -129,10 +129,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 
 	if ( size < 32 )
 	{
-				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// Serpent is little-endian: the 1-bit that follows
+		// the key is the least significant bit of the next byte.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..5373725 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -129,10 +129,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 
 	if ( size < 32 )
 	{
-				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// Serpent is little-endian: the 1-bit that follows
+		// the key is the least significant bit of the next byte.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From c3d45213d7212372f70620b5a201ae8a84cab49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:59 +0000
Subject: [PATCH 08/28] fix: AES-CTR takes the keystream of a partial word in
 order, without oversized shifts

---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 874d14b0f49d02cdac6491a8a4c26f3008a4a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:58 +0000
Subject: [PATCH 09/28] fix: labeled HE masks no longer depend on uninitialised
 stack bytes

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..db43885 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -2,6 +2,7 @@
 #include "../../Joye_libert/joye_libert.h"
 
 #include <iostream>
+#include <cstring>
 
 he_ct::he_ct(void)
 {
@@ -54,6 +55,7 @@ void he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 	
 	// Load label into the array
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-- 
2.43.0


From 9941df6ac7b5bc5ad8c2f290e30ff77c32dc528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:58 +0000
Subject: [PATCH 10/28] fix: labeled HE prints its secret mask and progress
 only in DEBUG builds

---
 .../LabeledHE/labeled_he.cpp                             | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index db43885..6ed22a0 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -67,7 +67,9 @@ void he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -234,7 +236,6 @@ void he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
-	std::cout << "Inside sub\n";
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -243,19 +244,17 @@ void he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
-	std::cout << "Computing inverse a\n";
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
-	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
-	std::cout << "Adding a\n";
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
-	std::cout << "Multiplying beta\n";
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 }
-- 
2.43.0


From c7d509702c648dcc9ac582e0a18e2c5f2bd66179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:58 +0000
Subject: [PATCH 11/28] fix: Joye-Libert and labeled HE release their
 temporaries

---
 .../Joye_libert/joye_libert.cpp               |  5 +++++
 .../LabeledHE/labeled_he.cpp                  | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 7f082c1..ec13e71 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -157,6 +157,9 @@ void joye_libert_keygen(
 	std::cout << "Legendre y/p final: " << legendre_p << std::endl;
 	std::cout << "Legendre y/q final: " << legendre_q << std::endl;
 #endif
+	mpz_clears(q, p_test, q_test, pseudo_safeness_divisor, pseudo_test_p,
+			pseudo_test_q, mod, one, t, tmp, NULL);
+	gmp_randclear(state);
 }
 
 void joye_libert_encrypt(
@@ -196,6 +199,7 @@ void joye_libert_encrypt(
 #ifdef DEBUG
 	gmp_printf("c: %Zd\n", c);
 #endif
+	mpz_clears(x, k_exp, tmp1, tmp2, NULL);
 }
 
 void joye_libert_decrypt(
@@ -255,4 +259,5 @@ void joye_libert_decrypt(
 	{
 		mpz_add(m, m, B);
 	}
+	mpz_clears(B, D, C, exp_msgsize, exp_y, neg_exp_y, p_1, z, exp_c, NULL);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 6ed22a0..ad856b0 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -83,6 +83,8 @@ void he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	mpz_clears(beta, a, ptspace, NULL);
 }
 
 void he_eval_mult(
@@ -127,6 +129,8 @@ void he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2, a1beta2, a2beta1, ptspace, NULL);
 }
 
 void he_eval_mult_3(
@@ -190,6 +194,9 @@ void he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2a3, a1beta23, a2beta13, a3beta12, a12beta3, a13beta2,
+			a23beta1, ptspace, NULL);
 }
 
 void he_eval_add(
@@ -212,6 +219,8 @@ void he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
 }
 
 void he_eval_add(
@@ -257,6 +266,8 @@ void he_eval_sub(
 
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clears(ptspace, a_inv, beta_inv, NULL);
 }
 
 void he_eval_sub(
@@ -272,6 +283,8 @@ void he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	mpz_clear(c2_inv);
 }
 
 void he_eval_cmult(
@@ -293,6 +306,8 @@ void he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	mpz_clear(ptspace);
 }
 
 void he_eval_cmult(
@@ -335,6 +350,8 @@ void he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	mpz_clears(b, ptspace, NULL);
 }
 
 void he_decrypt(
@@ -355,4 +372,6 @@ void he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	mpz_clear(ptspace);
 }
-- 
2.43.0


From 335012794b3a01fa2cb2d298885bf34ec854e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:58 +0000
Subject: [PATCH 12/28] fix: DES uses each round's own subkey, so the
 decryption schedule inverts encryption

---
 Legacy/DES/des.cpp | 4 ++--
 Legacy/DES/des.h   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..4a70b80 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -94,8 +94,8 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(cs, &Y, &X, &T, 2*i);
+		DES_ROUND(cs, &X, &Y, &T, 2*i+1);
 	}
 
 	DES_FP(&Y, &X, &T);
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..ccb9199 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -246,9 +246,10 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+// n is the number of the round, 0 to 15. Each uses two words of rk.
+inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T, int n)
 {
-	u32 *rk_ptr = cs->rk;
+	u32 *rk_ptr = cs->rk + 2*n;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From c6dedc696f23da3bd4fe0263967a39ed0e7c29a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:58 +0000
Subject: [PATCH 13/28] fix: DES-CTR advances the counter inside the block it
 encrypts

---
 Legacy/DES/des.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 4a70b80..cf73472 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -116,10 +116,10 @@ void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
 void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce, u64 size)
 {
 	// We always assume that the size divides the block size.
-	// Furthermore, we use a 96 bit nonce and a 32 bit counter.
-	u32 iv[4];
-	std::memcpy(iv, nonce, 12);
-	iv[3] = 0;
+	// Furthermore, the counter block is the first 64 bits of the nonce,
+	// and its last 32 bits are the counter.
+	u32 iv[2];
+	std::memcpy(iv, nonce, 8);
 	while (size > 0)
 	{
 		u32 keystream[2] = {0};
@@ -131,6 +131,6 @@ void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce,
 		*output = *input ^ keystream[1];
 		output++; input++;
 
-		iv[3] += 1; size -= 8;
+		iv[1] += 1; size -= 8;
 	}
 }
-- 
2.43.0


From aca974d3cc0b4b4eaf6b27776eeb6c4a2f807c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:38 +0000
Subject: [PATCH 14/28] fix: Sosemanuk FSM updates R2 from the previous R1, as
 specified

---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 5cd83be..b0432f8 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t old_R1 = cs->R1;
+	cs->R1 = cs->R2 + mux(old_R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(old_R1);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From 61887ff443375b81ffd10a8c75948ee212de9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:24 +0000
Subject: [PATCH 15/28] fix: keep the AES-CFB feedback register across the
 block encryption

---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp                | 4 ++++
 BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp | 5 ++++-
 BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp | 4 ++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..45ff89a 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -65,6 +65,8 @@ void aes_cfb_initialize(aes_state *cs, uint8_t key[16], uint8_t iv[16])
 
 void aes_encrypt(aes_state *cs, uint32_t keystream[])
 {
+	// The feedback register must survive, a partial block shifts it
+	uint32_t state[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -80,6 +82,8 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	cs->reg1 = state[0]; cs->reg2 = state[1];
+	cs->reg3 = state[2]; cs->reg4 = state[3];
 }
 
 void full_state_update(aes_state *cs, uint32_t *ctxt)
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..b8f1379 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -98,8 +98,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	B_S = veorq_u8(B_S, B_K10);
 
 	vst1q_u8((uint8_t*)keystream, B_S);
-	vst1q_u8((uint8_t*)&cs->reg1, B_S);
 #else
+	// The feedback register must survive, a partial block shifts it
+	uint32_t state[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -115,6 +116,8 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	cs->reg1 = state[0]; cs->reg2 = state[1];
+	cs->reg3 = state[2]; cs->reg4 = state[3];
 #endif
 }
 
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..74d46b7 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -99,6 +99,8 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	_mm_storeu_si128 ((__m128i*)keystream, B_S);
 
 #else
+	// The feedback register must survive, a partial block shifts it
+	uint32_t state[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -114,6 +116,8 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	cs->reg1 = state[0]; cs->reg2 = state[1];
+	cs->reg3 = state[2]; cs->reg4 = state[3];
 #endif
 }
 
-- 
2.43.0


From 75a6df6541d370e73da1e749d60e9e872be7864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:26 +0000
Subject: [PATCH 16/28] fix: AES-CFB shifts the right register after a 7-byte
 segment

---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp                | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 45ff89a..2a30e69 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -212,7 +212,7 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
 			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
+			cs->reg3 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
 			cs->reg4 = (*((uint32_t*)ctxt));
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index b8f1379..e6450d0 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -247,7 +247,7 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
 			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
+			cs->reg3 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
 			cs->reg4 = (*((uint32_t*)ctxt));
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index 74d46b7..3306a6c 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -247,7 +247,7 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
 			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
+			cs->reg3 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
 			cs->reg4 = (*((uint32_t*)ctxt));
-- 
2.43.0


From c741347a50ab94113b59ae75a4699fd9d22a83a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:00 +0000
Subject: [PATCH 17/28] fix: ChaCha packets of 2 GB and more were not encrypted
 (sizes kept in int)

---
 StreamCiphers/ChaCha/chacha.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index 2198104..73c8c2d 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -77,24 +77,24 @@ void chacha_block(chacha_state *cs, uint32_t counter, uint32_t *keystream)
 void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
 {
 	// Generate sufficient keystream;
-	int n_words = std::ceil(double(size)/4);
+	uint64_t n_words = std::ceil(double(size)/4);
 
-	int n_iterations = std::ceil(double(n_words)/16);
+	uint64_t n_iterations = std::ceil(double(n_words)/16);
 
 	uint32_t *keystream = new uint32_t[n_iterations*16];
 
 	uint32_t counter = 1;
 
-	for (int i = 0; i < n_iterations; i++)
+	for (uint64_t i = 0; i < n_iterations; i++)
 	{
 		chacha_block(cs, counter, &(keystream[16*i]));
 		counter++;
 	}
 
-	int n_bytes = size;
+	uint64_t n_bytes = size;
 	uint32_t *w_ptr_in = (uint32_t*) input;
 	uint32_t *w_ptr_out = (uint32_t*) output;
-	int ks_index = 0;
+	uint64_t ks_index = 0;
 	while (n_bytes > 3)
 	{
 		*w_ptr_out = *w_ptr_in ^ keystream[ks_index];
-- 
2.43.0


From f9ddf742ccce1bfdfb42ad5d54dcac874c97904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:00 +0000
Subject: [PATCH 18/28] fix: SHA-256 of large messages overflowed the stack
 and, from 2 GB, its counters

---
 Authentication/HMAC-SHA-256/sha-256.cpp | 32 +++++++++++++++----------
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp      | 32 +++++++++++++++----------
 2 files changed, 38 insertions(+), 26 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/sha-256.cpp b/Authentication/HMAC-SHA-256/sha-256.cpp
index a900cd3..1a205de 100644
--- a/Authentication/HMAC-SHA-256/sha-256.cpp
+++ b/Authentication/HMAC-SHA-256/sha-256.cpp
@@ -11,10 +11,11 @@
 #include <cstring>
 #include <iostream>
 
-// Each message must be padded to be a multiple of 512 bits
+// Each message must be padded to be a multiple of 512 bits.
+// The padding is appended to the final, partial block.
 void pad_message(uint8_t *message, uint64_t size)
 {
-	message += size;
+	message += size % 64;
 
 	uint8_t one = 1;
 
@@ -47,19 +48,21 @@ void pad_message(uint8_t *message, uint64_t size)
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
-	// Declare message to hold padded text
+	// Declare message to hold the final, partial block with its
+	// padding. The full blocks are processed where they are, so
+	// that the stack needed does not depend on the message size.
 	if ( (size)%64 >= 56 )
 	{
-		n = (size/64)*64 + 128;
+		n = 128;
 	} else {
-		n = (size/64)*64 + 64;
+		n = 64;
 	}
 	uint32_t msg[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = size / 64 + n / 64;
 
-	std::memcpy(msg, message, size);
+	std::memcpy(msg, message + (size - size%64), size%64);
 	// Pad message to full 512 bit blocks
 	
 	pad_message( (uint8_t*)msg, size );
@@ -77,19 +80,22 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	// Temporary variables T1, T2
 	uint32_t T1, T2;
 
-	uint8_t* byte_ptr = (uint8_t*)msg;
+	uint8_t* byte_ptr = message;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++, byte_ptr += 64 )
 	{
+		// The full blocks are followed by the padded ones
+		if ( i == size / 64 + 1 ) byte_ptr = (uint8_t*)msg;
+
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
 		{
 			if (t < 16) {
 				// SHA-256 specification is big-endian.
-				ss.W[t] = (byte_ptr[64*(i-1) + 4*t] << 24) |
-					(byte_ptr[64*(i-1) + 4*t+1] << 16) |
-					(byte_ptr[64*(i-1) + 4*t+2] << 8) |
-					(byte_ptr[64*(i-1) + 4*t+3]);
+				ss.W[t] = (byte_ptr[4*t] << 24) |
+					(byte_ptr[4*t+1] << 16) |
+					(byte_ptr[4*t+2] << 8) |
+					(byte_ptr[4*t+3]);
 			} else {
 				ss.W[t] = sigma_1(ss.W[t-2]) +
 							ss.W[t-7] +
diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index a900cd3..1a205de 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -11,10 +11,11 @@
 #include <cstring>
 #include <iostream>
 
-// Each message must be padded to be a multiple of 512 bits
+// Each message must be padded to be a multiple of 512 bits.
+// The padding is appended to the final, partial block.
 void pad_message(uint8_t *message, uint64_t size)
 {
-	message += size;
+	message += size % 64;
 
 	uint8_t one = 1;
 
@@ -47,19 +48,21 @@ void pad_message(uint8_t *message, uint64_t size)
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
-	// Declare message to hold padded text
+	// Declare message to hold the final, partial block with its
+	// padding. The full blocks are processed where they are, so
+	// that the stack needed does not depend on the message size.
 	if ( (size)%64 >= 56 )
 	{
-		n = (size/64)*64 + 128;
+		n = 128;
 	} else {
-		n = (size/64)*64 + 64;
+		n = 64;
 	}
 	uint32_t msg[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = size / 64 + n / 64;
 
-	std::memcpy(msg, message, size);
+	std::memcpy(msg, message + (size - size%64), size%64);
 	// Pad message to full 512 bit blocks
 	
 	pad_message( (uint8_t*)msg, size );
@@ -77,19 +80,22 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	// Temporary variables T1, T2
 	uint32_t T1, T2;
 
-	uint8_t* byte_ptr = (uint8_t*)msg;
+	uint8_t* byte_ptr = message;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++, byte_ptr += 64 )
 	{
+		// The full blocks are followed by the padded ones
+		if ( i == size / 64 + 1 ) byte_ptr = (uint8_t*)msg;
+
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
 		{
 			if (t < 16) {
 				// SHA-256 specification is big-endian.
-				ss.W[t] = (byte_ptr[64*(i-1) + 4*t] << 24) |
-					(byte_ptr[64*(i-1) + 4*t+1] << 16) |
-					(byte_ptr[64*(i-1) + 4*t+2] << 8) |
-					(byte_ptr[64*(i-1) + 4*t+3]);
+				ss.W[t] = (byte_ptr[4*t] << 24) |
+					(byte_ptr[4*t+1] << 16) |
+					(byte_ptr[4*t+2] << 8) |
+					(byte_ptr[4*t+3]);
 			} else {
 				ss.W[t] = sigma_1(ss.W[t-2]) +
 							ss.W[t-7] +
-- 
2.43.0


From 7b4f3053ebd977fe8c5710e36b8f88ae843039b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:00 +0000
Subject: [PATCH 19/28] fix: HC-128 packets of several MB overflowed the stack

---
 StreamCiphers/HC-128/hc128.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 53076ce..944e8ed 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -90,7 +90,15 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 {
 	// Assert that message size is strictly greater than zero
 	if ( size < 1 ) return;
-		
+
+	// The step counter has a period of 1024 words. Large packets are
+	// processed 4096 bytes at a time, so that the keystream buffer on
+	// the stack does not grow with the packet.
+	while ( size > 4096 )
+	{
+		hc128_process_packet(cs, output, input, 4096);
+		size -= 4096; output += 4096; input += 4096;
+	}
 
 	uint32_t keystream[(size-1)/4 +1];
 
-- 
2.43.0


From e29dbc2d1a154058f1f6370e6db7b98552c6a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:42 +0000
Subject: [PATCH 20/28] fix: Serpent packets other than one block overflowed or
 read beyond the block buffer

---
 BlockCiphers/Serpent/serpent.cpp    | 13 ++++++++-----
 StreamCiphers/Sosemanuk/serpent.cpp | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 5373725..0e3f936 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -99,18 +99,21 @@ void rounds(serpent_state *ctx, uint32_t *r0, uint32_t *r1, uint32_t *r2, uint32
 }
 void serpent_process_packet(serpent_state *ctx, uint32_t *out, uint32_t *in, uint64_t size)
 {
-	uint64_t org_size = size;
 	uint32_t tmp[4];
-	std::memcpy(tmp, in, size);
-	for ( int i = 0; i < size; i += 16 )
+	for ( uint64_t i = 0; i < size; i += 16 )
 	{
-		// Process full block
+		// Process full block, the last one padded with zeros
+		std::memset(tmp, 0, sizeof(tmp));
+		std::memcpy(tmp, in, (size - i < 16) ? size - i : 16);
+		in += 4;
 #ifdef SOSEMANUK_H
 		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3, out);
+		out += 12;
 
 #else
 		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3);
-		std::memcpy(out, tmp, org_size+16*i);
+		std::memcpy(out, tmp, 16);
+		out += 4;
 #endif
 	}
 }
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 5373725..0e3f936 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -99,18 +99,21 @@ void rounds(serpent_state *ctx, uint32_t *r0, uint32_t *r1, uint32_t *r2, uint32
 }
 void serpent_process_packet(serpent_state *ctx, uint32_t *out, uint32_t *in, uint64_t size)
 {
-	uint64_t org_size = size;
 	uint32_t tmp[4];
-	std::memcpy(tmp, in, size);
-	for ( int i = 0; i < size; i += 16 )
+	for ( uint64_t i = 0; i < size; i += 16 )
 	{
-		// Process full block
+		// Process full block, the last one padded with zeros
+		std::memset(tmp, 0, sizeof(tmp));
+		std::memcpy(tmp, in, (size - i < 16) ? size - i : 16);
+		in += 4;
 #ifdef SOSEMANUK_H
 		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3, out);
+		out += 12;
 
 #else
 		rounds(ctx, tmp, tmp+1, tmp+2, tmp+3);
-		std::memcpy(out, tmp, org_size+16*i);
+		std::memcpy(out, tmp, 16);
+		out += 4;
 #endif
 	}
 }
-- 
2.43.0


From 92e3ea10172132829aa199fb86edffb046ab4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:42 +0000
Subject: [PATCH 21/28] fix: MD5 updates of almost 4 GB ran past the input (the
 block index overflowed)

---
 Legacy/MD5/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Legacy/MD5/md5.cpp b/Legacy/MD5/md5.cpp
index acf7093..c9df553 100644
--- a/Legacy/MD5/md5.cpp
+++ b/Legacy/MD5/md5.cpp
@@ -131,7 +131,7 @@ void MD5Update(MD5_CTX *context, u8 *input, u32 inputLen)
   if (inputLen >= partLen) {
 	MD5_memcpy((u8*)&context->buffer[index], (u8*)input, partLen);
  	MD5Transform (context->state, context->buffer);
-	for (i = partLen; i + 63 < inputLen; i += 64)
+	for (i = partLen; inputLen - i > 63; i += 64)
    		MD5Transform (context->state, &input[i]);
  	index = 0;
   }
-- 
2.43.0


From f879727c642d537be10dcf3b128ec01314b9481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:04:53 +0000
Subject: [PATCH 22/28] fix: AEGIS ran outside associated data of 8 GB and more
 (the block index overflowed)

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 4 ++--
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 4 ++--
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index af95fc6..459afa7 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 646b6c0..6a57485 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index fc0cce7..40b0dc6 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
-- 
2.43.0


From b6b5490575e9afe9c94ccb976ae0e1e860492dac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 13:52:41 +0000
Subject: [PATCH 23/28] fix: hex_encode ran outside its buffers from 1 GB of
 input (the text index overflowed)

---
 Encoders/Hex/encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Encoders/Hex/encoder.cpp b/Encoders/Hex/encoder.cpp
index 8d1c597..015351a 100644
--- a/Encoders/Hex/encoder.cpp
+++ b/Encoders/Hex/encoder.cpp
@@ -14,7 +14,7 @@
 void hex_encode(char* output, const uint8_t* input, int size)
 {
 	int loop;
-	int i;
+	uint64_t i;
 
 	i = 0;
 	loop = 0;
-- 
2.43.0


From 9a4bcfc1c8c69593ec17f3c113ca5ffc4d21eb60 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 13:52:41 +0000
Subject: [PATCH 24/28] fix: HMAC tag validation stopped at the first wrong
 byte, so its time told how many were right

---
 Authentication/HMAC-SHA-256/hmac.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index c09d9d0..eab6cf6 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -96,10 +96,13 @@ int hmac_tag_validation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t
 
 	// Compare the newly generated tag with the
 	// recevied tag.
+	// All bytes are compared, so that the time it takes
+	// does not tell how many of them were right.
+	uint8_t difference = 0;
 	for (int i = 0; i < tagLength; i++)
 	{
-		if ( tag[i] != newTag[i] ) return 0;
+		difference |= tag[i] ^ newTag[i];
 	}
 
-	return 1;
+	return difference == 0;
 }
-- 
2.43.0


From 30c5ba4466c50e22832ad16372d3e6c87fd3c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 25/28] fix: muLabeledHE includes the headers from where they
 are, so that it compiles

---
 .../muLabeledHE/mu_labeled_he.cpp                              | 3 +--
 .../Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 1919d2a..c776272 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -1,6 +1,5 @@
 #include "mu_labeled_he.h"
-#include "../joye_libert/joye_libert.h"
-#include "../HC-128/hc128.h"
+#include "../../Joye_libert/joye_libert.h"
 
 #include <iostream>
 
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h
index af82ded..1fab750 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.h
@@ -1,7 +1,7 @@
 #ifndef MU_LABELED_HE_H
 #define MU_LABELED_HE_H
 
-#include "../HC-128/hc128.h"
+#include "../../../StreamCiphers/HC-128/hc128.h"
 
 #include <gmp.h>
 
-- 
2.43.0


From 6f922659a669870c024d1a6de1782f938af223cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 26/28] fix: muLabeledHE masks no longer depend on
 uninitialised stack bytes

---
 .../muLabeledHE/mu_labeled_he.cpp                               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index c776272..da2462d 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -2,6 +2,7 @@
 #include "../../Joye_libert/joye_libert.h"
 
 #include <iostream>
+#include <cstring>
 
 he_ct::he_ct(void)
 {
@@ -61,6 +62,7 @@ void mu_he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 
 	// Load label into the array
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-- 
2.43.0


From 9814b29fb82d0ebf5a39c9fdb67917d3dcfde3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 27/28] fix: muLabeledHE prints its secret mask only in DEBUG
 builds

---
 .../muLabeledHE/mu_labeled_he.cpp                        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index da2462d..5efaebb 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -74,7 +74,9 @@ void mu_he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -241,7 +243,6 @@ void mu_he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
-	std::cout << "Inside sub\n";
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -250,19 +251,17 @@ void mu_he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
-	std::cout << "Computing inverse a\n";
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
-	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
-	std::cout << "Adding a\n";
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
-	std::cout << "Multiplying beta\n";
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 }
-- 
2.43.0


From 93e7a6af7a1869f7abe968aa0e657323019c4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 28/28] fix: muLabeledHE releases its temporaries

---
 .../muLabeledHE/mu_labeled_he.cpp             | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 5efaebb..d7033ab 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -90,6 +90,8 @@ void mu_he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	mpz_clears(beta, a, ptspace, NULL);
 }
 
 void mu_he_eval_mult(
@@ -134,6 +136,8 @@ void mu_he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2, a1beta2, a2beta1, ptspace, NULL);
 }
 
 void mu_he_eval_mult_3(
@@ -197,6 +201,9 @@ void mu_he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2a3, a1beta23, a2beta13, a3beta12, a12beta3, a13beta2,
+			a23beta1, ptspace, NULL);
 }
 
 void mu_he_eval_add(
@@ -219,6 +226,8 @@ void mu_he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_add(
@@ -264,6 +273,8 @@ void mu_he_eval_sub(
 
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clears(ptspace, a_inv, beta_inv, NULL);
 }
 
 void mu_he_eval_sub(
@@ -279,6 +290,8 @@ void mu_he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	mpz_clear(c2_inv);
 }
 
 void mu_he_eval_cmult(
@@ -300,6 +313,8 @@ void mu_he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_cmult(
@@ -342,6 +357,8 @@ void mu_he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	mpz_clears(b, ptspace, NULL);
 }
 
 void mu_he_decrypt(
@@ -362,4 +379,6 @@ void mu_he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	mpz_clear(ptspace);
 }
-- 
2.43.0

