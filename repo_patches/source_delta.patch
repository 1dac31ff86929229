From b00a886dcb812e0ad18751e1a0e149e9b2a28781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 1/7] fix: Bech32 decoder accepted mixed case when uppercase
 came first

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 7cd285a..74911ec 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -216,16 +216,18 @@ public final class Bech32 {
 		
 		{  // Normalize to lowercase, rejecting mixed case
 			boolean hasLower = false;
+			boolean hasUpper = false;
 			char[] temp = s.toCharArray();
 			for (int i = 0; i < temp.length; i++) {
 				char c = temp[i];
 				hasLower |= 'a' <= c && c <= 'z';
 				if ('A' <= c && c <= 'Z') {
-					if (hasLower)
-						throw new IllegalArgumentException("String has mixed case");
+					hasUpper = true;
 					temp[i] += 'a' - 'A';
 				}
 			}
+			if (hasLower && hasUpper)
+				throw new IllegalArgumentException("String has mixed case");
 			s = new String(temp);
 		}
 		
-- 
2.43.0


From b88383896fc4036e76649fa7133228b3f89bdd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 2/7] fix: reduce the message hash modulo the order before
 adding it when signing

---
 cpp/Ecdsa.cpp                            | 5 +++--
 java/io/nayuki/bitcoin/crypto/Ecdsa.java | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/Ecdsa.cpp b/cpp/Ecdsa.cpp
index 46f8c4a..c434319 100644
--- a/cpp/Ecdsa.cpp
+++ b/cpp/Ecdsa.cpp
@@ -48,11 +48,12 @@ bool Ecdsa::sign(const Uint256 &privateKey, const Sha256Hash &msgHash, const Uin
 	countOps(1 * curvepointCopyOps);
 	
 	Uint256 s = r;
-	const Uint256 z(msgHash.value);
+	Uint256 z(msgHash.value);
+	z.subtract(order, static_cast<uint32_t>(z >= order));
 	multiplyModOrder(s, privateKey);
 	uint32_t carry = s.add(z);
 	s.subtract(order, carry | static_cast<uint32_t>(s >= order));
-	countOps(1 * arithmeticOps);
+	countOps(2 * arithmeticOps);
 	countOps(2 * uint256CopyOps);
 	
 	Uint256 kInv = nonce;
diff --git a/java/io/nayuki/bitcoin/crypto/Ecdsa.java b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
index 692e67a..c021c94 100644
--- a/java/io/nayuki/bitcoin/crypto/Ecdsa.java
+++ b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
@@ -72,6 +72,7 @@ public final class Ecdsa {
 		Int256Math.copy(val, rOff, val, sOff);
 		Arrays.fill(val, zOff, zOff + NUM_WORDS, 0);
 		Int256Math.bytesToUint(msgHash.toBytes(), val, zOff);
+		Int256Math.uintSubtract(val, zOff, orderOff, Int256Math.lessThan(val, zOff, orderOff) ^ 1, zOff);
 		multiplyModOrder(val, sOff, privateKey, 0, tempOff);
 		int carry = Int256Math.uintAdd(val, sOff, zOff, 1, sOff);
 		Int256Math.uintSubtract(val, sOff, orderOff, carry | (Int256Math.lessThan(val, sOff, orderOff) ^ 1), sOff);
-- 
2.43.0


From 9b72dae940e4ce2c3c217ead1be539c085659780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 3/7] fix: avoid overflow of (modulus + 1) / 2 in the
 reciprocal when the modulus is 2^256 - 1

---
 cpp/Uint256.cpp                               | 2 +-
 java/io/nayuki/bitcoin/crypto/Int256Math.java | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/Uint256.cpp b/cpp/Uint256.cpp
index 224b6c2..de785ea 100644
--- a/cpp/Uint256.cpp
+++ b/cpp/Uint256.cpp
@@ -147,8 +147,8 @@ void Uint256::reciprocal(const Uint256 &modulus) {
 	Uint256 b = ONE;
 	Uint256 halfModulus = modulus;
 	countOps(5 * uint256CopyOps);
-	halfModulus.add(ONE);
 	halfModulus.shiftRight1();
+	halfModulus.add(ONE);
 	
 	// Loop invariant: x = a*this mod modulus, and y = b*this mod modulus
 	for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
diff --git a/java/io/nayuki/bitcoin/crypto/Int256Math.java b/java/io/nayuki/bitcoin/crypto/Int256Math.java
index 702dd31..6e7a2f0 100644
--- a/java/io/nayuki/bitcoin/crypto/Int256Math.java
+++ b/java/io/nayuki/bitcoin/crypto/Int256Math.java
@@ -177,8 +177,8 @@ public final class Int256Math {
 		copy(ZERO, 0,   val, cOff);
 		copy(ONE , 0,   val, dOff);
 		copy(ONE, 0, val, oneOff);
-		uintAdd(val, yOff, oneOff, 1, halfModOff);
-		uintShiftRight1(val, halfModOff, 1, halfModOff);
+		uintShiftRight1(val, yOff, 1, halfModOff);
+		uintAdd(val, halfModOff, oneOff, 1, halfModOff);
 		
 		// Loop invariant: a = c*x mod y, and b = d*x mod y
 		for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
-- 
2.43.0


From cbcef25165ba9d75c22cbe43cedb796641c39484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 4/7] fix: segwit decoder accepted a superfluous all-zero group
 of padding

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 74911ec..c591238 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -138,6 +138,8 @@ public final class Bech32 {
 		
 		// Final checks and return
 		assert outputIndex == witProg.length;
+		if (bitBufferLen >= IN_BITS)
+			throw new IllegalArgumentException("Excess padding");
 		if (bitBuffer != 0)
 			throw new IllegalArgumentException("Non-zero padding");
 		return new Object[]{decoded[0], witVer, witProg};
-- 
2.43.0


From abc9a564f2fa7018a4f64a365f453043e4d5b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 5/7] fix: Base58Check decoder threw NegativeArraySizeException
 on input shorter than the checksum

---
 java/io/nayuki/bitcoin/crypto/Base58Check.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Base58Check.java b/java/io/nayuki/bitcoin/crypto/Base58Check.java
index 6f3acc8..7ef580f 100644
--- a/java/io/nayuki/bitcoin/crypto/Base58Check.java
+++ b/java/io/nayuki/bitcoin/crypto/Base58Check.java
@@ -63,6 +63,8 @@ public final class Base58Check {
 	// The caller is responsible for handling the version byte(s).
 	public static byte[] base58ToBytes(String s) {
 		byte[] concat = base58ToRawBytes(s);
+		if (concat.length < 4)
+			throw new IllegalArgumentException("Data too short");
 		byte[] data = Arrays.copyOf(concat, concat.length - 4);
 		byte[] hash = Arrays.copyOfRange(concat, concat.length - 4, concat.length);
 		byte[] rehash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);
-- 
2.43.0


From 9ebd6802b3a6fc2bef31e3e7be830eda69ebdcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 6/7] fix: x86-64 replace and equality faulted on operands that
 are not 16-byte aligned

---
 cpp/AsmX8664.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 34a1509..432482d 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -96,8 +96,10 @@ asm_Uint256_replace:
 	pshufd    $0, %xmm0, %xmm0
 	movdqu     0(%rdi), %xmm1
 	movdqu    16(%rdi), %xmm2
-	pblendvb   0(%rsi), %xmm1
-	pblendvb  16(%rsi), %xmm2
+	movdqu     0(%rsi), %xmm3
+	movdqu    16(%rsi), %xmm4
+	pblendvb  %xmm3, %xmm1
+	pblendvb  %xmm4, %xmm2
 	movdqu    %xmm1,  0(%rdi)
 	movdqu    %xmm2, 16(%rdi)
 	retq
@@ -131,8 +133,10 @@ asm_Uint256_swap:
 asm_Uint256_equalTo:
 	movdqu     0(%rdi), %xmm0
 	movdqu    16(%rdi), %xmm1
-	pcmpeqb    0(%rsi), %xmm0
-	pcmpeqb   16(%rsi), %xmm1
+	movdqu     0(%rsi), %xmm2
+	movdqu    16(%rsi), %xmm3
+	pcmpeqb   %xmm2, %xmm0
+	pcmpeqb   %xmm3, %xmm1
 	pand      %xmm1, %xmm0
 	pmovmskb  %xmm0, %eax
 	cmpl      $0xFFFF, %eax
-- 
2.43.0


From e66ae0b4c44a11c552e1a6b0c8986f329490c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 7/7] fix: x86-64 add and subtract depended on the unspecified
 upper half of the enable register

---
 cpp/AsmX8664.s | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 432482d..68191e7 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -10,7 +10,8 @@
 /* uint32_t asm_Uint256_add(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_add
 asm_Uint256_add:
-	negq    %rdx
+	negl    %edx
+	movslq  %edx, %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
 	movq    16(%rsi), %r8
@@ -31,7 +32,8 @@ asm_Uint256_add:
 /* uint32_t asm_Uint256_subtract(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_subtract
 asm_Uint256_subtract:
-	negq    %rdx
+	negl    %edx
+	movslq  %edx, %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
 	movq    16(%rsi), %r8
-- 
2.43.0

