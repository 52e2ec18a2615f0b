From 3f0c8bda285c8bc328b0478c5823a968194fe577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 01/10] fix: SPHINCS+ crypto_sign reports a failed signature
 instead of success

---
 sphincs/sign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sphincs/sign.c b/sphincs/sign.c
index e01b7fd..4fcea22 100644
--- a/sphincs/sign.c
+++ b/sphincs/sign.c
@@ -254,7 +254,9 @@ int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t *sm, size_t *smlen,
                 const uint8_t *sk) {
     size_t siglen;
 
-    crypto_sign_signature(sm, &siglen, m, mlen, sk);
+    if (crypto_sign_signature(sm, &siglen, m, mlen, sk) != 0) {
+        return -1;
+    }
 
     memmove(sm + SPX_BYTES, m, mlen);
     *smlen = siglen + mlen;
-- 
2.43.0


From 36e8811e057b28795a62b0e3facf511fa6eaab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 02/10] fix: Ed25519 verification rejects non-canonical scalars
 (S >= L)

---
 tweetnacl/tweetnacl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index 92da8a8..f4752a5 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -802,6 +802,10 @@ int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
   *mlen = -1;
   if (n < 64) return -1;
 
+  /* RFC 8032: the scalar S has to be canonical (S < L), otherwise signatures are malleable */
+  for (i = 31;i >= 0;--i) if (sm[32 + i] != L[i]) break;
+  if (i < 0 || sm[32 + i] > L[i]) return -1;
+
   if (unpackneg(q,pk)) return -1;
 
   FOR(i,n) m[i] = sm[i];
-- 
2.43.0


From 66f932c9c6c82fde395e7cd572e2343d29bfdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 03/10] fix: key-seed expander rejects NULL pointers like every
 other hybrid function

---
 hybrid-dilithium-sphincs/hybrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index 90d9c77..e61374f 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -138,6 +138,10 @@ Message is variable length, between 1 to 64 bytes
   * @param[out] expanded seed of length 160 bytes.
   */
 int crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(const unsigned char* seed, unsigned char* expandedSeed) {
+	if (seed == NULL || expandedSeed == NULL) {
+		return -1;
+	}
+
 	uint8_t seedTemp[64] = { 0 };
 	uint8_t expandedSeedTemp[128] = { 0 };
 
-- 
2.43.0


From 176edffd20eb66365aff2287bfe07f536d74ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 04/10] fix: urandom fallback closes its files on every error
 path and cannot loop forever

---
 random/randombytes.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 504d663..87670f5 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -174,6 +174,7 @@ static int randombytes_linux_read_entropy_proc(FILE *stream, int *entropy)
 	int retcode;
 	do {
 		rewind(stream);
+		errno = 0; // a value left over from poll() must not look like an interruption
 		retcode = fscanf(stream, "%d", entropy);
 	} while (retcode != 1 && errno == EINTR);
 	if (retcode != 1) {
@@ -227,6 +228,9 @@ static int randombytes_linux_wait_for_entropy(int device)
 	} while (fd == -1 && errno == EINTR); /* EAGAIN will not occur */
 	if (fd == -1) {
 		/* Unrecoverable IO error */
+		if (strategy == PROC) {
+			fclose(proc_file);
+		}
 		return -1;
 	}
 
@@ -263,9 +267,7 @@ static int randombytes_linux_wait_for_entropy(int device)
 		retcode = close(fd);
 	} while (retcode == -1 && errno == EINTR);
 	if (strategy == PROC) {
-		do {
-			retcode = fclose(proc_file);
-		} while (retcode == -1 && errno == EINTR);
+		retcode = fclose(proc_file); // the stream is gone even if this fails, so it must not be retried
 	}
 	if (retcode_error != 0) {
 		return retcode_error;
@@ -285,7 +287,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 	} while (fd == -1 && errno == EINTR);
 	if (fd == -1) return -1;
 # if defined(__linux__)
-	if (randombytes_linux_wait_for_entropy(fd) == -1) return -1;
+	if (randombytes_linux_wait_for_entropy(fd) == -1) {
+		close(fd);
+		return -1;
+	}
 # endif
 
 	while (n > 0) {
@@ -294,7 +299,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 		if (tmp == -1 && (errno == EAGAIN || errno == EINTR)) {
 			continue;
 		}
-		if (tmp == -1) return -1; /* Unrecoverable IO error */
+		if (tmp == -1 || tmp == 0) { /* Unrecoverable IO error, or end of file */
+			close(fd);
+			return -1;
+		}
 		offset += tmp;
 		n -= tmp;
 	}
-- 
2.43.0


From bc9d043434e94d1a7272f739a3246dde848b39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 05/10] fix: re-read the entropy count from /proc instead of
 the stale stdio buffer

---
 random/randombytes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/random/randombytes.c b/random/randombytes.c
index 87670f5..1e58d92 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -215,6 +215,9 @@ static int randombytes_linux_wait_for_entropy(int device)
 		if (proc_file == NULL) {
 			return -1;
 		}
+		// Without this, rewind() may keep the buffered contents, and the
+		// entropy count would never change
+		setvbuf(proc_file, NULL, _IONBF, 0);
 	} else if (retcode != 0) {
 		// Unrecoverable ioctl error
 		return -1;
-- 
2.43.0


From 2825c5b2d1f1e2d5421b31d2e556799bb7cbbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:00 +0000
Subject: [PATCH 06/10] fix: Windows randombytes left buffers beyond 4 GiB
 unfilled and reported success

BCryptGenRandom takes a 32-bit size, so only n mod 2^32 bytes were requested.
---
 random/randombytes.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 1e58d92..626fdd3 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -83,14 +83,21 @@
 static int randombytes_win32_randombytes(void* buf, size_t n)
 {
 	NTSTATUS    Status;
+	const size_t MAX_DWORD = 0xFFFFFFFF;
+	size_t offset = 0, chunk;
 
 	memset(buf, 0, n);
 
-	Status = BCryptGenRandom(
-		NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
-		buf,                     // Address of the buffer that recieves the random number(s)
-		n,                 // Size of the buffer in bytes
-		BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags                  
+	do {
+		// The size parameter of BCryptGenRandom is 32 bits wide, even where size_t is not
+		chunk = n - offset < MAX_DWORD ? n - offset : MAX_DWORD;
+		Status = BCryptGenRandom(
+			NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
+			(PUCHAR)buf + offset,    // Address of the buffer that recieves the random number(s)
+			(ULONG)chunk,      // Size of the buffer in bytes
+			BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags
+		offset += chunk;
+	} while (NT_SUCCESS(Status) && offset < n);
 
 	if (NT_SUCCESS(Status))
 	{
@@ -101,7 +108,6 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 	HCRYPTPROV ctx;
 	BOOL tmp;
 	DWORD to_read = 0;
-	const size_t MAX_DWORD = 0xFFFFFFFF;
 
 	tmp = CryptAcquireContext(&ctx, NULL, NULL, PROV_RSA_FULL,
 		CRYPT_VERIFYCONTEXT);
-- 
2.43.0


From 6466bf7f7d8ee9ca7be3848cca2850e7614cc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:00 +0000
Subject: [PATCH 07/10] fix: Windows randombytes kept the provider context open
 when CryptGenRandom failed

---
 random/randombytes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 626fdd3..40017ea 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -116,7 +116,10 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 	while (n > 0) {
 		to_read = (DWORD)(n < MAX_DWORD ? n : MAX_DWORD);
 		tmp = CryptGenRandom(ctx, to_read, (BYTE*)buf);
-		if (tmp == FALSE) return -1;
+		if (tmp == FALSE) {
+			CryptReleaseContext(ctx, 0);
+			return -1;
+		}
 		buf = ((char*)buf) + to_read;
 		n -= to_read;
 	}
-- 
2.43.0


From 253522b48b0f7bf0b61e8472972d3b5dd24a001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:08 +0000
Subject: [PATCH 08/10] fix: browser randombytes threw out of the C code above
 65536 bytes and on failure

---
 random/randombytes.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 40017ea..653b017 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -340,10 +340,17 @@ static int randombytes_js_randombytes_nodejs(void *buf, size_t n) {
 	const int ret = EM_ASM_INT({
 
 		if (typeof window !== 'undefined' && window.crypto && window.crypto.getRandomValues) {
-			var randBuffer = new Uint8Array($1);
-			window.crypto.getRandomValues(randBuffer);
-			writeArrayToMemory(randBuffer, $0);
-			return 0;
+			try {
+				/* getRandomValues refuses requests for more than 65536 bytes */
+				for (var offset = 0; offset < ($1 >>> 0); offset += 65536) {
+					var randBuffer = new Uint8Array(Math.min(($1 >>> 0) - offset, 65536));
+					window.crypto.getRandomValues(randBuffer);
+					writeArrayToMemory(randBuffer, $0 + offset);
+				}
+				return 0;
+			} catch (error) {
+				return -1;
+			}
 		}
 
 		var cryptoMod;
-- 
2.43.0


From c3ef7f99b9baa0ed347966bdc9f1c11bd99c0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:28 +0000
Subject: [PATCH 09/10] fix: signature lengths are returned through size_t
 pointers, not unsigned long long

---
 hybrid-dilithium-sphincs/hybrid.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index e61374f..99c41df 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -269,8 +269,8 @@ int crypto_sign_dilithium_ed25519_sphincs(unsigned char* sm, unsigned long long*
 	}
 
 	unsigned long long sigLen1 = 0;
-	unsigned long long sigLen2 = 0;
-	unsigned long long sigLen3 = 0;
+	size_t sigLen2 = 0;
+	size_t sigLen3 = 0;
 
 	unsigned char sig1[64 + 64] = { 0 }; //CRYPTO_ED25519_SIGNATURE_BYTES + MAX_MSG_LEN
 	unsigned char sig2[2420] = { 0 }; //CRYPTO_DILITHIUM_MAX_SIGNATURE_BYTES
@@ -478,7 +478,7 @@ int crypto_sign_compact_dilithium_ed25519_sphincs(unsigned char* sm, unsigned lo
 	}
 
 	unsigned long long sigLen1 = 0;
-	unsigned long long sigLen2 = 0;
+	size_t sigLen2 = 0;
 
 	unsigned char sig1[64 + 64] = { 0 }; //CRYPTO_ED25519_SIGNATURE_BYTES + HASH_LENGTH
 	unsigned char sig2[2420] = { 0 }; //CRYPTO_DILITHIUM_MAX_SIGNATURE_BYTES
-- 
2.43.0


From 66c49a37c622fa1d6295447bf778068a4d7cdd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:28 +0000
Subject: [PATCH 10/10] fix: crypto_verify_dilithium truncated signature
 lengths above 2^32 where size_t has 32 bits

---
 hybrid-dilithium-sphincs/hybrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index 99c41df..a9ea743 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -702,7 +702,7 @@ int crypto_verify_compact_dilithium_ed25519_sphincs(const unsigned char* m, unsi
 int crypto_verify_dilithium(const unsigned char* m, unsigned long long mlen,
 	const unsigned char* sm, unsigned long long smlen,
 	const unsigned char* pk) {
-	if (m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sm == NULL || pk == NULL) {
+	if (m == NULL || mlen <= 0 || mlen > MAX_MSG_LEN || sm == NULL || smlen != CRYPTO_DILITHIUM_SIGNATURE_BYTES || pk == NULL) {
 		return -1;
 	}
 
-- 
2.43.0

