From c696ecd33e99e5324617f2328a82541289a852c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:27 +0000
Subject: [PATCH 01/10] fix: SPHINCS+ crypto_sign reports failure of
 crypto_sign_signature

When the random source fails, crypto_sign_signature returns -1 without producing
a signature; crypto_sign ignored that and returned success with an uninitialised
signature and length.
---
 sphincs/sign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sphincs/sign.c b/sphincs/sign.c
index e01b7fd..3cfa21f 100644
--- a/sphincs/sign.c
+++ b/sphincs/sign.c
@@ -254,7 +254,10 @@ int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t *sm, size_t *smlen,
                 const uint8_t *sk) {
     size_t siglen;
 
-    crypto_sign_signature(sm, &siglen, m, mlen, sk);
+    if (crypto_sign_signature(sm, &siglen, m, mlen, sk) != 0) {
+        *smlen = 0;
+        return -1;
+    }
 
     memmove(sm + SPX_BYTES, m, mlen);
     *smlen = siglen + mlen;
-- 
2.43.0


From de490f2b6a7de24e69d52b925ed33a0740cd93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:27 +0000
Subject: [PATCH 02/10] fix: reject Ed25519 signatures whose scalar is not
 below the group order

Without the check, adding L to the scalar half of a valid signature gives another
accepted signature for the same message (RFC 8032, 5.1.7).
---
 tweetnacl/tweetnacl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index 92da8a8..e9cfd67 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -802,6 +802,10 @@ int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
   *mlen = -1;
   if (n < 64) return -1;
 
+  /* RFC 8032: reject S >= L, otherwise S + L is a second valid signature */
+  for (i = 31;i >= 0 && sm[32 + i] == L[i];--i) ;
+  if (i < 0 || sm[32 + i] > L[i]) return -1;
+
   if (unpackneg(q,pk)) return -1;
 
   FOR(i,n) m[i] = sm[i];
-- 
2.43.0


From c9ceb7a8237b0852c96d8eb7a07c4a95a0c4fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:27 +0000
Subject: [PATCH 03/10] fix: /dev/urandom source leaks descriptors on errors
 and spins on end of file

Every failing path left /dev/urandom (and /proc/.../entropy_avail) open, and a
read() returning 0 made the request loop forever.
---
 random/randombytes.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 504d663..f8e4522 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -226,6 +226,9 @@ static int randombytes_linux_wait_for_entropy(int device)
 		fd = open("/dev/random", O_RDONLY);
 	} while (fd == -1 && errno == EINTR); /* EAGAIN will not occur */
 	if (fd == -1) {
+		if (strategy == PROC) {
+			fclose(proc_file);
+		}
 		/* Unrecoverable IO error */
 		return -1;
 	}
@@ -285,7 +288,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 	} while (fd == -1 && errno == EINTR);
 	if (fd == -1) return -1;
 # if defined(__linux__)
-	if (randombytes_linux_wait_for_entropy(fd) == -1) return -1;
+	if (randombytes_linux_wait_for_entropy(fd) == -1) {
+		close(fd);
+		return -1;
+	}
 # endif
 
 	while (n > 0) {
@@ -294,7 +300,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 		if (tmp == -1 && (errno == EAGAIN || errno == EINTR)) {
 			continue;
 		}
-		if (tmp == -1) return -1; /* Unrecoverable IO error */
+		if (tmp <= 0) {
+			close(fd);
+			return -1; /* Unrecoverable IO error or end of file */
+		}
 		offset += tmp;
 		n -= tmp;
 	}
-- 
2.43.0


From 2891713eb58998d8678302a29b989fee97ba354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:28 +0000
Subject: [PATCH 04/10] fix: seed expander rejects NULL buffers like the other
 hybrid functions

---
 hybrid-dilithium-sphincs/hybrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index 90d9c77..e61374f 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -138,6 +138,10 @@ Message is variable length, between 1 to 64 bytes
   * @param[out] expanded seed of length 160 bytes.
   */
 int crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(const unsigned char* seed, unsigned char* expandedSeed) {
+	if (seed == NULL || expandedSeed == NULL) {
+		return -1;
+	}
+
 	uint8_t seedTemp[64] = { 0 };
 	uint8_t expandedSeedTemp[128] = { 0 };
 
-- 
2.43.0


From e9829c6d4ed76219e48c878e09d99015a0b1679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:54 +0000
Subject: [PATCH 05/10] fix: wasm mem_free wipe is dropped by optimising
 compilers

A memset immediately before free is a dead store: clang removes it at -O1
and above, so secrets released through mem_free stay in linear memory.
Wipe through a volatile pointer instead.
---
 wasm/hybrid-pqc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wasm/hybrid-pqc.c b/wasm/hybrid-pqc.c
index e29ec10..52f4723 100644
--- a/wasm/hybrid-pqc.c
+++ b/wasm/hybrid-pqc.c
@@ -22,7 +22,12 @@ uint64_t* mem_alloc_long_long(size_t size) {
 
 EMSCRIPTEN_KEEPALIVE
 void mem_free(void* ptr, size_t size) {
-	memset(ptr, 0, size);
+	/* volatile: a memset just before free is removed as a dead store in optimised builds */
+	volatile uint8_t* p = (volatile uint8_t*) ptr;
+	while (size > 0) {
+		size--;
+		p[size] = 0;
+	}
  	free(ptr);
 }
 
-- 
2.43.0


From 7ab205590686cdc406a3c07141e10b063498032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:49 +0000
Subject: [PATCH 06/10] fix: Windows random source leaks the provider handle
 when CryptGenRandom fails

---
 random/randombytes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index f8e4522..a521149 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -110,7 +110,10 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 	while (n > 0) {
 		to_read = (DWORD)(n < MAX_DWORD ? n : MAX_DWORD);
 		tmp = CryptGenRandom(ctx, to_read, (BYTE*)buf);
-		if (tmp == FALSE) return -1;
+		if (tmp == FALSE) {
+			CryptReleaseContext(ctx, 0);
+			return -1;
+		}
 		buf = ((char*)buf) + to_read;
 		n -= to_read;
 	}
-- 
2.43.0


From 8e14d88e100dfd70bc09e0b9177d41b4fa2b412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:02 +0000
Subject: [PATCH 07/10] fix: Windows random source fills requests of 4 GiB and
 more completely

---
 random/randombytes.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index a521149..c6ebefc 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -86,11 +86,19 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 
 	memset(buf, 0, n);
 
-	Status = BCryptGenRandom(
-		NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
-		buf,                     // Address of the buffer that recieves the random number(s)
-		n,                 // Size of the buffer in bytes
-		BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags                  
+	/* BCryptGenRandom takes a 32 bit length; larger requests are filled in pieces */
+	unsigned char* out = (unsigned char*)buf;
+	size_t left = n;
+	do {
+		ULONG chunk = (ULONG)(left < 0xFFFFFFFF ? left : 0xFFFFFFFF);
+		Status = BCryptGenRandom(
+			NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
+			out,                     // Address of the buffer that recieves the random number(s)
+			chunk,                 // Size of the buffer in bytes
+			BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags                  
+		out += chunk;
+		left -= chunk;
+	} while (left > 0 && NT_SUCCESS(Status));
 
 	if (NT_SUCCESS(Status))
 	{
-- 
2.43.0


From 4f1539c8483d28635b3146cbfd7b1f73f9303ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:02 +0000
Subject: [PATCH 08/10] fix: entropy count of the /dev/urandom source spins on
 a stale errno

---
 random/randombytes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/random/randombytes.c b/random/randombytes.c
index c6ebefc..42f592d 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -185,6 +185,7 @@ static int randombytes_linux_read_entropy_proc(FILE *stream, int *entropy)
 	int retcode;
 	do {
 		rewind(stream);
+		errno = 0; // fscanf does not set it at end of file or on a mismatch
 		retcode = fscanf(stream, "%d", entropy);
 	} while (retcode != 1 && errno == EINTR);
 	if (retcode != 1) {
-- 
2.43.0


From 22a9a93a4a6b107b56abd38f8496316da287111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:44 +0000
Subject: [PATCH 09/10] fix: a failing browser generator is reported instead of
 thrown through the wasm module

---
 random/randombytes.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 42f592d..0cab9f2 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -341,10 +341,14 @@ static int randombytes_js_randombytes_nodejs(void *buf, size_t n) {
 	const int ret = EM_ASM_INT({
 
 		if (typeof window !== 'undefined' && window.crypto && window.crypto.getRandomValues) {
-			var randBuffer = new Uint8Array($1);
-			window.crypto.getRandomValues(randBuffer);
-			writeArrayToMemory(randBuffer, $0);
-			return 0;
+			try {
+				var randBuffer = new Uint8Array($1);
+				window.crypto.getRandomValues(randBuffer);
+				writeArrayToMemory(randBuffer, $0);
+				return 0;
+			} catch (error) {
+				return -1;
+			}
 		}
 
 		var cryptoMod;
-- 
2.43.0


From 435acd50d9aa124b92b49b746be261b29b5b0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:50 +0000
Subject: [PATCH 10/10] fix: Ed25519 open handles messages of 2 GiB and more

The loops over the message counted in an int, which overflows at 2^31: a
valid signed message of 2 GiB or more was refused (and only partly cleared).
---
 tweetnacl/tweetnacl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index e9cfd67..c438161 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -795,7 +795,7 @@ static int unpackneg(gf r[4],const u8 p[32])
 
 int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
 {
-  int i;
+  i64 i;
   u8 t[32],h[64];
   gf p[4],q[4];
 
-- 
2.43.0

