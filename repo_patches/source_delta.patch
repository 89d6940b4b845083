From f8f76704e306c94badd63ea5ec8ba26d044fa6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 1/4] fix: keep an open /dev/urandom descriptor when a
 concurrent open is interrupted

With several threads, one thread's failed open (EINTR) overwrote the
shared descriptor another thread had just opened, whose read then failed
with EBADF and aborted the process.
---
 ref/randombytes.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ref/randombytes.c b/ref/randombytes.c
index 8a12a42..4a7c84a 100644
--- a/ref/randombytes.c
+++ b/ref/randombytes.c
@@ -73,14 +73,16 @@ void randombytes(uint8_t *out, size_t outlen) {
 #else
 void randombytes(uint8_t *out, size_t outlen) {
   static int fd = -1;
+  int newfd;
   ssize_t ret;
 
   while(fd == -1) {
-    fd = open("/dev/urandom", O_RDONLY);
-    if(fd == -1 && errno == EINTR)
+    newfd = open("/dev/urandom", O_RDONLY);
+    if(newfd == -1 && errno == EINTR)
       continue;
-    else if(fd == -1)
+    else if(newfd == -1)
       abort();
+    fd = newfd;
   }
 
   while(outlen > 0) {
-- 
2.43.0


From 99490c61ed8b92a73e002929d033052621e126bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 2/4] fix: do not read past the end of the inputs in the 4-way
 SHAKE absorb

The final gather of keccakx4_absorb_once always loaded 8 bytes per lane,
up to 7 bytes beyond the end of each input, which faults when an input
ends at the end of a mapped page.
---
 avx2/fips202x4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/avx2/fips202x4.c b/avx2/fips202x4.c
index 6bc6d1a..d9cc685 100644
--- a/avx2/fips202x4.c
+++ b/avx2/fips202x4.c
@@ -45,9 +45,13 @@ static void keccakx4_absorb_once(__m256i s[25],
   inlen -= 8*i;
 
   if(inlen) {
-    t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
-    idx = _mm256_set1_epi64x((1ULL << (8*inlen)) - 1);
-    t = _mm256_and_si256(t, idx);
+    /* Less than 8 bytes left; do not read past the end of the inputs */
+    uint64_t last[4] = {0, 0, 0, 0};
+    memcpy(&last[0], in0 + pos, inlen);
+    memcpy(&last[1], in1 + pos, inlen);
+    memcpy(&last[2], in2 + pos, inlen);
+    memcpy(&last[3], in3 + pos, inlen);
+    t = _mm256_set_epi64x((long long)last[3], (long long)last[2], (long long)last[1], (long long)last[0]);
     s[i] = _mm256_xor_si256(s[i], t);
   }
 
-- 
2.43.0


From 09a79f636342cc35c9f97dc5385c76b258c62aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 3/4] fix: report file errors and incomplete requests in the
 KAT generator

A write that failed (disk full, I/O error, failing close) or a request that
could not be read back completely went unnoticed: the program still returned
KAT_SUCCESS with a truncated or wrong response file.
---
 ref/nistkat/PQCgenKAT_kem.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/ref/nistkat/PQCgenKAT_kem.c b/ref/nistkat/PQCgenKAT_kem.c
index fa45e9d..2f1b13f 100644
--- a/ref/nistkat/PQCgenKAT_kem.c
+++ b/ref/nistkat/PQCgenKAT_kem.c
@@ -15,6 +15,7 @@
 #define	MAX_MARKER_LEN		50
 #define KAT_SUCCESS          0
 #define KAT_FILE_OPEN_ERROR -1
+#define KAT_FILE_WRITE_ERROR -2
 #define KAT_DATA_ERROR      -3
 #define KAT_CRYPTO_FAILURE  -4
 
@@ -32,6 +33,7 @@ main()
     unsigned char       ct[CRYPTO_CIPHERTEXTBYTES], ss[CRYPTO_BYTES], ss1[CRYPTO_BYTES];
     int                 count;
     int                 done;
+    int                 n_read = 0, err;
     unsigned char       pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES];
     int                 ret_val;
 
@@ -60,7 +62,11 @@ main()
         fprintf(fp_req, "ct =\n");
         fprintf(fp_req, "ss =\n\n");
     }
-    fclose(fp_req);
+    err = ferror(fp_req);
+    if ( fclose(fp_req) || err ) {
+        printf("ERROR: unable to write <%s>\n", fn_req);
+        return KAT_FILE_WRITE_ERROR;
+    }
 
     //Create the RESPONSE file based on what's in the REQUEST file
     if ( (fp_req = fopen(fn_req, "r")) == NULL ) {
@@ -71,12 +77,17 @@ main()
     fprintf(fp_rsp, "# %s\n\n", CRYPTO_ALGNAME);
     done = 0;
     do {
-        if ( FindMarker(fp_req, "count = ") )
-            fscanf(fp_req, "%d", &count);
+        if ( FindMarker(fp_req, "count = ") ) {
+            if ( fscanf(fp_req, "%d", &count) != 1 ) {
+                printf("ERROR: unable to read 'count' from <%s>\n", fn_req);
+                return KAT_DATA_ERROR;
+            }
+        }
         else {
             done = 1;
             break;
         }
+        n_read++;
         fprintf(fp_rsp, "count = %d\n", count);
 
         if ( !ReadHex(fp_req, seed, 48, "seed = ") ) {
@@ -116,8 +127,16 @@ main()
 
     } while ( !done );
 
+    if ( ferror(fp_req) || n_read != 100 ) {
+        printf("ERROR: unable to read all requests from <%s>\n", fn_req);
+        return KAT_DATA_ERROR;
+    }
     fclose(fp_req);
-    fclose(fp_rsp);
+    err = ferror(fp_rsp);
+    if ( fclose(fp_rsp) || err ) {
+        printf("ERROR: unable to write <%s>\n", fn_rsp);
+        return KAT_FILE_WRITE_ERROR;
+    }
 
     return KAT_SUCCESS;
 }
@@ -173,7 +192,7 @@ FindMarker(FILE *infile, const char *marker)
 int
 ReadHex(FILE *infile, unsigned char *A, int Length, char *str)
 {
-	int			i, ch, started;
+	int			i, ch, started, digits;
 	unsigned char	ich;
 
 	if ( Length == 0 ) {
@@ -182,6 +201,7 @@ ReadHex(FILE *infile, unsigned char *A, int Length, char *str)
 	}
 	memset(A, 0x00, Length);
 	started = 0;
+	digits = 0;
 	if ( FindMarker(infile, str) )
 		while ( (ch = fgetc(infile)) != EOF ) {
 			if ( !isxdigit(ch) ) {
@@ -195,6 +215,7 @@ ReadHex(FILE *infile, unsigned char *A, int Length, char *str)
 					break;
 			}
 			started = 1;
+			digits++;
 			if ( (ch >= '0') && (ch <= '9') )
 				ich = ch - '0';
 			else if ( (ch >= 'A') && (ch <= 'F') )
@@ -211,7 +232,7 @@ ReadHex(FILE *infile, unsigned char *A, int Length, char *str)
 	else
 		return 0;
 
-	return 1;
+	return digits == 2*Length;
 }
 
 void
-- 
2.43.0


From dbe0c02154b8acc20dce2d6c2e938dfb9bf821f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:04 +0000
Subject: [PATCH 4/4] fix: keep cmov_int16 branch-free when inlined

With cmov_int16 in the same translation unit as poly_frommsg (link-time
optimisation, amalgamated sources) clang turns the selection by a message
bit into a branch.  Hide the condition from the compiler as in cmov.
---
 ref/verify.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ref/verify.c b/ref/verify.c
index 914ccd4..1715ce9 100644
--- a/ref/verify.c
+++ b/ref/verify.c
@@ -70,6 +70,11 @@ void cmov(uint8_t *r, const uint8_t *x, size_t len, uint8_t b)
 **************************************************/
 void cmov_int16(int16_t *r, int16_t v, uint16_t b)
 {
+#if defined(__GNUC__) || defined(__clang__)
+  // See cmov
+  __asm__("" : "+r"(b) : /* no inputs */);
+#endif
+
   b = -b;
   *r ^= b & ((*r) ^ v);
 }
-- 
2.43.0

