From dc16f3dcb4c085d681a77d9b5e0e4f43539ce9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 01/63] fix: sr_ks_pvalue(NaN) must return NaN instead of
 looping forever

---
 src/specfuncs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/specfuncs.c b/src/specfuncs.c
index 2ad47b1..0d4282c 100644
--- a/src/specfuncs.c
+++ b/src/specfuncs.c
@@ -103,7 +103,9 @@ double sr_round(double x)
 double sr_ks_pvalue(double x)
 {
     double xsq = x * x;
-    if (x <= 0.0) {
+    if (x != x) {
+        return x; /* NAN */
+    } else if (x <= 0.0) {
         return 1.0;
     } else if (x > 1.0) {
         long double sum = 0.0, old_sum = 1.0, i = 1;
-- 
2.43.0


From f82c7b6e5119748802eda10d0eb4484cf00df719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 02/63] fix: birthday spacings: undefined full-width shift in
 one-dimensional tuples

---
 src/coretests.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/coretests.c b/src/coretests.c
index be73692..ef88aa5 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -43,7 +43,7 @@ static inline void bspace_make_tuples64(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim; // Avoid shift by the type width
                 u[j] |= gi->get_bits(state) & mask;
             }
         }
@@ -53,7 +53,7 @@ static inline void bspace_make_tuples64(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim; // Avoid shift by the type width
                 u[j] |= gi->get_bits(state) >> shl;
             }
         }
@@ -79,7 +79,7 @@ static inline void bspace_make_tuples32(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim; // Avoid shift by the type width
                 u[j] |= (uint32_t) (gi->get_bits(state) & mask);
             }
         }
@@ -89,7 +89,7 @@ static inline void bspace_make_tuples32(const BSpaceNDOptions *opts,
         for (size_t j = 0; j < len; j++) {
             u[j] = 0;
             for (size_t k = 0; k < opts->ndims; k++) {
-                u[j] <<= opts->nbits_per_dim;
+                if (k > 0) u[j] <<= opts->nbits_per_dim; // Avoid shift by the type width
                 u[j] |= (uint32_t) (gi->get_bits(state) >> shl);
             }
         }
-- 
2.43.0


From 3ba0cce1cc2c3f198615ce9bf2bb2e08bcb31a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 03/63] fix: berlekamp_massey: buffers overflow for sequences
 with complexity n

---
 src/lineardep.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lineardep.c b/src/lineardep.c
index c92c602..90f099a 100644
--- a/src/lineardep.c
+++ b/src/lineardep.c
@@ -201,9 +201,9 @@ size_t berlekamp_massey(const uint8_t *s, size_t n)
     size_t L = 0; // Complexity
     size_t N = 0; // Current position
     long m = -1;
-    uint8_t *C = calloc(n, sizeof(uint8_t)); // Coeffs.
-    uint8_t *B = calloc(n, sizeof(uint8_t)); // Prev.coeffs.
-    uint8_t *T = calloc(n, sizeof(uint8_t)); // Temp. copy of coeffs.
+    uint8_t *C = calloc(n + 1, sizeof(uint8_t)); // Coeffs.
+    uint8_t *B = calloc(n + 1, sizeof(uint8_t)); // Prev.coeffs.
+    uint8_t *T = calloc(n + 1, sizeof(uint8_t)); // Temp. copy of coeffs.
     if (C == NULL || B == NULL || T == NULL) {
         fprintf(stderr, "***** berlekamp_massey: not enough memory *****");
         free(C); free(B); free(T);
-- 
2.43.0


From 253359c0c64cd50faf0738a85a049f1905192618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:12 +0000
Subject: [PATCH 04/63] fix: matrix rank was wrong after the first column
 without a pivot

---
 src/lineardep.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lineardep.c b/src/lineardep.c
index 90f099a..6bd8381 100644
--- a/src/lineardep.c
+++ b/src/lineardep.c
@@ -68,13 +68,13 @@ static size_t calc_bin_matrix_rank(uint32_t *a, size_t n)
         //const size_t i_offset_block = i / VECINT_NBITS;
         const uint32_t i_mask = (uint32_t)1U << (i % 32);
         // Find the j-th row where a(j,i) is not zero, swap it
-        // with i-th row and make Gaussian elimination
+        // with the first unprocessed row and make Gaussian elimination
         size_t j = rank;
         while (j < n && GET_AJI == 0) { j++; } // a_ji == 0
         if (j < n) {
-            swap_rows(row_ptr, i, j);
-            uint32_t *a_i = row_ptr[i];
-            for (j = i + 1; j < n; j++) {
+            swap_rows(row_ptr, rank, j);
+            uint32_t *a_i = row_ptr[rank];
+            for (j = rank + 1; j < n; j++) {
                 uint32_t *a_j = row_ptr[j];
                 if (GET_AJI != 0) {
                     xorbits(a_j, a_i, i_offset/*_block*/, n / 32 /* / VECINT_NBITS*/);
-- 
2.43.0


From 2571eeabf6fc170e200ef7a9974e4a2f8f54b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 05/63] fix: Hamming weights 48 and 49 of 64-bit words had the
 code of weights 32-35

---
 src/hwtests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hwtests.c b/src/hwtests.c
index da224b4..ef6c0a6 100644
--- a/src/hwtests.c
+++ b/src/hwtests.c
@@ -343,7 +343,7 @@ static const uint8_t *hamming_ot_fill_hw_tables(GeneratorState *obj,
             0, 0, 0, 0, 0, 1, 1, 1, // 24-31
             2, 2, 2, 2, 3, 3, 3, 3, // 32-39
             3, 3, 3, 3, 3, 3, 3, 3, // 40-47
-            2, 2, 3, 3, 3, 3, 3, 3, // 48-57
+            3, 3, 3, 3, 3, 3, 3, 3, // 48-55
             3, 3, 3, 3, 3, 3, 3, 3,  3}; // 56-64
         hw = hw64_to_code;
         nweights = 65;
-- 
2.43.0


From 6e00d07159a5d26bf97f3e06dbc751eee5150ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 06/63] fix: monobit test: statistic was halved and the p-value
 was one-sided

---
 src/coretests.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coretests.c b/src/coretests.c
index ef88aa5..af89b03 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -1159,9 +1159,9 @@ TestResults monobit_freq_test(GeneratorState *obj, const MonobitFreqOptions *opt
         }
     }
     ans.penalty = PENALTY_FREQ;
-    ans.x = fabs((double) bitsum) / sqrt((double) (len * obj->gi->nbits));
-    ans.p = sr_stdnorm_pvalue(ans.x);
-    ans.alpha = sr_stdnorm_cdf(ans.x);
+    ans.x = 2.0 * fabs((double) bitsum) / sqrt((double) (len * obj->gi->nbits));
+    ans.p = sr_halfnormal_pvalue(ans.x);
+    ans.alpha = 1.0 - ans.p;
     obj->intf->printf("  sum = %lld; x = %g; p = %g\n",
         bitsum, ans.x, ans.p);
     obj->intf->printf("\n");
-- 
2.43.0


From 96b61223179bad85460ce77a1a1042d192d79969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 07/63] fix: gap test: beta itself is outside of the [0;beta)
 interval

---
 src/coretests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index af89b03..4e18b3f 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -579,7 +579,7 @@ TestResults gap_test(GeneratorState *obj, const GapOptions *opts)
         size_t gap_len = 0;
         u = obj->gi->get_bits(obj->state);
         nvalues++;
-        while (u > beta) {
+        while (u >= beta) {
             gap_len++;
             u = obj->gi->get_bits(obj->state);
             nvalues++;
-- 
2.43.0


From 1bb9ee3fc01d7677670d243c738c1efe353248ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 08/63] fix: gap test: no penalty for a generator that never
 hits the gap

---
 src/coretests.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coretests.c b/src/coretests.c
index 4e18b3f..04e7f62 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -588,6 +588,7 @@ TestResults gap_test(GeneratorState *obj, const GapOptions *opts)
                 ans.p = pgap_fail;
                 ans.alpha = 1.0 - ans.p;
                 ans.x = NAN;
+                ans.penalty = PENALTY_GAP;
                 free(Oi);
                 return ans;
             }
-- 
2.43.0


From 976baae81d4d9e7737f04d8a8d31da0b788ed37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 09/63] fix: gap16_count0: sign of large negative deviates was
 lost

---
 src/coretests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index 04e7f62..446a785 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -843,7 +843,7 @@ static double gap16_z_bonferroni(double z, double p_gap)
     }
     // Filter out possible infinities
     if (z_corr < -40.0) {
-        return 40.0;
+        return -40.0;
     } else if (z_corr > 40.0) {
         return 40.0;
     } else {
-- 
2.43.0


From 407cff43e36df0e268c550ac80228e7800a469cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/63] fix: CollisionOver: the last group of equal tuples was
 not counted

---
 src/coretests.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coretests.c b/src/coretests.c
index 446a785..a3233ed 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -507,6 +507,9 @@ TestResults collisionover_test(GeneratorState *obj, const CollOverNDOptions *opt
                 ncopies = 0;
             }
         }
+        // The last group of equal values
+        Oi[(ncopies < 3) ? (ncopies + 1) : 3]++;
+        Oi[0]--;
     }
     ans.x += (double) Oi[2];
     ans.p = sr_poisson_pvalue(ans.x, mu * (double) opts->nsamples);
-- 
2.43.0


From be451b6ec7ef9ff01fcab9aa4cb2bfcfb4646009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 11/63] fix: threads: data race between registration of a
 thread and its lookup

---
 src/threads_intf.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/threads_intf.c b/src/threads_intf.c
index 24b43b1..aabce72 100644
--- a/src/threads_intf.c
+++ b/src/threads_intf.c
@@ -47,6 +47,8 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     ThreadObj obj;
     obj.ord = ord;
     obj.exists = 1;
+    // Thread must be registered before it asks for its own ordinal
+    MUTEX_LOCK(thread_ord_mutex);
 #ifdef USE_PTHREADS
     pthread_create(&obj.id, NULL, thr_func, udata);
     // Get data from threads
@@ -56,8 +58,6 @@ ThreadObj ThreadObj_create(ThreadFuncPtr thr_func, void *udata, unsigned int ord
     obj.id = ord;
     thr_func(udata);
 #endif
-
-    MUTEX_LOCK(thread_ord_mutex);
     if (nthreads < NTHREADS_MAX) {
         threads[nthreads++] = obj;
     }
@@ -89,11 +89,13 @@ void ThreadObj_wait(ThreadObj *obj)
 #else
     (void) obj;
 #endif
+    MUTEX_LOCK(thread_ord_mutex);
     for (int i = 0; i < nthreads; i++) {
         if (ThreadObj_equal(obj, &threads[i]) && threads[i].exists) {
             threads[i].exists = 0;
         }
     }
+    MUTEX_UNLOCK(thread_ord_mutex);
 }
 
 /**
@@ -109,12 +111,16 @@ ThreadObj ThreadObj_current(void)
 #else
     obj.id = THREAD_ID_UNKNOWN;
 #endif
+    obj.ord = THREAD_ORD_UNKNOWN;
+    obj.exists = 0;
+    MUTEX_LOCK(thread_ord_mutex);
     for (int i = 0; i < nthreads; i++) {
         if (ThreadObj_equal(&obj, &threads[i]) && threads[i].exists) {
-            return threads[i];
+            obj = threads[i];
+            break;
         }
     }
-    obj.ord = THREAD_ORD_UNKNOWN;
+    MUTEX_UNLOCK(thread_ord_mutex);
     return obj;
 }
 
-- 
2.43.0


From b3f00fa9e047a40e662bc9c397ba8244f86105a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 12/63] fix: battery file: buffer overflow for long parameter
 names

---
 src/bat_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index be0f240..9459be2 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -312,7 +312,7 @@ static int ParserState_process_token(ParserState *state, const char *token)
                 state->linenum, token);
             return 0;
         }
-        for (i = 0; i < 64 && token[i] != '='; i++) {
+        for (i = 0; i < 63 && token[i] != '='; i++) {
             name[i] = token[i];
         }
         name[i] = '\0';
-- 
2.43.0


From 857c7ac279f8393acaa8342720519e776f5120fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 13/63] fix: battery file: missing 'test' and 'bitpos'
 arguments caused a crash

---
 src/bat_file.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index 9459be2..5b73004 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -584,6 +584,10 @@ static int parse_linearcomp(TestDescription *out, const TestInfo *obj, char *err
     GET_LIMITED_INTVALUE(nbits, 8, 1ll << 30ll);
     const char *bitpos_descr = TestInfo_get_value(obj, "bitpos");
     long long bitpos;
+    if (bitpos_descr == NULL) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "Argument 'bitpos' not found");
+        return 0;
+    }
     if (!strcmp(bitpos_descr, "low")) {
         bitpos = LINEARCOMP_BITPOS_LOW;
     } else if (!strcmp(bitpos_descr, "mid")) {
@@ -761,6 +765,11 @@ BatteryExitCode battery_file(const char *filename, const GeneratorInfo *gen,
         const char *name = TestInfo_get_value(&tests_args.tests[i], "test");
         const TestInfo *curtest = &tests_args.tests[i];
         int parsed = 0;
+        if (name == NULL) {
+            fprintf(stderr, "Error in line %d. Argument 'test' not found\n", curtest->linenum);
+            ans = BATTERY_ERROR;
+            goto battery_file_freemem;
+        }
         for (const TestFunc *parser = parsers; parser->name != NULL; parser++) {
             if (!strcmp(name, parser->name)) {
                 is_ok = parser->func(&tests[i], curtest, errmsg);
-- 
2.43.0


From 4f04f842d510dff4a6fa6c2124e8ae1b18eca4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 14/63] fix: battery file: some invalid combinations of
 parameters were not rejected

---
 src/bat_file.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/bat_file.c b/src/bat_file.c
index 5b73004..5d7df31 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -372,6 +372,10 @@ static int parse_bspace_nd(TestDescription *out, const TestInfo *obj, char *errm
     GET_LIMITED_INTVALUE(ndims, 1, 64)
     GET_LIMITED_INTVALUE(nsamples, 1, 1ll << 30ll)
     GET_LIMITED_INTVALUE(get_lower, 0, 1)
+    if (nbits_per_dim * ndims > 64) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "nbits_per_dim*ndims must not exceed 64");
+        return 0;
+    }
     BSpaceNDOptions *opts = calloc(1, sizeof(BSpaceNDOptions));
     if (opts == NULL) {
         fprintf(stderr, "***** parse_bspace_nd: not enough memory *****");
@@ -395,6 +399,10 @@ static int parse_collover_nd(TestDescription *out, const TestInfo *obj, char *er
     GET_LIMITED_INTVALUE(nsamples, 1, 1ll << 30ll)
     GET_LIMITED_INTVALUE(get_lower, 0, 1)
     GET_LIMITED_INTVALUE(n, 1000, 1ll << 30ll)
+    if (nbits_per_dim * ndims > 63) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "nbits_per_dim*ndims must not exceed 63");
+        return 0;
+    }
     CollOverNDOptions *opts = calloc(1, sizeof(CollOverNDOptions));
     if (opts == NULL) {
         fprintf(stderr, "***** parse_collover_nd: not enough memory *****");
@@ -443,6 +451,10 @@ static int parse_nbit_words_freq(TestDescription *out, const TestInfo *obj, char
     GET_LIMITED_INTVALUE(bits_per_word, 1, 16)
     GET_LIMITED_INTVALUE(average_freq, 8, 1ll << 20ll)
     GET_LIMITED_INTVALUE(nblocks, 16, 1ll << 30ll)
+    if ((average_freq << bits_per_word) < 64 / bits_per_word) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "'average_freq' is too small for this 'bits_per_word'");
+        return 0;
+    }
     NBitWordsFreqOptions *opts = calloc(1, sizeof(NBitWordsFreqOptions));
     if (opts == NULL) {
         fprintf(stderr, "***** parse_nbit_words_freq: not enough memory *****");
@@ -476,8 +488,12 @@ static int parse_bspace4_8d_decimated(TestDescription *out, const TestInfo *obj,
 
 static int parse_gap(TestDescription *out, const TestInfo *obj, char *errmsg)
 {
-    GET_LIMITED_INTVALUE(shl, 1, 64)
+    GET_LIMITED_INTVALUE(shl, 1, 32)
     GET_LIMITED_INTVALUE(ngaps, 10000, 1ll << 40ll)
+    if ((ngaps >> shl) < 16) {
+        snprintf(errmsg, ERRMSG_BUF_SIZE, "'ngaps' is too small for this 'shl'");
+        return 0;
+    }
     GapOptions *opts = calloc(1, sizeof(GapOptions));
     if (opts == NULL) {
         fprintf(stderr, "***** parse_gap: not enough memory *****");
@@ -494,7 +510,7 @@ static int parse_gap(TestDescription *out, const TestInfo *obj, char *errmsg)
 
 static int parse_gap16_count0(TestDescription *out, const TestInfo *obj, char *errmsg)
 {
-    GET_LIMITED_INTVALUE(ngaps, 10000, 1ll << 40ll)
+    GET_LIMITED_INTVALUE(ngaps, 10000000, 1ll << 40ll)
     Gap16Count0Options *opts = calloc(1, sizeof(Gap16Count0Options));
     if (opts == NULL) {
         fprintf(stderr, "***** parse_gap16_count0: not enough memory *****");
@@ -595,7 +611,7 @@ static int parse_linearcomp(TestDescription *out, const TestInfo *obj, char *err
     } else if (!strcmp(bitpos_descr, "high")) {
         bitpos = LINEARCOMP_BITPOS_HIGH;
     } else {
-        bitpos = TestInfo_get_limited_intvalue(obj, "bitpos", 0, 64, errmsg);
+        bitpos = TestInfo_get_limited_intvalue(obj, "bitpos", 0, 63, errmsg);
         if (bitpos == LLONG_MAX) {
             return 0;
         }
-- 
2.43.0


From a4dbd4353f6e7497793c671cc2f800b55a98511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 15/63] fix: battery file: tails of long lines (even comments)
 were parsed as new lines

---
 src/bat_file.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index 5d7df31..bbe88e3 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -333,9 +333,17 @@ static TestInfoArray load_tests(const char *filename)
         return state.tests;
     }
     while (fgets(state.linetxt, 512, fp)) {
+        const int is_truncated = strlen(state.linetxt) == 511 &&
+            state.linetxt[510] != '\n' && !feof(fp);
         // Erase comments, ignore empty strings
         erase_comments(state.linetxt, 512);
         state.linenum++;
+        if (is_truncated) {
+            fprintf(stderr, "Error in line %d: it is too long\n", state.linenum);
+            ParserState_destruct(&state);
+            fclose(fp);
+            return state.tests;
+        }
         char *token = strtok(state.linetxt, " \t\r\n");
         if (token == NULL) {
             continue;
-- 
2.43.0


From 9154813415bc7c563371cf0d84088148c302ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 16/63] fix: battery file: no diagnostic for a file without
 tests

---
 src/bat_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bat_file.c b/src/bat_file.c
index bbe88e3..83a6f03 100644
--- a/src/bat_file.c
+++ b/src/bat_file.c
@@ -772,6 +772,7 @@ BatteryExitCode battery_file(const char *filename, const GeneratorInfo *gen,
     errmsg[0] = '\0';
     TestInfoArray tests_args = load_tests(filename);
     if (tests_args.ntests == 0) {
+        fprintf(stderr, "No tests were loaded from '%s'\n", filename);
         TestInfoArray_destruct(&tests_args);
         return BATTERY_ERROR;
     }
-- 
2.43.0


From 24f159f9fb1c60382977587370b8bf9712c01a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 17/63] fix: --maxlen_log2 accepted any value

---
 apps/smokerand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index f8bce30..c8c2199 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -168,7 +168,7 @@ static BatteryExitCode process_argument(SmokeRandSettings *obj,
 
 DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", argval > 0)
 DEFINE_NUMARG_CALLBACK(testid, "testid", argval > 0)
-DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval || argval <= 63)
+DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval && argval <= 63)
 
 
 static BatteryExitCode SmokeRandSettings_numarg_load(SmokeRandSettings *obj,
-- 
2.43.0


From fe92351c409b53420f759a6c367685ee107acb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 18/63] fix: --nthreads: more than 255 threads break both
 dispatcher and seed format

---
 apps/smokerand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index c8c2199..8f030db 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -166,7 +166,7 @@ static BatteryExitCode process_argument(SmokeRandSettings *obj,
 
 
 
-DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", argval > 0)
+DEFINE_NUMARG_CALLBACK(nthreads, "nthreads", 0 < argval && argval <= 255)
 DEFINE_NUMARG_CALLBACK(testid, "testid", argval > 0)
 DEFINE_NUMARG_CALLBACK(maxlen_log2, "maxlen_log2", 12 <= argval && argval <= 63)
 
-- 
2.43.0


From f80987ed440ea0a5a6ad60eb75b2a11d934fe79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 19/63] fix: successful stdout modes returned an error exit
 code

---
 apps/smokerand.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index 8f030db..dec8c3e 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -445,10 +445,13 @@ BatteryExitCode run_battery(const char *battery_name, GeneratorInfo *gi,
         ans = battery_shared_lib(filename, gi, intf, &bat_opts);
     } else if (!strcmp(battery_name, "stdout")) {
         GeneratorInfo_bits_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else if (!strcmp(battery_name, "stdoutfl")) {
         GeneratorInfo_floats_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else if (!strcmp(battery_name, "stdoutflx")) {
         GeneratorInfo_accurate_floats_to_file(gi, intf, opts->maxlen_log2);
+        ans = BATTERY_PASSED;
     } else {
         for (const BatteryEntry *entry = batteries; entry->name != NULL; entry++) {
             if (!strcmp(battery_name, entry->name)) {
-- 
2.43.0


From dca35352e8dfa899aaf1cfe1cdafbef79ed113f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 20/63] fix: list of tests for an invalid battery file returned
 success

---
 apps/smokerand.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index dec8c3e..ea40f96 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -482,7 +482,7 @@ int print_battery_info(const char *battery_name)
         battery_full(NULL, NULL, &opts);
     } else if (strlen(battery_name) > 2 &&
         battery_name[0] == 'f' && battery_name[1] == '=') {
-        battery_file(battery_name + 2, NULL, NULL, &opts);
+        return battery_file(battery_name + 2, NULL, NULL, &opts);
     } else {
         fprintf(stderr, "Information about battery %s is absent\n",
             battery_name);
-- 
2.43.0


From d60252f00e6336aeea3a6a1dafeba126418cab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 21/63] fix: stdoutflx: exponent for values below 2^-12 was too
 large by 1

---
 src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.c b/src/core.c
index 3d5d784..bcf6b2f 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1300,7 +1300,7 @@ static double make_accurate_float(GeneratorInfo *gen, void *state)
         if (lz2 == 64U) {
             lz2 += countl_zero_u64(generate_u64(gen, state));
         }
-        e -= lz2 + 11U;
+        e -= lz2 + 12U;
     }
     res.u = (e << 52) | (out & 0xFFFFFFFFFFFFF);
     return res.f;
-- 
2.43.0


From 920bde2ee4bba9201141479b0d6c531bd49a4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 22/63] fix: filters used a generator that could not be created

---
 src/core.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core.c b/src/core.c
index bcf6b2f..926ec98 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1057,6 +1057,10 @@ void *create_enveloped(const GeneratorInfo *gi, const CallerAPI *intf)
     EnvelopedGeneratorState *obj = intf->malloc(sizeof(EnvelopedGeneratorState));
     obj->parent_gi = gi->parent;
     obj->parent_state = gi->parent->create(gi->parent, intf);
+    if (obj->parent_state == NULL) {
+        intf->free(obj);
+        return NULL;
+    }
     obj->i32buf.pos = 2; // Invalidate buffer for interleaved output
     return obj;
 }
-- 
2.43.0


From 0ddd5e800df22d7492803a2008a2ef68ad009925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 23/63] fix: stdout modes used a generator that could not be
 created

---
 src/core.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core.c b/src/core.c
index 926ec98..28610a5 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1222,7 +1222,8 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
     set_bin_stdout();
-    void *state = gen->create(gen, intf);
+    GeneratorState obj = GeneratorState_create(gen, intf);
+    void *state = obj.state;
     unsigned int shl = maxlen_log2_to_nblocks32_log2(maxlen_log2);
     if (gen->nbits == 32) {
         uint32_t buf[256];        
@@ -1254,7 +1255,8 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
 void GeneratorInfo_floats_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
-    void *state = gen->create(gen, intf);
+    GeneratorState obj = GeneratorState_create(gen, intf);
+    void *state = obj.state;
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     if (gen->nbits == 32) {
         const double inv32 = pow(2.0, -32.0);
@@ -1318,7 +1320,8 @@ static double make_accurate_float(GeneratorInfo *gen, void *state)
 void GeneratorInfo_accurate_floats_to_file(GeneratorInfo *gen,
     const CallerAPI *intf, unsigned int maxlen_log2)
 {
-    void *state = gen->create(gen, intf);
+    GeneratorState obj = GeneratorState_create(gen, intf);
+    void *state = obj.state;
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     for (unsigned long long i = 0; i < nfloats; i++) {
         const double f = make_accurate_float(gen, state);
-- 
2.43.0


From 14c7a82836367e7737d2c356c0693a609bb66a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 24/63] fix: birthday test: division by zero for small samples

---
 src/extratests.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extratests.c b/src/extratests.c
index 8c4cc19..852a436 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -175,7 +175,8 @@ TestResults birthday_test(GeneratorState *obj, const BirthdayOptions *opts)
 
     const double bytes_per_sec = birthday_get_bytes_per_sec(obj, opts, mask);
     const double time_elapsed = 8.0 * (double) nvalues_raw / bytes_per_sec;
-    unsigned long long chunk_size = opts->n / (unsigned long long) (time_elapsed * 5.0);
+    const unsigned long long nchunks = (unsigned long long) (time_elapsed * 5.0);
+    unsigned long long chunk_size = (nchunks > 0) ? (opts->n / nchunks) : opts->n;
     if (chunk_size < 1) {
         chunk_size = 1;
     }
-- 
2.43.0


From 6a3d2c25b395e692c9a351c650561f2bc1079d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 25/63] fix: quicksort64: out-of-bounds read for an empty array

---
 src/core.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core.c b/src/core.c
index 28610a5..3f081f3 100644
--- a/src/core.c
+++ b/src/core.c
@@ -414,7 +414,9 @@ static void quicksort_range(uint64_t *v, ptrdiff_t begin, ptrdiff_t end)
 
 void quicksort64(uint64_t *x, size_t len)
 {
-    quicksort_range(x, 0, (ptrdiff_t) (len - 1));
+    if (len > 1) {
+        quicksort_range(x, 0, (ptrdiff_t) (len - 1));
+    }
 }
 
 
-- 
2.43.0


From ac00144f174ddf127916be0e7a704de89ddbe531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 26/63] fix: 65536 bins of the 16-bit block frequency test have
 65535 degrees of freedom

---
 src/extratests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extratests.c b/src/extratests.c
index 852a436..2692147 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -406,7 +406,7 @@ int BlockFrequency_calc(BlockFrequency *obj)
         "8 bits", chi2_bytes, sr_chi2_pvalue(chi2_bytes, 255),
         zmax_bytes, zmax_bytes_ind, p_bytes, pcrit_bytes);
     printf("  %10s %10g %10.2g %10.3g %10ld %10.2g %10.2g\n",
-        "16 bits", chi2_w16, sr_chi2_pvalue(chi2_w16, 65536),
+        "16 bits", chi2_w16, sr_chi2_pvalue(chi2_w16, 65535),
         zmax_w16, zmax_w16_ind, p_w16, pcrit_w16);
     // p-values interpretation
     if (p_bytes < pcrit_bytes) {
-- 
2.43.0


From 8afe93774566f0848255609043f0519982d304e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 27/63] fix: collisionover: mean number of collisions lost to
 cancellation in sparse tables

---
 src/coretests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index a3233ed..941a232 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -480,7 +480,7 @@ TestResults collisionover_test(GeneratorState *obj, const CollOverNDOptions *opt
     Oi[0] = nstates_u64;
     double nstates = (double) nstates_u64;
     double lambda = ((double) n - (double) opts->ndims + 1.0) / nstates;
-    double mu = nstates * (lambda - 1 + exp(-lambda));
+    double mu = nstates * (lambda + sr_expm1(-lambda)); // No cancellation at small lambda
     TestResults ans;
     ans.name = "CollisionOver";
     obj->intf->printf("CollisionOver test\n");
-- 
2.43.0


From b0e33ec2abbb81e776f033d3b2696557d3a566c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 28/63] fix: Ising Metropolis: do not convert 2^64 to uint64_t
 (undefined; spins were never flipped on SSE2 at dE=0)

---
 src/extratests.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/extratests.c b/src/extratests.c
index 2692147..983f4f4 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -585,7 +585,9 @@ void Ising2DLattice_pass_metropolis(Ising2DLattice *obj, GeneratorState *gs)
     uint64_t n_same_to_p_int[5];
     for (int i = 2; i <= 4; i++) {
         const double dE = (i - 2) * 4;
-        n_same_to_p_int[i] = (uint64_t) (exp(-dE * jc) * p_mul);
+        const double p = exp(-dE * jc) * p_mul;
+        // 2^64 (i.e. dE = 0 for 64-bit generators) doesn't fit into uint64_t
+        n_same_to_p_int[i] = (p < 18446744073709551616.0) ? (uint64_t) p : UINT64_MAX;
     }
 
     for (size_t ii = 0; ii < obj->N; ii++) {
-- 
2.43.0


From 9d993131fcaeb3dfcb0c4f395d7df04702a3a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 29/63] fix: --filter was silently ignored for stdin32 and
 stdin64

---
 apps/smokerand.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index ea40f96..b26dbb4 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -492,6 +492,17 @@ int print_battery_info(const char *battery_name)
 }
 
 
+static int is_filter_supported(const GeneratorInfo *gi, GeneratorFilter filter)
+{
+    if (gi->nbits != 64 && (filter == FILTER_INTERLEAVED32 ||
+        filter == FILTER_HIGH32 || filter == FILTER_LOW32)) {
+        fprintf(stderr, "This filter is supported only for 64-bit generators\n");
+        return 0;
+    }
+    return 1;
+}
+
+
 static void apply_filter(GeneratorInfo **gi, GeneratorFilter filter, GeneratorInfo *filter_gen)
 {
     switch (filter) {
@@ -597,8 +608,15 @@ int main(int argc, char *argv[])
         } else {
             stdin_gi = StdinCollector_get_info(stdin_collector_64bit);
         }
-        GeneratorInfo_print(&stdin_gi, is_stdout);
-        BatteryExitCode ans = run_battery(battery_name, &stdin_gi, &intf, &opts);
+        GeneratorInfo filter_gen;
+        GeneratorInfo *gi = &stdin_gi;
+        if (!is_filter_supported(gi, opts.filter)) {
+            CallerAPI_free();
+            return BATTERY_ERROR;
+        }
+        apply_filter(&gi, opts.filter, &filter_gen);
+        GeneratorInfo_print(gi, is_stdout);
+        BatteryExitCode ans = run_battery(battery_name, gi, &intf, &opts);
         StdinCollector_print_report();
         CallerAPI_free();
         return ans;
@@ -611,9 +629,7 @@ int main(int argc, char *argv[])
             return BATTERY_ERROR;
         }
         GeneratorInfo *gi = &mod.gen;
-        if (gi->nbits != 64 && (opts.filter == FILTER_INTERLEAVED32 ||
-            opts.filter == FILTER_HIGH32 || opts.filter == FILTER_LOW32)) {
-            fprintf(stderr, "This filter is supported only for 64-bit generators\n");
+        if (!is_filter_supported(gi, opts.filter)) {
             CallerAPI_free();
             return BATTERY_ERROR;
         }
-- 
2.43.0


From 1b39d07e96c5961f74dacde04b9ee823fdbcc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 30/63] fix: the last incomplete block of stdin data was
 discarded

---
 src/fileio.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fileio.c b/src/fileio.c
index 97df81d..dc88fc6 100644
--- a/src/fileio.c
+++ b/src/fileio.c
@@ -20,15 +20,17 @@ static unsigned long long nbytes_total = 0;
 typedef struct {
     uint8_t buffer[STDIN_COLLECTOR_BUFFER_SIZE];
     size_t pos;
+    size_t len;
 } StdinCollector;
 
 
-static void StdinCollector_fill_buffer(StdinCollector *obj)
+static void StdinCollector_fill_buffer(StdinCollector *obj, size_t word_size)
 {
     size_t nbytes = fread(obj->buffer, 1, STDIN_COLLECTOR_BUFFER_SIZE, stdin);
     nbytes_total += nbytes;
     obj->pos = 0;
-    if (nbytes != STDIN_COLLECTOR_BUFFER_SIZE) {
+    obj->len = nbytes - nbytes % word_size;
+    if (obj->len == 0) {
         fprintf(stderr, "Reading from stdin failed");
         exit(EXIT_FAILURE);
     }
@@ -38,7 +40,8 @@ static void *StdinCollector_create(const GeneratorInfo *gi, const CallerAPI *int
 {
     StdinCollector *obj = intf->malloc(sizeof(StdinCollector));
     (void) *gi;
-    obj->pos = STDIN_COLLECTOR_BUFFER_SIZE;
+    obj->pos = 0;
+    obj->len = 0;
     set_bin_stdin();
     return (void *) obj;
 }
@@ -56,9 +59,8 @@ static void StdinCollector_free(void *state, const GeneratorInfo *gi, const Call
 static inline uint64_t get_bits32_raw(void *state)
 {
     StdinCollector *obj = state;
-    if (obj->pos >= STDIN_COLLECTOR_BUFFER_SIZE) {
-        StdinCollector_fill_buffer(obj);
-        obj->pos = 0;
+    if (obj->pos >= obj->len) {
+        StdinCollector_fill_buffer(obj, sizeof(uint32_t));
     }
     void *ptr = (void *) (obj->buffer + obj->pos);
     uint32_t x = *( (uint32_t *) ptr );
@@ -87,9 +89,8 @@ static uint64_t get_bits32(void *state)
 static inline uint64_t get_bits64_raw(void *state)
 {
     StdinCollector *obj = state;
-    if (obj->pos >= STDIN_COLLECTOR_BUFFER_SIZE) {
-        StdinCollector_fill_buffer(obj);
-        obj->pos = 0;
+    if (obj->pos >= obj->len) {
+        StdinCollector_fill_buffer(obj, sizeof(uint64_t));
     }
     void *ptr = (void *) (obj->buffer + obj->pos);
     uint64_t x = *( (uint64_t *) ptr );
-- 
2.43.0


From 77af40bcb0b8ad40699408f8330c3ec69e4ddfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:26 +0000
Subject: [PATCH 31/63] fix: stdout modes did not stop when the output was
 closed and SIGPIPE was ignored

---
 src/core.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core.c b/src/core.c
index 3f081f3..2e05e15 100644
--- a/src/core.c
+++ b/src/core.c
@@ -1234,7 +1234,7 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
             for (size_t j = 0; j < 256; j++) {
                 buf[j] = (uint32_t) gen->get_bits(state);
             }
-            fwrite(buf, sizeof(uint32_t), 256, stdout);
+            if (fwrite(buf, sizeof(uint32_t), 256, stdout) != 256) break;
         }
     } else {
         uint64_t buf[256];
@@ -1243,7 +1243,7 @@ void GeneratorInfo_bits_to_file(GeneratorInfo *gen,
             for (size_t j = 0; j < 256; j++) {
                 buf[j] = gen->get_bits(state);
             }
-            fwrite(buf, sizeof(uint64_t), 256, stdout);
+            if (fwrite(buf, sizeof(uint64_t), 256, stdout) != 256) break;
         }
     }
     gen->free(state, gen, intf);
@@ -1264,13 +1264,13 @@ void GeneratorInfo_floats_to_file(GeneratorInfo *gen,
         const double inv32 = pow(2.0, -32.0);
         for (unsigned long long i = 0; i < nfloats; i++) {
             const uint32_t u = (uint32_t) gen->get_bits(state);
-            fprintf(stdout, "%.20g\n", (double) u * inv32);
+            if (fprintf(stdout, "%.20g\n", (double) u * inv32) < 0) break;
         }
     } else {
         const double inv64 = pow(2.0, -64.0);
         for (unsigned long long i = 0; i < nfloats; i++) {
             const uint64_t u = gen->get_bits(state);
-            fprintf(stdout, "%.20g\n", (double) u * inv64);
+            if (fprintf(stdout, "%.20g\n", (double) u * inv64) < 0) break;
         }
     }
     gen->free(state, gen, intf);
@@ -1327,7 +1327,7 @@ void GeneratorInfo_accurate_floats_to_file(GeneratorInfo *gen,
     const unsigned long long nfloats = maxlen_log2_to_nfloats(maxlen_log2);
     for (unsigned long long i = 0; i < nfloats; i++) {
         const double f = make_accurate_float(gen, state);
-        fprintf(stdout, "%.20g\n", f);
+        if (fprintf(stdout, "%.20g\n", f) < 0) break;
     }
     gen->free(state, gen, intf);
 }
-- 
2.43.0


From 6987a0bc6e64a75fc12d82f319182ee230b0e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 32/63] fix: biski64_mul: initialize the mix word of the state

---
 generators/biski64_mul.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/biski64_mul.c b/generators/biski64_mul.c
index e6a5204..8890724 100644
--- a/generators/biski64_mul.c
+++ b/generators/biski64_mul.c
@@ -37,6 +37,7 @@ static void *create(const CallerAPI *intf)
     obj->old_mix = 0;
     obj->old_rot = 0;
     obj->last_mix = 0;
+    obj->mix = intf->get_seed64();
     obj->ctr = intf->get_seed64();
     obj->output = intf->get_seed64();
     return obj;
-- 
2.43.0


From a0a5cd83f7cdc02b9cf92a401c23c15771011080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 33/63] fix: mularx256: initialize the counter words of the
 state

---
 generators/mularx256.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/mularx256.c b/generators/mularx256.c
index 33189aa..93acfa7 100644
--- a/generators/mularx256.c
+++ b/generators/mularx256.c
@@ -65,7 +65,7 @@ static void *create(const CallerAPI *intf)
 {
     Mularx256State *obj = intf->malloc(sizeof(Mularx256State));
     obj->pos = 4;
-    obj->x[0] = obj->x[1] = obj->x[2];
+    obj->x[0] = obj->x[1] = obj->x[2] = 0;
     obj->x[3] = 0;//intf->get_seed64();
     return (void *) obj;
 }
-- 
2.43.0


From 25e5e4773c8af1d7a738bb84a734fcc5b48f965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 34/63] fix: ranrot32: initialize the whole lagged state

---
 generators/ranrot32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/ranrot32.c b/generators/ranrot32.c
index 9f97af1..28fdba9 100644
--- a/generators/ranrot32.c
+++ b/generators/ranrot32.c
@@ -83,7 +83,7 @@ static void *create_ranrot32(const CallerAPI *intf, int lag1, int lag2)
     // pcg_rxs_m_xs64 for initialization
     uint64_t state = intf->get_seed64();
     obj->lag1 = lag1; obj->lag2 = lag2;
-    for (int i = 0; i < obj->lag2; i++) {
+    for (int i = 0; i < obj->lag1; i++) {
         obj->x[i] = (uint32_t) (pcg_bits64(&state) >> 32);
     }
     obj->pos = 0; // Mark buffer uninitialized
-- 
2.43.0


From 17506776f3ef2f5c2c03be7c0507b9ef1dafb7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 35/63] fix: smwc192, smwc192lux: initialize the x2 word of the
 state

---
 generators/smwc192.c    | 1 +
 generators/smwc192lux.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/generators/smwc192.c b/generators/smwc192.c
index 3c9c973..5c528c3 100644
--- a/generators/smwc192.c
+++ b/generators/smwc192.c
@@ -61,6 +61,7 @@ static void *create(const CallerAPI *intf)
 {
     MWC192State *obj = intf->malloc(sizeof(MWC192State));
     obj->x = intf->get_seed64();
+    obj->x2 = intf->get_seed64();
     obj->c = 1;
     return (void *) obj;
 }
diff --git a/generators/smwc192lux.c b/generators/smwc192lux.c
index 8f41555..08cc7c7 100644
--- a/generators/smwc192lux.c
+++ b/generators/smwc192lux.c
@@ -62,6 +62,7 @@ static void *create(const CallerAPI *intf)
 {
     MWC192State *obj = intf->malloc(sizeof(MWC192State));
     obj->x = intf->get_seed64();
+    obj->x2 = intf->get_seed64();
     obj->c = 1;
     return (void *) obj;
 }
-- 
2.43.0


From 474419562e11c1822c36078a6d056d6df42c2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 36/63] fix: threefry2x64: initialize the buffer position in
 the scalar version

---
 generators/threefry2x64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/threefry2x64.c b/generators/threefry2x64.c
index c6a98d3..8f1c37e 100644
--- a/generators/threefry2x64.c
+++ b/generators/threefry2x64.c
@@ -108,6 +108,7 @@ static void Threefry2x64State_init(Threefry2x64State *obj, const uint64_t *k)
         obj->p[i] = 0;
         obj->k[NWORDS] ^= obj->k[i];
     }
+    obj->pos = NWORDS;
 }
 
 
-- 
2.43.0


From 036cd1699f5a04b436bc3d2acd95e7f5180beb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 37/63] fix: xoroshiro128++, xorshift128++: seed the vectorized
 versions

---
 generators/xoroshiro128pp.c | 3 +++
 generators/xorshift128pp.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/generators/xoroshiro128pp.c b/generators/xoroshiro128pp.c
index f963879..c51f99b 100644
--- a/generators/xoroshiro128pp.c
+++ b/generators/xoroshiro128pp.c
@@ -229,6 +229,9 @@ static void Xoroshiro128PPVecState_init(Xoroshiro128PPVecState *obj, uint64_t s0
     if (s0 == 0 && s1 == 0) {
         obj->s0[0] = 0x0123456789ABCDEFULL;
         obj->s1[0] = 0xDEADBEEFDEADBEEFULL;
+    } else {
+        obj->s0[0] = s0;
+        obj->s1[0] = s1;
     }
     for (int i = 0; i < NCOPIES - 1; i++) {
         long_jump(obj->s0 + i + 1, obj->s1 + i + 1, obj->s0[i], obj->s1[i]);
diff --git a/generators/xorshift128pp.c b/generators/xorshift128pp.c
index 018fc56..182a9cd 100644
--- a/generators/xorshift128pp.c
+++ b/generators/xorshift128pp.c
@@ -197,6 +197,9 @@ static void Xorshift128PPVecState_init(Xorshift128PPVecState *obj, uint64_t s0,
     if (s0 == 0 && s1 == 0) {
         obj->s0[0] = 0x0123456789ABCDEFULL;
         obj->s1[0] = 0xDEADBEEFDEADBEEFULL;
+    } else {
+        obj->s0[0] = s0;
+        obj->s1[0] = s1;
     }
     for (int i = 0; i < NCOPIES - 1; i++) {
         jump(obj->s0 + i + 1, obj->s1 + i + 1, obj->s0[i], obj->s1[i]);
-- 
2.43.0


From ed12a085fcb7209615100f9db89e3c2a817ceb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 38/63] fix: xxtea: initialize all counter words in the
 vectorized 256-bit version

---
 generators/xxtea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/xxtea.c b/generators/xxtea.c
index ecd46c9..d54078c 100644
--- a/generators/xxtea.c
+++ b/generators/xxtea.c
@@ -448,7 +448,7 @@ void Xxtea256VecState_init(Xxtea256VecState *obj, const uint32_t *key)
     for (unsigned int i = 0; i < XXTEA_NCOPIES; i++) {
         obj->ctr[i] = i;
     }
-    for (size_t i = XXTEA_NCOPIES; i < 4 * XXTEA_NCOPIES; i++) {
+    for (size_t i = XXTEA_NCOPIES; i < 8 * XXTEA_NCOPIES; i++) {
         obj->ctr[i] = 0;
     }
     obj->intf.iter_func = Xxtea256VecState_iter_func;
-- 
2.43.0


From 5b54aee82a1f3b7abb3eecfb715daf300db625dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 39/63] fix: lxm_64x128: use the published rotation (24)
 instead of an out of range one

---
 generators/lxm_64x128.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/lxm_64x128.c b/generators/lxm_64x128.c
index ca43263..e34893f 100644
--- a/generators/lxm_64x128.c
+++ b/generators/lxm_64x128.c
@@ -52,7 +52,7 @@ static inline uint64_t get_bits_raw(LXMState *obj)
     // Update the XBG subgenerator (xoroshiro128v1_0)
     uint64_t x0 = obj->x0, x1 = obj->x1;
     x1 ^= x0;
-    x0 = rotl64(x0, 64) ^ x1 ^ (x1 << 16);
+    x0 = rotl64(x0, 24) ^ x1 ^ (x1 << 16);
     x1 = rotl64(x1, 37);
     obj->x0 = x0; obj->x1 = x1;
     // Return result
-- 
2.43.0


From d94c95e2cb70c1985078293fecfa025cfa26b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 40/63] fix: pcg32_xsl_rr: take the rotation from the 5 upper
 bits

---
 generators/pcg32_xsl_rr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/pcg32_xsl_rr.c b/generators/pcg32_xsl_rr.c
index e08ec57..14e7016 100644
--- a/generators/pcg32_xsl_rr.c
+++ b/generators/pcg32_xsl_rr.c
@@ -17,7 +17,7 @@ static inline uint64_t get_bits_raw(Lcg64State *obj)
 {
     obj->x = obj->x * 6906969069ull + 1ull;
     const uint32_t xored = (uint32_t) ((obj->x >> 32) ^ (obj->x & 0xFFFFFFFF));
-    return rotr32(xored, (int) (obj->x >> 58));
+    return rotr32(xored, (int) (obj->x >> 59));
 }
 
 static void *create(const CallerAPI *intf)
-- 
2.43.0


From 884584a136449168b29cb396ba23e40efb263693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 41/63] fix: smwc48, smwc48lux: no signed overflow in the
 output function

---
 generators/smwc48.c    | 2 +-
 generators/smwc48lux.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generators/smwc48.c b/generators/smwc48.c
index 8ac276b..2ee9aed 100644
--- a/generators/smwc48.c
+++ b/generators/smwc48.c
@@ -45,7 +45,7 @@ static inline uint16_t get_bits16(Smwc48State *obj)
 {
     static const uint32_t MWC_A1 = 0xfefa;//0xe8c5;
     static const uint16_t LCG_A1 = 62317u;
-    uint16_t out = (uint16_t) ((LCG_A1 * obj->x) ^ ((obj->x2 << 5) | (obj->x2 >> 11)));
+    uint16_t out = (uint16_t) (((uint32_t) LCG_A1 * obj->x) ^ ((obj->x2 << 5) | (obj->x2 >> 11)));
 //    uint16_t out = obj->x ^ obj->x2;
     uint32_t mul = MWC_A1 * obj->x + obj->c;
     obj->c = (uint16_t) (mul >> 16);
diff --git a/generators/smwc48lux.c b/generators/smwc48lux.c
index 702724c..9dc4e3f 100644
--- a/generators/smwc48lux.c
+++ b/generators/smwc48lux.c
@@ -45,7 +45,7 @@ static inline uint16_t get_bits16(Smwc48State *obj)
 {
     static const uint32_t MWC_A1 = 0xfefa;//0xe8c5;
     static const uint16_t LCG_A1 = 62317u;
-    uint16_t out = (uint16_t) ((LCG_A1 * obj->x) ^ rotl16(obj->x2, 5));
+    uint16_t out = (uint16_t) (((uint32_t) LCG_A1 * obj->x) ^ rotl16(obj->x2, 5));
     for (int i = 0; i < 3; i++) {
         uint32_t mul = MWC_A1 * obj->x + obj->c;
         obj->c = (uint16_t) (mul >> 16);
-- 
2.43.0


From 0c94e5ea9c5b8e3432e11339e2cadedf5631a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 42/63] fix: superduper64: terminate the list of variants (an
 unknown --param crashed)

---
 generators/superduper64.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generators/superduper64.c b/generators/superduper64.c
index 470fd80..fbb3245 100644
--- a/generators/superduper64.c
+++ b/generators/superduper64.c
@@ -100,6 +100,7 @@ static const GeneratorParamVariant gen_list[] = {
     {"",      "SuperDuper64:u64", 64, default_create, get_bits_u64, get_sum_u64},
     {"u64",   "SuperDuper64:u64", 64, default_create, get_bits_u64, get_sum_u64},
     {"u32",   "SuperDuper64:u32", 32, default_create, get_bits_u32, get_sum_u32},
+    GENERATOR_PARAM_VARIANT_EMPTY
 };
 
 
-- 
2.43.0


From 056db82de8c3f379862ffbea494b9927c4e7f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 43/63] fix: xtea: refuse the vectorized version without AVX2
 (it returned zeros)

---
 generators/xtea.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generators/xtea.c b/generators/xtea.c
index f89a75c..2d87f14 100644
--- a/generators/xtea.c
+++ b/generators/xtea.c
@@ -237,6 +237,7 @@ MAKE_GET_BITS_WRAPPERS(vector)
 
 static void *create_vector(const GeneratorInfo *gi, const CallerAPI *intf)
 {
+#ifdef XTEA_VEC_ENABLED
     XteaVecState *obj = intf->malloc(sizeof(XteaVecState));
     uint32_t key[4];
     seeds_to_array_u32(intf, key, 4);
@@ -254,6 +255,11 @@ static void *create_vector(const GeneratorInfo *gi, const CallerAPI *intf)
     }
     (void) gi;
     return obj;
+#else
+    (void) gi;
+    intf->printf("XTEA: the vectorized version requires AVX2\n");
+    return NULL;
+#endif
 }
 
 static int run_self_test_vector(const CallerAPI *intf)
-- 
2.43.0


From 4dc2a3d08e47640c74f82ed25e565c59a5bde656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 44/63] fix: des, melg*: free the state allocated by the
 self-test

---
 generators/des.c       | 1 +
 generators/melg19937.c | 1 +
 generators/melg44497.c | 1 +
 generators/melg607.c   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/generators/des.c b/generators/des.c
index f20dbc5..0d7ed13 100644
--- a/generators/des.c
+++ b/generators/des.c
@@ -407,6 +407,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
diff --git a/generators/melg19937.c b/generators/melg19937.c
index f76492b..814f69b 100644
--- a/generators/melg19937.c
+++ b/generators/melg19937.c
@@ -145,6 +145,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
diff --git a/generators/melg44497.c b/generators/melg44497.c
index d032617..145d623 100644
--- a/generators/melg44497.c
+++ b/generators/melg44497.c
@@ -145,6 +145,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
diff --git a/generators/melg607.c b/generators/melg607.c
index 780c642..269a316 100644
--- a/generators/melg607.c
+++ b/generators/melg607.c
@@ -146,6 +146,7 @@ static int run_self_test(const CallerAPI *intf)
             is_ok = 0;
         }
     }
+    intf->free(obj);
     return is_ok;
 }
 
-- 
2.43.0


From 3b80142aaad04b79db2714a3b7e45ba4aef4623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 45/63] fix: mrg32k3a: make_seed was an undefined symbol in
 builds without inlining

---
 generators/mrg32k3a.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/mrg32k3a.c b/generators/mrg32k3a.c
index 161c8b1..01bb34b 100644
--- a/generators/mrg32k3a.c
+++ b/generators/mrg32k3a.c
@@ -87,7 +87,7 @@ static inline int64_t component(uint32_t *s,
     return p;
 }
 
-inline uint32_t make_seed(const CallerAPI *intf, const uint64_t m)
+static inline uint32_t make_seed(const CallerAPI *intf, const uint64_t m)
 {
     uint32_t seed;
     do {
-- 
2.43.0


From 307d489755939c071cdfb15314e9d230ba7bb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 46/63] fix: mod3: running out of memory was reported as
 success

---
 src/coretests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index 941a232..fba88bc 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -1097,7 +1097,7 @@ TestResults mod3_test(GeneratorState *obj, const Mod3Options *opts)
     unsigned long long *Oi = calloc(ntuples, sizeof(unsigned long long));
     if (Oi == NULL) {
         fprintf(stderr, "***** mod3_test: not enough memory *****\n");
-        exit(EXIT_SUCCESS);
+        exit(EXIT_FAILURE);
     }
     uint32_t tuple = 0;
     obj->intf->printf("mod3 test\n");
-- 
2.43.0


From e929aab9944d7c55fa26098628253af9b0fbd03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 47/63] fix: numerical arguments: refuse trailing characters
 and out of range values

---
 apps/smokerand.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index b26dbb4..e32c76d 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -17,6 +17,7 @@
 #include <math.h>
 #include <string.h>
 #include <float.h>
+#include <limits.h>
 
 void print_help(void)
 {
@@ -132,8 +133,9 @@ typedef BatteryExitCode (*ArgValueCallback) (SmokeRandSettings *obj, const char
 #define DEFINE_NUMARG_CALLBACK(field, argname, condition) \
 static BatteryExitCode field##_callback(SmokeRandSettings *obj, const char *argvalue) \
 { \
-    int argval = atoi(argvalue); \
-    if (condition) { \
+    char *end; \
+    const long argval = strtol(argvalue, &end, 10); \
+    if (end != argvalue && *end == '\0' && argval <= INT_MAX && (condition)) { \
         obj->field = (unsigned int) argval; \
         return BATTERY_PASSED; \
     } else { \
-- 
2.43.0


From cb5de842abbaaab70aab64af8d6af829b1639f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 48/63] fix: stdout modes: do not append the statistics of
 stdin to the data

---
 apps/smokerand.c           | 2 +-
 include/smokerand/fileio.h | 2 +-
 src/fileio.c               | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/smokerand.c b/apps/smokerand.c
index e32c76d..d34cc87 100644
--- a/apps/smokerand.c
+++ b/apps/smokerand.c
@@ -619,7 +619,7 @@ int main(int argc, char *argv[])
         apply_filter(&gi, opts.filter, &filter_gen);
         GeneratorInfo_print(gi, is_stdout);
         BatteryExitCode ans = run_battery(battery_name, gi, &intf, &opts);
-        StdinCollector_print_report();
+        StdinCollector_print_report(&intf);
         CallerAPI_free();
         return ans;
     } else {
diff --git a/include/smokerand/fileio.h b/include/smokerand/fileio.h
index 07fc674..677a987 100644
--- a/include/smokerand/fileio.h
+++ b/include/smokerand/fileio.h
@@ -17,5 +17,5 @@ typedef enum {
 } StdinCollectorType;
 
 GeneratorInfo StdinCollector_get_info(StdinCollectorType type);
-void StdinCollector_print_report(void);
+void StdinCollector_print_report(const CallerAPI *intf);
 #endif // __SMOKERAND_FILEIO_H
diff --git a/src/fileio.c b/src/fileio.c
index dc88fc6..eaaf7c2 100644
--- a/src/fileio.c
+++ b/src/fileio.c
@@ -117,9 +117,9 @@ static uint64_t get_bits64(void *state)
 ///// Interface /////
 /////////////////////
 
-void StdinCollector_print_report(void)
+void StdinCollector_print_report(const CallerAPI *intf)
 {
-    printf("  Bytes processed: %llu (2^%.2f, 10^%.2f)\n", nbytes_total,
+    intf->printf("  Bytes processed: %llu (2^%.2f, 10^%.2f)\n", nbytes_total,
         sr_log2((double) nbytes_total), log10((double) nbytes_total));
 }
 
-- 
2.43.0


From 4ae2eb63d5d15d42f7dfd6d9ea7df12375acc412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 49/63] fix: seeds log: handle the lack of memory

---
 src/entropy.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entropy.c b/src/entropy.c
index f8b52f7..b499814 100644
--- a/src/entropy.c
+++ b/src/entropy.c
@@ -425,6 +425,10 @@ void Entropy_init_from_key(Entropy *obj, const uint32_t *key, uint64_t nonce)
     obj->slog_len = 1 << 8;
     obj->slog_maxlen = 1 << 20;
     obj->slog = calloc(obj->slog_len, sizeof(SeedLogEntry));
+    if (obj->slog == NULL) {
+        fprintf(stderr, "***** Entropy_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->slog_pos = 0;
     fprintf(stderr, "Entropy pool (seed generator) initialized\n");
     fprintf(stderr, "ChaCha20 initial state\n");
@@ -593,6 +597,10 @@ uint64_t Entropy_seed64(Entropy *obj, uint64_t thread_id)
             if (newlen > obj->slog_maxlen) newlen = obj->slog_maxlen;
             obj->slog_len = newlen;
             obj->slog = realloc(obj->slog, newlen * sizeof(SeedLogEntry));
+            if (obj->slog == NULL) {
+                fprintf(stderr, "***** Entropy_seed64: not enough memory *****\n");
+                exit(EXIT_FAILURE);
+            }
         }
         // Save seed to the log
         SeedLogEntry log_entry;
-- 
2.43.0


From 87bcab945f9b2e42a648f2d7399cc3150e5a29de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 50/63] fix: statistical tests: handle the lack of memory

---
 src/coretests.c  |  4 ++++
 src/extratests.c |  4 ++++
 src/hwtests.c    | 12 ++++++++++++
 src/lineardep.c  |  8 ++++++++
 4 files changed, 28 insertions(+)

diff --git a/src/coretests.c b/src/coretests.c
index fba88bc..8925a00 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -1195,6 +1195,10 @@ TestResults nbit_words_freq_test(GeneratorState *obj,
     const uint64_t mask = nbins - 1;
     double *chi2 = calloc(opts->nblocks, sizeof(double));
     size_t *wfreq = calloc(nbins, sizeof(size_t));
+    if (chi2 == NULL || wfreq == NULL) {
+        fprintf(stderr, "***** nbit_words_freq_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
 
     TestResults ans;
     if (opts->bits_per_word == 8) {
diff --git a/src/extratests.c b/src/extratests.c
index 983f4f4..fd15104 100644
--- a/src/extratests.c
+++ b/src/extratests.c
@@ -338,6 +338,10 @@ void BlockFrequency_init(BlockFrequency *obj)
 {
     obj->bytefreq = calloc(256, sizeof(unsigned long long));
     obj->w16freq = calloc(65536, sizeof(unsigned long long));
+    if (obj->bytefreq == NULL || obj->w16freq == NULL) {
+        fprintf(stderr, "***** BlockFrequency_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->nbytes = 0;
     obj->nw16 = 0;
 }
diff --git a/src/hwtests.c b/src/hwtests.c
index ef6c0a6..c80b647 100644
--- a/src/hwtests.c
+++ b/src/hwtests.c
@@ -640,6 +640,10 @@ double hamming_distr_calc_zemp(const unsigned long long *o, size_t nbits)
         npoints += o[i];
     }
     double *p = calloc(nbits + 1, sizeof(double));
+    if (p == NULL) {
+        fprintf(stderr, "***** hamming_distr_calc_zemp: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     sr_binomial_pdf_all(p, (unsigned long) nbits, 0.5);
     for (size_t i = 0; i < nbits; i++) {
         double e_i = (double) npoints * p[i];
@@ -677,6 +681,10 @@ static void HammingDistrHist_init(HammingDistrHist *obj, size_t nbits)
 {
     obj->o     = calloc(nbits + 1, sizeof(unsigned long long));
     obj->o_xor = calloc(nbits + 1, sizeof(unsigned long long));
+    if (obj->o == NULL || obj->o_xor == NULL) {
+        fprintf(stderr, "***** HammingDistrHist_init: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->nbits = nbits;
     obj->z = NAN;     obj->p = NAN;
     obj->z_xor = NAN; obj->p_xor = NAN;
@@ -764,6 +772,10 @@ TestResults hamming_distr_test(GeneratorState *obj, const HammingDistrOptions *o
     HammingDistrHist *h = calloc((size_t) opts->nlevels, sizeof(HammingDistrHist));
     uint64_t *x = calloc(block_len, sizeof(uint64_t));
     int *hw = calloc(block_len, sizeof(int));
+    if (h == NULL || x == NULL || hw == NULL) {
+        fprintf(stderr, "***** hamming_distr_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     for (int i = 0; i < opts->nlevels; i++) {
         HammingDistrHist_init(&h[i], nbits << i);
     }
diff --git a/src/lineardep.c b/src/lineardep.c
index 6bd8381..be31307 100644
--- a/src/lineardep.c
+++ b/src/lineardep.c
@@ -56,6 +56,10 @@ static inline void swap_rows(uint32_t **row_ptr, size_t i, size_t j)
 static size_t calc_bin_matrix_rank(uint32_t *a, size_t n)
 {
     uint32_t **row_ptr = calloc(n, sizeof(uint32_t *));
+    if (row_ptr == NULL) {
+        fprintf(stderr, "***** calc_bin_matrix_rank: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     // Initialize some intermediate buffers
     for (size_t i = 0; i < n; i++) {
         row_ptr[i] = a + i * n / 32;
@@ -112,6 +116,10 @@ TestResults matrixrank_test(GeneratorState *obj, const MatrixRankOptions *opts)
     const size_t mat_len = n * n / 32;
     size_t min_rank = n + 1;
     uint32_t *a = calloc(mat_len, sizeof(uint32_t));
+    if (a == NULL) {
+        fprintf(stderr, "***** matrixrank_test: not enough memory *****\n");
+        exit(EXIT_FAILURE);
+    }
     obj->intf->printf("Matrix rank test\n");
     obj->intf->printf("  n = %d. Number of matrices: %d; max_nbits: %u\n",
         (int) n, nmat, opts->max_nbits);
-- 
2.43.0


From ed366aa489b28e641c5bc417604958bad20646b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 51/63] fix: run_express.sh: count errors and unsupported
 generators separately from failures

---
 scripts/run_express.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/run_express.sh b/scripts/run_express.sh
index 8539e92..196ea35 100755
--- a/scripts/run_express.sh
+++ b/scripts/run_express.sh
@@ -9,11 +9,12 @@ for file in $script_dir/../bin/generators/*.so; do
     if [ -f "$file" ]; then
         echo "Processing file: $file"
         $script_dir/../bin/smokerand express $file --report-brief --threads
-        if [ $? -eq 0 ]; then
+        rc=$?
+        if [ $rc -eq 0 ]; then
             npassed=$((npassed + 1))
-        elif [ $? -eq 1 ]; then
+        elif [ $rc -eq 1 ]; then
             nfailed=$((nfailed + 1))
-        elif [ $? -eq 2 ]; then
+        elif [ $rc -eq 2 ]; then
             nerror=$((nerror + 1))
         fi
     fi
-- 
2.43.0


From 14e3e2b5f7c6b74298d2a109bd4d903d3ec448e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 52/63] fix: run_selftests.sh: count errors and absent
 self-tests separately from failures

---
 scripts/run_selftests.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/run_selftests.sh b/scripts/run_selftests.sh
index 466fc7b..beec1fe 100755
--- a/scripts/run_selftests.sh
+++ b/scripts/run_selftests.sh
@@ -9,11 +9,12 @@ for file in $script_dir/../bin/generators/*.so; do
     if [ -f "$file" ]; then
         echo "Processing file: $file"
         $script_dir/../bin/smokerand selftest $file
-        if [ $? -eq 0 ]; then
+        rc=$?
+        if [ $rc -eq 0 ]; then
             npassed=$((npassed + 1))
-        elif [ $? -eq 1 ]; then
+        elif [ $rc -eq 1 ]; then
             nfailed=$((nfailed + 1))
-        elif [ $? -eq 2 ]; then
+        elif [ $rc -eq 2 ]; then
             nunknown=$((nunknown + 1))
         fi
     fi
-- 
2.43.0


From 1d72fc40f47ee87ba804cdb641505d9905680974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 53/63] fix: speed battery: don't report uninitialised results
 without a get_sum function

---
 src/bat_special.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bat_special.c b/src/bat_special.c
index e35167c..164aeaf 100644
--- a/src/bat_special.c
+++ b/src/bat_special.c
@@ -177,6 +177,11 @@ SpeedBatteryResults SpeedBatteryResults_get(const GeneratorInfo *gen, const Call
     res.uint = battery_speed_test(gen, intf, SPEED_UINT);
     printf("----- Speed test for uint sum generation -----\n");
     if (gen->get_sum == NULL) {
+        const SpeedResults none = {.ns_per_call = NAN, .ticks_per_call = NAN,
+            .cpb = NAN, .bytes_per_sec = NAN, .cpu_freq_meas = NAN};
+        res.sum.full = none;
+        res.sum.baseline = none;
+        res.sum.corr = none;
         res.mean = res.uint;
         printf("  Not implemented\n");
     } else {
-- 
2.43.0


From 5b3199ac06280aedc2ce7d96e2b9c53324c1511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 54/63] fix: pe32loader: accept sections without data in the
 file (.bss)

---
 src/pe32loader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe32loader.c b/src/pe32loader.c
index f13ed87..2f59d49 100644
--- a/src/pe32loader.c
+++ b/src/pe32loader.c
@@ -359,6 +359,9 @@ PE32MemoryImage *PE32BasicInfo_load(PE32BasicInfo *info, FILE *fp)
     uint8_t *buf = img->img;
     for (unsigned int i = 0; i < info->nsections; i++) {
         PE32SectionInfo *sect = &info->sections[i];
+        if (sect->physical_size == 0) {
+            continue; // Uninitialized data only (e.g. .bss)
+        }
         if (fseek(fp, (long) sect->physical_addr, SEEK_SET) ||
             fread(buf + sect->virtual_addr, sect->physical_size, 1, fp) != 1) {
             snprintf(errmsg, ERRMSG_MAXLEN, "Cannot read section %d\n", i + 1);
-- 
2.43.0


From 3ff9dd38416690c42064f4fad9355106abd7ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 55/63] fix: pe32loader: resolve all exported functions if some
 of them have no names

---
 src/pe32loader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe32loader.c b/src/pe32loader.c
index 2f59d49..e79ce0e 100644
--- a/src/pe32loader.c
+++ b/src/pe32loader.c
@@ -283,6 +283,8 @@ int PE32MemoryImage_apply_relocs(PE32MemoryImage *img, PE32BasicInfo *info)
 int PE32MemoryImage_apply_exports(PE32MemoryImage *img, PE32BasicInfo *info)
 {
     img->nexports = PE32MemoryImage_get_u32(img, info->export_dir + 24);
+    // Some functions may be exported without names (by ordinals only)
+    const uint32_t nfuncs = PE32MemoryImage_get_u32(img, info->export_dir + 20);
     uint32_t func_addrs_array_rva = PE32MemoryImage_get_u32(img, info->export_dir + 28);
     uint32_t func_names_array_rva = PE32MemoryImage_get_u32(img, info->export_dir + 32);
     uint32_t ord_array_rva = PE32MemoryImage_get_u32(img, info->export_dir + 36);
@@ -297,6 +299,8 @@ int PE32MemoryImage_apply_exports(PE32MemoryImage *img, PE32BasicInfo *info)
     uint32_t imagebase_real = (uint32_t) ((size_t) img->img);
     for (unsigned int i = 0; i < img->nexports; i++) {
         func_names_rva[i] += imagebase_real;
+    }
+    for (uint32_t i = 0; i < nfuncs; i++) {
         func_addrs_rva[i] += imagebase_real;
     }
     img->exports_names = (void *) func_names_rva;
-- 
2.43.0


From f0beef481d46b436ab2d91534465836b95417157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 56/63] fix: pe32loader: stop at the end of the relocations
 directory

---
 include/smokerand/pe32loader.h | 1 +
 src/pe32loader.c               | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smokerand/pe32loader.h b/include/smokerand/pe32loader.h
index 3cc506b..184f9b1 100644
--- a/include/smokerand/pe32loader.h
+++ b/include/smokerand/pe32loader.h
@@ -70,6 +70,7 @@ typedef struct {
     uint32_t export_dir; ///< Export directory RVA.
     uint32_t import_dir; ///< Import directory RVA.
     uint32_t reloc_dir; ///< Relocations (fixups) directory RVA.
+    uint32_t reloc_dir_size; ///< Relocations (fixups) directory size, bytes.
 
     unsigned int nsections; ///< Number of sections.
     PE32SectionInfo *sections; ///< Sections table.
diff --git a/src/pe32loader.c b/src/pe32loader.c
index e79ce0e..ad3ffd9 100644
--- a/src/pe32loader.c
+++ b/src/pe32loader.c
@@ -120,6 +120,7 @@ int PE32BasicInfo_init(PE32BasicInfo *peinfo, FILE *fp, uint32_t pe_offset)
     peinfo->export_dir = read_u32(fp, pe_offset + 0x78);
     peinfo->import_dir = read_u32(fp, pe_offset + 0x80);
     peinfo->reloc_dir  = read_u32(fp, pe_offset + 0xA0);
+    peinfo->reloc_dir_size = read_u32(fp, pe_offset + 0xA4);
     peinfo->sections = calloc(peinfo->nsections, sizeof(PE32SectionInfo));
     if (peinfo->sections == NULL) {
         snprintf(errmsg, ERRMSG_MAXLEN, "PE32BasicInfo_init: not enough memory");
@@ -250,8 +251,9 @@ int PE32MemoryImage_apply_relocs(PE32MemoryImage *img, PE32BasicInfo *info)
     uint8_t *buf = img->img;
     const uint32_t imagebase_real = (uint32_t) ((size_t) buf);
     const uint32_t offset = imagebase_real - info->imagebase;
+    const uint32_t reloc_end = info->reloc_dir + info->reloc_dir_size;
     uint32_t rva;
-    for (uint32_t r = info->reloc_dir;
+    for (uint32_t r = info->reloc_dir; r < reloc_end &&
         (rva = PE32MemoryImage_get_u32(img, r)) != 0; ) {
         const uint32_t nbytes = PE32MemoryImage_get_u32(img, r + 4);
         const uint32_t nrelocs = (nbytes - 8) / 2;
-- 
2.43.0


From b56438c7900826749b660feeb38cad1f607d5a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 57/63] fix: pe32loader: refuse files without sections or with
 truncated table of sections

---
 src/pe32loader.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pe32loader.c b/src/pe32loader.c
index ad3ffd9..9b4f1f8 100644
--- a/src/pe32loader.c
+++ b/src/pe32loader.c
@@ -121,6 +121,11 @@ int PE32BasicInfo_init(PE32BasicInfo *peinfo, FILE *fp, uint32_t pe_offset)
     peinfo->import_dir = read_u32(fp, pe_offset + 0x80);
     peinfo->reloc_dir  = read_u32(fp, pe_offset + 0xA0);
     peinfo->reloc_dir_size = read_u32(fp, pe_offset + 0xA4);
+    peinfo->sections = NULL;
+    if (peinfo->nsections == 0) {
+        snprintf(errmsg, ERRMSG_MAXLEN, "The file has no sections");
+        return 0;
+    }
     peinfo->sections = calloc(peinfo->nsections, sizeof(PE32SectionInfo));
     if (peinfo->sections == NULL) {
         snprintf(errmsg, ERRMSG_MAXLEN, "PE32BasicInfo_init: not enough memory");
@@ -131,13 +136,16 @@ int PE32BasicInfo_init(PE32BasicInfo *peinfo, FILE *fp, uint32_t pe_offset)
     for (unsigned int i = 0; i < peinfo->nsections; i++) {
         PE32SectionInfo *sect = &peinfo->sections[i];
         fseek(fp, (long) offset, SEEK_SET);
-        if (fread(sect->name, 8, 1, fp) != 1) {
+        uint8_t hdr[0x28];
+        if (fread(hdr, sizeof(hdr), 1, fp) != 1) {
+            snprintf(errmsg, ERRMSG_MAXLEN, "Cannot read the header of section %u", i + 1);
             return 0;
         }
-        sect->virtual_size = read_u32(fp, offset + 0x08);
-        sect->virtual_addr = read_u32(fp, offset + 0x0C);
-        sect->physical_size = read_u32(fp, offset + 0x10);
-        sect->physical_addr = read_u32(fp, offset + 0x14);
+        memcpy(sect->name, hdr, 8);
+        sect->virtual_size = get_u32_le_from_u8(hdr + 0x08);
+        sect->virtual_addr = get_u32_le_from_u8(hdr + 0x0C);
+        sect->physical_size = get_u32_le_from_u8(hdr + 0x10);
+        sect->physical_addr = get_u32_le_from_u8(hdr + 0x14);
         offset += 0x28; // To the next section
     }
     return 1;
@@ -437,7 +445,11 @@ void *dlopen_pe32dos(const char *libname, int flag)
         return NULL;
     }
     PE32BasicInfo peinfo;
-    PE32BasicInfo_init(&peinfo, fp, pe_offset);
+    if (!PE32BasicInfo_init(&peinfo, fp, pe_offset)) {
+        PE32BasicInfo_destruct(&peinfo);
+        fclose(fp);
+        return NULL;
+    }
     PE32BasicInfo_print(&peinfo);
     PE32MemoryImage *img = PE32BasicInfo_load(&peinfo, fp);
     fclose(fp);
-- 
2.43.0


From 1ec9b749f9cb2615c84980d3259694a5caea36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 58/63] fix: calibrate_dc6: use 256-bit words for w256_10m

---
 apps/calibrate_dc6.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/calibrate_dc6.c b/apps/calibrate_dc6.c
index c3e53a1..0ca0d85 100644
--- a/apps/calibrate_dc6.c
+++ b/apps/calibrate_dc6.c
@@ -153,7 +153,7 @@ HwTestInfo get_test_info(const char *name)
         static HammingOtLongOptions opts = {.wordsize = HAMMING_OT_W128, .nvalues = 10000000000};
         out.test_func = hamming_ot_long_test_wrap; out.opts = &opts;        
     } else if (!strcmp(name, "w256_10m")) { // 10^7 values
-        static HammingOtLongOptions opts = {.wordsize = HAMMING_OT_W128, .nvalues = 10000000};
+        static HammingOtLongOptions opts = {.wordsize = HAMMING_OT_W256, .nvalues = 10000000};
         out.test_func = hamming_ot_long_test_wrap; out.opts = &opts;        
     } else if (!strcmp(name, "w256_100m")) { // 10^8 values
         static HammingOtLongOptions opts = {.wordsize = HAMMING_OT_W256, .nvalues = 100000000};
-- 
2.43.0


From ab51dd1c83c78e6113fa82a26fe1c95ad7c19a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 59/63] fix: gap16_count0: print the gap length the rest of the
 record is about

---
 src/coretests.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index 8925a00..1f07a7f 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -927,7 +927,7 @@ TestResults gap16_count0_test(GeneratorState *obj, unsigned long long ngaps)
         gf.z_max_tot, sr_stdnorm_pvalue(gf.z_max_tot), sr_stdnorm_cdf(gf.z_max_tot), (int) gf.ind_tot);
     obj->intf->printf("  Frequency analysis for [0 ... value] gaps with 'value' inside:\n");
     obj->intf->printf("    z_max = %g; p = %g; alpha = %g; index = %d\n",
-        gf_rb.z_max_w0, sr_stdnorm_pvalue(gf_rb.z_max_w0), sr_stdnorm_cdf(gf_rb.z_max_w0), (int) gf_rb.ind_tot);
+        gf_rb.z_max_w0, sr_stdnorm_pvalue(gf_rb.z_max_w0), sr_stdnorm_cdf(gf_rb.z_max_w0), (int) gf_rb.ind_w0);
     obj->intf->printf("    ngaps_total = %llu; ngaps_with0 = %llu\n",
         gapfreq_rb->f[gf_rb.ind_w0].ngaps_total, gapfreq_rb->f[gf_rb.ind_w0].ngaps_with0);
     obj->intf->printf("    p_total = %g; p_with0 = %g\n",
-- 
2.43.0


From 2b438bf929c05bcb979fd4dad930f5a78514ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 60/63] fix: collisionover: average the number of empty cells
 over samples in the log

---
 src/coretests.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coretests.c b/src/coretests.c
index 1f07a7f..2fda6ef 100644
--- a/src/coretests.c
+++ b/src/coretests.c
@@ -520,7 +520,9 @@ TestResults collisionover_test(GeneratorState *obj, const CollOverNDOptions *opt
     obj->intf->printf(" -----------------------------------------\n");
     obj->intf->printf("  %5s %16s %16s\n", "Freq", "Oi", "Ei");
     for (int i = 0; i < 4; i++) {
-        uint64_t Oi_normed = (i == 0) ? Oi[i] : Oi[i] / opts->nsamples;
+        uint64_t Oi_normed = (i == 0) ?
+            nstates_u64 - (nstates_u64 - Oi[i]) / opts->nsamples :
+            Oi[i] / opts->nsamples;
         obj->intf->printf("  %5d %16lld %16.1f\n", i, Oi_normed, Ei);
         Ei *= lambda / (i + 1.0);
     }
-- 
2.43.0


From 73c9e2ae506dc342b1034005052a08fe23533555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:24 +0000
Subject: [PATCH 61/63] fix: initialize the thread number in reports about a
 single test

---
 src/core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core.c b/src/core.c
index 2e05e15..5a52c25 100644
--- a/src/core.c
+++ b/src/core.c
@@ -990,6 +990,7 @@ BatteryExitCode TestsBattery_run(const TestsBattery *bat,
             *results = TestDescription_run(&bat->tests[testid - 1], &obj);
             results->name = bat->tests[testid - 1].name;
             results->id = testid;
+            results->thread_id = 0;
         }
         GeneratorState_destruct(&obj);
     } else {
-- 
2.43.0


From bcc48aaff2386d9b78162ff13834ea24aebf98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:57 +0000
Subject: [PATCH 62/63] fix: quicksort64 recursion depth (stack overflow on
 adversarial arrays)

---
 src/core.c | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/core.c b/src/core.c
index 5a52c25..faa58fa 100644
--- a/src/core.c
+++ b/src/core.c
@@ -382,33 +382,30 @@ static void insertsort(uint64_t *x, ptrdiff_t begin, ptrdiff_t end)
 
 static void quicksort_range(uint64_t *v, ptrdiff_t begin, ptrdiff_t end)
 {
-    ptrdiff_t i = begin, j = end, med = (begin + end) / 2;
-    uint64_t pivot = v[med];
-    while (i <= j) {
-        if (v[i] < pivot) {
-            i++;
-        } else if (v[j] > pivot) {
-            j--;
-        } else {
-            uint64_t tmp = v[i];
-            v[i++] = v[j];
-            v[j--] = tmp;
+    while (end - begin > 12) {
+        ptrdiff_t i = begin, j = end, med = (begin + end) / 2;
+        uint64_t pivot = v[med];
+        while (i <= j) {
+            if (v[i] < pivot) {
+                i++;
+            } else if (v[j] > pivot) {
+                j--;
+            } else {
+                uint64_t tmp = v[i];
+                v[i++] = v[j];
+                v[j--] = tmp;
+            }
         }
-    }
-    if (begin < j) {
-        if (j - begin > 12) {
+        // Recursion only for the smaller part: its depth is O(log n)
+        if (j - begin < end - i) {
             quicksort_range(v, begin, j);
+            begin = i;
         } else {
-            insertsort(v, begin, j);
-        }
-    }
-    if (end > i) {
-        if (end - i > 12) {
             quicksort_range(v, i, end);
-        } else {
-            insertsort(v, i, end);
+            end = j;
         }
     }
+    insertsort(v, begin, end);
 }
 
 
-- 
2.43.0


From c5e0a7ae3b73d83e990db6a21da7f47bf80f08c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:17 +0000
Subject: [PATCH 63/63] fix: complete reduction modulo m in lcg64prime and
 lcg32prime

---
 generators/lcg32prime.c | 2 +-
 generators/lcg64prime.c | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/generators/lcg32prime.c b/generators/lcg32prime.c
index 9d5ccb0..34c264a 100644
--- a/generators/lcg32prime.c
+++ b/generators/lcg32prime.c
@@ -35,7 +35,7 @@ static inline uint64_t get_bits_raw(Lcg32State *obj)
     if (k > 0) {
         r -= ((uint64_t) k << 32) - (uint64_t) k * d;
     }
-    if (r > m) {
+    while (r >= m) {
         r -= m;
     }
     obj->x = (uint32_t) r;
diff --git a/generators/lcg64prime.c b/generators/lcg64prime.c
index 9cd1760..dbd99c3 100644
--- a/generators/lcg64prime.c
+++ b/generators/lcg64prime.c
@@ -38,7 +38,7 @@ static inline uint64_t get_bits_raw(Lcg64State *obj)
     if (k > 0) {
         r -= (((__uint128_t) k) << 64) - (unsigned int) k * d;
     }
-    if (r > m) {
+    while (r >= m) {
         r -= m;
     }
     obj->x = (uint64_t) r;
@@ -56,8 +56,11 @@ static inline uint64_t get_bits_raw(Lcg64State *obj)
         unsigned_add128(&kd_hi, &r_lo, kd_lo);
         r_hi += kd_hi;
     }
-    if (r_hi != 0 || r_lo > m) { // r > m
-        r_lo -= m; // We don't care about r_hi: it will be thrown out
+    while (r_hi != 0 || r_lo >= m) { // r >= m
+        if (r_lo < m) {
+            r_hi--;
+        }
+        r_lo -= m;
     }
     obj->x = r_lo;
 #endif
-- 
2.43.0

