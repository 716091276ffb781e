From 000d569b646713b8623c8de4b708973b43d76154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 01/28] fix: reverse writes each element to its mirrored
 position inside the output

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..a0bdd86 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - 1 - i)] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 7428536..ad6a83c 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -35,7 +35,7 @@
         (if (> temp max) (set max temp)))
       (return max))
     (define ((pre-concat sp_ type-name _reverse) in count out) (void value-t* sp-size-t value-t*)
-      (sp-for-each-index i count (set (array-get out (- count i)) (array-get in i))))
+      (sp-for-each-index i count (set (array-get out (- count 1 i)) (array-get in i))))
     (define ((pre-concat sp_ type-name _equal) in count value)
       (sp-bool-t value-t* sp-size-t value-t)
       (sp-for-each-index i count (if (not (= value (array-get in i))) (return 0)))
-- 
2.43.0


From 3a1cce28078033c04ae82e0646db77fa42bbfb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 02/28] fix: samples absolute_max does not truncate the
 magnitudes to integers

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index a0bdd86..4a90457 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -36,8 +36,8 @@
 \
   /** get the maximum value in samples array, disregarding sign */ \
   value_t sp_##type_name##_absolute_max(value_t* in, sp_size_t count) { \
-    sp_time_t temp; \
-    sp_time_t max; \
+    value_t temp; \
+    value_t max; \
     max = 0; \
     for (sp_size_t i = 0; (i < count); i += 1) { \
       temp = sp_inline_abs((in[i])); \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index ad6a83c..e253a71 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -28,7 +28,7 @@
       (return out))
     (define ((pre-concat sp_ type-name _absolute-max) in count) (value-t value-t* sp-size-t)
       "get the maximum value in samples array, disregarding sign"
-      (declare temp sp-time-t max sp-time-t)
+      (declare temp value-t max value-t)
       (set max 0)
       (sp-for-each-index i count
         (set temp (sp-inline-abs (array-get in i)))
-- 
2.43.0


From 40f1b3bc42eb51dc7cd088fcd2f1e3e3fc21990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 03/28] fix: samples swap exchanges samples instead of halves
 of them

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/c-precompiled/sph-sp/arrays-template.h | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 4a90457..1a7773a 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index e253a71..58d3650 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -68,8 +68,8 @@
         (set+ sum (array-get in i))
         (set (array-get out i) sum)))
     (define ((pre-concat sp_ type-name _swap) in-out index-1 index-2)
-      (void sp-time-t* sp-ssize-t sp-ssize-t)
-      (define temp sp-time-t (array-get in-out index-1))
+      (void value-t* sp-ssize-t sp-ssize-t)
+      (define temp value-t (array-get in-out index-1))
       (set (array-get in-out index-1) (array-get in-out index-2) (array-get in-out index-2) temp))
     (define ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
       (sp-shuffle
-- 
2.43.0


From 9daa6bca1ab51c003a971d3a994a8db036bf870b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 04/28] fix: the and combination of two arrays tests the second
 array too

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 1a7773a..6b4d0ec 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -150,7 +150,7 @@
   /** if a[i] and b[i] greater than limit, take b[i] else 0 */ \
   void sp_##type_name##_and_##type_name(value_t* a, value_t* b, sp_size_t count, value_t limit, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      if ((a[i] >= limit) && (a[i] >= limit)) { \
+      if ((a[i] >= limit) && (b[i] >= limit)) { \
         out[i] = b[i]; \
       } else { \
         out[i] = 0; \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 58d3650..fd2cdff 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -103,7 +103,7 @@
       (void value-t* value-t* sp-size-t value-t value-t*)
       "if a[i] and b[i] greater than limit, take b[i] else 0"
       (sp-for-each-index i count
-        (if (and (>= (array-get a i) limit) (>= (array-get a i) limit))
+        (if (and (>= (array-get a i) limit) (>= (array-get b i) limit))
           (set (array-get out i) (array-get b i))
           (set (array-get out i) 0))))
     (define ((pre-concat sp_ type-name _or_ type-name) a b count limit out)
-- 
2.43.0


From 11f84154b2baa47933750783a888025f740fea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 05/28] fix: sp_times_permutations permutes the given set and
 does not read an unset count on failure

---
 source/c-precompiled/sph-sp/arrays.c | 5 +++--
 source/sc/sph-sp/arrays.sc           | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..5ecbb6c 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -77,6 +77,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   b = 0;
   s = 0;
   temp_out = 0;
+  temp_out_used_size = 0;
   i = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
@@ -85,8 +86,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 43fb45c..9e2886d 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -60,14 +60,14 @@
     temp-out sp-time-t**
     temp-out-used-size sp-time-t
     s sp-time-t*)
-  (set a 0 b 0 s 0 temp-out 0 i 0 temp-out-size (sp-time-factorial size))
+  (set a 0 b 0 s 0 temp-out 0 temp-out-used-size 0 i 0 temp-out-size (sp-time-factorial size))
   (srq (sp-times-new size &a))
   (srq (sp-times-new size &s))
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
   (srq (sp-times-new size &b))
   (set (array-get temp-out 0) b temp-out-used-size 1)
-  (sp-times-copy a size set)
-  (sp-times-copy b size a)
+  (sp-times-copy set size a)
+  (sp-times-copy a size b)
   (while (< i size)
     (if (< (array-get s i) i)
       (begin
-- 
2.43.0


From f26667b71ed8a0eae959ea9a838cfb7256b4ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 06/28] fix: sp_times_compositions does not free an unset
 pointer if an allocation fails

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 5ecbb6c..1632478 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -155,6 +155,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 9e2886d..78bcea3 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -113,7 +113,7 @@
     b-size sp-time-t
     x sp-time-t
     y sp-time-t)
-  (set sigma 1 o 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
+  (set sigma 1 o 0 o-sizes 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
   (status-require (sph-helper-calloc (* (+ 1 sum) (sizeof sp-time-t)) &a))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t*)) &o))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t)) &o-sizes))
-- 
2.43.0


From 1f2181ed1ce6062044cb78bfd4bf3c81a0f82462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 07/28] fix: sp_times_scale_sum scales the input

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 1632478..0ccf41b 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -310,7 +310,7 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
   sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 78bcea3..9ad1df8 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -220,7 +220,7 @@
    a/out can be the same pointer"
   (define factor sp-sample-t (/ (convert-type sum sp-sample-t) (sp-times-sum in count)))
   (sp-for-each-index i count
-    (set (array-get out i) (sp-cheap-round-positive (* (array-get out i) factor)))))
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-multiplications start factor count out)
   (void sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From 4fd3a4d2153f0db5e6daad0a1458f0a73fd822a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 08/28] fix: sp_times_extract_in_range takes only values in
 range and stores them consecutively

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 0ccf41b..9ddc7f4 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -376,8 +376,8 @@ void sp_times_mask(sp_time_t* a, sp_time_t* b, sp_sample_t* coefficients, sp_tim
 void sp_times_extract_in_range(sp_time_t* a, sp_time_t size, sp_time_t min, sp_time_t max, sp_time_t* out, sp_time_t* out_size) {
   *out_size = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
-    if ((a[i] <= max) || (a[i] >= min)) {
-      out[i] = a[i];
+    if ((a[i] <= max) && (a[i] >= min)) {
+      out[*out_size] = a[i];
       *out_size += 1;
     };
   };
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 9ad1df8..b1fea91 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -274,8 +274,8 @@
   "extract values between min/max inclusive and write to out"
   (set *out-size 0)
   (sp-for-each-index i size
-    (if (or (<= (array-get a i) max) (>= (array-get a i) min))
-      (begin (set (array-get out i) (array-get a i)) (set+ *out-size 1)))))
+    (if (and (<= (array-get a i) max) (>= (array-get a i) min))
+      (begin (set (array-get out *out-size) (array-get a i)) (set+ *out-size 1)))))
 
 (define (sp-times-make-seamless-right a a-count b b-count out)
   (void sp-time-t* sp-time-t sp-time-t* sp-time-t sp-time-t*)
-- 
2.43.0


From 029f4748cfa69efd4e722bdb1c59857667600cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 09/28] fix: sp_times_scale_y scales with a fraction and writes
 to out

---
 source/c-precompiled/sph-sp/arrays.c | 4 +++-
 source/sc/sph-sp/arrays.sc           | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 9ddc7f4..3c85a5a 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -424,7 +424,9 @@ void sp_times_limit(sp_time_t* a, sp_time_t count, sp_time_t n, sp_time_t* out)
    a/out can be the same pointer */
 void sp_times_scale_y(sp_time_t* in, sp_size_t count, sp_time_t target_y, sp_time_t* out) {
   sp_time_t max = sp_times_absolute_max(in, count);
-  sp_times_multiply(in, count, (target_y / max));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = sp_cheap_round_positive((in[i] * (target_y / ((sp_sample_t)(max)))));
+  };
 }
 
 /** remove count subsequent elements at index from in and write the result to out */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index b1fea91..5f03f0d 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -307,7 +307,10 @@
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
   (define max sp-time-t (sp-times-absolute-max in count))
-  (sp-times-multiply in count (/ target-y max)))
+  (sp-for-each-index i count
+    (set (array-get out i)
+      (sp-cheap-round-positive
+        (* (array-get in i) (/ target-y (convert-type max sp-sample-t)))))))
 
 (define (sp-times-remove in size index count out)
   (void sp-time-t* sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From 0552795c21f882c003eca3da04bc11bc75f00b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 10/28] fix: sp_samples_scale_y scales to the target instead of
 the element count

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 3c85a5a..e2fe722 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -554,7 +554,7 @@ void sp_samples_divisions(sp_sample_t start, sp_sample_t divisor, sp_time_t coun
    a/out can be the same pointer */
 void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y) {
   sp_sample_t max = sp_samples_absolute_max(in, count);
-  sp_samples_multiply(in, count, (count / max));
+  sp_samples_multiply(in, count, (target_y / max));
 }
 
 /** adjust all values, keeping relative sizes, so that the sum is n.
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 5f03f0d..f447d18 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -411,7 +411,7 @@
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
   (define max sp-sample-t (sp-samples-absolute-max in count))
-  (sp-samples-multiply in count (/ count max)))
+  (sp-samples-multiply in count (/ target-y max)))
 
 (define (sp-samples-scale-sum in count target-y out)
   (void sp-sample-t* sp-size-t sp-sample-t sp-sample-t*)
-- 
2.43.0


From ea67f8d31025734d64b3617df2b870243d0088ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 11/28] fix: sp_samples_scale_sum writes to out

---
 source/c-precompiled/sph-sp/arrays.c | 4 +++-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index e2fe722..9a0db9d 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -561,7 +561,9 @@ void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y)
    a/out can be the same pointer */
 void sp_samples_scale_sum(sp_sample_t* in, sp_size_t count, sp_sample_t target_y, sp_sample_t* out) {
   sp_sample_t sum = sp_samples_sum(in, count);
-  sp_samples_multiply(in, count, (target_y / sum));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = (in[i] * (target_y / sum));
+  };
 }
 
 /** interpolate values pointwise between $a and $b with fraction as a fixed interpolation distance 0..1 */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index f447d18..27e4e33 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -418,7 +418,7 @@
   "adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer"
   (define sum sp-sample-t (sp-samples-sum in count))
-  (sp-samples-multiply in count (/ target-y sum)))
+  (sp-for-each-index i count (set (array-get out i) (* (array-get in i) (/ target-y sum)))))
 
 (define (sp-samples-blend a b fraction size out)
   (void sp-sample-t* sp-sample-t* sp-sample-t sp-time-t sp-sample-t*)
-- 
2.43.0


From 0ff8872f52943ee6dae8cc0af2162f76d3e2480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 12/28] fix: a failed allocation is not reported with the
 status id for success

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From e6d01bb1ae02be494add0553e155ad5248af7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 13/28] fix: sph_helper_status_description and
 sph_helper_status_name return their string

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From 2041e8df2a1cea451834769e983662c439d81175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 14/28] fix: the sc header declares the samples swap like its
 definition

---
 source/sc/sph-sp/arrays-template.h.sc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/sc/sph-sp/arrays-template.h.sc b/source/sc/sph-sp/arrays-template.h.sc
index 8b4088e..d7896f4 100644
--- a/source/sc/sph-sp/arrays-template.h.sc
+++ b/source/sc/sph-sp/arrays-template.h.sc
@@ -17,7 +17,7 @@
     ((pre-concat sp_ type-name _new) count out) (status-t sp-size-t value-t**)
     ((pre-concat sp_ type-name _copy) in count out) (void value-t* sp-size-t value-t*)
     ((pre-concat sp_ type-name _cusum) in count out) (void value-t* value-t value-t*)
-    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void sp-time-t* sp-ssize-t sp-ssize-t)
+    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void value-t* sp-ssize-t sp-ssize-t)
     ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
     ((pre-concat sp_ type-name _array-free) in count) (void value-t** sp-size-t)
     ((pre-concat sp_ type-name _additions) start summand count out)
-- 
2.43.0


From 7554c11f240ce1012ee6cb5c703f873bd910429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 15/28] fix: sp_times_random_discrete_unique does not read or
 skip output elements if more values are requested than exist

---
 source/c-precompiled/sph-sp/arrays.c | 3 ++-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 9a0db9d..13a1d6a 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -336,7 +336,8 @@ uint8_t sp_times_contains(sp_time_t* in, sp_size_t count, sp_time_t value) {
 void sp_times_random_discrete_unique(sp_time_t* cudist, sp_time_t cudist_size, sp_time_t size, sp_time_t* out) {
   sp_time_t a;
   sp_time_t remaining;
-  remaining = sp_inline_min(size, cudist_size);
+  size = sp_inline_min(size, cudist_size);
+  remaining = size;
   while (remaining) {
     a = sp_time_random_discrete(cudist, cudist_size);
     if (sp_times_contains(out, (size - remaining), a)) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 27e4e33..209a73a 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -236,7 +236,7 @@
   (void sp-time-t* sp-time-t sp-time-t sp-time-t*)
   "create size number of unique discrete random numbers with the distribution given by cudist"
   (declare a sp-time-t remaining sp-time-t)
-  (set remaining (sp-inline-min size cudist-size))
+  (set size (sp-inline-min size cudist-size) remaining size)
   (while remaining
     (set a (sp-time-random-discrete cudist cudist-size))
     (if (sp-times-contains out (- size remaining) a) continue)
-- 
2.43.0


From c8e5697640b63296a1c92b6b1496c24c030fe961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 16/28] fix: sine period for odd sizes used a truncated half
 period

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..b2bdd86 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -190,7 +190,7 @@ sp_time_t sp_phase_float(sp_time_t current, sp_sample_t change, sp_time_t cycle)
    can be used to create lookup tables */
 void sp_sine_period(sp_time_t size, sp_sample_t* out) {
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sin((i * (M_PI / (size / 2))));
+    out[i] = sin((i * (M_PI / (size / 2.0))));
   };
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 946b16c..e142608 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -122,7 +122,7 @@
 (define (sp-sine-period size out) (void sp-time-t sp-sample-t*)
   "writes one full period of a sine wave into out. the sine has the frequency that makes it fit exactly into size.
    can be used to create lookup tables"
-  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2)))))))
+  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2.0)))))))
 
 (define (sp-wave size wvf wvf-size amp amod frq fmod phs-state out)
   (void sp-time-t sp-sample-t* sp-time-t sp-sample-t sp-sample-t* sp-time-t sp-time-t* sp-time-t* sp-sample-t*)
-- 
2.43.0


From 65938ab3a9a11b2bdb39bd43bade739bcf419b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 17/28] fix: sp_square overflowed for times and sizes above
 half of the integer range

---
 source/c-precompiled/sph-sp/main.c | 6 +++++-
 source/sc/sph-sp/main.sc           | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index b2bdd86..1f9fa72 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -464,7 +464,11 @@ sp_sample_t sp_triangle(sp_time_t t, sp_time_t a, sp_time_t b) {
   remainder = (t % (a + b));
   return (((remainder < a) ? (remainder * (1 / ((sp_sample_t)(a)))) : ((((sp_sample_t)(b)) - (remainder - ((sp_sample_t)(a)))) * (1 / ((sp_sample_t)(b))))));
 }
-sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return (((((2 * t) % (2 * size)) < size) ? -1 : 1)); }
+sp_sample_t sp_square(sp_time_t t, sp_time_t size) {
+  sp_time_t remainder;
+  remainder = (t % size);
+  return (((remainder < (size - remainder)) ? -1 : 1));
+}
 
 /** convert a pan value between 0..channel_count to a volume factor.
    values are interpreted as split between even and odd numbers, from channel..(channel + 1),
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index e142608..deaa9f4 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -360,7 +360,9 @@
         (/ 1 (convert-type b sp-sample-t))))))
 
 (define (sp-square t size) (sp-sample-t sp-time-t sp-time-t)
-  (return (if* (< (modulo (* 2 t) (* 2 size)) size) -1 1)))
+  (declare remainder sp-time-t)
+  (set remainder (modulo t size))
+  (return (if* (< remainder (- size remainder)) -1 1)))
 
 (define (sp-pan->amp value channel) (sp-sample-t sp-sample-t sp-channel-count-t)
   "convert a pan value between 0..channel_count to a volume factor.
-- 
2.43.0


From d8a3ca6fc7fdd5ab84037fd5bcc2726bec3eadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 18/28] fix: sp_pan_to_amp was wrong for channels above the
 first pair

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 1f9fa72..a015889 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -477,7 +477,7 @@ sp_sample_t sp_square(sp_time_t t, sp_time_t size) {
    1: first channel muted
    0.75: first channel 50%
    0.25: second channel 50% */
-sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? (sp_inline_limit(value, (channel - 1), (channel - 0.5)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - 0.5) / 0.5)))); }
+sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? ((sp_inline_limit(value, (channel - 1), (channel - 0.5)) - (channel - 1)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - (channel + 0.5)) / 0.5)))); }
 
 /** untested. return normally distributed numbers in range */
 sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index deaa9f4..377be59 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -373,8 +373,8 @@
    0.75: first channel 50%
    0.25: second channel 50%"
   (return
-    (if* (bit-and 1 channel) (/ (sp-inline-limit value (- channel 1) (- channel 0.5)) 0.5)
-      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) 0.5) 0.5)))))
+    (if* (bit-and 1 channel) (/ (- (sp-inline-limit value (- channel 1) (- channel 0.5)) (- channel 1)) 0.5)
+      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) (+ channel 0.5)) 0.5)))))
 
 (define (sp-normal-random min max) (sp-time-t sp-time-t sp-time-t)
   "untested. return normally distributed numbers in range"
-- 
2.43.0


From 47848003141419af68512b131c4c592f3cdb2a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 19/28] fix: sp_permutations_max divided by the difference
 instead of its factorial

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index a015889..180f79c 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -556,5 +556,5 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / (set_size - selection_size))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 377be59..f7a9a67 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -431,6 +431,6 @@
   (return (if* (= 0 set-size) 0 (sp-time-expt set-size selection-size))))
 
 (define (sp-permutations-max set-size selection-size) (sp-size-t sp-size-t sp-size-t)
-  (return (/ (sp-time-factorial set-size) (- set-size selection-size))))
+  (return (/ (sp-time-factorial set-size) (sp-time-factorial (- set-size selection-size)))))
 
 (define (sp-compositions-max sum) (sp-size-t sp-size-t) (return (sp-time-expt 2 (- sum 1))))
\ No newline at end of file
-- 
2.43.0


From a037d9642d1acc821547e27ef81d709e81a5ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 20/28] fix: sp_windowed_sinc_bp_br_ir leaked impulse responses

---
 source/c-precompiled/sph-sp/filter.c | 8 ++++++++
 source/sc/sph-sp/filter.sc           | 7 +++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..8992be9 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -174,6 +174,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
   sp_time_t end;
   sp_sample_t* out;
   sp_sample_t* over;
+  hp_ir = 0;
+  lp_ir = 0;
   if (is_reject) {
     if (0.0 >= cutoff_l) {
       if (0.5 <= cutoff_h) {
@@ -227,8 +229,14 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     *out_len = ((lp_len + hp_len) - 1);
     status_require((sp_samples_new((*out_len), out_ir)));
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
+    free(lp_ir);
+    free(hp_ir);
   };
 exit:
+  if (status_is_failure) {
+    free(lp_ir);
+    free(hp_ir);
+  };
   status_return;
 }
 
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 79521eb..e784c82 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -161,6 +161,7 @@
     end sp-time-t
     out sp-sample-t*
     over sp-sample-t*)
+  (set hp-ir 0 lp-ir 0)
   (if is-reject
     (begin
       (if (>= 0.0 cutoff-l)
@@ -201,8 +202,10 @@
       (sc-comment "convolve lp and hp ir samples")
       (set *out-len (- (+ lp-len hp-len) 1))
       (status-require (sp-samples-new *out-len out-ir))
-      (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)))
-  (label exit status-return))
+      (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)
+      (free lp-ir)
+      (free hp-ir)))
+  (label exit (if status-is-failure (begin (free lp-ir) (free hp-ir))) status-return))
 
 (define (sp-windowed-sinc-lp-hp-ir-f arguments out-ir out-len)
   (status-t void* sp-sample-t** sp-time-t*)
-- 
2.43.0


From d1073548a00988dc82e0f8cca048c9992ac1cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 21/28] fix: sp_moving_average reflected the wrong samples at
 the end

---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 source/sc/sph-sp/filter.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 8992be9..7fb0ca1 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -347,7 +347,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((in_size - 2) - (i - (in_size - radius)))] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index e784c82..f789b0c 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -321,6 +321,6 @@
       (-
         (+ sum
           (if* next (array-get next (- i (- in-size radius)))
-            (* (array-get in (- (+ i radius 1) in-size)) -1)))
+            (* (array-get in (- in-size 2 (- i (- in-size radius)))) -1)))
         (array-get in (- i radius 1)))
       (array-get out i) (/ sum width))))
\ No newline at end of file
-- 
2.43.0


From 2d7a531ef0dbf43c59ed8ed76697f95341b977cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:14 +0000
Subject: [PATCH 22/28] fix: quicksort compared elements outside of the range

---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..d81c385 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -12,7 +12,7 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
   ssize_t pivot = (left + ((right - left) / 2));
   ssize_t l = left;
   ssize_t r = right;
-  while (1) {
+  while (l <= r) {
     while (less_p(array, l, pivot)) {
       l = (1 + l);
     };
-- 
2.43.0


From 5cc2211e3a7b94fd93fcfe88138f250c31f821a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:22 +0000
Subject: [PATCH 23/28] fix: median of an odd number of elements was not the
 middle one and leaked

---
 source/c-precompiled/sph-sp/statistics.c | 3 ++-
 source/sc/sph-sp/statistics.sc           | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..b2ee6ec 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,8 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? ((sp_sample_t)(temp[(size / 2)])) : ((((sp_sample_t)(temp[(size / 2)])) + temp[((size / 2) - 1)]) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 5260cd7..2b37945 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -46,8 +46,12 @@
     (memcpy temp a (* size (sizeof value-t)))
     (quicksort sort-less sort-swap temp 0 (- size 1))
     (set *out
-      (if* (bit-and size 1) (array-get temp (- (/ size 2) 1))
-        (/ (+ (array-get temp (/ size 2)) (array-get temp (- (/ size 2) 1))) 2.0)))
+      (if* (bit-and size 1) (convert-type (array-get temp (/ size 2)) sp-sample-t)
+        (/
+          (+ (convert-type (array-get temp (/ size 2)) sp-sample-t)
+            (array-get temp (- (/ size 2) 1)))
+          2.0)))
+    (free temp)
     (return 0))
   (define-sp-stat-inharmonicity name value-t)
   (define (name a size out) (uint8-t value-t* sp-time-t sp-sample-t*)
-- 
2.43.0


From 0aa9d8d2c9269013392e758099c05d5eab136667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:29 +0000
Subject: [PATCH 24/28] fix: sp_stat_times_mean wrapped sums at 32 bits

---
 source/c-precompiled/sph-sp/statistics.c | 2 +-
 source/sc/sph-sp/statistics.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index b2ee6ec..f377b3c 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -158,7 +158,7 @@ uint8_t sp_stat_times_center(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
 }
 define_sp_stat_range(sp_stat_times_range, sp_time_t)
   uint8_t sp_stat_times_mean(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
+  uint64_t sum;
   sum = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 2b37945..e4618ed 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -109,7 +109,7 @@
 (define-sp-stat-range sp-stat-times-range sp-time-t)
 
 (define (sp-stat-times-mean a size out) (uint8-t sp-time-t* sp-time-t sp-sample-t*)
-  (declare sum sp-time-t)
+  (declare sum uint64-t)
   (set sum 0)
   (sp-for-each-index i size (set+ sum (array-get a i)))
   (set *out (/ sum (convert-type size sp-sample-t)))
-- 
2.43.0


From f5501fbcf6a995793fec17a3bea311852cfcbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:36 +0000
Subject: [PATCH 25/28] fix: sp_samples_scale_to_times exceeded the maximum for
 positive and divided by zero for equal samples

---
 source/c-precompiled/sph-sp/statistics.c | 6 +++++-
 source/sc/sph-sp/statistics.sc           | 9 ++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index f377b3c..946f367 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -193,11 +193,15 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   void sp_samples_scale_to_times(sp_sample_t* a, sp_time_t size, sp_time_t max, sp_time_t* out) {
   sp_sample_t range[3];
   sp_sample_t addition;
+  sp_sample_t top;
+  sp_sample_t factor;
   /* returns min, max, range */
   sp_stat_samples_range(a, size, range);
   addition = ((0 > range[0]) ? fabs((range[0])) : 0);
+  top = (range[1] + addition);
+  factor = ((0 < top) ? (max / top) : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / range[2])));
+    out[i] = sp_cheap_round_positive(((a[i] + addition) * factor));
   };
 }
 uint8_t sp_stat_samples_mean(sp_sample_t* a, sp_time_t size, sp_sample_t* out) {
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index e4618ed..e6a77af 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -136,13 +136,16 @@
    makes all values positive by adding the absolute minimum
    then scales with multiplication so that the largest value is max
    then rounds to sp-time-t"
-  (declare range (array sp-sample-t 3) addition sp-sample-t)
+  (declare range (array sp-sample-t 3) addition sp-sample-t top sp-sample-t factor sp-sample-t)
   (sc-comment "returns min, max, range")
   (sp-stat-samples-range a size range)
-  (set addition (if* (> 0 (array-get range 0)) (fabs (array-get range 0)) 0))
+  (set
+    addition (if* (> 0 (array-get range 0)) (fabs (array-get range 0)) 0)
+    top (+ (array-get range 1) addition)
+    factor (if* (< 0 top) (/ max top) 0))
   (sp-for-each-index i size
     (set (array-get out i)
-      (sp-cheap-round-positive (* (+ (array-get a i) addition) (/ max (array-get range 2)))))))
+      (sp-cheap-round-positive (* (+ (array-get a i) addition) factor)))))
 
 (define (sp-stat-samples-mean a size out) (uint8-t sp-sample-t* sp-time-t sp-sample-t*)
   (set *out (/ (sp-samples-sum a size) size))
-- 
2.43.0


From 590d543424fb2271ef0ecdbabe5b1feb6c5acaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:08 +0000
Subject: [PATCH 26/28] fix: sp_status_name did not name end of file and the
 failures of the helper library

---
 source/c-precompiled/sph-sp/main.c | 6 +++++-
 source/sc/sph-sp/main.sc           | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 180f79c..27f2819 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -101,7 +101,9 @@ uint8_t* sp_status_description(status_t a) {
 uint8_t* sp_status_name(status_t a) {
   uint8_t* b;
   if (0 == strcmp(sp_s_group_sp, (a.group))) {
-    if (sp_s_id_input_type == a.id) {
+    if (sp_s_id_eof == a.id) {
+      b = "end-of-file";
+    } else if (sp_s_id_input_type == a.id) {
       b = "input-type";
     } else if (sp_s_id_not_implemented == a.id) {
       b = "not-implemented";
@@ -120,6 +122,8 @@ uint8_t* sp_status_name(status_t a) {
     } else {
       b = "unknown";
     };
+  } else if (!strcmp(sp_s_group_sph, (a.group))) {
+    b = sph_helper_status_name(a);
   } else {
     b = "unknown";
   };
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index f7a9a67..c96b2bb 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -68,6 +68,7 @@
   (cond
     ( (= 0 (strcmp sp-s-group-sp a.group))
       (case = a.id
+        (sp-s-id-eof (set b "end-of-file"))
         (sp-s-id-input-type (set b "input-type"))
         (sp-s-id-not-implemented (set b "not-implemented"))
         (sp-s-id-memory (set b "memory"))
@@ -77,6 +78,7 @@
         (sp-s-id-file-eof (set b "end-of-file"))
         (sp-s-id-invalid-argument (set b "invalid-argument"))
         (else (set b "unknown"))))
+    ((not (strcmp sp-s-group-sph a.group)) (set b (sph-helper-status-name a)))
     (else (set b "unknown")))
   (return b))
 
-- 
2.43.0


From fdb947454d67e2309a25b811ac673b6e0c8e6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:55 +0000
Subject: [PATCH 27/28] fix: sp_event_list_reverse of an empty list stored an
 unset pointer as the list head

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..2b999f6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -15,6 +15,7 @@ void sp_event_list_display(sp_event_list_t* a) {
 void sp_event_list_reverse(sp_event_list_t** a) {
   sp_event_list_t* current;
   sp_event_list_t* next;
+  current = 0;
   next = *a;
   while (next) {
     current = next;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 2c32114..8a69105 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -13,7 +13,7 @@
 
 (define (sp-event-list-reverse a) (void sp-event-list-t**)
   (declare current sp-event-list-t* next sp-event-list-t*)
-  (set next *a)
+  (set current 0 next *a)
   (while next (set current next next next:next current:next current:previous current:previous next))
   (set *a current))
 
-- 
2.43.0


From 055516defc690eb9c5357485386f995817bb27d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:00 +0000
Subject: [PATCH 28/28] fix: sp_event_memory_add_with_handler wrote beyond an
 event memory register of size zero

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 source/sc/sph-sp/sequencer.sc           | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 2b999f6..3f572b7 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -139,7 +139,7 @@ void sp_event_list_free(sp_event_list_t** events) {
 status_t sp_event_memory_add_with_handler(sp_event_t* a, void* address, sp_memory_free_t handler) {
   status_declare;
   if (a->memory.data) {
-    if (!array3_unused_size((a->memory)) && sp_memory_resize((&(a->memory)), (sp_event_memory_growth_factor * array3_max_size((a->memory))))) {
+    if (!array3_unused_size((a->memory)) && sp_memory_resize((&(a->memory)), (array3_max_size((a->memory)) ? (sp_event_memory_growth_factor * array3_max_size((a->memory))) : sp_event_memory_initial_size))) {
       sp_memory_error;
     };
   } else {
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 8a69105..c06156f 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -85,7 +85,10 @@
   (if a:memory.data
     (if
       (and (not (array3-unused-size a:memory))
-        (sp-memory-resize &a:memory (* sp-event-memory-growth-factor (array3-max-size a:memory))))
+        (sp-memory-resize &a:memory
+          (if* (array3-max-size a:memory)
+            (* sp-event-memory-growth-factor (array3-max-size a:memory))
+            sp-event-memory-initial-size)))
       sp-memory-error)
     (if (sp-memory-new sp-event-memory-initial-size &a:memory) sp-memory-error
       (if (not a:free) (set a:free sp-event-memory-free))))
-- 
2.43.0

