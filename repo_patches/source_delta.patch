From de9166a015878bc3907a3e8b75a1c633354087b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 1/7] fix: store every byte of a substring length, including
 trailing zero bytes

HashTable::set_length() stopped at the last non-zero byte, so a length that is
a multiple of 256 was left with uninitialised bytes: bwt_string() then threw or
returned a wrong transform for inputs with such a substring.
---
 src/hashtable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index 3f54d45..ceac65f 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -175,7 +175,8 @@ void flbwt::HashTable::set_length(uint8_t *p, uint64_t length)
         (*r)--;
     }
 
-    while (length != 0)
+    // write all the length bytes (also the trailing zero bytes)
+    for (uint8_t i = 0; i < *r; i++)
     {
         value = (length & 0xff00000000000000) >> 56;
         *p++ = value;
-- 
2.43.0


From 65853d30ffb3604e6527b206d01cb59f10c492d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 2/7] fix: transform inputs of one and two bytes instead of
 dereferencing NULL

extract_LMS_strings() returned a container without a hash table for n <= 2,
which sort_LMS_strings() then dereferenced, so bwt_string()/bwt_file() crashed.
The general path handles these lengths; only the index in
create_shortened_string() had to become signed for n == 1.
---
 src/flbwt.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 487446d..6a9566f 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -320,10 +320,6 @@ flbwt::Container *flbwt::extract_LMS_strings(uint8_t *T, const uint64_t n)
     // Initialize the result data structure
     flbwt::Container *container = new Container(n);
 
-    // If T is trivial, then return the result immediately
-    if (n <= 2)
-        return container;
-
     // Initialize hash table where unique substrings are stored
     container->hashtable = new HashTable(67777, n);
 
@@ -526,7 +522,7 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
     j--;
 
     // scan the input string from right to left and save the S* substrings
-    for (uint64_t i = n - 2; i >= 0; i--)
+    for (int64_t i = n - 2; i >= 0; i--)
     {
         // check if character is TYPE_S
         if (T[i] < T[i + 1])
@@ -553,9 +549,6 @@ flbwt::PackedArray *flbwt::create_shortened_string(uint8_t *T, const uint64_t n,
 
             previous_type = TYPE_L;
         }
-
-        if (i == 0)
-            break; // to prevent integer underflow
     }
 
     T1->set_value(0, max_name);
-- 
2.43.0


From d3cbebf3d1e872072a7fcf989015aa22459a47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 3/7] fix: undefined shifts in BIT_MASK and in the
 split-integer getters

BIT_MASK(type, 0) shifted by the full width of the type, which PackedArray does
for every value that ends at a word boundary, and the 40/48/56 bit getters left
shifted negative values.
---
 include/packed_array.hpp | 4 ++--
 include/sais40bit.hpp    | 2 +-
 include/sais48bit.hpp    | 2 +-
 include/sais56bit.hpp    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/packed_array.hpp b/include/packed_array.hpp
index 8f21537..8f04d36 100644
--- a/include/packed_array.hpp
+++ b/include/packed_array.hpp
@@ -6,8 +6,8 @@
 
 // https://stackoverflow.com/questions/22899466/this-declaration-has-no-storage-class-or-type-specifier-in-c
 #define BIT_MASK(__TYPE__, __ONE_COUNT__) \
-    ((__TYPE__) (-((__ONE_COUNT__) != 0))) \
-    & (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__)))
+    (((__ONE_COUNT__) == 0) ? (__TYPE__) 0 \
+    : (((__TYPE__) -1) >> ((sizeof(__TYPE__) * CHAR_BIT) - (__ONE_COUNT__))))
 
 namespace flbwt {
 
diff --git a/include/sais40bit.hpp b/include/sais40bit.hpp
index 2ff72c3..0609803 100644
--- a/include/sais40bit.hpp
+++ b/include/sais40bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_40bit_value(uint32_t *L, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32 | L[index]);
     }
 
     /**
diff --git a/include/sais48bit.hpp b/include/sais48bit.hpp
index edb2c19..e9c0d40 100644
--- a/include/sais48bit.hpp
+++ b/include/sais48bit.hpp
@@ -19,7 +19,7 @@ namespace flbwt
 
     inline int64_t get_48bit_value(uint32_t *L, int16_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 32 | L[index]);
     }
 
     /**
diff --git a/include/sais56bit.hpp b/include/sais56bit.hpp
index 2616b8f..943d1b1 100644
--- a/include/sais56bit.hpp
+++ b/include/sais56bit.hpp
@@ -20,7 +20,7 @@ namespace flbwt
 
     inline int64_t get_56bit_value(uint32_t *L, uint16_t *M, int8_t *U, int64_t index)
     {
-        return (int64_t)U[index] << 48 | (int64_t)M[index] << 32 | L[index];
+        return (int64_t)((uint64_t)U[index] << 48 | (uint64_t)M[index] << 32 | L[index]);
     }
 
     /**
-- 
2.43.0


From c11d6a9872ce0145eb110017dc700d0c9b72e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 4/7] fix: reject inputs that bwt_file() cannot read completely

A non-seekable input made ftell() return -1, so a zero byte buffer was allocated
and the pipe's content was read past its end; a short read went unnoticed and
the rest of the buffer was transformed uninitialised. The failing paths also
leaked the stream and the buffer.
---
 src/flbwt.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 6a9566f..080b25c 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -34,8 +34,18 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     if (fp == NULL)
         throw std::invalid_argument("fopen failed(): Could not open input file");
 
-    fseek(fp, 0L, SEEK_END);
-    n = ftell(fp);
+    // The length must be known before reading (pipes, for example, are not seekable)
+    long length = -1;
+    if (fseek(fp, 0L, SEEK_END) == 0)
+        length = ftell(fp);
+
+    if (length < 0)
+    {
+        fclose(fp);
+        throw std::runtime_error("ftell failed(): Could not get the input file length");
+    }
+
+    n = length;
     rewind(fp);
 
     T = (uint8_t *)malloc((n + 1) * sizeof(uint8_t));
@@ -46,8 +56,12 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         throw std::runtime_error("T* malloc failed(): Could not allocate memory");
     }
 
-    if (fread(T, 1, n, fp) <= 0)
+    if (n == 0 || fread(T, 1, n, fp) != n)
+    {
+        free(T);
+        fclose(fp);
         throw std::runtime_error("fread failed(): Could not read input file");
+    }
     fclose(fp);
 
     // Input string should end with '\0' --> so the following assignment is ok.
-- 
2.43.0


From 8756929ccd8aa27db7784fd95a2f82a71954eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 5/7] fix: report output that bwt_file() could not write

bwt_file() ignored the results of fwrite() and fclose(), so a full disk left a
truncated output file behind a successful return. The result was also leaked
when the output file could not be opened.
---
 src/flbwt.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 080b25c..4309a88 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -77,7 +77,11 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
     fp = fopen(output_filename, "wb");
 
     if (fp == NULL)
+    {
+        delete[] B->BWT;
+        free(B);
         throw std::invalid_argument("fopen failed(): Could not open output file");
+    }
 
     if (B != NULL && B->BWT != NULL)
     {
@@ -110,7 +114,10 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
         }
     }
 
-    fclose(fp);
+    // A failed write may also show up only when the stream is flushed
+    bool write_failed = ferror(fp) != 0;
+    if (fclose(fp) != 0)
+        write_failed = true;
 
     // Release result resources
     if (B != NULL)
@@ -119,6 +126,9 @@ void flbwt::bwt_file(const char *input_filename, const char *output_filename)
             delete[] B->BWT;
         free(B);
     }
+
+    if (write_failed)
+        throw std::runtime_error("fwrite failed(): Could not write output file");
 }
 
 flbwt::BWT_result *flbwt::bwt_string(uint8_t *T, const uint64_t n, bool free_T)
-- 
2.43.0


From fa8747d70f11bf5cf75c1c174f672d18741b4d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 6/7] fix: throw std::bad_alloc when malloc or realloc fails

The result of operator new is checked by the language, but the malloc() and
realloc() results were dereferenced unchecked, so running out of memory crashed
(and a failed realloc in the hash table overwrote the only pointer to the buffer).
---
 src/flbwt.cpp        | 5 +++++
 src/hashtable.cpp    | 3 +++
 src/induce32bit.cpp  | 3 +++
 src/induce40bit.cpp  | 3 +++
 src/induce48bit.cpp  | 3 +++
 src/induce56bit.cpp  | 3 +++
 src/induce64bit.cpp  | 3 +++
 src/packed_array.cpp | 3 +++
 src/queue.cpp        | 5 +++++
 9 files changed, 31 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 4309a88..2c64bc2 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <iostream>
+#include <new>
 // #include <time.h>
 #include <stdlib.h>
 #include "flbwt.hpp"
@@ -402,6 +403,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
 {
     // array s will hold hashtable positions of sorted S* substrings
     uint8_t **s = (uint8_t **)malloc((container->num_of_unique_substrings + 2) * sizeof(uint8_t *));
+    if (s == NULL)
+        throw std::bad_alloc();
 
     uint64_t p, i, j, l, m;
     uint8_t *r, *q;
@@ -412,6 +415,8 @@ uint8_t **flbwt::sort_LMS_strings(uint8_t *T, flbwt::Container *container)
     uint64_t space_required = 1 + 1 + container->hashtable->calculate_lenlen(p + 1) + (p + 1) + container->hashtable->NAME_BYTES;
     space_required += 1 + 1 + 1 + 1 + container->hashtable->NAME_BYTES;
     r = (uint8_t *)realloc(container->hashtable->buf, container->hashtable->bufsize + space_required);
+    if (r == NULL)
+        throw std::bad_alloc();
     if (r != container->hashtable->buf)
         container->hashtable->buf = r;
     container->hashtable->bufsize += space_required;
diff --git a/src/hashtable.cpp b/src/hashtable.cpp
index ceac65f..55e9ae2 100644
--- a/src/hashtable.cpp
+++ b/src/hashtable.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <algorithm>
+#include <new>
 #include "hashtable.hpp"
 #include "utility.hpp"
 
@@ -88,6 +89,8 @@ uint8_t flbwt::HashTable::insert_string(const uint64_t m, uint8_t *p)
     if ((int64_t)space_required >= (int64_t)this->rest[h] - 12)
     {
         r2 = (uint8_t *)realloc(this->buf, this->bufsize + this->HBSIZE + space_required);
+        if (r2 == NULL)
+            throw std::bad_alloc();
 
         if (r2 != this->buf)
             this->buf = r2;
diff --git a/src/induce32bit.cpp b/src/induce32bit.cpp
index afba1a6..50fd941 100644
--- a/src/induce32bit.cpp
+++ b/src/induce32bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce32bit.hpp"
 #include "queue.hpp"
 
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_32bit(int32_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce40bit.cpp b/src/induce40bit.cpp
index da4e17f..cda710a 100644
--- a/src/induce40bit.cpp
+++ b/src/induce40bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce40bit.hpp"
 #include "sais40bit.hpp"
 #include "queue.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_40bit(uint32_t *SA_L, int8_t *SA_U, flbwt::
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce48bit.cpp b/src/induce48bit.cpp
index 5d67da7..2e2ec39 100644
--- a/src/induce48bit.cpp
+++ b/src/induce48bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce48bit.hpp"
 #include "sais48bit.hpp"
 #include "queue.hpp"
@@ -173,6 +174,8 @@ flbwt::BWT_result *flbwt::induce_bwt_48bit(uint32_t *SA_L, int16_t *SA_U, flbwt:
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce56bit.cpp b/src/induce56bit.cpp
index c9588f5..8a434e1 100644
--- a/src/induce56bit.cpp
+++ b/src/induce56bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce56bit.hpp"
 #include "sais56bit.hpp"
 #include "queue.hpp"
@@ -174,6 +175,8 @@ flbwt::BWT_result *flbwt::induce_bwt_56bit(uint32_t *SA_L, uint16_t *SA_M, int8_
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/induce64bit.cpp b/src/induce64bit.cpp
index d59cb3a..3fc599b 100644
--- a/src/induce64bit.cpp
+++ b/src/induce64bit.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <new>
 #include "induce64bit.hpp"
 #include "queue.hpp"
 
@@ -171,6 +172,8 @@ flbwt::BWT_result *flbwt::induce_bwt_64bit(int64_t *SA, flbwt::Container *contai
 
     // return the result bwt
     BWT_result *bwt_result = (BWT_result *)malloc(sizeof(BWT_result));
+    if (bwt_result == NULL)
+        throw std::bad_alloc();
     bwt_result->last = last;
     bwt_result->BWT = BWT;
 
diff --git a/src/packed_array.cpp b/src/packed_array.cpp
index cdca17d..65249c3 100644
--- a/src/packed_array.cpp
+++ b/src/packed_array.cpp
@@ -1,4 +1,5 @@
 #include <cstdlib>
+#include <new>
 #include <stddef.h>
 #include "packed_array.hpp"
 #include "utility.hpp"
@@ -12,6 +13,8 @@ flbwt::PackedArray::PackedArray(uint64_t length, uint8_t integer_bits)
     uint64_t bits_required = length * this->integer_bits;
     uint64_t arr_length = bits_required / 64 + 1;
     this->arr = (uint64_t *)malloc(arr_length * sizeof(uint64_t));
+    if (this->arr == NULL)
+        throw std::bad_alloc();
     this->arr_length = arr_length;
 }
 
diff --git a/src/queue.cpp b/src/queue.cpp
index acf3655..c679b25 100644
--- a/src/queue.cpp
+++ b/src/queue.cpp
@@ -1,5 +1,6 @@
 #include <stddef.h>
 #include <stdlib.h>
+#include <new>
 #include "queue.hpp"
 #include "utility.hpp"
 
@@ -37,6 +38,8 @@ void flbwt::Queue::enqueue(uint64_t x)
     if (this->e_ofs == QSIZ - 1)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->eb == NULL)
@@ -67,6 +70,8 @@ void flbwt::Queue::enqueue_l(uint64_t x)
     if (this->s_ofs == 0)
     { // current block is full
         qb = (qblock *)malloc(sizeof(qblock));
+        if (qb == NULL)
+            throw std::bad_alloc();
         qb->b = new PackedArray(QSIZ, this->w);
 
         if (this->sb == NULL)
-- 
2.43.0


From 5eb9f1fd3f6be84c03ae9f2405b7f046e18cbc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 7/7] verification hook after sorting the S* substrings
 (FLBWT_VERIF_HOOKS)

Off by default; lets a harness observe and rebase the container before the
suffix array integer width is chosen.
---
 src/flbwt.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/flbwt.cpp b/src/flbwt.cpp
index 2c64bc2..b32a5df 100644
--- a/src/flbwt.cpp
+++ b/src/flbwt.cpp
@@ -25,6 +25,12 @@
  */
 flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T);
 
+#ifdef FLBWT_VERIF_HOOKS
+// Verification hook: called (if set) after the S* substrings have been sorted and before
+// the width of the suffix array integers is chosen.
+void (*flbwt_verif_after_sort)(flbwt::Container *container) = NULL;
+#endif
+
 void flbwt::bwt_file(const char *input_filename, const char *output_filename)
 {
     // Read content from the input file
@@ -150,6 +156,11 @@ flbwt::BWT_result *bwt_is(uint8_t *T, const uint64_t n, bool free_T)
     // Sort the S*substrings and name them
     uint8_t **S = flbwt::sort_LMS_strings(T, container);
 
+#ifdef FLBWT_VERIF_HOOKS
+    if (flbwt_verif_after_sort != NULL)
+        flbwt_verif_after_sort(container);
+#endif
+
     // Get new shortened string T1
     flbwt::PackedArray *T1 = flbwt::create_shortened_string(T, n, container);
 
-- 
2.43.0

