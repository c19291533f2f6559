From 269cae2a51f0808dd15de81d4f7f546395b0263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 1/8] fix: reject signed messages too short to hold a signature

crypto_sign_open read sm[smlen - 1] for smlen == 0 and computed a negative
message length (passed to memcpy) whenever smlen was below the signature size
announced by the final byte.
---
 Optimized_Implementation/common/lib/sign.c | 9 +++++++++
 Reference_Implementation/lib/sign.c        | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..0f88d20 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* no signature is shorter than one with no published seeds */
+    if (smlen < LESS_CRYPTO_BYTES(0u)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,6 +84,10 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
 
+    if (smlen < sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..aa98e30 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* no signature is shorter than one with no published seeds */
+    if (smlen < LESS_CRYPTO_BYTES(0u)) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -80,6 +85,10 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
 
+    if (smlen < sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
-- 
2.43.0


From 59c5b1ebee8423ad6c57685003abde716d00e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 2/8] fix: accept signatures publishing exactly
 MAX_PUBLISHED_SEEDS seeds

MAX_PUBLISHED_SEEDS is the largest number of seeds a challenge can require and
is reached for the category 1 balanced and intermediate sets; such honest
signatures were rejected by crypto_sign_open.
---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 0f88d20..68b893a 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -77,7 +77,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index aa98e30..905de1d 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -78,7 +78,7 @@ int crypto_sign_open(unsigned char *m,
     }
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From 17320558d64289c62491963336527d6b08d0111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 3/8] fix: reject signatures whose seed count differs from the
 challenge's

The number of seeds LESS_verify reads is determined by the challenge, but the
signature size by the final byte. With too small a count the verifier read
seeds past the end of the signed message; with too large a count trailing
garbage was accepted as part of a valid signature.
---
 .../common/include/seedtree.h                 |  5 +++++
 .../common/lib/seedtree.c                     | 19 +++++++++++++++++++
 Optimized_Implementation/common/lib/sign.c    | 16 ++++++++++++++++
 Reference_Implementation/include/seedtree.h   |  5 +++++
 Reference_Implementation/lib/seedtree.c       | 19 +++++++++++++++++++
 Reference_Implementation/lib/sign.c           | 16 ++++++++++++++++
 6 files changed, 80 insertions(+)

diff --git a/Optimized_Implementation/common/include/seedtree.h b/Optimized_Implementation/common/include/seedtree.h
index 26b75e4..a1f314a 100644
--- a/Optimized_Implementation/common/include/seedtree.h
+++ b/Optimized_Implementation/common/include/seedtree.h
@@ -22,6 +22,11 @@ uint32_t seed_tree_path(const unsigned char
 
 /******************************************************************************/
 
+/* returns the number of seeds seed_tree_path() publishes for the given indices */
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T]);
+
+/******************************************************************************/
+
 /* returns the number of seeds which have been used to regenerate the tree */
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
diff --git a/Optimized_Implementation/common/lib/seedtree.c b/Optimized_Implementation/common/lib/seedtree.c
index dc57281..1431723 100644
--- a/Optimized_Implementation/common/lib/seedtree.c
+++ b/Optimized_Implementation/common/lib/seedtree.c
@@ -99,6 +99,25 @@ static void compute_seeds_to_publish(
 
 /*****************************************************************************/
 
+/* counts the maximal subtrees without leaves to be kept hidden, i.e. the seeds
+ * which seed_tree_path() emits for the same indices */
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T]) {
+    unsigned char flags_tree_to_publish[NUM_NODES_OF_SEED_TREE] = {0};
+    compute_seeds_to_publish(flags_tree_to_publish, indices_to_publish);
+
+    uint32_t num_seeds_published = 0;
+    for (uint32_t i = 0; i < NUM_NODES_OF_SEED_TREE; i++) {
+        if (flags_tree_to_publish[i]         == TO_PUBLISH &&
+            flags_tree_to_publish[PARENT(i)] == NOT_TO_PUBLISH ) {
+            num_seeds_published++;
+        }
+    }
+
+    return num_seeds_published;
+} /* end seed_tree_num_published */
+
+/*****************************************************************************/
+
 uint32_t seed_tree_path(const unsigned char
                    seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
         // INPUT: binary array storing in each cell a binary value (i.e., 0 or 1),
diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 68b893a..5f99d83 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -25,6 +25,8 @@
 
 
 #include "api.h"
+#include "seedtree.h"
+#include "utils.h"
 #include <string.h>  // memcpy
 
 /*----------------------------------------------------------------------------*/
@@ -89,6 +91,20 @@ int crypto_sign_open(unsigned char *m,
     }
 
     *mlen = smlen - (unsigned long long)sig_len;
+
+    /* the challenge determines how many seeds a signature has to publish: with
+     * fewer, their storage would be read past its end; with more, the signature
+     * would carry bytes nobody checks */
+    const sign_t *const sig = (const sign_t *) (sm + *mlen);
+    uint8_t fixed_weight_string[T] = {0};
+    expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
+    for (uint32_t i = 0; i < T; i++) {
+        fixed_weight_string[i] = !!(fixed_weight_string[i]);
+    }
+    if (seed_tree_num_published(fixed_weight_string) != num_seeds_published) {
+        return -1;
+    }
+
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
     /* verify returns 1 if signature is ok, 0 otherwise */
diff --git a/Reference_Implementation/include/seedtree.h b/Reference_Implementation/include/seedtree.h
index 102c945..e8cc07f 100644
--- a/Reference_Implementation/include/seedtree.h
+++ b/Reference_Implementation/include/seedtree.h
@@ -24,6 +24,11 @@ uint32_t seed_tree_path(const unsigned char
 
 /******************************************************************************/
 
+/* returns the number of seeds seed_tree_path() publishes for the given indices */
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T]);
+
+/******************************************************************************/
+
 /* returns the number of seeds which have been used to regenerate the tree */
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
diff --git a/Reference_Implementation/lib/seedtree.c b/Reference_Implementation/lib/seedtree.c
index d873519..65d148c 100644
--- a/Reference_Implementation/lib/seedtree.c
+++ b/Reference_Implementation/lib/seedtree.c
@@ -100,6 +100,25 @@ static void compute_seeds_to_publish(
 
 /*****************************************************************************/
 
+/* counts the maximal subtrees without leaves to be kept hidden, i.e. the seeds
+ * which seed_tree_path() emits for the same indices */
+uint32_t seed_tree_num_published(const unsigned char indices_to_publish[T]) {
+   unsigned char flags_tree_to_publish[NUM_NODES_OF_SEED_TREE] = {0};
+   compute_seeds_to_publish(flags_tree_to_publish, indices_to_publish);
+
+   uint32_t num_seeds_published = 0;
+   for (uint32_t i = 0; i < NUM_NODES_OF_SEED_TREE; i++) {
+      if (flags_tree_to_publish[i]         == TO_PUBLISH &&
+          flags_tree_to_publish[PARENT(i)] == NOT_TO_PUBLISH ) {
+         num_seeds_published++;
+      }
+   }
+
+   return num_seeds_published;
+} /* end seed_tree_num_published */
+
+/*****************************************************************************/
+
 uint32_t seed_tree_path(const unsigned char
                   seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
                   // INPUT: binary array storing in each cell a binary value (i.e., 0 or 1),
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 905de1d..e76fb8d 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -26,6 +26,8 @@
 
 
 #include "api.h"
+#include "seedtree.h"
+#include "utils.h"
 #include <stddef.h>  //  size_t
 #include <string.h>  // memcpy
 /*----------------------------------------------------------------------------*/
@@ -90,6 +92,20 @@ int crypto_sign_open(unsigned char *m,
     }
 
     *mlen = smlen - (unsigned long long)sig_len;
+
+    /* the challenge determines how many seeds a signature has to publish: with
+     * fewer, their storage would be read past its end; with more, the signature
+     * would carry bytes nobody checks */
+    const sign_t *const sig = (const sign_t *) (sm + *mlen);
+    uint8_t fixed_weight_string[T] = {0};
+    expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
+    for (uint32_t i = 0; i < T; i++) {
+        fixed_weight_string[i] = !!(fixed_weight_string[i]);
+    }
+    if (seed_tree_num_published(fixed_weight_string) != num_seeds_published) {
+        return -1;
+    }
+
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
     /* verify returns 1 if signature is ok, 0 otherwise */
-- 
2.43.0


From 27f28dcd69ab1dc9b28e54fbcf03bb916d3311e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 4/8] fix: reject public keys whose matrices are not in RREF

A public key with more or fewer than K pivot flags made the verifier read past
the packed matrix, and one with entries equal to 127 or too few pivots made it
work on non-canonical or rank-deficient matrices; such keys never verify now.
---
 .../common/include/codes.h                    |  4 ++++
 Optimized_Implementation/common/lib/LESS.c    |  7 ++++++
 Optimized_Implementation/common/lib/codes.c   | 24 +++++++++++++++++++
 Reference_Implementation/include/codes.h      |  4 ++++
 Reference_Implementation/lib/LESS.c           |  7 ++++++
 Reference_Implementation/lib/codes.c          | 24 +++++++++++++++++++
 6 files changed, 70 insertions(+)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..5304c09 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -89,6 +89,10 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
+/* Checks that a compressed matrix describes an RREF: exactly K pivot columns and
+ * every entry an element of the field. Returns 1 if so, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed);
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..aeaf2b7 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -214,6 +214,13 @@ int LESS_verify(const pubkey_t *const PK,
                 const uint64_t mlen,
                 const sign_t *const sig) {
 
+    /* Check that the public key holds matrices in RREF */
+    for (uint32_t i = 0; i < NUM_KEYPAIRS - 1; i++) {
+        if (!is_compressed_rref_valid(PK->SF_G[i])) {
+            return 0;
+        }
+    }
+
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
     monomial_action_IS_t mono_action;
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..4d6e079 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -473,6 +473,30 @@ void compress_rref(uint8_t *compressed,
 }    
 
 
+/* Checks that a compressed matrix describes an RREF: exactly K pivot columns and
+ * every entry an element of the field. Returns 1 if so, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed) {
+    uint32_t pivots = 0;
+    for (uint32_t col_idx = 0; col_idx < N; col_idx++) {
+        pivots += (compressed[col_idx / 8] >> (col_idx % 8)) & 0x1;
+    }
+    if (pivots != K) {
+        return 0;
+    }
+
+    const uint8_t *const entries = compressed + (N + 7) / 8;
+    for (uint32_t i = 0; i < K * (N - K); i++) {
+        uint32_t value = 0;
+        for (uint32_t bit = 7 * i; bit < 7 * (i + 1); bit++) {
+            value |= (uint32_t) ((entries[bit / 8] >> (bit % 8)) & 0x1) << (bit - 7 * i);
+        }
+        if (value >= Q) {
+            return 0;
+        }
+    }
+    return 1;
+} /* end is_compressed_rref_valid */
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed)
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..66dd062 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -89,6 +89,10 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
+/* Checks that a compressed matrix describes an RREF: exactly K pivot columns and
+ * every entry an element of the field. Returns 1 if so, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed);
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..0618f46 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -205,6 +205,13 @@ int LESS_verify(const pubkey_t *const PK,
                 const uint64_t mlen,
                 const sign_t *const sig) {
 
+    /* Check that the public key holds matrices in RREF */
+    for (uint32_t i = 0; i < NUM_KEYPAIRS - 1; i++) {
+        if (!is_compressed_rref_valid(PK->SF_G[i])) {
+            return 0;
+        }
+    }
+
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
     monomial_action_IS_t mono_action;
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..79e2917 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -414,6 +414,30 @@ void compress_rref(uint8_t *compressed, const generator_mat_t *const full,
     } /* end compress_rref */
 }
 
+/* Checks that a compressed matrix describes an RREF: exactly K pivot columns and
+ * every entry an element of the field. Returns 1 if so, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed) {
+    uint32_t pivots = 0;
+    for (uint32_t col_idx = 0; col_idx < N; col_idx++) {
+        pivots += (compressed[col_idx / 8] >> (col_idx % 8)) & 0x1;
+    }
+    if (pivots != K) {
+        return 0;
+    }
+
+    const uint8_t *const entries = compressed + (N + 7) / 8;
+    for (uint32_t i = 0; i < K * (N - K); i++) {
+        uint32_t value = 0;
+        for (uint32_t bit = 7 * i; bit < 7 * (i + 1); bit++) {
+            value |= (uint32_t) ((entries[bit / 8] >> (bit % 8)) & 0x1) << (bit - 7 * i);
+        }
+        if (value >= Q) {
+            return 0;
+        }
+    }
+    return 1;
+} /* end is_compressed_rref_valid */
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     // Decompress pivot flags
-- 
2.43.0


From 58347a90ce3d7a4080806331d90240b3bdff92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 5/8] fix: make FQ_TRIPLEPREC wide enough for br_red16 in
 3_BALANCED

br_red16 forms (x+1)*129, which does not fit 16 bits for x >= 508.
---
 Optimized_Implementation/common/include/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Optimized_Implementation/common/include/parameters.h b/Optimized_Implementation/common/include/parameters.h
index da6c663..ce4952b 100644
--- a/Optimized_Implementation/common/include/parameters.h
+++ b/Optimized_Implementation/common/include/parameters.h
@@ -81,7 +81,7 @@
 #define SEED_TREE_MAX_PUBLISHED_BYTES (3912)
 #define FQ_ELEM uint8_t
 #define FQ_DOUBLEPREC uint16_t
-#define FQ_TRIPLEPREC uint16_t
+#define FQ_TRIPLEPREC uint32_t
 #define POSITION_T uint16_t
 
 #elif defined(SHORT_SIG)
-- 
2.43.0


From c799076822f092de48c1aa4f7a76b0c516d76b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 6/8] fix: keep column normalisation branch-free under gcc -O3

---
 Optimized_Implementation/common/lib/codes.c | 22 +++++++++------------
 Reference_Implementation/lib/codes.c        | 22 +++++++++------------
 2 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 4d6e079..7fd54b0 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -220,21 +220,17 @@ void lex_minimize(normalized_IS_t *V,
                   const generator_mat_t *const G,
                   const POSITION_T col_idx)
 {
-   POSITION_T first_nonzero_idx = 0;
-   FQ_ELEM first_nonzero_val = 0;
-   int nonzero_idx_found = 0;
+   /* selects the first nonzero entry with masks: conditions written with
+    * logical operators are compiled to data-dependent branches by gcc -O3 */
+   uint32_t first_nonzero_val = 0;
+   uint32_t still_zero = 1;
    for (POSITION_T i = 0; i < K; i++) {
-      first_nonzero_idx = ( i *
-                            ( (G->values[i][col_idx] != 0) && !(nonzero_idx_found) ) ) +
-                          ( first_nonzero_idx *
-                            ( (G->values[i][col_idx] == 0) || nonzero_idx_found ) );
-      first_nonzero_val = ( G->values[i][col_idx] *
-                            ( (G->values[i][col_idx] != 0) && !(nonzero_idx_found) ) )+
-                          ( first_nonzero_val *
-                            ( (G->values[i][col_idx] == 0) || nonzero_idx_found ) );
-      nonzero_idx_found = nonzero_idx_found || (G->values[i][col_idx] != 0);
+      const uint32_t val = G->values[i][col_idx];
+      const uint32_t is_nonzero = ((uint32_t)0 - val) >> 31;
+      first_nonzero_val |= val & ((uint32_t)0 - (is_nonzero & still_zero));
+      still_zero &= is_nonzero ^ 1;
    }
-   FQ_ELEM inv_first = fq_inv(first_nonzero_val);
+   FQ_ELEM inv_first = fq_inv((FQ_ELEM)first_nonzero_val);
    for (uint32_t i = 0; i < K; i++) {
       V->values[i][dst_col_idx] = br_red(br_mul(G->values[i][col_idx], inv_first));
    }
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index 79e2917..696b65c 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -144,21 +144,17 @@ void lex_minimize(normalized_IS_t *V,
                   const generator_mat_t *const G,
                   const POSITION_T col_idx)
 {
-   POSITION_T first_nonzero_idx = 0;
-   FQ_ELEM first_nonzero_val = 0;
-   int nonzero_idx_found = 0;
+   /* selects the first nonzero entry with masks: conditions written with
+    * logical operators are compiled to data-dependent branches by gcc -O3 */
+   uint32_t first_nonzero_val = 0;
+   uint32_t still_zero = 1;
    for (POSITION_T i = 0; i < K; i++) {
-      first_nonzero_idx = ( i *
-                            ( (G->values[i][col_idx] != 0) && !(nonzero_idx_found) ) ) +
-                          ( first_nonzero_idx *
-                            ( (G->values[i][col_idx] == 0) || nonzero_idx_found ) );
-      first_nonzero_val = ( G->values[i][col_idx] *
-                            ( (G->values[i][col_idx] != 0) && !(nonzero_idx_found) ) )+
-                          ( first_nonzero_val *
-                            ( (G->values[i][col_idx] == 0) || nonzero_idx_found ) );
-      nonzero_idx_found = nonzero_idx_found || (G->values[i][col_idx] != 0);
+      const uint32_t val = G->values[i][col_idx];
+      const uint32_t is_nonzero = ((uint32_t)0 - val) >> 31;
+      first_nonzero_val |= val & ((uint32_t)0 - (is_nonzero & still_zero));
+      still_zero &= is_nonzero ^ 1;
    }
-   FQ_ELEM inv_first = fq_inv(first_nonzero_val);
+   FQ_ELEM inv_first = fq_inv((FQ_ELEM)first_nonzero_val);
    for (int i = 0; i < K; i++) {
       V->values[i][dst_col_idx] = fq_red(G->values[i][col_idx] *
                                          (FQ_DOUBLEPREC) inv_first);
-- 
2.43.0


From 7576e24442f36ea1b1356299481d010627e15e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:05 +0000
Subject: [PATCH 7/8] fix: measure the verification of a signature, not of zero
 bytes

less_verify never signed, so every measured LESS_verify call rejected an
all-zero signature early.
---
 Utilities/MemoryBenchmarking/lib/less_verify.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Utilities/MemoryBenchmarking/lib/less_verify.c b/Utilities/MemoryBenchmarking/lib/less_verify.c
index 93184de..99f1ba7 100644
--- a/Utilities/MemoryBenchmarking/lib/less_verify.c
+++ b/Utilities/MemoryBenchmarking/lib/less_verify.c
@@ -69,6 +69,7 @@ int main(int argc, char* argv[]){
     initialize_csprng(&platform_csprng_state,
                       (const unsigned char *)"0123456789012345",16);
 	LESS_keygen(&sk, &pk);
+    LESS_sign(&sk,message,8,&signature);
     LESS_verify_mem();
     return 0;
 }
-- 
2.43.0


From 1167ab6b24970376b32971b6f1187f80b6efdce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:02 +0000
Subject: [PATCH 8/8] fix: bench.sh resets the key generation time it prints

A benchmark that stopped before its first timing was reported with the
previous program's key generation time: the loop reset keygen_time, which
nothing reads, instead of kg_time.
---
 Utilities/Benchmarking/bench.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/Benchmarking/bench.sh b/Utilities/Benchmarking/bench.sh
index 1f39b01..c75a52a 100755
--- a/Utilities/Benchmarking/bench.sh
+++ b/Utilities/Benchmarking/bench.sh
@@ -3,7 +3,7 @@
 for file in build/bin/*
 do
 	output=$(./${file})
-	keygen_time=0
+	kg_time=0
 	verification_time=0
 	signature_time=0
 	while IFS= read -r line
-- 
2.43.0

