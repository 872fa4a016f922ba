From 141be416107d8941147ea01962bd600ea71c1bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 1/5] fix: mdbx_jsonInteger_from_key() must return 0 for the
 key of zero

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index fb8a379..cb8fa1d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -9278,7 +9278,7 @@ int64_t mdbx_jsonInteger_from_key(const MDBX_val v) {
   ASSERT(v.iov_len == 8);
   const uint64_t key = unaligned_peek_u64(2, v.iov_base);
   const uint64_t bias = UINT64_C(0x8000000000000000);
-  const uint64_t covalent = (key > bias) ? key - bias : bias - key - 1;
+  const uint64_t covalent = (key >= bias) ? key - bias : bias - key - 1;
   const int shift = IEEE754_DOUBLE_EXPONENTA_BIAS + 63 -
                     (IEEE754_DOUBLE_EXPONENTA_MAX & (int)(covalent >> IEEE754_DOUBLE_MANTISSA_SIZE));
   if (unlikely(shift < 1))
-- 
2.43.0


From aae71cfe41be99588b0efe9187f1765e4b8eeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 2/5] fix: meta_wipe_steady() must flush when any of the meta
 pages was wiped, not only the last one

---
 mdbx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index cb8fa1d..bfce7eb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -27490,12 +27490,15 @@ static int meta_unsteady(MDBX_env *env, const txnid_t inclusive_upto, const pgno
 
 __cold int meta_wipe_steady(MDBX_env *env, txnid_t inclusive_upto) {
   int err = meta_unsteady(env, inclusive_upto, 0);
+  bool wiped = err == MDBX_RESULT_TRUE;
   if (likely(!MDBX_IS_ERROR(err)))
     err = meta_unsteady(env, inclusive_upto, 1);
+  wiped |= err == MDBX_RESULT_TRUE;
   if (likely(!MDBX_IS_ERROR(err)))
     err = meta_unsteady(env, inclusive_upto, 2);
+  wiped |= err == MDBX_RESULT_TRUE;
 
-  if (err == MDBX_RESULT_TRUE) {
+  if (wiped && !MDBX_IS_ERROR(err)) {
     err = MDBX_SUCCESS;
     if (!MDBX_AVOID_MSYNC && (env->flags & MDBX_WRITEMAP))
       err = dxb_msync(env, NUM_METAS, MDBX_SYNC_DATA | MDBX_SYNC_IODQ);
-- 
2.43.0


From c96dcd0dd53ad60068833db3be5a3cf3ba99e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 3/5] fix: meta_validate() must not truncate the file size in
 pages

A datafile of 2^32 or more pages made the computed geometry.now wrap around,
so a consistent meta page was refused as corrupted, or accepted with a
current size below its own lower limit.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index bfce7eb..b229154 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -27848,7 +27848,7 @@ __cold int meta_validate(MDBX_env *env, meta_t *const meta, const page_t *const
   if (geo_now < geo_lower)
     geo_now = geo_lower;
   if (geo_now < dxbsize_pages)
-    geo_now = dxbsize_pages;
+    geo_now = (dxbsize_pages < geo_upper) ? (pgno_t)dxbsize_pages : geo_upper;
   if (geo_now > geo_upper)
     geo_now = geo_upper;
 
-- 
2.43.0


From cefbce8c77c0e5889579304d9680a8af024b8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 4/5] fix: dxb_read_header() must not prefer an older steady
 meta over a newer weak one of the current boot

With metas steady.N, weak.N+1 (of the current boot), steady.N-1 in this page
order, the header was taken from steady.N-1: the last page compared won. After a
crash of a process in a no-sync mode the datafile could then be shrunk below the
pages of the newer snapshots, loosing the last commit or making the database
unopenable (MDBX_PROBLEM).
---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index b229154..0cfeeef 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -19784,7 +19784,8 @@ __cold int dxb_read_header(MDBX_env *env, meta_t *dest, const int lck_exclusive,
     bool latch;
     if (env->stuck_meta >= 0)
       latch = (meta_number == (unsigned)env->stuck_meta);
-    else if (meta_bootid_match(meta))
+    else if (meta_bootid_match(meta) || (meta_bootid_match(dest) && SIGN_IS_STEADY(meta->unsafe_sign)))
+      /* a weak meta of the current boot should not be superseded by an older steady one */
       latch = meta_choice_recent(meta->unsafe_txnid, SIGN_IS_STEADY(meta->unsafe_sign), dest->unsafe_txnid,
                                  SIGN_IS_STEADY(dest->unsafe_sign));
     else
-- 
2.43.0


From 3dd44225fe87fa561388500ae835ee644e0bee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 5/5] fix: iov_page() must return the error of writing out the
 filled-up I/O ring

A failure of the intermediate write (a transaction with more dirty-pages than
slots in the I/O ring) was lost: the transaction was committed without the
pages that were not written, i.e. the database became corrupted.

txn_write() keeps the dirty-list consistent for a subsequent abort, since the
pages written out earlier are already released at this point.
---
 mdbx.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 0cfeeef..ca36d5f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -32886,12 +32886,12 @@ int iov_page(MDBX_txn *txn, iov_ctx_t *ctx, page_t *dp, size_t npages) {
       }
       err = iov_write(ctx);
       cASSERT0(txn, iov_empty(ctx));
-      if (likely(err == MDBX_SUCCESS)) {
-        err = osal_ioring_add(ctx->ior, pgno2bytes(env, dp->pgno), dp, pgno2bytes(env, npages));
-        if (unlikely(err != MDBX_SUCCESS)) {
-          iov_complete(ctx);
-          return ctx->err = err;
-        }
+      if (unlikely(err != MDBX_SUCCESS))
+        return err;
+      err = osal_ioring_add(ctx->ior, pgno2bytes(env, dp->pgno), dp, pgno2bytes(env, npages));
+      if (unlikely(err != MDBX_SUCCESS)) {
+        iov_complete(ctx);
+        return ctx->err = err;
       }
       cASSERT0(txn, ctx->err == MDBX_SUCCESS);
     }
@@ -39073,10 +39073,11 @@ static int txn_write(MDBX_txn *txn, iov_ctx_t *ctx) {
       continue;
     }
     unsigned npages = dpl_npages(dl, r);
-    total_npages += npages;
     rc = iov_page(txn, ctx, dp, npages);
     if (unlikely(rc != MDBX_SUCCESS))
-      return rc;
+      /* all previous pages were already released, but this one and subsequent should be kept in the list */
+      break;
+    total_npages += npages;
   }
 
   if (!iov_empty(ctx)) {
@@ -39098,8 +39099,8 @@ static int txn_write(MDBX_txn *txn, iov_ctx_t *ctx) {
   txn->wr.dirtyroom += r - 1 - w;
   cASSERT0(txn, txn->wr.dirtyroom + txn->wr.dirtylist->length ==
                     (txn->parent ? txn->parent->wr.dirtyroom : txn->env->options.dp_limit));
-  cASSERT0(txn, txn->wr.dirtylist->length == txn->wr.loose_count);
-  cASSERT0(txn, txn->wr.dirtylist->pages_including_loose == txn->wr.loose_count);
+  cASSERT0(txn, rc != MDBX_SUCCESS || txn->wr.dirtylist->length == txn->wr.loose_count);
+  cASSERT0(txn, rc != MDBX_SUCCESS || txn->wr.dirtylist->pages_including_loose == txn->wr.loose_count);
   return rc;
 }
 
-- 
2.43.0

