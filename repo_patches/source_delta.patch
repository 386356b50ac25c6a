From e4cbf637353a16cac690c3034db30d58c3731cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:34 +0000
Subject: [PATCH 001/182] fix: MPMC_QUEUE_RESET and MPMC_QUEUE_CAP did not
 compile

---
 inc/fast/mpmc_bounded_queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/fast/mpmc_bounded_queue.h b/inc/fast/mpmc_bounded_queue.h
index 2a4ce03..54db710 100644
--- a/inc/fast/mpmc_bounded_queue.h
+++ b/inc/fast/mpmc_bounded_queue.h
@@ -225,12 +225,12 @@ __alloc(size_t n)
 // multi-threaded context.
 #define MPMC_QUEUE_RESET(q_)    do {                                \
         typeof(q_) _qc = (q_);                                      \
-        __mpmc_slot_ty(qc) *_p   = &qc->slot[0],                    \
-                           *_end = p + qc->q.sz;                    \
+        __mpmc_slot_ty(_qc) *_p   = &_qc->slot[0],                  \
+                            *_end = _p + _qc->q.sz;                 \
                                                                     \
         for (; _p < _end; _p++) {                                   \
             atomic_store(&_p->turn, 0);                             \
-            memset(_p->data, 0, sizeof _p->data);                   \
+            memset(&_p->data, 0, sizeof _p->data);                  \
         }                                                           \
         __mpmc_q_reset(&_qc->q);                                    \
 } while (0)
@@ -345,7 +345,7 @@ __alloc(size_t n)
 #define MPMC_QUEUE_SIZE(q_)     ((size_t)__mpmc_q_len(&(q_)->q))
 
 // Return the capacity of the mpmc queue
-#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->sz))
+#define MPMC_QUEUE_CAP(q_)      ((size_t)((q_)->q.sz))
 
 // Return true if the queue is full, false otherwise. Note that this
 // is best effort when we have concurrent readers/writers.
-- 
2.43.0


From 162c3ef2bc82976de827f1bd42e43116417c1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:59 +0000
Subject: [PATCH 002/182] fix: ring dump showed the consumer tail as producer
 tail

---
 inc/fast/ringbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/ringbuf.h b/inc/fast/ringbuf.h
index 2328e27..cf8ebf4 100644
--- a/inc/fast/ringbuf.h
+++ b/inc/fast/ringbuf.h
@@ -1152,7 +1152,7 @@ rte_ring_dump(char *buf, size_t n, struct rte_ring *r)
     uint_fast32_t cons_tail = atomic_load_explicit(&r->cons.tail, memory_order_acquire),
                   cons_head = atomic_load_explicit(&r->cons.head, memory_order_acquire),
                   prod_head = atomic_load_explicit(&r->prod.head, memory_order_acquire),
-                  prod_tail = atomic_load_explicit(&r->cons.tail, memory_order_acquire);
+                  prod_tail = atomic_load_explicit(&r->prod.tail, memory_order_acquire);
 
     x = snprintf(buf, n, "ring <%p>: size=%u, used %u, avail %u\n"
                          "   cons.tail=%u, cons.head=%u\n"
-- 
2.43.0


From 8cc17ffc1eee4159fa173c8ab7cb91d8bf3ebcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:49 +0000
Subject: [PATCH 003/182] fix: define job_manager_destroy and
 work_manager_destroy as declared; close extern C in job.h

---
 inc/posix/job.h  | 2 +-
 src/posix/job.c  | 2 +-
 src/posix/work.c | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/posix/job.h b/inc/posix/job.h
index d5203d4..7a18778 100644
--- a/inc/posix/job.h
+++ b/inc/posix/job.h
@@ -37,7 +37,7 @@
 #include "fast/syncq.h"
 
 #ifdef __cplusplus
-extern "C"
+extern "C" {
 #endif
 
 
diff --git a/src/posix/job.c b/src/posix/job.c
index 33f8bb8..fecae6b 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -137,7 +137,7 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
  * for all threads to exit.
  */
 void
-job_manager_cleanup(job_manager* jm)
+job_manager_destroy(job_manager* jm)
 {
     SYNCQ_FINI(&jm->q);
     sem_destroy(&jm->done);
diff --git a/src/posix/work.c b/src/posix/work.c
index dd9811a..d4f3551 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -145,8 +145,8 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
  * Delete and destroy a work manager. Caller's responsibility to wait
  * for all threads to exit.
  */
-void
-work_manager_cleanup(work_manager* wm)
+int
+work_manager_destroy(work_manager* wm)
 {
     int i;
 
@@ -158,7 +158,9 @@ work_manager_cleanup(work_manager* wm)
     }
 
     sem_destroy(&wm->done);
+    pthread_mutex_destroy(&wm->lock);
     DEL(wm->ctx);
+    return 0;
 }
 
 
-- 
2.43.0


From bfdfe234556a28235348f8da150de6f4c685a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:15 +0000
Subject: [PATCH 004/182] fix: fast-ht bags used only one of their seven slots
 (new bags were marked full, fingerprints of other slots were dropped)

---
 src/hashtable/fast-ht.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 6ecf888..2da59cc 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -165,7 +165,7 @@ static inline uint64_t
 __update_fp(uint64_t fp, uint64_t k, int slot)
 {
     uint8_t ctrl = __control(fp) & ~(1 << slot);
-    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __h2(fp);
+    uint64_t h2  = ((k & 0xff) << (8 * slot)) | __fp(fp);
 
     return h2 | (_U64(ctrl) << 56);
 }
@@ -177,7 +177,7 @@ static inline uint64_t
 __clear_fp(uint64_t fp, int slot)
 {
     uint8_t ctrl = __control(fp) | (1 << slot);
-    uint64_t h2  = __h2(fp) & ~(_U64(0xff) << (8 * slot));
+    uint64_t h2  = __fp(fp) & ~(_U64(0xff) << (8 * slot));
     return h2 | (_U64(ctrl) << 56);
 }
 
@@ -285,6 +285,7 @@ __insert(hb *b, uint64_t k, void *v)
     if (!bg) {
         bg   = __NEWZ(bag);
         slot = 0;
+        bg->fp = __mkfp(0, 0x7f);
         b->bags++;
         SL_INSERT_HEAD(&b->head, bg, link);
     }
@@ -321,7 +322,7 @@ __insert_quick(hb *b, uint64_t k, void *v)
 
     // Make a new bag and put our element there.
     g = __NEWZ(bag);
-    g->fp = __update_fp(g->fp, k, 0);
+    g->fp = __update_fp(__mkfp(0, 0x7f), k, 0);
     g->hk[0] = k;
     g->hv[0] = v;
     b->bags++;
-- 
2.43.0


From e3e6b382a86a084b6d5f1df970d0745abf1ad6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:15 +0000
Subject: [PATCH 005/182] fix: ht_remove did not give back the bucket's fill
 count, so insert/remove churn doubled the table forever

---
 src/hashtable/fast-ht.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index 2da59cc..e908320 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -580,7 +580,7 @@ ht_remove(ht* h, uint64_t k, void** p_ret)
         g->fp = __clear_fp(g->fp, slot);
         g->hk[slot] = 0;
         g->hv[slot] = 0;
-        b->nodes--;
+        if (--b->nodes == 0) h->fill--;
         h->nodes--;
         return 1;
     }
-- 
2.43.0


From 800046364638a48ef702750f47de6210e0f3eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:15 +0000
Subject: [PATCH 006/182] fix: ht_probe counted a present key with a null value
 as a new one

---
 src/hashtable/fast-ht.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/fast-ht.c b/src/hashtable/fast-ht.c
index e908320..5654d15 100644
--- a/src/hashtable/fast-ht.c
+++ b/src/hashtable/fast-ht.c
@@ -491,9 +491,10 @@ ht_probe(ht* h, uint64_t k, void* v)
 {
     uint64_t hh  =__hash(k, h->n, h->salt);
     hb   *b  = &h->b[hh];
+    uint32_t nodes = b->nodes;
     void *nv = __insert(b, k, v);
 
-    if (nv) return nv;
+    if (b->nodes == nodes) return nv;
 
     h->nodes++;
 
-- 
2.43.0


From 45c10d46cab0e05869034d7c265d195fb94fcac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 007/182] fix: hash table lock was left held on duplicate
 insert, and the bucket array was used while another thread resized it

---
 src/hashtable/hashtab.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 6ec93b6..ea394b8 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -208,9 +208,10 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     if (!(tab && key)) return -EINVAL;
 
     hash  = hashfunc(tab, key);
-    b     = &tab->buckets[hash & (tab->size -1)];
     cmp   = tab->cmp;
 
+    lockmgr_lock(&tab->lock);
+    b     = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     SL_FOREACH(p, &b->head, link) {
@@ -226,6 +227,8 @@ hash_table_lookup(hash_table * tab, const void * key, void** p_ret)
     lockmgr_unlock(&b->lock);
 
     if (!ret) ++tab->stats.failed_lookups;
+
+    lockmgr_unlock(&tab->lock);
     if (p_ret) *p_ret = ret;
 
     return retval;
@@ -249,9 +252,10 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
 
     retval = -ENOENT;
     hash   = hashfunc(tab, key);
-    b      = &tab->buckets[hash & (tab->size -1)];
     cmp    = tab->cmp;
 
+    lockmgr_lock(&tab->lock);
+    b      = &tab->buckets[hash & (tab->size -1)];
     lockmgr_lock(&b->lock);
 
     p_next = &SL_FIRST(&b->head);
@@ -269,6 +273,7 @@ hash_table_remove(hash_table * tab, const void * key, void** p_val)
     }
 
     lockmgr_unlock(&b->lock);
+    lockmgr_unlock(&tab->lock);
 
     return retval;
 }
@@ -380,7 +385,13 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     int (*cmp)(const void*, const void*) = tab->cmp;
 
     uint32_t hash  = hashfunc(tab, data);
-    hash_bucket* b = &tab->buckets[hash & (tab->size-1)];
+    hash_bucket* b;
+
+    // the bucket array can be replaced by a concurrent resize; so,
+    // hold the table lock from here on.
+    lockmgr_lock(&tab->lock);
+
+    b = &tab->buckets[hash & (tab->size-1)];
 
     lockmgr_lock(&b->lock);
     SL_FOREACH(e, &b->head, link) {
@@ -412,6 +423,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
                 break;
         }
 
+        lockmgr_unlock(&b->lock);
         goto _done;
     }
 
@@ -422,7 +434,10 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      */
 
     e = tNEW(hash_node, tab);
-    if (!e) goto _done;
+    if (!e) {
+        lockmgr_unlock(&b->lock);
+        goto _done;
+    }
 
     retval  = 0;
     e->data = data;
@@ -434,8 +449,6 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     /*
      * Update statistics and see if table needs to grow.
      */
-    lockmgr_lock(&tab->lock);
-
     ++tab->stats.inserts;
     ++tab->stats.nodes;
     ++b->count;
@@ -454,9 +467,8 @@ insert_internal(hash_table * tab, void ** p_data, int op)
             retval = resize(tab);
     }
 
-    lockmgr_unlock(&tab->lock);
-
 _done:
+    lockmgr_unlock(&tab->lock);
     return retval;
 }
 
-- 
2.43.0


From f5ca253bc48ac811395b111fc949f290227e85f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 008/182] fix: hash_table_insert reported -ENOMEM for an item
 it had inserted when growing failed

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index ea394b8..bfcd8b9 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -464,7 +464,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
     if (b->count == 1) {
         ++tab->stats.fill;
         if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
-            retval = resize(tab);
+            resize(tab);    // the item is in; growing can wait
     }
 
 _done:
-- 
2.43.0


From 205b2176ebacded163d9c38542107ae6073d5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 009/182] fix: hash_table_remove_if gave its predicate a
 pointer to the item pointer, not the item

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index bfcd8b9..62e0c61 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -308,7 +308,7 @@ hash_table_remove_if(hash_table * tab,
         lockmgr_lock(&b->lock);
         p_next = &SL_FIRST(&b->head);
         while ((p = *p_next)) {
-            if ((*pred)(cookie, &p->data)) {
+            if ((*pred)(cookie, p->data)) {
                 ++retval;
                 *p_next = SL_NEXT(p, link);
                 remove_node(tab, b, p);
-- 
2.43.0


From 0e58f74d4b961eef66e29cffa489df412a500c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 010/182] fix: sorted hash table iterator locked the table
 twice and compared pointers to the items

---
 src/hashtable/hashtab_iter.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 71900be..2b9b497 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -315,7 +315,7 @@ qsort_cmp(const void * a, const void * b)
     indir_node * p = (indir_node *)a,
                * q = (indir_node *)b;
 
-    return (*p->cmp)(&p->node->data, &q->node->data);
+    return (*p->cmp)(p->node->data, q->node->data);
 }
 
 
@@ -334,7 +334,6 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     USEARG(param);
 
-    lockmgr_lock(&tab->lock);
     sorted->max = tab->stats.nodes;
     if (sorted->max == 0) goto _done;
 
@@ -366,7 +365,6 @@ sorted_iter_init(hash_table_iter * it, const void * param)
     ok = 0;
 
 _done:
-    lockmgr_unlock(&tab->lock);
     return ok;
 }
 
-- 
2.43.0


From d2f93a8d0d487e114e0fd6bbe45657d127d32154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 011/182] fix: bucket iterator walked the bucket of another key
 and crashed when advanced past the end

---
 src/hashtable/hashtab_iter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 2b9b497..8f51c82 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -441,7 +441,7 @@ static int
 bucket_iter_init(hash_table_iter * it, const void * key)
 {
     hash_table * tab = it->table;
-    uint32_t  hash  = (*tab->hash)(key);
+    uint32_t  hash  = tab->random ^ (*tab->hash)(key);
     hash_bucket * b  = &tab->buckets[hash & (tab->size -1)];
 
     it->un.bucket.bucket = b;
@@ -477,7 +477,7 @@ bucket_iter_end(hash_table_iter * it)
 static int
 bucket_iter_next(hash_table_iter * it)
 {
-    it->cur = SL_NEXT(it->cur, link);
+    if (it->cur) it->cur = SL_NEXT(it->cur, link);
     return it->cur ? 0 : EOF;
 }
 
-- 
2.43.0


From f7ac30ddf2528ca3b997eaa3d4fc21dc54ce2c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 012/182] fix: hash_table_iter_new crashed when the sorted
 iterator could not get memory

---
 src/hashtable/hashtab_iter.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/hashtab_iter.c b/src/hashtable/hashtab_iter.c
index 8f51c82..c64b127 100644
--- a/src/hashtable/hashtab_iter.c
+++ b/src/hashtable/hashtab_iter.c
@@ -234,8 +234,11 @@ _mk_iter(hash_table_iter_t* p_ret,
     it->table = tab;
     it->op    = Iter_tab[type];
 
-    if (it->op->init)
-        (*it->op->init)(it, param);
+    if (it->op->init && (*it->op->init)(it, param) == -ENOMEM) {
+        tFREE(tab, it);
+        it     = 0;
+        retval = -ENOMEM;
+    }
 
 _done:
     lockmgr_unlock(&tab->lock);
@@ -339,6 +342,10 @@ sorted_iter_init(hash_table_iter * it, const void * param)
 
     cmp         = tab->cmp;
     sorted->nodes = tNEWA(indir_node, tab, sorted->max);
+    if (!sorted->nodes) {
+        ok = -ENOMEM;
+        goto _done;
+    }
 
     nodes = sorted->nodes;
     n     = tab->size;
-- 
2.43.0


From e8f079457c876d672391fb7fd0b157b44143a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 013/182] fix: hash table size was computed in int

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index 62e0c61..fdc93a0 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -65,7 +65,7 @@ hash_table_new(hash_table_t * ptab, const hash_table_policy * tr)
     i = tr->logsize <= 0 || (tr->logsize >= (8*sizeof(size_t))) ? 10 : tr->logsize;
 
     tab->fillmax = tr->fillmax <= 0 || tr->fillmax >= 100 ? 80 : tr->fillmax;
-    tab->size    = 1 << i;
+    tab->size    = (size_t)1 << i;
     tab->random  = arc4random();
     tab->hash    = tr->hash;
     tab->cmp     = tr->cmp;
-- 
2.43.0


From 3f4f19d098c0192f4824855cdd75bae0513adddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 014/182] fix: counting bloom filter counters wrapped after 255
 adds and removing an absent key disturbed other keys

---
 src/hashtable/bloom.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index f852be1..0c21d3d 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -249,7 +249,8 @@ counting_bloom_probe(bloom* b, uint64_t val)
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
 
-        b->bitmap[j]++;
+        // saturate: a counter that wraps forgets its members
+        if (b->bitmap[j] < 255) b->bitmap[j]++;
     }
 
     b->size++;
@@ -259,26 +260,26 @@ counting_bloom_probe(bloom* b, uint64_t val)
 /*
  * Return False if element was not found, True otherwise.
  */
+static int counting_bloom_find(bloom* b, uint64_t val);
+
 static int
 counting_bloom_remove(bloom* b, uint64_t val)
 {
+    if (!counting_bloom_find(b, val)) return 0;
+
     uint64_t z  = hash_val(val, b->salt);
     uint64_t h1 = z & 0xffffffff;
     uint64_t h2 = z >> 32;
     uint64_t i;
-    uint64_t r = 0;
-
     for (i = 0; i < b->k; ++i) {
         uint64_t k = (h1 + i * h2) % b->m;
         uint64_t j = k + (i * b->m);
-        if (b->bitmap[j]) {
-            b->bitmap[j] -= 1;
-            r = 1;
-        }
+        // a saturated counter has lost count; it must stay.
+        if (b->bitmap[j] < 255) b->bitmap[j] -= 1;
     }
 
     b->size--;
-    return r;
+    return 1;
 }
 
 
-- 
2.43.0


From d182e6d042095489fced3fd077be3464b11cc8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 015/182] fix: element count of the ninth and later scalable
 bloom sub-filters was uninitialized

---
 src/hashtable/bloom.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 0c21d3d..1157f18 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -352,6 +352,7 @@ standard_bloom_init(bloom* b, size_t n, double e)
     b->m = msub;
     b->e = e;
 
+    b->size    = 0;
     b->bmsize  = bytes;
     b->flags   = 0;
 
-- 
2.43.0


From 1e85593dfebf72dd723862b66bc3708af9905346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 016/182] fix: xor filter construction leaked its stack when it
 failed

---
 src/hashtable/xorfilter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 079476c..9421e3a 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -277,6 +277,7 @@ Xorfilter_new8(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
@@ -301,6 +302,7 @@ Xorfilter_new16(uint64_t *keys, size_t n)
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
+        VECT_FINI(&stack);
         DEL(x);
         return 0;
     }
-- 
2.43.0


From 1b3290d3e859741720a64420f0048a2051915aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 017/182] fix: xor filter fingerprint array was too small for
 fewer than 19 keys (heap overflow)

---
 src/hashtable/xorfilter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 9421e3a..a9dce90 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -282,7 +282,7 @@ Xorfilter_new8(uint64_t *keys, size_t n)
         return 0;
     }
 
-    x->fp8 = NEWZA(uint8_t, VECT_LEN(&stack) * 3);
+    x->fp8 = NEWZA(uint8_t, (size_t)x->size * 3);
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -307,7 +307,7 @@ Xorfilter_new16(uint64_t *keys, size_t n)
         return 0;
     }
 
-    x->fp16  = NEWZA(uint16_t, VECT_LEN(&stack) * 3);
+    x->fp16  = NEWZA(uint16_t, (size_t)x->size * 3);
     x->is_16 = 1;
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
-- 
2.43.0


From 25d041e30120d56dbde30191a11dbef0f86e1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 018/182] fix: Xorfilter_marshal returned a positive errno when
 mapping the file failed

---
 src/hashtable/xorfilter_marshal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index ea78a5c..0779857 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -148,7 +148,7 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
 
     void *mptr = mmap(0, filesz, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
     if (mptr == ((void *)-1)) {
-        r = -errno;
+        r = errno;
         goto fail;
     }
 
-- 
2.43.0


From f61fd523460c33d7f32a8fd112f2cc3f1609fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 019/182] fix: size check when loading an xor filter ignored
 the header page, so a crafted file was read past its end

---
 src/hashtable/xorfilt_internal.h  | 2 +-
 src/hashtable/xorfilter_marshal.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashtable/xorfilt_internal.h b/src/hashtable/xorfilt_internal.h
index d432294..677d2a9 100644
--- a/src/hashtable/xorfilt_internal.h
+++ b/src/hashtable/xorfilt_internal.h
@@ -48,7 +48,7 @@ typedef struct Xorfilter Xorfilter;
 static inline uint64_t
 xorfilter_size(Xorfilter *x)
 {
-    size_t sz = 3 * x->size;
+    size_t sz = (size_t)3 * x->size;
 
     return x->is_16 ? sz * 2 : sz;
 }
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 0779857..750b94e 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -235,7 +235,7 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     }
 
     // Sanity check.
-    if ((st.st_size - SHASIZE) < (off_t)xorfilter_size(&zx)) {
+    if ((uint64_t)(st.st_size - SHASIZE - pagesz()) < xorfilter_size(&zx)) {
         r = E2BIG;
         goto fail1;
     }
-- 
2.43.0


From 9dec6977df93befbcbcdd58caead7d34c3156625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 020/182] fix: deleting a memory-mapped xor filter left its
 mapping behind

---
 src/hashtable/xorfilt_internal.h  | 4 ++++
 src/hashtable/xorfilter.c         | 4 +++-
 src/hashtable/xorfilter_marshal.c | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/xorfilt_internal.h b/src/hashtable/xorfilt_internal.h
index 677d2a9..23e3ff1 100644
--- a/src/hashtable/xorfilt_internal.h
+++ b/src/hashtable/xorfilt_internal.h
@@ -41,6 +41,10 @@ struct Xorfilter {
     uint32_t n;     // number of elements
     uint8_t  is_16;
     uint8_t  is_mmap;
+
+    // start and length of the mapping, if is_mmap is set
+    void    *map;
+    uint64_t mapsz;
 };
 typedef struct Xorfilter Xorfilter;
 
diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index a9dce90..853509a 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -43,6 +43,7 @@
 #include <inttypes.h>
 #include <math.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 #include "fast/vect.h"
 #include "utils/xorfilter.h"
 #include "xorfilt_internal.h"
@@ -351,7 +352,8 @@ Xorfilter_bpe(Xorfilter *x)
 void
 Xorfilter_delete(Xorfilter *x)
 {
-    if (x->ptr && !x->is_mmap) DEL(x->ptr);
+    if (x->is_mmap) munmap(x->map, x->mapsz);
+    else if (x->ptr) DEL(x->ptr);
     DEL(x);
 }
 /* EOF */
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 750b94e..8d73b5b 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -248,6 +248,8 @@ Xorfilter_unmarshal(Xorfilter **p_x, const char *fname, uint32_t flags)
     if (do_mmap) {
         zx.ptr     = p;
         zx.is_mmap = 1;
+        zx.map     = mptr;
+        zx.mapsz   = st.st_size;
     } else {
         uint64_t sz = xorfilter_size(&zx);
         zx.ptr = NEWZA(uint8_t, sz);
-- 
2.43.0


From 8502358c4a5b677a4b1fb33c1fb6ea29964af076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 021/182] fix: Bloom_marshal leaked its offset table on failure

---
 src/hashtable/bloom_marshal.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 1e94bd3..6699fff 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -559,7 +559,11 @@ Bloom_marshal(Bloom *b, const char *fname)
     snprintf(file, sizeof file, "%s.tmp.XXXXXX", fname);
 
     fd = mkostemp(file, 0);
-    if (fd < 0) return -errno;
+    if (fd < 0) {
+        r = -errno;
+        VECT_FINI(&m.offs);
+        return r;
+    }
 
     if (ftruncate(fd, sz) < 0) {
         r = errno;
@@ -613,6 +617,7 @@ Bloom_marshal(Bloom *b, const char *fname)
     return 0;
 
 fail:
+    VECT_FINI(&m.offs);
     close(fd);
     unlink(file);
     return -r;
-- 
2.43.0


From 8917c18fc2d56c1af7b12eb51480f58313a2f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 022/182] fix: loading a bloom filter file trusted its sizes
 and offsets (out-of-bounds reads, division by zero)

---
 src/hashtable/bloom_marshal.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 6699fff..832e56b 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -368,9 +368,10 @@ wrfilter(uint8_t * start, offpair *o, bloom *b)
     memcpy(d, b->bitmap, b->bmsize);
 }
 
-// Read filter data from offset pair 'o' into bloom 'b'.
+// Read filter data from offset pair 'o' into bloom 'b'. 'avail' is
+// the number of bytes at 'start' and 'slotbits' the size of a slot.
 static int
-rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
+rdfilter(uint8_t *start, uint64_t avail, offpair *o, bloom *b, uint64_t slotbits, int dommap)
 {
     uint8_t * h = start + o->hdroff;
     uint8_t * d = start + o->dataoff;
@@ -387,6 +388,11 @@ rdfilter(uint8_t *start, offpair *o, bloom *b, int dommap)
 
     assert((h - z) == FILT_HDRSIZ);
 
+    // the filter must be usable and its bits must be in the file
+    if (b->bmsize > avail - o->dataoff)                   return -EBADF;
+    if (b->m == 0 || b->k == 0)                           return -EBADF;
+    if (b->m > ((b->bmsize * 8) / slotbits) / b->k)       return -EBADF;
+
     if (dommap) {
         b->bitmap = d;
         b->flags  = BLOOM_BITMAP_MMAP;
@@ -466,6 +472,7 @@ rdhdr(uint8_t *buf, uint64_t sz, mstate *m)
 
         // Sanity check
         if (n > 1048576)            return -E2BIG;
+        if (n == 0)                 return -EBADF;
 
         avail -= 16;
         if (avail  < (n * 8)) return -EBADF;
@@ -699,7 +706,7 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         VECT_FOR_EACHi(&m.offs, i, o) {
             bloom *f = &sb->bfa[i];
 
-            r = rdfilter(start, o, f, do_mmap);
+            r = rdfilter(start, m.datasize, o, f, 1, do_mmap);
             if (r < 0) {
                 errno = -r;
                 goto fail0;
@@ -709,7 +716,11 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
         bloom   *f = m.b->filter;
         offpair *o = &VECT_ELEM(&m.offs, 0);
 
-        rdfilter(start, o, f, do_mmap);
+        r = rdfilter(start, m.datasize, o, f, m.b->typ == BLOOM_TYPE_COUNTING ? 8 : 1, do_mmap);
+        if (r < 0) {
+            errno = -r;
+            goto fail0;
+        }
     }
 
     VECT_FINI(&m.offs);
-- 
2.43.0


From 9e06e7e657c89d4e7f5a010419686a646b2abb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 023/182] fix: deleting a memory-mapped bloom filter left its
 mapping behind

---
 inc/utils/bloom.h             | 4 ++++
 src/hashtable/bloom.c         | 5 +++++
 src/hashtable/bloom_marshal.c | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/inc/utils/bloom.h b/inc/utils/bloom.h
index 9f4f724..02dfb2c 100644
--- a/inc/utils/bloom.h
+++ b/inc/utils/bloom.h
@@ -146,6 +146,10 @@ struct Bloom
     uint64_t    n;      // initial filter size
     double      e;      // initial error param
     uint8_t     typ;    // bloom filter type
+
+    // file mapping that holds the filter bits (if any) and its size
+    void*       map;
+    uint64_t    mapsz;
 };
 typedef struct Bloom Bloom;
 
diff --git a/src/hashtable/bloom.c b/src/hashtable/bloom.c
index 1157f18..60c9aac 100644
--- a/src/hashtable/bloom.c
+++ b/src/hashtable/bloom.c
@@ -122,6 +122,7 @@
 #include <limits.h>
 #include <inttypes.h>
 #include <sys/random.h>
+#include <sys/mman.h>
 
 #include "utils/utils.h"
 #include "utils/bloom.h"
@@ -738,6 +739,8 @@ scaled_bloom_eq(scalable_bloom *a, scalable_bloom *b)
 Bloom*
 Standard_bloom_init(Bloom *b, uint64_t n, double e, int scalable)
 {
+    b->map    = 0;
+
     if (scalable) return scalable_new(b, n, e);
 
     b->n      = n;
@@ -754,6 +757,7 @@ Standard_bloom_init(Bloom *b, uint64_t n, double e, int scalable)
 Bloom*
 Counting_bloom_init(Bloom *b, uint64_t n, double e)
 {
+    b->map    = 0;
     b->n      = n;
     b->e      = e;
 
@@ -769,6 +773,7 @@ void
 Bloom_fini(Bloom *b)
 {
     b->fini(b->filter);
+    if (b->map) munmap(b->map, b->mapsz);
 
     DEL(b->filter);
     memset(b, 0x55, sizeof *b);
diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index 832e56b..f50b0bb 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -729,6 +729,10 @@ Bloom_unmarshal(Bloom **p_b, const char *fname, uint32_t flags)
     *p_b = m.b;
 
     if (!do_mmap) munmap(mptr, st.st_size);
+    else {
+        m.b->map   = mptr;
+        m.b->mapsz = st.st_size;
+    }
 
 
     /*
-- 
2.43.0


From 67c62be324310082a78f0c1c2fb9e39ba90559d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 024/182] fix: a memory pool limited to one block (or growing
 by one) aborted

---
 src/mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index 54c4331..c490f46 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -230,7 +230,7 @@ new_chunk(mempool* a)
     uint64_t alloc_size = sizeof(memchunk) + chunk_size + MINALIGNMENT;
 
     /* Guard against arithmetic overflow */
-    assert(chunk_size > a->block_size && chunk_size > a->min_units);
+    assert(chunk_size >= a->block_size && chunk_size >= a->min_units);
     assert(alloc_size > chunk_size);
 
     memchunk *ch = (memchunk *) (*a->traits.alloc)(a->traits.context, alloc_size);
-- 
2.43.0


From c7b19713bf8b80d2e569de3762b4f035eda5684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 025/182] fix: mempool_new leaked the pool and returned it when
 its first chunk could not be allocated

---
 src/mempool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index c490f46..595019b 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -397,8 +397,14 @@ mempool_new(mempool** p_a, const memmgr* tr, uint_t block_size,
     a = (mempool* )tr->alloc(tr->context, sizeof *a);
     if (!a) return -ENOMEM;
 
+    int r = __real_init(a, tr, block_size, max, min_alloc_units);
+    if (r < 0) {
+        tr->free(tr->context, a);
+        return r;
+    }
+
     *p_a = a;
-    return __real_init(a, tr, block_size, max, min_alloc_units);
+    return 0;
 }
 
 
-- 
2.43.0


From 406b4cdfacf6ffc76bb544e535f065165e41844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 026/182] fix: a memory pool block size near UINT_MAX wrapped
 to zero when aligned

---
 src/mempool.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mempool.c b/src/mempool.c
index 595019b..d25cb49 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -322,6 +322,9 @@ __real_init(mempool *a, const memmgr *tr, uint_t block_size, uint_t max, uint_t
 {
     memset(a, 0, sizeof *a);
 
+    /* block_size must not wrap around when it is aligned below. */
+    if (block_size > (uint_t)-MINALIGNMENT) return -EINVAL;
+
     /*
      * Make sure block_size has minimum qualifications.
      */
@@ -423,6 +426,9 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
 
     if (!(a && pool && poolsize)) return -EINVAL;
 
+    /* block_size must not wrap around when it is aligned below. */
+    if (block_size > (uint_t)-MINALIGNMENT) return -EINVAL;
+
     memset(a, 0, sizeof *a);
 
     if (block_size < MIN_OBJ_SIZE) block_size = MIN_OBJ_SIZE;
-- 
2.43.0


From 9291ed5317de4bc39e160cb7365a2d21eb61fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 027/182] fix: a memory pool laid over too small caller memory
 wrote past its end

---
 src/mempool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mempool.c b/src/mempool.c
index d25cb49..e91f55c 100644
--- a/src/mempool.c
+++ b/src/mempool.c
@@ -441,6 +441,7 @@ mempool_init_from_mem(mempool* a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize < (uint64_t)(ptr - pUCHAR(pool))) return -ENOMEM;
     poolsize -= (ptr - pUCHAR(pool));
 
     /*
@@ -496,13 +497,17 @@ mempool_new_from_mem(mempool** p_a, uint_t block_size,
      * will be.
      */
     ptr       = _Align(uint8_t *, pool);
+    if (poolsize <= (ptr - pUCHAR(pool)) + sizeof *a) return -ENOMEM;
     poolsize -= ptr - pUCHAR(pool);
     a         = (mempool* )ptr;
     ptr      += sizeof *a;
     poolsize -= sizeof *a;
 
+    int r = mempool_init_from_mem(a, block_size, ptr, poolsize);
+    if (r < 0) return r;
+
     *p_a = a;
-    return mempool_init_from_mem(a, block_size, ptr, poolsize);
+    return 0;
 }
 
 
-- 
2.43.0


From 0d2e9d57a55f594b1c02586e48fd956bd59ecba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 028/182] fix: arena handed out short blocks for sizes near the
 integer limit

---
 src/arena.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 3d9bbff..f599683 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -128,6 +128,8 @@ arena_alloc(arena_t a, size_t nbytes)
 
     if (!a) return 0;
 
+    if (nbytes > SIZE_MAX - sizeof(arena_node) - SYS_ALIGNMENT) return 0;
+
     /* Account for system alignment */
     nbytes = _ALIGN_UP(nbytes, SYS_ALIGNMENT);
 
@@ -143,6 +145,9 @@ arena_alloc(arena_t a, size_t nbytes)
     /* allocate a new node; but, try to allocate a few more bytes
      * to satisfy atleast few more such allocations.  */
     chunk = nbytes < a->chunk_size ? a->chunk_size : nbytes * 16;
+    if (chunk < nbytes || (nbytes >= a->chunk_size && nbytes > SIZE_MAX/16))
+        chunk = nbytes;     /* don't overflow */
+    if (chunk > SIZE_MAX - sizeof(arena_node)) goto _end;
     n     = (arena_node *) malloc(sizeof(arena_node) + chunk);
     if (!n) goto _end;
 
-- 
2.43.0


From 0ead2ffe923635267240531b7d86e0b84bbac24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 029/182] fix: arena_strdup wrote through NULL when out of
 memory

---
 inc/utils/arena.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/arena.h b/inc/utils/arena.h
index 63293d5..6a3b02e 100644
--- a/inc/utils/arena.h
+++ b/inc/utils/arena.h
@@ -75,7 +75,7 @@ arena_strdup(arena_t a, const char* s)
 {
     size_t n = strlen(s) + 1;
     void*  p = arena_alloc(a, n);
-    return (char *)memcpy(p, s, n);
+    return p ? (char *)memcpy(p, s, n) : 0;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 0704e2985bb8597bce12b3dbd239587b5a75f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 030/182] fix: growing a vector of zero capacity never ended

---
 inc/fast/vect.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 87e3ae8..b5a5d71 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -113,6 +113,7 @@ extern "C" {
                         do {                                        \
                             size_t n_ = v_->cap;                    \
                             if  (want_ >= n_) {                     \
+                                if (n_ == 0) n_ = 1;                \
                                 do { n_ *= 2; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
                                 memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->cap));\
-- 
2.43.0


From e25322abdb00966f019cccdd69fac3c67869545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 031/182] fix: VECT_PUSH_FRONT moved elements by the size of
 the pushed expression

---
 inc/fast/vect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index b5a5d71..2fa2c44 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -178,8 +178,8 @@ extern "C" {
 #define VECT_PUSH_FRONT(v,e)         do {                             \
                                             typeof(v) v_ = v;         \
                                             __vect_RESERVE(v_, v_->size+1);         \
-                                            typeof(e) * start_ = v_->arr;         \
-                                            typeof(e) * p_     = start_ + v_->size; \
+                                            typeof(v_->arr) start_ = v_->arr;         \
+                                            typeof(v_->arr) p_     = start_ + v_->size; \
                                             for (; p_ > start_; p_--)   \
                                                 *p_ = *(p_ - 1);         \
                                             *p_ = (e);                   \
-- 
2.43.0


From 91086834928a4d9b756d48c76b8f244df4566969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 032/182] fix: VECT_SAMPLE wrote through the old storage after
 growing the destination

---
 inc/fast/vect.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 2fa2c44..384622c 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -284,10 +284,11 @@ extern "C" {
                                         typeof(s) b_ = (s);                     \
                                         if (k_ <  b_->size) {                   \
                                             typeof(d) a_ = (d);                 \
-                                            typeof(a_->arr) x_ = a_->arr;       \
+                                            typeof(a_->arr) x_;                 \
                                             typeof(a_->arr) y_ = b_->arr;       \
                                             size_t i_;                          \
                                             __vect_RESERVE(a_, k_);             \
+                                            x_ = a_->arr;                       \
                                             a_->size = k_;                      \
                                             for (i_=0; i_ < k_; i_++)           \
                                                 x_[i_] = y_[i_];                \
-- 
2.43.0


From 986ba45d1442a54fd2d11bcbe1a46e5ffb2b7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 033/182] fix: FQ_DYN_INIT did not compile

---
 inc/fast/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 0c33251..68a6a05 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -122,7 +122,7 @@ typedef struct __fast_queue __fast_queue;
                                 __fast_queue * _q = &(q_)->q;  \
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
-                                (q_)->elem = NEWZA(__qetype(q_), sz_);\
+                                (q_)->elem = NEWZA(__qetyp(q_), sz_);\
                             } while (0)
 
 
-- 
2.43.0


From b35ef3dcb2c51d31b5317b9054d3eb4965464124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 034/182] fix: fast_buf did not compile (RENEW is not defined)

---
 inc/fast/buf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index d55a019..aebf917 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -24,6 +24,7 @@ extern "C" {
 
 #include <stdlib.h>
 #include <stdint.h>
+#include <string.h>
 #include "utils/new.h"
 
 
@@ -76,7 +77,7 @@ fast_buf_reserve(fast_buf *b, size_t want)
     if (want >= b->cap) {
         do { b->cap *= 2; } while (b->cap < want);
 
-        b->buf = RENEW(uint8_t, b->buf, b->cap);
+        b->buf = RENEWA(uint8_t, b->buf, b->cap);
     }
 }
 
-- 
2.43.0


From 0ad06cabb2074b33c0bf56e6dc8b1ab6cb945f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 035/182] fix: llist.h used INIT_LIST_HEAD without defining it

---
 inc/fast/llist.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/fast/llist.h b/inc/fast/llist.h
index 2027868..dcbffa8 100644
--- a/inc/fast/llist.h
+++ b/inc/fast/llist.h
@@ -65,6 +65,8 @@ typedef struct hlist_node hlist_node;
 #define LIST_HEAD_INIT(name) { &(name), &(name) }
 
 
+#define INIT_LIST_HEAD(l)   list_init(l)
+
 static inline void list_init(list_head* l)
 {
     l->next = l->prev = l;
-- 
2.43.0


From 5cf29cefe7dc46bce181f73e123cb4d9a6c39f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 036/182] fix: delimiter set was indexed out of bounds by bytes
 with the high bit set

---
 src/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bits.h b/src/bits.h
index 094c722..4d3d699 100644
--- a/src/bits.h
+++ b/src/bits.h
@@ -33,8 +33,8 @@ extern "C" {
 #define xword          uint32_t
 #define WORDBITS      (8 * sizeof(xword))
 #define BITVECTSIZE   (256 / WORDBITS)
-#define _word(c)      (((xword)(c)) / WORDBITS)
-#define _bitp(c)      (1 << (((xword)(c)) % WORDBITS))
+#define _word(c)      (((uint8_t)(c)) / WORDBITS)
+#define _bitp(c)      (((xword)1) << (((uint8_t)(c)) % WORDBITS))
 
 struct delim {
     xword    v[BITVECTSIZE];
-- 
2.43.0


From d7e7379508275f51da049d293b479a5a1df4efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:09 +0000
Subject: [PATCH 037/182] fix: minheap remove() compared beyond the heap after
 removing the last element, and sifted up one level only

---
 inc/utils/minheap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inc/utils/minheap.h b/inc/utils/minheap.h
index 380be13..7bc55b5 100644
--- a/inc/utils/minheap.h
+++ b/inc/utils/minheap.h
@@ -135,10 +135,13 @@ bool minheap < Elem, Comp >::remove (int pos, Elem & it)
 
     swap (Heap, pos, --n);         // Swap with last value
 
-    while ((pos != 0) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
+    while ((pos != 0) && (pos < n) && (Comp::lt (Heap[pos], Heap[parent (pos)])))
+    {
         swap (Heap, pos, parent (pos));      // Push up if large key
+        pos = parent (pos);
+    }
 
-    siftdown (pos);           // Push down if small key
+    if (pos < n) siftdown (pos);           // Push down if small key
 
     it = Heap[n];
 
-- 
2.43.0


From 108101bb726485e2c2b057ee1840a657b6dcd134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 038/182] fix: __constant_ntohl, __constant_htons and
 __constant_ntohs had unbalanced parentheses

---
 inc/fast/little-endian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/fast/little-endian.h b/inc/fast/little-endian.h
index 83b93ff..e1eb4c2 100644
--- a/inc/fast/little-endian.h
+++ b/inc/fast/little-endian.h
@@ -31,9 +31,9 @@ extern "C" {
 #define __constant_htonll(x) (__swab64((uint64_t)(x)))
 #define __constant_htonl(x)  (__swab32((uint32_t)(x)))
 #define __constant_ntohll(x) (__swab64((uint64_t)(x)))
-#define __constant_ntohl(x)  (__swab32(((uint32_t)(x)))
-#define __constant_htons(x)  (__swab16(((uint16_t)(x)))
-#define __constant_ntohs(x)  (__swab16(((uint16_t)(x)))
+#define __constant_ntohl(x)  (__swab32((uint32_t)(x)))
+#define __constant_htons(x)  (__swab16((uint16_t)(x)))
+#define __constant_ntohs(x)  (__swab16((uint16_t)(x)))
 
 #define __cpu_to_le16(x)     ((uint16_t)(x))
 #define __cpu_to_le32(x)     ((uint32_t)(x))
-- 
2.43.0


From 8deae2f7c5572e715f122cc2f6d01fed4ad2873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 039/182] fix: Pack/Unpack indexed their tables out of bounds
 for unknown format characters

---
 src/pack.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index c7ced90..4e80dce 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -166,7 +166,7 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
                                 const size_t max = ~((size_t)0) / 10;       \
                                       size_t nn  = c - '0';                 \
                                 for (++fmt, c = *fmt; c; ++fmt) {           \
-                                    if (!isdigit(c)) break;                 \
+                                    if (!isdigit((unsigned char)c)) break;  \
                                     const size_t v = c - '0';               \
                                     if (nn > max ||                         \
                                             (nn == max && v > (~((size_t)0) % 10))) {   \
@@ -205,7 +205,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
     int      have_vnum = 0;
     for (; (c = *fmt); ++fmt) {
 
-        if (isspace(c)) continue;
+        if (isspace((unsigned char)c)) continue;
 
         if (c == '*') {
             // error to have consecutive '*'
@@ -232,7 +232,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
             continue;
         }
 
-        size_t num = isdigit(c) ? __len_prefix(c, fmt) : 0;
+        size_t num = isdigit((unsigned char)c) ? __len_prefix(c, fmt) : 0;
 
         // Three rules:
         // 1. VLA and length-prefix can't both be used.
@@ -329,7 +329,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
     uint32_t vnum      = 0;
     int      have_vnum = 0;
     for (; (c = *fmt); ++fmt) {
-        if (isspace(c)) continue;
+        if (isspace((unsigned char)c)) continue;
 
         if (c == '*') {
             if (have_vnum) return -EILSEQ;
@@ -353,7 +353,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
             continue;
         }
 
-        size_t num = isdigit(c) ? __len_prefix(c, fmt) : 0;
+        size_t num = isdigit((unsigned char)c) ? __len_prefix(c, fmt) : 0;
 
         if (num > 0 && have_vnum) return -EINVAL;
 
@@ -859,6 +859,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
 static const packer*
 getpacker(int c, const packer* pp)
 {
+    // 'z' is the largest type; and 0 marks the end of the format
+    if (c <= 0 || c > 'z') return 0;
+
     const packer *p = &pp[c];
 
     return p->typ == c ? p : 0;
-- 
2.43.0


From de409d728c074a52d3ff609b1d63d257221f9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 040/182] fix: Pack/Unpack of a huge repeat count wrapped
 around the buffer size check

---
 src/pack.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index 4e80dce..5e7ff0d 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -290,7 +290,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && num > ((size_t)(pd->end - pd->ptr) / p->size))
            return -ENOSPC;
 
         c = p->pack(p, pd, num, arg);
@@ -389,7 +389,7 @@ unpack(const char *fmt, pdata *pd, va_list ap)
 
         // pad and strings get extra validations. Most other types
         // are easy to validate.
-        if (p->size > 0 && ((pd->ptr + (num * p->size)) > pd->end))
+        if (p->size > 0 && num > ((size_t)(pd->end - pd->ptr) / p->size))
            return -ENOSPC;
 
         c = p->unpack(p, pd, num, arg, have_vnum == 1);
@@ -731,7 +731,7 @@ x_pack(const packer *p, pdata *pd, size_t num, void *arg)
     USEARG(p);
     USEARG(arg);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -EINVAL;
 
     memset(pd->ptr, 0, num);
     pd->ptr += num;
@@ -745,7 +745,7 @@ x_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     USEARG(arg);
     USEARG(alloc);
 
-    if ((pd->ptr + num) > pd->end) return -EINVAL;
+    if (num > (size_t)(pd->end - pd->ptr)) return -EINVAL;
 
     pd->ptr += num;
     return num;
@@ -769,7 +769,7 @@ z_pack(const packer *p, pdata *pd, size_t n, void *arg)
     // we are _never_ sent zero sized requests
     assert(n > 0);
 
-    if ((pd->ptr + n) > pd->end) return -ENOSPC;
+    if (n > (size_t)(pd->end - pd->ptr)) return -ENOSPC;
 
     if (s) {
         size_t m = strlen(s);
-- 
2.43.0


From e95a9505a0d012d51c9c11772485e64999b510a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 041/182] fix: Unpack of a string at the end of the buffer read
 past it

---
 src/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack.c b/src/pack.c
index 5e7ff0d..2a66d6b 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -819,9 +819,9 @@ z_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
     if (num == 0) {
         // We encode the trailing '\0' for 'Z'
         // And it's an error to _not_ have a trailing '\0'
-        while (*s++) {
+        do {
             if (s == pd->end) return -EINVAL;
-        }
+        } while (*s++);
     } else {
         // Exact length for either "*" or "nnZ" formats
         const size_t max = pd->end - s;
-- 
2.43.0


From 3a4fd97f18128aaf0216200722ed9a1a7e2ab80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 042/182] fix: big endian Unpack of 32-bit arrays ignored an
 allocation failure

---
 src/pack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pack.c b/src/pack.c
index 2a66d6b..d99a9bb 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -621,6 +621,7 @@ be_i_unpack(const packer *p, pdata *pd, size_t num, void *arg, int alloc)
         uint32_t **p_x = arg;
 
         x = NEWZA(uint32_t, num);
+        if (!x) return -ENOMEM;
         *p_x = x;
     }
 
-- 
2.43.0


From c0f447166068cc9090501507082dc4793bfe2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 043/182] fix: Pack aborted on a null string

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index d99a9bb..78c1b3f 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -271,7 +271,7 @@ pack(const char *fmt, pdata *pd, va_list ap)
                     if (0 == num) goto next;
                 } else {
                     // default is to copy everything include trailing '\0'
-                    if (num == 0 && arg) num = 1+strlen((const char*)arg);
+                    if (num == 0) num = arg ? 1+strlen((const char*)arg) : 1;
                 }
                 break;
 
-- 
2.43.0


From 1d34e1c24f57060670107c350f3c7eefa9beb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 044/182] fix: Pack accepted a count without an element type

---
 src/pack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pack.c b/src/pack.c
index 78c1b3f..3c4e4b0 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -301,6 +301,9 @@ next:
         vnum = 0;
     }
 
+    // missing type descriptor after '*'
+    if (have_vnum) return -EINVAL;
+
     return 0;
 }
 
-- 
2.43.0


From 8c2acaa5be4753e72b298b43fb7f5620ee2c85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:07 +0000
Subject: [PATCH 045/182] fix: a pad byte without repeat count was not packed

---
 src/pack.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index 3c4e4b0..5667e4e 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -261,7 +261,10 @@ pack(const char *fmt, pdata *pd, va_list ap)
 
         switch (c) {
             case 'x':
-                break;  // do NOT consume an arg!
+                // do NOT consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (0 == num) num = 1;
+                break;
 
             case 'z':   // fallthrough
             case 'Z':
@@ -372,6 +375,8 @@ unpack(const char *fmt, pdata *pd, va_list ap)
         // '\0'
         switch (c) {
             case 'x':   // we don't consume an arg!
+                if (have_vnum)     num = vnum;
+                else if (num == 0) num = 1;
                 break;
 
             default:
-- 
2.43.0


From 813e36a29e0321a5b1a1679e7fa46d6c11f9523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 046/182] fix: Pack encoded garbage for single floating point
 values and for one-element counted arrays

---
 src/pack.c | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index 5667e4e..8b2ae48 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -179,6 +179,39 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
                             })
 
 
+// bits of the floating point number 'd' as encoded for type 'c'
+static void*
+float_arg(int c, double d)
+{
+    if (c == 'f') {
+        float    f = (float)d;
+        uint32_t u = 0;
+        memcpy(&u, &f, sizeof u);
+        return (void *)(uintptr_t)u;
+    }
+
+    uint64_t v = 0;
+    memcpy(&v, &d, sizeof v);
+    return (void *)(uintptr_t)v;
+}
+
+// value of the first array element in 'arg' of 'size' bytes
+static void*
+first_elem(const void *arg, size_t size)
+{
+    uint8_t  b = 0;
+    uint16_t s = 0;
+    uint32_t i = 0;
+    uint64_t l = 0;
+
+    switch (size) {
+        case 1:  memcpy(&b, arg, sizeof b); return (void *)(uintptr_t)b;
+        case 2:  memcpy(&s, arg, sizeof s); return (void *)(uintptr_t)s;
+        case 4:  memcpy(&i, arg, sizeof i); return (void *)(uintptr_t)i;
+        default: memcpy(&l, arg, sizeof l); return (void *)(uintptr_t)l;
+    }
+}
+
 // internal pack function that operates on va_list
 static int
 pack(const char *fmt, pdata *pd, va_list ap)
@@ -279,10 +312,18 @@ pack(const char *fmt, pdata *pd, va_list ap)
                 break;
 
             default:
-                arg = va_arg(ap, void *);
+                if ((c == 'f' || c == 'D') && !have_vnum && num <= 1) {
+                    // floating point values aren't passed like integers
+                    arg = float_arg(c, va_arg(ap, double));
+                } else {
+                    arg = va_arg(ap, void *);
+                }
                 if (have_vnum) {
                     num = vnum;
                     if (0 == num) goto next;
+                    // a VLA is always an array; packers want a value
+                    // when there's only one.
+                    if (1 == num) arg = first_elem(arg, p->size);
                 } else {
                     // All other types need _atleast_ one arg.
                     // zero-length strings with no VLA will get an
-- 
2.43.0


From e2ecd3ccad7993920a6df5198fdc49f6b416a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:53 +0000
Subject: [PATCH 047/182] fix: Pack/Unpack rejected every repeat count of more
 than one digit

---
 src/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack.c b/src/pack.c
index 8b2ae48..10eddbd 100644
--- a/src/pack.c
+++ b/src/pack.c
@@ -165,7 +165,7 @@ Unpack(uint8_t *buf, size_t bufsize, const char *fmt, ...)
 #define __len_prefix(c, fmt) ({\
                                 const size_t max = ~((size_t)0) / 10;       \
                                       size_t nn  = c - '0';                 \
-                                for (++fmt, c = *fmt; c; ++fmt) {           \
+                                for (++fmt; (c = *fmt); ++fmt) {            \
                                     if (!isdigit((unsigned char)c)) break;  \
                                     const size_t v = c - '0';               \
                                     if (nn > max ||                         \
-- 
2.43.0


From 74e682df532a598bc6998e4bdedaba1eb69a6ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:23 +0000
Subject: [PATCH 048/182] fix: strsplit_quick reallocated the caller's array
 when it had no entries

---
 src/strsplit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 3cd3137..0eda279 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -32,7 +32,7 @@ struct stra
 {
     unsigned char ** arr;
     int size;
-    int cap; /* setting to -1 indicates that this is not growable */
+    int cap; /* <= 0 indicates a fixed array of -cap entries (not growable) */
 };
 typedef struct stra stra;
 
@@ -111,7 +111,7 @@ static inline int
 _stra_resize_if(stra* a, int n)
 {
     int want = a->size + n;
-    if (a->cap < 0)
+    if (a->cap <= 0)
         return want <= -a->cap;
 
     if (want >= a->cap)
-- 
2.43.0


From 481dae830d2d70b7c0d6811bcfe39a61d682f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:23 +0000
Subject: [PATCH 049/182] fix: strsplit_csv accepted an unterminated quote with
 nothing in it

---
 src/strsplit_csv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strsplit_csv.c b/src/strsplit_csv.c
index 78c5e24..76c53c5 100644
--- a/src/strsplit_csv.c
+++ b/src/strsplit_csv.c
@@ -126,8 +126,9 @@ strsplit_csv(char *sv[], int sv_size, char *str, const char *sep)
         }
     }
 
+    if (q) return -EINVAL;
+
     if (sub != p) {
-        if (q)            return -EINVAL;
         if (k == sv_size) return -ENOSPC;
 
         *p++ = 0;
-- 
2.43.0


From 9f6fe123f7f9d7ac672763adb829a8dda740923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:40 +0000
Subject: [PATCH 050/182] fix: strsplitargs lost characters of words that were
 only partly quoted

---
 src/splitargs.c | 47 +++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/splitargs.c b/src/splitargs.c
index 8449d1f..36a5165 100644
--- a/src/splitargs.c
+++ b/src/splitargs.c
@@ -54,11 +54,12 @@ strsplitargs(char **args, size_t n, char *s)
 {
     int c;
     int i = 0;
-    int k = n;
+    size_t k = n;
     int inquote = 0;
-    int eow = 0;
+    int inword  = 0;
 
-    char *p = s;    // start of substring
+    char *p = s,        // copy ptr
+         *start = s;    // start of the current word
 
 #define ADDARG(z)   do {\
                         if (k == 0) return -ENOSPC;\
@@ -66,41 +67,39 @@ strsplitargs(char **args, size_t n, char *s)
                         k--;             \
                     } while (0)
 
-    for (; (c = *s); s++) {
+    for (; (c = (unsigned char)*s); s++) {
         if (inquote) {
-            if (c == inquote) { // quote ended
-                *s = 0;
-                ADDARG(p+1);    // +1 to skip the starting quote.
-                p       = s+1;  // +1 to skip the ending quote
-                inquote = 0;
-            }
-
-            // regardless, we consume everything inside the quotes.
+            // we consume everything inside the quotes, but not the
+            // quotes themselves.
+            if (c == inquote) inquote = 0;
+            else              *p++ = c;
             continue;
         }
 
         if (isspace(c)) {
-            *s  = 0;
-            eow = 1;
+            if (inword) {
+                *p++ = 0;
+                ADDARG(start);
+                inword = 0;
+            }
             continue;
         }
 
-        if (c == '"' || c == '\'') {
-            inquote = c;
+        if (!inword) {
+            start  = p;
+            inword = 1;
         }
 
-        // either c is a quote-char or a non-ws char. In either
-        // case, we terminate the previous word (if there is one).
-        if (eow) {
-            if (*p) ADDARG(p);
-            p   = s;
-            eow = 0;
-        }
+        if (c == '"' || c == '\'') inquote = c;
+        else                       *p++ = c;
     }
 
     if (inquote) return -EINVAL;    // no ending quote
 
-    if (*p) ADDARG(p);
+    if (inword) {
+        *p = 0;
+        ADDARG(start);
+    }
 
     return i;   // total number of arguments
 }
-- 
2.43.0


From b84d4900422b1ad3061597e0c8585344848d459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 051/182] fix: strtosize returned a wrapped product for some
 sizes that don't fit in 64 bits

---
 src/strtosize.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index baa6d0c..06a5432 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -180,11 +180,9 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
     }
 
-    uint64_t res = v * mult;
+    if (v > _u(~0) / mult) return -ERANGE;
 
-    if (v > 0 && (res < v || res < mult)) return -ERANGE;
-
-    if (ret) *ret = res;
+    if (ret) *ret = v * mult;
     return 0;
 }
 
-- 
2.43.0


From 9aef3ed101afbb9d849f611ac8b556ed3d7ba960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 052/182] fix: strtosize rejected the B suffix and accepted
 garbage after a unit

---
 src/strtosize.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/strtosize.c b/src/strtosize.c
index 06a5432..6157a91 100644
--- a/src/strtosize.c
+++ b/src/strtosize.c
@@ -140,6 +140,10 @@ strtosize(const char* str, int base, uint64_t* ret)
             case ' ':
                 break;
 
+            case 'B':   // bytes; looked at again below
+                --endptr;
+                break;
+
             case 'k': case 'K':
                 mult = KB_;
                 break;
@@ -169,15 +173,18 @@ strtosize(const char* str, int base, uint64_t* ret)
         }
 
         switch (*endptr) {
-            case 0:
             case 'B':
+                ++endptr;
                 break;
             case 'b':
+                ++endptr;
                 mult /= 8;
                 break;
             default:
-                if (!isspace(*endptr)) return -EINVAL;
+                break;
         }
+
+        if (*endptr && !isspace((unsigned char)*endptr)) return -EINVAL;
     }
 
     if (v > _u(~0) / mult) return -ERANGE;
-- 
2.43.0


From 4d4fe038e44bcb0ac6c4ac4fc133944bfd7fa425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:37 +0000
Subject: [PATCH 053/182] fix: strtoi<T> reported success for values truncated
 to fit in T

---
 inc/utils/strutils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/utils/strutils.h b/inc/utils/strutils.h
index d96dd49..98e613c 100644
--- a/inc/utils/strutils.h
+++ b/inc/utils/strutils.h
@@ -223,7 +223,8 @@ template<typename T> std::pair<T, bool> strtoi(const std::string& s, int base=0)
     uint64_t v = 0;
     int      r = strtosize(s.c_str(), base, &v);
 
-    return std::pair<T, bool>{T(v), r == 0 ? true : false};
+    // a value that doesn't fit in a T isn't a valid T
+    return std::pair<T, bool>{T(v), r == 0 && uint64_t(T(v)) == v};
 }
 
 } // namespace putils
-- 
2.43.0


From de6bec33dedfd16235422ad1be137e3c6362c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:10 +0000
Subject: [PATCH 054/182] fix: humanize_size printed the first digits of the
 remainder as the fraction

---
 src/humanize.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/humanize.c b/src/humanize.c
index d2eebd0..af8e429 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -70,9 +70,10 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
             uint64_t m = (nbytes % p->sz);
 
             if (m > 0) {
-                char frac[64];
-                snprintf(frac, sizeof frac, "%" PRIu64, m);
-                snprintf(buf, bufsize, "%" PRIu64 ".%2.2s %s", n, frac, p->suffix);
+                // two digits, one at a time so that nothing overflows
+                uint64_t d1 = (m * 10) / p->sz;
+                uint64_t d2 = (((m * 10) % p->sz) * 10) / p->sz;
+                snprintf(buf, bufsize, "%" PRIu64 ".%" PRIu64 "%" PRIu64 " %s", n, d1, d2, p->suffix);
             } else {
                 snprintf(buf, bufsize, "%" PRIu64 " %s", n, p->suffix);
             }
-- 
2.43.0


From ab9330d82db77acf661d7bd6d35cb3afbbbbd8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:10 +0000
Subject: [PATCH 055/182] fix: humanize_size used the smaller unit for exact
 powers of 1024

---
 src/humanize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/humanize.c b/src/humanize.c
index af8e429..45d1f9b 100644
--- a/src/humanize.c
+++ b/src/humanize.c
@@ -64,7 +64,7 @@ humanize_size(char * buf, size_t bufsize, uint64_t nbytes)
 
     for (; p->sz; ++p)
     {
-        if (nbytes > p->sz)
+        if (nbytes >= p->sz)
         {
             uint64_t n = nbytes / p->sz;
             uint64_t m = (nbytes % p->sz);
-- 
2.43.0


From 00899cca386187404c2cc40912d3c3d8d16e0fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 056/182] fix: gstr_escape of chars without a letter escape
 couldn't be unescaped

---
 src/escape.c   | 5 +++--
 src/unescape.c | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/escape.c b/src/escape.c
index ebc2993..f3696ed 100644
--- a/src/escape.c
+++ b/src/escape.c
@@ -51,7 +51,8 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
 
     assert(g->str);
 
-    while ((c = *ptr++)) {
+    esc_char &= 0xff;
+    while ((c = 0xff & *ptr++)) {
         if (c == esc_char) {
             gstr_append_ch(g, c);
             gstr_append_ch(g, c);
@@ -80,7 +81,7 @@ gstr_escape(gstr *g, const char *escset, int esc_char)
                     gstr_append_ch(g, 'v');
                     break;
                 default:
-                    snprintf(buf, sizeof buf, "%c0%3.3o", esc_char, c);
+                    snprintf(buf, sizeof buf, "0%3.3o", c);
                     gstr_append_str(g, buf);
             }
         } else {
diff --git a/src/unescape.c b/src/unescape.c
index 1262574..4a88cb1 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -47,8 +47,9 @@ gstr_unescape(gstr *g, int esc_char)
                *end = src + g->len;
     char *out       = g->str;
 
+    esc_char &= 0xff;
     while (ptr < end) {
-        int c = *ptr;
+        int c = 0xff & *ptr;
         assert(c);
         if (c == esc_char) {
             ptr = parse_esc(&out, ptr+1, esc_char);
-- 
2.43.0


From f4bf77b05c7970e5f19461a0f986dd1ef1cfbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 057/182] fix: gstr_unescape decoded the hex digits a-f as 0-5

---
 src/unescape.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 4a88cb1..97ae5b6 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -235,12 +235,12 @@ extract_hex(int *p_val, const char *ptr)
 
             case 'a': case 'b': case 'c':
             case 'd': case 'e': case 'f':
-                z = c - 'a';
+                z = c - 'a' + 10;
                 break;
 
             case 'A': case 'B': case 'C':
             case 'D': case 'E': case 'F':
-                z = c - 'A';
+                z = c - 'A' + 10;
                 break;
 
             case 0:
-- 
2.43.0


From 2d6a83599a83391d47b3e855048e0fd3e0c82a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 058/182] fix: gstr_unescape turned a hex escape without digits
 into a NUL

---
 src/unescape.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/unescape.c b/src/unescape.c
index 97ae5b6..10dc41e 100644
--- a/src/unescape.c
+++ b/src/unescape.c
@@ -133,27 +133,29 @@ parse_esc(char **p_out, const char *src, int esc_char)
         case '9':
         case 'x':
         {
-            int val;
+            int val = 0;
+            const char *end = 0;
 
             switch (c) {
                 case '0':
-                    ptr = extract_octal(&val, ptr);
+                    end = extract_octal(&val, ptr);
                     break;
 
                 case 'x':
-                    ptr = extract_hex(&val, ptr);
+                    end = extract_hex(&val, ptr);
                     break;
 
                 default:
                     // Decimal: we must count everything after the
                     // escape char -- thus, we go back one offset
                     // position in order to extract the digits.
-                    ptr = extract_decimal(&val, ptr-1);
+                    end = extract_decimal(&val, ptr-1);
                     break;
             }
 
-            if (ptr) {
-                v = val;
+            if (end) {
+                ptr = end;
+                v   = val;
                 goto out;
             }
 
@@ -163,7 +165,7 @@ parse_esc(char **p_out, const char *src, int esc_char)
             *out++ = esc_char;
             *out++ = c;
             *p_out = out;
-            return src + 2;
+            return ptr;
         }
     }
 
@@ -253,6 +255,8 @@ extract_hex(int *p_val, const char *ptr)
     }
 
 out:
+    if (n == 1) return 0;   // no hex digit at all
+
     *p_val = val & 0xff;
     return ptr;
 }
-- 
2.43.0


From 806bc2e568864f5746607aee24566b2fdf068d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 059/182] fix: strunquote looked for the closing quote in the
 wrong place

---
 src/strunquote.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strunquote.c b/src/strunquote.c
index 86759df..96d38da 100644
--- a/src/strunquote.c
+++ b/src/strunquote.c
@@ -42,9 +42,9 @@ strunquote(char* s, char** p_ret)
     if (q != '"' && q != '\'') return 0;
 
     int n = strlen(s+1);
-    if (s[n-1] != q) return -1;
+    if (n == 0 || s[n] != q) return -1;
 
-    s[--n] = 0;
+    s[n] = 0;
     if (p_ret)  *p_ret = s + 1;
     return q;
 }
-- 
2.43.0


From 6843fec3c95056dfc5bd01968a09f51bdd9707d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 060/182] fix: appending a gstr to itself used freed memory

---
 src/gstring.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 123a43c..3ee4c07 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -120,9 +120,16 @@ gstr_fini(gstr *g)
 static size_t
 __append(gstr* g, const char* str, size_t len)
 {
+    // 'str' may be (a part of) the string we are about to move
+    int    self = str >= g->str && str <= g->str + g->len;
+    size_t off  = self ? (size_t)(str - g->str) : 0;
+
     g = grow_if(g, len+1);
-    memcpy(g->str + g->len, str, len+1);
+    if (self) str = g->str + off;
+
+    memcpy(g->str + g->len, str, len);
     g->len += len;
+    g->str[g->len] = 0;
     return g->len;
 }
 
-- 
2.43.0


From 575da943f2ae10df03d5131cd27862c3ad7895f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 061/182] fix: gstr_copy left the length of the copy at zero

---
 src/gstring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 3ee4c07..110d8ec 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -264,7 +264,8 @@ gstr_copy(gstr * dest, const gstr* src)
     dest->len = 0;
 
     dest = grow_if(dest, len+1);
-    memcpy(dest->str, src->str, len+1);
+    memmove(dest->str, src->str, len+1);
+    dest->len = len;
     return dest;
 }
 
-- 
2.43.0


From bed26aca22366cb78193acefe41fc19d0b1b8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 062/182] fix: gstr_unquote left a wrong length and took a lone
 quote for a pair

---
 src/gstring.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 110d8ec..73a2ee0 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -357,10 +357,11 @@ gstr_unquote(gstr* g)
     int q = g->str[0];
     if (q != '"' && q != '\'')  return 0;
 
-    if (g->str[g->len-1] != q) return -1;
+    if (g->len < 2 || g->str[g->len-1] != q) return -1;
 
-    g->str[--g->len] = 0;
+    g->len -= 2;
     memmove(g->str, g->str+1, g->len);
+    g->str[g->len] = 0;
     return q;
 }
 
-- 
2.43.0


From 9e4c444c5cfa818957a7796b896f7e722e612964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 063/182] fix: gstr_readline wrote past its buffer when a line
 filled it

---
 src/gstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 73a2ee0..f504388 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -395,7 +395,7 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
     str = g->str;
     len = g->len = 0;
     while ((c = fgetc(fp)) != EOF) {
-        if (len >= g->cap) {
+        if (len + 1 >= g->cap) {    // room for the trailing null
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
             if (!str)
-- 
2.43.0


From cb92444963a65a2cf0a1b23b7c4465950b3d0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 064/182] fix: gstr_readline reported a read error as a line or
 end of file

---
 src/gstring.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index f504388..389bd21 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -412,8 +412,11 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
         str[len++] = c;
     }
     str[len] = 0;
+    g->len   = len;
 
-    return g->len = len;
+    if (c == EOF && ferror(fp)) return -1;
+
+    return len;
 }
 
 
-- 
2.43.0


From f1f152921e0fb3e114187e8a0273ddfca5d918d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 065/182] fix: gstr_finalize and the gstr_cap function were
 declared but not defined

---
 src/gstring.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/gstring.c b/src/gstring.c
index 389bd21..0206daf 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -295,6 +295,31 @@ size_t
 }
 
 
+/* Return the capacity of the gstr `g'. */
+size_t
+(gstr_cap)(gstr * g)
+{
+    return g ? g->cap : 0;
+}
+
+
+/* Unbind the string from the gstr `g' and return it; the caller must
+ * free it.
+ */
+char *
+gstr_finalize(gstr * g)
+{
+    assert(g);
+
+    char * s = g->str;
+
+    g->len = 0;
+    g->cap = 0;
+    g->str = 0;
+    return s;
+}
+
+
 /* Remove leading and trailing white spaces from a string. */
 gstr*
 gstr_trim(gstr * g)
-- 
2.43.0


From 673670399c5a6a9e66d7844f0678dc384c49e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 066/182] fix: base64_encode_buf wrote past the end of small
 buffers

---
 src/b64_encode.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/b64_encode.c b/src/b64_encode.c
index 891f309..b9e4653 100644
--- a/src/b64_encode.c
+++ b/src/b64_encode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stddef.h>
 #include <assert.h>
 #include "utils/base64.h"
 
@@ -123,14 +124,24 @@ int
 base64_encode_buf(char* dest, int destlen, void* src, int srclen)
 {
     base64_encode_state state;
+    size_t want;
     int n;
 
-    if (destlen < (2*srclen))
+    if (srclen < 0 || destlen < 0)
+        return -EINVAL;
+
+    // 4 chars for every 3 bytes, a newline after every full line, and
+    // the trailing newline and null that base64_encode_finish() adds.
+    want  = 4 * (((size_t)srclen + 2) / 3);
+    want += (size_t)srclen / (3 * (CHARS_PER_LINE / 4));
+    want += 2;
+
+    if ((size_t)destlen < want)
         return -ENOMEM;
 
     base64_encode_init(&state);
     n = base64_encode_block(&state, (char*)src, srclen, dest);
-    assert(n < (destlen+5));
+    assert(n < destlen);
     return n + base64_encode_finish(&state, dest+n);
 }
 
-- 
2.43.0


From a6d23f5f6e0a58171e52b591ae62f6d603434c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 067/182] fix: base64 decoding of '{' read past the table

---
 src/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 0abcc94..1b63a8e 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -22,7 +22,7 @@ base64_decode_value(int value_in)
     };
 	static const int decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[value_in];
 }
 
-- 
2.43.0


From e9b301ab28da2fccc02de864f7bb1589e9e8c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 068/182] fix: base64_decode_block wrote one byte more than it
 decoded

---
 src/b64_decode.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 1b63a8e..5af76dd 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -41,7 +41,8 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
     char* plainchar      = plaintext_out;
     char fragment;
 
-    *plainchar = state_in->plainchar;
+    // The partially decoded byte; only complete bytes are stored.
+    char cur = state_in->plainchar;
 
     switch (state_in->step)
     {
@@ -52,47 +53,47 @@ base64_decode_block(base64_decode_state* state_in, const char* code_in,
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_a;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar    = (fragment & 0x03f) << 2; // fallthrough
+                cur           = (fragment & 0x03f) << 2; // fallthrough
             case step_b:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_b;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x030) >> 4;
-                *plainchar    = (fragment & 0x00f) << 4; // fallthrough
+                *plainchar++  = cur | ((fragment & 0x030) >> 4);
+                cur           = (fragment & 0x00f) << 4; // fallthrough
             case step_c:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_c;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++ |= (fragment & 0x03c) >> 2;
-                *plainchar    = (fragment & 0x003) << 6; // fallthrough
+                *plainchar++  = cur | ((fragment & 0x03c) >> 2);
+                cur           = (fragment & 0x003) << 6; // fallthrough
             case step_d:
                 do {
                     if (codechar == code_in+length_in)
                     {
                         state_in->step      = step_d;
-                        state_in->plainchar = *plainchar;
+                        state_in->plainchar = cur;
                         return plainchar - plaintext_out;
                     }
                     fragment = (char)base64_decode_value(*codechar++);
                 } while (fragment < 0);
-                *plainchar++   |= (fragment & 0x03f);
+                *plainchar++  = cur | (fragment & 0x03f);
         }
     }
     /* control should not reach here */
-- 
2.43.0


From 106ca8b18c7c1cab0780070f4b211c129241dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 069/182] fix: base64_decode_buf wrote past the end of small
 buffers

---
 src/b64_decode.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/b64_decode.c b/src/b64_decode.c
index 5af76dd..71db56e 100644
--- a/src/b64_decode.c
+++ b/src/b64_decode.c
@@ -7,6 +7,7 @@
  */
 
 #include <errno.h>
+#include <stddef.h>
 #include "utils/base64.h"
 
 static int
@@ -107,7 +108,15 @@ base64_decode_buf(void* buf, int destlen, char* src, int srclen)
     char* dest = (char*)buf;
     base64_decode_state state;
 
-    if (destlen < (srclen/2)) return -ENOMEM;
+    // Every char of the alphabet holds 6 bits; all others are ignored.
+    size_t bits = 0;
+    int i;
+
+    for (i = 0; i < srclen; i++) {
+        if (base64_decode_value(src[i]) >= 0) bits += 6;
+    }
+
+    if (destlen < 0 || (size_t)destlen < bits / 8) return -ENOMEM;
 
     base64_decode_init(&state);
 
-- 
2.43.0


From 25cbbf814ad5b80317ea067875885899d20b006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 070/182] fix: fhexdump reported success when writing failed

---
 src/hexdump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hexdump.c b/src/hexdump.c
index c39354f..9bd52d7 100644
--- a/src/hexdump.c
+++ b/src/hexdump.c
@@ -62,9 +62,11 @@ static int
 __fp_writer(void *ctx, const char *buf, size_t n)
 {
     FILE *fp = ctx;
+
+    errno = 0;
     size_t m = fwrite(buf, n, 1, fp);
     if (m != 1) {
-        return feof(fp) ? -EOF : ferror(fp);
+        return errno > 0 ? -errno : -EIO;
     }
     return 0;
 }
-- 
2.43.0


From a7907004ecc4a8f4eaf5b304829bd046727da692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 071/182] fix: uuid_generate ignored a missing buffer and a
 failing entropy source

---
 src/uuid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uuid.c b/src/uuid.c
index 514f48f..72da7eb 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -26,10 +26,10 @@
 int
 uuid_generate(uint8_t *buf, size_t bsiz)
 {
-    if (bsiz == 0) return -EINVAL;
+    if (bsiz == 0 || !buf) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
-    getentropy(buf, 16);
+    if (getentropy(buf, 16) < 0) return -errno;
 
     buf[6] = 0x4f & (buf[6] | 0x40);
     buf[8] = 0xbf & (buf[8] | 0x80);
-- 
2.43.0


From e3b4df58471ca146e2797a435dcdd35768e65df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 072/182] fix: uuid_fromstring wrote past the uuid for strings
 with few dashes

---
 src/uuid.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uuid.c b/src/uuid.c
index 72da7eb..8bcceba 100644
--- a/src/uuid.c
+++ b/src/uuid.c
@@ -49,7 +49,15 @@ uuid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
             c;
 
     bsiz = 16;  // this is all we need. Don't decode more.
-    while ((c = *str++)) {
+
+    int i = 0;
+    for (; (c = *str++); i++) {
+        // the dashes separate the 8-4-4-4-12 digits and can only be
+        // in these places
+        int dash = i == 8 || i == 13 || i == 18 || i == 23;
+
+        if ((c == '-') != dash) return -EINVAL;
+
         switch (c) {
             default:
                 return -EINVAL;
-- 
2.43.0


From 56ffccebe193ea2cdf27dc1c1b8d16dc7b2a30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 073/182] fix: ulid_generate ignored a missing buffer and a
 failing entropy source

---
 src/ulid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ulid.c b/src/ulid.c
index f1d91d9..4b51c41 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -37,6 +37,7 @@
 int
 ulid_generate(uint8_t *buf, size_t bsiz)
 {
+    if (bsiz == 0 || !buf) return -EINVAL;
     if (bsiz < 16) return -ENOSPC;
 
     struct timeval tv;
@@ -53,7 +54,7 @@ ulid_generate(uint8_t *buf, size_t bsiz)
     *buf++ = 0xff && (ms >>  8);
     *buf++ = 0xff && ms;
 
-    getentropy(buf, 10);
+    if (getentropy(buf, 10) < 0) return -errno;
     return 16;
 }
 
-- 
2.43.0


From 4c20a88ce820072276647bda9154e2c9cb05d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 074/182] fix: ulid_generate stored a boolean for each byte of
 the time

---
 src/ulid.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ulid.c b/src/ulid.c
index 4b51c41..3d125d5 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -47,12 +47,12 @@ ulid_generate(uint8_t *buf, size_t bsiz)
 
     ms &= ~(((uint64_t)0xffff) << 48);   // clear top 16 bits;
 
-    *buf++ = 0xff && (ms >> 40);
-    *buf++ = 0xff && (ms >> 32);
-    *buf++ = 0xff && (ms >> 24);
-    *buf++ = 0xff && (ms >> 16);
-    *buf++ = 0xff && (ms >>  8);
-    *buf++ = 0xff && ms;
+    *buf++ = 0xff & (ms >> 40);
+    *buf++ = 0xff & (ms >> 32);
+    *buf++ = 0xff & (ms >> 24);
+    *buf++ = 0xff & (ms >> 16);
+    *buf++ = 0xff & (ms >>  8);
+    *buf++ = 0xff & ms;
 
     if (getentropy(buf, 10) < 0) return -errno;
     return 16;
-- 
2.43.0


From 241dc7b65414aa7c90b0808471c1577d543530d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 075/182] fix: ulid_tostring took a bit of the time from the
 wrong byte

---
 src/ulid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ulid.c b/src/ulid.c
index 3d125d5..9c8cbea 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -147,7 +147,7 @@ ulid_tostring(char *s, size_t bsiz, const uint8_t *id)
     *p++ = b32[ ((id[ 1] &   7) << 2) | ((id[ 2] & 192) >> 6)];
 
     *p++ = b32[ ( id[ 2] &  62) >> 1];
-    *p++ = b32[ ((id[ 3] &   1) << 4) | ((id[ 3] & 240) >> 4)];
+    *p++ = b32[ ((id[ 2] &   1) << 4) | ((id[ 3] & 240) >> 4)];
     *p++ = b32[ ((id[ 3] &  15) << 1) | ((id[ 4] & 128) >> 7)];
     *p++ = b32[ ( id[ 4] & 124) >> 2];
 
-- 
2.43.0


From 85d84913956c58408f3c554b79c523fdf8ac0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 076/182] fix: ulid_fromstring dropped the excess bits of too
 large values

---
 src/ulid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ulid.c b/src/ulid.c
index 9c8cbea..f25a91e 100644
--- a/src/ulid.c
+++ b/src/ulid.c
@@ -105,6 +105,9 @@ ulid_fromstring(uint8_t *buf, size_t bsiz, const char *str)
         if (0xff == z) return -EINVAL;  \
         z; })
 
+    // 26 chars hold 130 bits; the first two must be zero.
+    if (v(0) > 7) return -EINVAL;
+
 	*buf++   = ((v(0) << 5) |  v(1));
 	*buf++   = ((v(2) << 3) | (v(3) >> 2));
 	*buf++   = ((v(3) << 6) | (v(4) << 1) | (v(5) >> 4));
-- 
2.43.0


From 8973c17721f57460b620da3b6aaab90f0d99a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 077/182] fix: a /0 prefix gave the mask of a /32 prefix

---
 src/parse-ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ab304b3..3a8ec07 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -169,7 +169,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
             if (z > 32)               return 0;
         }
 
-        *p_m = 0xffffffff << (32 - (uint32_t)z);
+        *p_m = z > 0 ? 0xffffffff << (32 - (uint32_t)z) : 0;
     }
 
     return 1;
-- 
2.43.0


From 59422a0907b6bc20f8624991767c06079122e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 078/182] fix: parse-ip accepted empty octets and numbers that
 overflow

---
 src/parse-ip.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 3a8ec07..ec8ecc4 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -53,10 +53,13 @@ dtoi(size_t* pn, const char* s)
     size_t n = 0;
     int c;
 
+    if (!*s) return 0;
+
     for (; (c = *s); ++s) {
         if (!isdigit(c)) return 0;
 
         n = n * 10 + (c - '0');
+        if (n > 255) return 0;      // more than any octet or prefix
     }
 
     *pn = n;
-- 
2.43.0


From 6602ab91faeb12224004189275a6c9f04598c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 079/182] fix: parse_ipv4 accepted a trailing dot and four
 digits in the last octet

---
 src/parse-ip.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index ec8ecc4..54d64f6 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -113,18 +113,18 @@ parse_ipv4(uint32_t* p_z, const char* sx)
         m      = 0;
     }
 
-    if (m > 0) {
-        x[m] = 0;
-        z    = 0;
-        r    = dtoi(&z, x);
+    // there must be exactly one octet after the last dot
+    if (n != 3) return 0;
+    if (m > 3)  return 0;
 
-        if (!r)      return 0;
-        if (z > 255) return 0;
+    x[m] = 0;
+    z    = 0;
+    r    = dtoi(&z, x);
 
-        p[n++] = z & 0xff;
-    }
+    if (!r)      return 0;
+    if (z > 255) return 0;
 
-    if (n < 4) return 0;
+    p[n++] = z & 0xff;
 
     *p_z = dec_BE_u32(p);
     return 1;
-- 
2.43.0


From dcf049f9e7366536aa657a7672b931076cb510cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 080/182] fix: parse_ipv4_and_mask accepted an empty mask and
 the head of an overlong one

---
 src/parse-ip.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse-ip.c b/src/parse-ip.c
index 54d64f6..b270737 100644
--- a/src/parse-ip.c
+++ b/src/parse-ip.c
@@ -155,7 +155,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
         memcpy(as, str, n);
         as[n] = 0;
 
-        safe_strcpy(ms, sizeof ms, sl+1);
+        if (safe_strcpy(ms, sizeof ms, sl+1) < 0) return 0;
     }
 
     // Now, as has the address part, ms has the mask part.
@@ -167,7 +167,7 @@ parse_ipv4_and_mask(uint32_t* p_a, uint32_t* p_m, const char* str)
     } else {
         size_t z = 32;
 
-        if (ms[0] != 0) {
+        if (sl) {
             if (!dtoi(&z, ms))        return 0;
             if (z > 32)               return 0;
         }
-- 
2.43.0


From a0cf3c8629f2ac507e6d2f8d946caee04a6187a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 081/182] fix: closing an unread fts stream used an
 uninitialized level, reading an empty one an uninitialized parent

---
 src/fts.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 8de5281..46383c5 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -193,6 +193,8 @@ fts_open(char * const *argv, int options,
 		goto mem3;
 	sp->fts_cur->fts_link = root;
 	sp->fts_cur->fts_info = FTS_INIT;
+	sp->fts_cur->fts_level = FTS_ROOTLEVEL;
+	sp->fts_cur->fts_parent = parent;
 
 	/*
 	 * If using chdir(2), grab a file descriptor pointing to dot to insure
@@ -210,9 +212,6 @@ fts_open(char * const *argv, int options,
 		}
 	}
 
-	if (nitems == 0)
-		fts_free(parent);
-
 	return (sp);
 
 mem3:	fts_lfree(root);
-- 
2.43.0


From e98f8cc2a38b87713ed761dac40181071598efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 082/182] fix: fts leaked or closed twice the descriptors of
 followed symlinks

---
 src/fts.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index 46383c5..763c9ea 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -262,8 +262,6 @@ fts_close(FTS *sp)
 	 * list which has a valid parent pointer.
 	 */
 	if (sp->fts_cur) {
-		if (sp->fts_cur->fts_flags & FTS_SYMFOLLOW)
-			(void)close(sp->fts_cur->fts_symfd);
 		for (p = sp->fts_cur; p->fts_level >= FTS_ROOTLEVEL;) {
 			freep = p;
 			p = p->fts_link ? p->fts_link : p->fts_parent;
@@ -327,7 +325,6 @@ fts_read(FTS *sp)
 	FTSENT *p, *tmp;
 	int instr;
 	char *t;
-	int saved_errno;
 
 	_DIAGASSERT(sp != NULL);
 
@@ -376,8 +373,10 @@ fts_read(FTS *sp)
 		/* If skipped or crossed mount point, do post-order visit. */
 		if (instr == FTS_SKIP ||
 		    (ISSET(FTS_XDEV) && p->fts_dev != sp->fts_dev)) {
-			if (p->fts_flags & FTS_SYMFOLLOW)
+			if (p->fts_flags & FTS_SYMFOLLOW) {
 				(void)close(p->fts_symfd);
+				p->fts_flags &= ~FTS_SYMFOLLOW;
+			}
 			if (sp->fts_child) {
 				fts_lfree(sp->fts_child);
 				sp->fts_child = NULL;
@@ -500,13 +499,11 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 		}
 	} else if (p->fts_flags & FTS_SYMFOLLOW) {
 		if (FCHDIR(sp, p->fts_symfd)) {
-			saved_errno = errno;
-			(void)close(p->fts_symfd);
-			errno = saved_errno;
 			SET(FTS_STOP);
 			return (NULL);
 		}
 		(void)close(p->fts_symfd);
+		p->fts_flags &= ~FTS_SYMFOLLOW;
 	} else if (!(p->fts_flags & FTS_DONTCHDIR) &&
 	    fts_safe_changedir(sp, p->fts_parent, -1, "..")) {
 		SET(FTS_STOP);
@@ -1079,6 +1076,9 @@ fts_alloc(FTS *sp, const char *name, size_t namelen)
 static void
 fts_free(FTSENT *p)
 {
+	/* The way back from a followed symlink that wasn't taken. */
+	if (p->fts_flags & FTS_SYMFOLLOW)
+		(void)close(p->fts_symfd);
 #if !defined(FTS_ALLOC_ALIGNED)
 	if (p->fts_statp)
 		free(p->fts_statp);
-- 
2.43.0


From 2cbc1aec80e5dd7412b8ef19d39c0ac6c1da1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 083/182] fix: an empty directory behind a followed symlink
 ended the fts traversal

---
 src/fts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 763c9ea..b46ee34 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -881,6 +881,8 @@ mem1:				saved_errno = errno;
 	if (descend && (type == BCHILD || !nitems) &&
 	    (cur->fts_level == FTS_ROOTLEVEL ?
 	    FCHDIR(sp, sp->fts_rfd) :
+	    (cur->fts_flags & FTS_SYMFOLLOW) ?
+	    FCHDIR(sp, cur->fts_symfd) :
 	    fts_safe_changedir(sp, cur->fts_parent, -1, ".."))) {
 		cur->fts_info = FTS_ERR;
 		SET(FTS_STOP);
-- 
2.43.0


From 055fc5b8ab6b145d350f6a1d14e1b3e0e20426da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:57 +0000
Subject: [PATCH 084/182] fix: fts_children left a slash at the end of the path
 of an FTS_NOCHDIR stream

---
 src/fts.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fts.c b/src/fts.c
index b46ee34..0f99ec5 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -865,11 +865,8 @@ mem1:				saved_errno = errno;
 	 * If not changing directories, reset the path back to original
 	 * state.
 	 */
-	if (ISSET(FTS_NOCHDIR)) {
-		if (len == sp->fts_pathlen || nitems == 0)
-			--cp;
-		*cp = '\0';
-	}
+	if (ISSET(FTS_NOCHDIR))
+		sp->fts_path[cur->fts_pathlen] = '\0';
 
 	/*
 	 * If descended after called from fts_children or after called from
-- 
2.43.0


From a6089cb556e0fe73c70653ddbb0e0597fd5c9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:05 +0000
Subject: [PATCH 085/182] fix: fts_open leaked the sort array when the last
 allocation failed

---
 src/fts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index 0f99ec5..aa023f7 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -214,7 +214,8 @@ fts_open(char * const *argv, int options,
 
 	return (sp);
 
-mem3:	fts_lfree(root);
+mem3:	free(sp->fts_array);
+	fts_lfree(root);
 	fts_free(parent);
 mem2:	free(sp->fts_path);
 mem1:	free(sp);
-- 
2.43.0


From b1d6186e185b58cb8cefb149bc7ef33de2fc288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:07 +0000
Subject: [PATCH 086/182] fix: a name-only fts_children of an empty directory
 lost instructions set on a later child list

---
 src/fts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index aa023f7..223e20d 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -582,8 +582,10 @@ fts_children(FTS *sp, int instr)
 	if (instr == FTS_NAMEONLY) {
 		SET(FTS_NAMEONLY);
 		instr = BNAMES;
-	} else
+	} else {
+		CLR(FTS_NAMEONLY);
 		instr = BCHILD;
+	}
 
 	/*
 	 * If using chdir on a relative path and called BEFORE fts_read does
-- 
2.43.0


From 6fd6d0bff90251fff59fb1cd9dec82e7afd82e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 087/182] fix: getopt printed errors although a colon follows
 the leading '+' or '-'

---
 src/getopt_long.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 36386d2..2fc5604 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -57,8 +57,8 @@ int optreset;/* reset getopt */
 
 
 #define IGNORE_FIRST        (*options == '-' || *options == '+')
-#define PRINT_ERROR         ((opterr) && ((*options != ':') \
-                                || (IGNORE_FIRST && options[1] != ':')))
+#define PRINT_ERROR         ((opterr) && (*options != ':') \
+                                && !(IGNORE_FIRST && options[1] == ':'))
 #define IS_POSIXLY_CORRECT  (getenv("POSIXLY_CORRECT") != NULL)
 #define PERMUTE             (!IS_POSIXLY_CORRECT && !IGNORE_FIRST)
 
-- 
2.43.0


From c6566ba59ce7a89d5db80eef99cceeefcb0447e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 088/182] fix: setting optind to zero did not drop what was
 left of an earlier parse

---
 src/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index 2fc5604..e1083cc 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -185,7 +185,7 @@ getopt_internal(int nargc, char * const *nargv, const char *options)
      * XXX properly function again.  Work around this braindamage.
      */
     if (optind == 0)
-        optind = 1;
+        optind = optreset = 1;
 
     if (optreset)
         nonopt_start = nonopt_end = -1;
-- 
2.43.0


From 504daf38c32b252b0228532efa1c1d8ce752abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 089/182] fix: an exact long option was called ambiguous when
 abbreviations of others come before it

---
 src/getopt_long.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/getopt_long.c b/src/getopt_long.c
index e1083cc..c32a894 100644
--- a/src/getopt_long.c
+++ b/src/getopt_long.c
@@ -355,10 +355,11 @@ getopt_long(int nargc, char * const *nargv, const char *options,
     if ((retval = getopt_internal(nargc, nargv, options)) == -2) {
         char *current_argv, *has_equal;
         size_t current_argv_len;
-        int i, match;
+        int i, match, ambiguous;
 
         current_argv = place;
         match = -1;
+        ambiguous = 0;
 
         optind++;
         place = EMSG;
@@ -393,18 +394,21 @@ getopt_long(int nargc, char * const *nargv, const char *options,
                 (unsigned)current_argv_len) {
                 /* exact match */
                 match = i;
+                ambiguous = 0;
                 break;
             }
             if (match == -1)        /* partial match */
                 match = i;
-            else {
-                /* ambiguous abbreviation */
-                if (PRINT_ERROR)
-                    warnx(ambig, (int)current_argv_len,
-                         current_argv);
-                optopt = 0;
-                return BADCH;
-            }
+            else
+                ambiguous = 1;
+        }
+        if (ambiguous) {
+            /* ambiguous abbreviation */
+            if (PRINT_ERROR)
+                warnx(ambig, (int)current_argv_len,
+                     current_argv);
+            optopt = 0;
+            return BADCH;
         }
         if (match != -1) {          /* option found */
                 if (long_options[match].has_arg == no_argument
-- 
2.43.0


From b13a79a3dd0305200bed936aeda05f102eebee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 090/182] fix: geterror lost the error text with the GNU
 strerror_r

---
 src/posix/syserror.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/posix/syserror.cpp b/src/posix/syserror.cpp
index daf6e4f..cb83054 100644
--- a/src/posix/syserror.cpp
+++ b/src/posix/syserror.cpp
@@ -34,19 +34,32 @@ geterrno()
 
 
 
+// The POSIX strerror_r() fills the buffer, the GNU one may return a
+// pointer to another string.
+static inline const char *
+errtext(int, const char *buf)
+{
+    return buf;
+}
+
+static inline const char *
+errtext(const char *s, const char *)
+{
+    return s;
+}
+
 syserror
 geterror(int err, const string& prefix)
 {
     //int err       = errno;
     char buf[256] = { 0 };
+    const char *text = errtext(strerror_r(err, buf, sizeof buf), buf);
 
-    strerror_r(err, buf, sizeof buf);
-    
     syserror p(err, prefix);
 
     if (prefix.length() > 0)
         p.errstr += ": ";
-    p.errstr.append(buf);
+    p.errstr.append(text);
     return p;
 }
 
-- 
2.43.0


From 62f62499054f1f1d32fc2d52a0c630c66f68bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 091/182] fix: a long sys_exception message aborted or overran
 its buffer

---
 src/sysexception.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sysexception.cpp b/src/sysexception.cpp
index 1b34ebf..18dae8a 100644
--- a/src/sysexception.cpp
+++ b/src/sysexception.cpp
@@ -54,7 +54,8 @@ sys_exception::sys_exception(const syserror& e, const char * fmt, ...)
     size_t n = vsnprintf(buf, max, fmt, ap);
     va_end(ap);
 
-    assert(n <= max);
+    // vsnprintf() returns the untruncated length.
+    n = min(n, size_t(max - 1));
 
     memcpy(m_buf, buf, n);
     m_buf[n++] = ':';
-- 
2.43.0


From 964820e0a4b38786b51a01954e973403bd42c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 092/182] fix: mmap_file leaked its descriptor when fstat fails

---
 src/posix/mmap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index 0b9bf17..a288c9e 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -49,8 +49,12 @@ mmap_file::mmap_file(const string& fname, unsigned int flags)
         throw sys_exception(geterror(), "Can't open '%s'", fn());
 
     struct stat st;
-    if ( ::fstat(fd, &st) < 0 )
-        throw sys_exception(geterror(), "Can't query '%s'", fn());
+    if ( ::fstat(fd, &st) < 0 ) {
+        syserror e = geterror();
+
+        ::close(fd);
+        throw sys_exception(e, "Can't query '%s'", fn());
+    }
 
 
     m_filesize = st.st_size;
-- 
2.43.0


From 26629c2e50bafd2c7d4269acae6ec1f1656a9173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 093/182] fix: kmp_search::matchall missed matches that overlap
 an earlier one

---
 inc/utils/strmatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index d8cc873..4e81fa9 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -166,7 +166,7 @@ kmp_search<T>::matchall(const  T * text, int textlen)
         if ( !m.first )
             break;
 
-        int consume  = m.second + m_patlen; // nbytes to consume
+        int consume  = m.second + 1;        // the next match may overlap this one
         int matchoff = off + m.second;      // offset relative to start of text
 
         text        += consume;
-- 
2.43.0


From 6433898c4158bd7e217ea5259ca1300d4dd79f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 094/182] fix: boyer_moore_search indexed its table with
 negative characters

---
 inc/utils/strmatch.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 4e81fa9..6d63d1c 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -217,6 +217,11 @@ protected:
     void calc_bad_char();
     void calc_good_shift();
 
+    // Index of 'c' in m_bad_char; 'c' can be negative.
+    static unsigned int bc_index(T c)
+    {
+        return (unsigned int)(c) & (_bm_alphabet_size - 1);
+    }
 
 
 protected:
@@ -240,7 +245,7 @@ template<typename T> void boyer_moore_search<T>::calc_bad_char()
         m_bad_char[i] = m_patlen;
 
     for (i = 0; i < m1; i++)
-        m_bad_char[m_pat[i]] = m1 - i;
+        m_bad_char[bc_index(m_pat[i])] = m1 - i;
 }
 
 template<typename T> void boyer_moore_search<T>::calc_suffixes(std::vector<int>& suff)
@@ -347,7 +352,7 @@ boyer_moore_search<T>::matchall(const T * text, int textlen)
             j += m_good_shift[0];
         }
         else
-            j += std::max(m_good_shift[i], m_bad_char[text[i+j]] - m_patlen + 1 + i);
+            j += std::max(m_good_shift[i], m_bad_char[bc_index(text[i+j])] - m_patlen + 1 + i);
     }
 
     return r;
@@ -390,7 +395,7 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
         {
             v           = m_patlen - 1 - i;
             turbo_shift = u - v;
-            bc_shift    = m_bad_char[text[i+j]] - m_patlen + 1 + i;
+            bc_shift    = m_bad_char[bc_index(text[i+j])] - m_patlen + 1 + i;
             shift       = std::max(turbo_shift, bc_shift);
             shift       = std::max(shift, m_good_shift[i]);
             if (shift == m_good_shift[i])
-- 
2.43.0


From 67b24a4f28fbdf0468e5e3f3698b184545a7c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 095/182] fix: rabin_karp_search read past the text and missed
 patterns longer than 32

---
 inc/utils/strmatch.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 6d63d1c..c54b558 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -471,14 +471,16 @@ template<typename T> std::vector<int>
 rabin_karp_search<T>::matchall(const T * text, int textlen)
 {
 #define _rehash(a,b,h)   ((((h) - ((a) * d)) << 1) + (b))
-    int d, i, j, q,
-        h_pat, h_txt;
+    int i, j, q;
+    unsigned int d, h_pat, h_txt;
 
 
     std::vector<int> r;
 
-    // compute d = 2^(m-1)
-    d = 1 << (m_patlen-1);
+    if (textlen < m_patlen || m_patlen == 0) return r;
+
+    // compute d = 2^(m-1); the hash is computed modulo 2^32
+    d = m_patlen <= 32 ? 1u << (m_patlen-1) : 0;
     for (h_pat = h_txt = i = 0; i < m_patlen; ++i)
     {
         h_pat = (h_pat << 1) + m_pat[i];
@@ -493,7 +495,8 @@ rabin_karp_search<T>::matchall(const T * text, int textlen)
         {
             r.push_back(j);
         }
-        h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
+        if (j < q)
+            h_txt = _rehash(text[j], text[j+m_patlen], h_txt);
         ++j;
     }
 
-- 
2.43.0


From d494af349fbd0ef6bd014ffad4903b42b95459d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:20 +0000
Subject: [PATCH 096/182] fix: searching for an empty pattern read and wrote
 outside the tables

---
 inc/utils/strmatch.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index c54b558..87f5e10 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -134,6 +134,9 @@ kmp_search<T>::match(const T * text, int textlen)
 
     std::pair<bool, int> r(false, -1);
 
+    if ( m_patlen == 0 )
+        return r;
+
     int i,
         q = 0;
 
@@ -316,8 +319,11 @@ boyer_moore_search<T>::boyer_moore_search(const T * p, int plen)
     m_pat = new T[plen];
     memcpy(m_pat, p, sizeof(char_type) * plen);
 
-    calc_good_shift();
-    calc_bad_char();
+    if ( plen > 0 )
+    {
+        calc_good_shift();
+        calc_bad_char();
+    }
 }
 
 
@@ -339,7 +345,10 @@ boyer_moore_search<T>::matchall(const T * text, int textlen)
     int i,
         j = 0,
         n = textlen - m_patlen;
-          
+
+    if ( m_patlen == 0 )
+        return r;
+
     while (j <= n)
     {
         for(i = m_patlen-1; i >= 0 && traits_type::eq(m_pat[i], text[i+j]); --i)
@@ -370,7 +379,9 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
         u, v, turbo_shift, shift, bc_shift,
         n = textlen - m_patlen;
 
-          
+    if ( m_patlen == 0 )
+        return r;
+
     j = u = 0;
     shift = m_patlen;
     while (j <= n)
-- 
2.43.0


From a2425514dff9c63b5a1e17dcdb22476139cbae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 097/182] fix: rotate_filename_by_size rotated only when a
 whole megabyte beyond the limit

---
 src/rotatefile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index d4e0af1..078da6a 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -86,7 +86,7 @@ rotate_filename_by_size(const char *filename, int nsaved,
     if (!S_ISREG(st.st_mode)) return -EINVAL;
 
     uint64_t actual_size = st.st_size / 1048576;
-    if (actual_size > size_mb)
+    if (actual_size > size_mb || (actual_size == size_mb && st.st_size % 1048576))
         return rotate_filename(filename, nsaved, flags);
 
     return 0;
-- 
2.43.0


From f9e32dea6e59c209f65928e0d848505dd1d590f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 098/182] fix: rotate_filename removed the file itself when its
 name is as long as PATH_MAX allows

---
 src/rotatefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotatefile.c b/src/rotatefile.c
index 078da6a..aee0f5b 100644
--- a/src/rotatefile.c
+++ b/src/rotatefile.c
@@ -14,6 +14,7 @@
  * suitability for any purpose.
  */
 #include <stdio.h>
+#include <string.h>
 #include <errno.h>
 #include <limits.h>
 #include <unistd.h>
@@ -38,6 +39,9 @@ rotate_filename(const char *filename, int nsaved, unsigned int flags)
 
     (void)flags;
 
+    // A truncated name is the name of another file.
+    if (strlen(filename) + 16 > sizeof f1) return -ENAMETOOLONG;
+
     // Delete older files upto a max of 100 extra files
     delete_old(filename, nsaved, nsaved+100);
 
-- 
2.43.0


From 8692e4e8735f848059bea32a5e15a2b89ddff402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 099/182] fix: rotatefile.h could not be included from C++

---
 inc/utils/rotatefile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/rotatefile.h b/inc/utils/rotatefile.h
index 9f9ec23..b5c638a 100644
--- a/inc/utils/rotatefile.h
+++ b/inc/utils/rotatefile.h
@@ -53,7 +53,7 @@ extern int rotate_filename_by_size(const char* filename, int nsaved,
                     uint64_t size_mb, unsigned int flags);
 
 #ifdef __cplusplus
-extern "C" {
+}
 #endif
 
 #endif /* ! __ROTATEFILE_H_1186176198__ */
-- 
2.43.0


From b8d6711736da861dd510d348a66e53b06c002c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 100/182] fix: mkdirhier failed on a trailing slash or dot and
 when another process creates a component

---
 src/mkdirhier.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mkdirhier.c b/src/mkdirhier.c
index 6085679..7155cd5 100644
--- a/src/mkdirhier.c
+++ b/src/mkdirhier.c
@@ -34,6 +34,24 @@ sep(const char* p)
 }
 
 
+// Make one directory; it is fine if it is there already, e.g. because
+// someone else just made it.
+static int
+makedir(const char* path, mode_t mode)
+{
+    struct stat st;
+
+    if (0 == mkdir(path, mode))
+        return 0;
+
+    int err = errno;
+    if (err == EEXIST && 0 == stat(path, &st) && S_ISDIR(st.st_mode))
+        return 0;
+
+    return -err;
+}
+
+
 int
 mkdirhier(const char* path, mode_t mode)
 {
@@ -68,19 +86,16 @@ mkdirhier(const char* path, mode_t mode)
             if (errno != ENOENT)
                 return -errno;
 
-            r = mkdir(z, mode);
+            r = makedir(z, mode);
             if (r < 0)
-                return -errno;
+                return r;
         }
 
         prev = next+1;
     }
 
     // Make the last and final part
-    if (mkdir(path, mode) < 0)
-        return -errno;
-
-    return 0;
+    return makedir(path, mode);
 }
 
 /* EOF */
-- 
2.43.0


From 1c8805908ac7e3992619ae28cae1bdeeb1e514ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 101/182] fix: dirname of an empty path wrote outside the
 buffer

---
 src/dirname.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dirname.c b/src/dirname.c
index 09a8695..03c8fcd 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -22,6 +22,13 @@ dirname(char *buf, size_t bsize, const char *p)
     size_t n = strlen(p);
     if (bsize < (n+1)) return 0;
 
+    if (n == 0) {
+        if (bsize < 2) return 0;
+        buf[0] = '.';
+        buf[1] = 0;
+        return buf;
+    }
+
     memcpy(buf, p, n);
     buf[n] = 0;
 
-- 
2.43.0


From 4641643a93e5ca8e3deb3c8694ad64187f95a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 102/182] fix: dirname kept redundant slashes at the end

---
 src/dirname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dirname.c b/src/dirname.c
index 03c8fcd..4d7de98 100644
--- a/src/dirname.c
+++ b/src/dirname.c
@@ -44,7 +44,7 @@ found:
     s[1] = 0;   // remove the last slash.
     for (; s > buf; s--) {
         if (*s == '/') {
-            *s = 0;
+            while (s > buf && *s == '/') *s-- = 0;
             return buf;
         }
     }
-- 
2.43.0


From 6d7b59d6d567768ac6522eca5806b802eba88c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 103/182] fix: turbo_matchall shifted past matches by more than
 the bad character allows

---
 inc/utils/strmatch.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 87f5e10..06a167e 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -412,11 +412,7 @@ boyer_moore_search<T>::turbo_matchall(const T * text, int textlen)
             if (shift == m_good_shift[i])
                 u = std::min(m_patlen - shift, v);
             else
-            {
-                if (turbo_shift < bc_shift)
-                    shift = std::max(shift, u+1);
                 u = 0;
-            }
         }
         j += shift;
     }
-- 
2.43.0


From 048f1ce7e9b4c52d72dca15cd92832e31eaa4767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 104/182] fix: murmur3 mixed the last block into the tail

---
 src/hashfunc/murmur3_hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 3d6e225..e6e86c4 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -158,6 +158,7 @@ murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 
   /* tail */
 
+  k1 = 0;
 
   switch(len & 3)
   {
@@ -231,6 +232,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = k3 = k4 = 0;
 
     switch(len & 15)
     {
@@ -323,6 +325,8 @@ murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 
     /* tail */
 
+    k1 = k2 = 0;
+
     switch(len & 15)
     {
         case 15: k2 ^= ((uint64_t)(tail[14])) << 48; // fallthrough
-- 
2.43.0


From a4b1af332c29698ea223f5b79edaf5c8af70e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 105/182] fix: murmur3_hash_128 returned half of its hash twice

---
 src/hashfunc/murmur3_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index e6e86c4..5a2d581 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -279,7 +279,7 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
         uint_128_t r;
 
         r.v[0] = h1; r.v[0] <<= 32; r.v[0] |= h2;
-        r.v[1] = h1; r.v[1] <<= 32; r.v[1] |= h2;
+        r.v[1] = h3; r.v[1] <<= 32; r.v[1] |= h4;
         return r;
     }
 }
-- 
2.43.0


From 997088b530f2a1b5c3649c05a736e34f3b1cfa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 106/182] fix: hsieh_hash shifted a negative value and depended
 on the signedness of char

---
 src/hashfunc/hsieh_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashfunc/hsieh_hash.c b/src/hashfunc/hsieh_hash.c
index b2490d8..51c480f 100644
--- a/src/hashfunc/hsieh_hash.c
+++ b/src/hashfunc/hsieh_hash.c
@@ -70,14 +70,14 @@ hsieh_hash(const void * pdata, size_t len, uint32_t seed)
     {
         case 3: hash += get16bits (data);
                 hash ^= hash << 16;
-                hash ^= data[sizeof (uint16_t)] << 18;
+                hash ^= (uint32_t)(signed char)data[sizeof (uint16_t)] << 18;
                 hash += hash >> 11;
                 break;
         case 2: hash += get16bits (data);
                 hash ^= hash << 11;
                 hash += hash >> 17;
                 break;
-        case 1: hash += *data;
+        case 1: hash += (signed char)*data;
                 hash ^= hash << 10;
                 hash += hash >> 1;
     }
-- 
2.43.0


From 1ef8c668516275d5130f8e811744bed52607e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 107/182] fix: siphash24_update hashed every chunk as if it
 were the last

---
 inc/utils/siphash.h      |  2 ++
 src/hashfunc/siphash24.c | 58 ++++++++++++++++++++++++++--------------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/inc/utils/siphash.h b/inc/utils/siphash.h
index 7905c10..e4487f4 100644
--- a/inc/utils/siphash.h
+++ b/inc/utils/siphash.h
@@ -29,6 +29,8 @@ extern "C" {
 struct siphash24_state
 {
     uint64_t v0, v1, v2, v3;
+    uint64_t tail;      /* last (len % 8) bytes, not hashed yet */
+    uint64_t len;       /* total bytes so far */
 };
 typedef struct siphash24_state siphash24_state;
 
diff --git a/src/hashfunc/siphash24.c b/src/hashfunc/siphash24.c
index 7ebdeeb..b7858ad 100644
--- a/src/hashfunc/siphash24.c
+++ b/src/hashfunc/siphash24.c
@@ -48,6 +48,7 @@
 */
 
 #include <stdint.h>
+#include <string.h>
 #include "utils/siphash.h"
 
 #if defined(__BYTE_ORDER__) && defined(__ORDER_LITTLE_ENDIAN__) && \
@@ -166,50 +167,62 @@ siphash24_init(siphash24_state* st, const uint64_t* key)
     st->v1 = k1 ^ 0x646f72616e646f6dULL;
     st->v2 = k0 ^ 0x6c7967656e657261ULL;
     st->v3 = k1 ^ 0x7465646279746573ULL;
+    st->tail = 0;
+    st->len  = 0;
 }
 
 void
 siphash24_update(siphash24_state* st, const void* src, size_t src_sz)
 {
-    uint64_t b = ((uint64_t)src_sz) << 56;
-    const uint64_t *in = (uint64_t*)src;
+    const uint8_t *in = (const uint8_t*)src;
+    unsigned int  n   = st->len & 7;
+    uint64_t tail     = st->tail;
 
     uint64_t v0 = st->v0;
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
 
+    st->len += src_sz;
 
-    while (src_sz >= 8)
+    /* Complete the word begun by an earlier update */
+    if (n > 0)
     {
-        uint64_t mi = _le64toh(*in);
-        in += 1; src_sz -= 8;
-        v3 ^= mi;
+        for (; n < 8 && src_sz > 0; n++, src_sz--)
+            tail |= (uint64_t)*in++ << (8 * n);
+
+        if (n < 8)
+        {
+            st->tail = tail;
+            return;
+        }
+
+        v3 ^= tail;
         DOUBLE_ROUND(v0,v1,v2,v3);
-        v0 ^= mi;
+        v0 ^= tail;
+        tail = 0;
     }
 
-    uint64_t t = 0; uint8_t *pt = (uint8_t *)&t; uint8_t *m = (uint8_t *)in;
-    switch (src_sz)
+    while (src_sz >= 8)
     {
-        case 7: pt[6] = m[6]; // fallthrough
-        case 6: pt[5] = m[5]; // fallthrough
-        case 5: pt[4] = m[4]; // fallthrough
-        case 4: *((uint32_t*)&pt[0]) = *((uint32_t*)&m[0]); break;
-        case 3: pt[2] = m[2]; // fallthrough
-        case 2: pt[1] = m[1]; // fallthrough
-        case 1: pt[0] = m[0]; // fallthrough
+        uint64_t mi;
+
+        memcpy(&mi, in, 8);
+        mi = _le64toh(mi);
+        in += 8; src_sz -= 8;
+        v3 ^= mi;
+        DOUBLE_ROUND(v0,v1,v2,v3);
+        v0 ^= mi;
     }
-    b |= _le64toh(t);
 
-    v3 ^= b;
-    DOUBLE_ROUND(v0,v1,v2,v3);
-    v0 ^= b;
+    for (n = 0; n < src_sz; n++)
+        tail |= (uint64_t)in[n] << (8 * n);
 
     st->v0 = v0;
     st->v1 = v1;
     st->v2 = v2;
     st->v3 = v3;
+    st->tail = tail;
 }
 
 
@@ -220,6 +233,11 @@ siphash24_finish(siphash24_state* st)
     uint64_t v1 = st->v1;
     uint64_t v2 = st->v2;
     uint64_t v3 = st->v3;
+    uint64_t b  = (st->len << 56) | st->tail;
+
+    v3 ^= b;
+    DOUBLE_ROUND(v0,v1,v2,v3);
+    v0 ^= b;
 
     v2 ^= 0xff;
     DOUBLE_ROUND(v0,v1,v2,v3);
-- 
2.43.0


From 07dbb462815125943e835dbe3d04f3a9a707bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 108/182] fix: xorshift64*: the last shift of the step is to
 the right

With << 27 the state map is not a bijection: the generator degenerates.
---
 src/prng/xorshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 952891a..96fc13e 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -37,7 +37,7 @@ xs64star_u64(xs64star* s)
 {
     s->v ^= s->v >> 12;
     s->v ^= s->v << 25;
-    s->v ^= s->v << 27;
+    s->v ^= s->v >> 27;
     return s->v * 2685821657736338717uLL;
 }
 
-- 
2.43.0


From 348276e4eceb106c01c91ce2aba94ac476f36c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 109/182] fix: splitmix64: multiply the xored word, not the
 shifted one

---
 inc/utils/splitmix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/splitmix.h b/inc/utils/splitmix.h
index abca409..dad3497 100644
--- a/inc/utils/splitmix.h
+++ b/inc/utils/splitmix.h
@@ -36,8 +36,8 @@ splitmix64(uint64_t *x)
     *x += 0x9E3779B97F4A7C15;
 
     uint64_t z = *x;
-    z = (z ^ (z >> 30) * 0xBF58476D1CE4E5B9);
-    z = (z ^ (z >> 27) * 0x94D049BB133111EB);
+    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9;
+    z = (z ^ (z >> 27)) * 0x94D049BB133111EB;
 
     return z ^ (z >> 31);
 }
-- 
2.43.0


From 52333be68252c86094c628f7a74790db432ea188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 110/182] fix: xorshift: a seed must never produce the all-zero
 state

---
 src/prng/xorshift.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/prng/xorshift.c b/src/prng/xorshift.c
index 96fc13e..240bda8 100644
--- a/src/prng/xorshift.c
+++ b/src/prng/xorshift.c
@@ -28,7 +28,12 @@
 void
 xs64star_init(xs64star* s, uint64_t seed)
 {
-    s->v = seed ? splitmix64(&seed) : makeseed();
+    int given = seed != 0;
+
+    /* An all-zero state yields nothing but zeroes. */
+    do {
+        s->v = given ? splitmix64(&seed) : makeseed();
+    } while (!s->v);
 }
 
 
-- 
2.43.0


From 02a6a311182d637ea4d7d631691b1da36818bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 111/182] fix: arc4random: a large request must not underflow
 the reseed budget

---
 src/arc4random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 7a17ae2..0fa488e 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -143,7 +143,8 @@ _rs_stir_if_needed(rand_state* st, size_t len)
     if (st->rs_count <= len)
         _rs_stir(st);
 
-    st->rs_count -= len;
+    /* a request larger than the budget uses it all up */
+    st->rs_count = st->rs_count <= len ? 0 : st->rs_count - len;
 }
 
 // consume 'n' random btyes from the entropy buffer. Return total
-- 
2.43.0


From f646e2177fba0b60162ed37aa5a665770a7c29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 112/182] fix: freadline: keep room for the terminating zero

A line of exactly n characters wrote one byte beyond the buffer.
---
 src/freadline.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index bd74ac3..3a6aa03 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -30,7 +30,8 @@
 int
 freadline(FILE* fp, unsigned char * str, int n)
 {
-    unsigned char * end = str + n;
+    unsigned char * start = str;
+    unsigned char * end   = str + n - 1;    // room for the trailing \0
 
     while (1)
     {
@@ -59,6 +60,6 @@ freadline(FILE* fp, unsigned char * str, int n)
     }
 
     *str = 0;
-    return str - (end - n);
+    return str - start;
 }
 
-- 
2.43.0


From 98da06da59bee99a4a94ecf970e11f6db0a26fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 113/182] fix: freadline: return the last line without newline
 and report read errors

Both used to be indistinguishable from the end of the file.
---
 src/freadline.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/freadline.c b/src/freadline.c
index 3a6aa03..eb158ec 100644
--- a/src/freadline.c
+++ b/src/freadline.c
@@ -36,11 +36,16 @@ freadline(FILE* fp, unsigned char * str, int n)
     while (1)
     {
         int c = fgetc(fp);
-        if (c == EOF)
-            return 0;
+        if (c == EOF) {
+            if (ferror(fp))
+                return -errno;
+
+            // a last line without line break
+            if (str > start)
+                break;
 
-        if (ferror(fp))
-            return -errno;
+            return 0;
+        }
 
         if (c == '\r')
         {
-- 
2.43.0


From cbc990a73b210f31a51537d1ab07d7ebcf0aad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 114/182] fix: progbar: draw a bar for every terminal width

A terminal of unknown (0) or 1 column divided by zero, and widths that do
not divide 100 aborted in an assertion when the bar was nearly full.
---
 src/progbar.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/progbar.c b/src/progbar.c
index 9545c45..337da0f 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -39,8 +39,8 @@
 static void
 update_total_progress(char *buf, size_t bsize, progress *p)
 {
-    char fill[p->width*2];
-    char blank[p->width*2];
+    char fill[p->width + 1];
+    char blank[p->width + 1];
     char cur[32];
     char tot[32];
     char pref[64];
@@ -49,11 +49,11 @@ update_total_progress(char *buf, size_t bsize, progress *p)
 
     if (pct > 100) pct = 100;
 
-    uint64_t done = pct / p->step;
+    uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
 
-    assert(done < (sizeof fill)-1);
-    assert(rem  < (sizeof blank)-1);
+    assert(done < sizeof fill);
+    assert(rem  < sizeof blank);
 
     memset(fill, 'o', done); fill[done] = 0;
     memset(blank, '.', rem); blank[rem] = 0;
@@ -106,13 +106,16 @@ progressbar_init(progress *p, int fd, uint64_t total, uint32_t flags)
     struct winsize w;
 
     // try to get the actual width, else punt.
-    if (ioctl(fd, TIOCGWINSZ, &w) != 0) w.ws_col = 80;
+    if (ioctl(fd, TIOCGWINSZ, &w) != 0)   w.ws_col = 80;
 
     p->total = total;
     p->fd    = fd;
     p->cur   = 0;
     p->flags = flags;
+    if (w.ws_col == 0)                    w.ws_col = 80;    // unknown
+
     p->width = w.ws_col > 50 ? 50 : w.ws_col / 2;
+    if (p->width == 0) p->width = 1;
     p->step  = 100 / p->width;
 
     return 0;
-- 
2.43.0


From 349b23796019b926862fd3aed7e7b200ba7998ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 115/182] fix: progbar: percentage of very large totals must
 not wrap around

---
 src/progbar.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/progbar.c b/src/progbar.c
index 337da0f..34ca438 100644
--- a/src/progbar.c
+++ b/src/progbar.c
@@ -45,9 +45,17 @@ update_total_progress(char *buf, size_t bsize, progress *p)
     char tot[32];
     char pref[64];
 
-    uint64_t pct = (100 * p->cur) / p->total;
+    uint64_t pct;
 
-    if (pct > 100) pct = 100;
+    if (p->cur >= p->total) {
+        pct = 100;
+    } else if (p->cur <= UINT64_MAX / 100) {
+        pct = (100 * p->cur) / p->total;
+    } else {
+        // 100 * cur doesn't fit
+        pct = p->cur / (p->total / 100);
+        if (pct > 99) pct = 99;
+    }
 
     uint64_t done = (pct * p->width) / 100;
     uint64_t rem  = p->width - done;
-- 
2.43.0


From 479fb042b87705d59d4891b6facad93457354736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 116/182] fix: readpass: an empty password must not look before
 the buffer

---
 src/readpass.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index f50aeaa..91898d5 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -116,10 +116,8 @@ portable_readpass(char ** passwd, const char * prompt,
 
 ok:
     n = strlen(passbuf);
-    if (n > 0) {
-        if (passbuf[n-1] == '\n')  passbuf[--n] = 0;
-        if (passbuf[n-1] == '\r')  passbuf[--n] = 0;
-    }
+    if (n > 0 && passbuf[n-1] == '\n')  passbuf[--n] = 0;
+    if (n > 0 && passbuf[n-1] == '\r')  passbuf[--n] = 0;
 
 
     if ((*passwd = strdup(passbuf)) == NULL) {
-- 
2.43.0


From d5ebd78ae83cf1c034ff05b89a0427294591df7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 117/182] fix: readpass: end of input is a failure

fgets() doesn't set errno at the end of the file: the function could return
0 (success) without ever setting the password.
---
 src/readpass.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/readpass.c b/src/readpass.c
index 91898d5..964f133 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -92,6 +92,7 @@ portable_readpass(char ** passwd, const char * prompt,
         if (usingtty) fprintf(stderr, "%s: ", prompt);
 
         if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
+            if (feof(readfrom)) errno = ENODATA;
             r = -errno;
             warnp("Cannot read password");
             goto err2;
@@ -101,6 +102,7 @@ portable_readpass(char ** passwd, const char * prompt,
 
         if (usingtty) fprintf(stderr, "%s: ", confirmprompt);
         if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
+            if (feof(readfrom)) errno = ENODATA;
             r = -errno;
             warnp("Cannot read password");
             goto err2;
-- 
2.43.0


From 2e332d12b71acb2b97e024c239a2a0662a589b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 118/182] fix: error/warn/die: empty and truncated messages

An empty message read (and could write) one byte before the buffer, and
a truncated one was printed without its newline by warn() and die().
---
 src/error.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/error.c b/src/error.c
index c0d7174..5c65d77 100644
--- a/src/error.c
+++ b/src/error.c
@@ -87,15 +87,18 @@ error(int status, int err, const char *fmt, ...)
     va_start(ap, fmt);
 
     int n = vsnprintf(buf, max, fmt, ap);
-    if (n >= max || n < 0) {
-        // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+    if (n < 0) {
+        // bad format; nothing usable in buf
+        buf[0] = 0;
+        n = 0;
+    } else if (n >= max) {
+        // output truncated; vsnprintf() stored max-1 chars and a \0
+        n = max - 1;
     }
     va_end(ap);
 
     // erase the trailing \n; we'll add it back later.
-    if (buf[n-1] == '\n') buf[--n] = 0;
+    if (n > 0 && buf[n-1] == '\n') buf[--n] = 0;
 
     fputs(buf, stderr);
     if (err > 0) fprintf(stderr, ": %s [%d]", errstr, err);
@@ -114,13 +117,16 @@ vprint(FILE *fp, const char *fmt, va_list ap)
     size_t max = (sizeof buf) - 2; // for \n and \0
 
     int n = vsnprintf(buf, max, fmt, ap);
-    if (n < 0 || ((size_t)n) >= max) {
-        // output truncated. Ensure we have a trailing zero!
-        buf[max] = 0;
-        n = max;
+    if (n < 0) {
+        // bad format; nothing usable in buf
+        buf[0] = 0;
+        n = 0;
+    } else if (((size_t)n) >= max) {
+        // output truncated; vsnprintf() stored max-1 chars and a \0
+        n = max - 1;
     }
 
-    if (buf[n-1] != '\n') {
+    if (n == 0 || buf[n-1] != '\n') {
         buf[n]   = '\n';
         buf[n+1] = '\0';
     }
-- 
2.43.0


From 71f00e573b6673d82a8b3e553a8ac4dbf355b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 119/182] fix: strcasecmp: the sign of the result was inverted

---
 src/strcasecmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strcasecmp.c b/src/strcasecmp.c
index 805a3b8..c8fd7ad 100644
--- a/src/strcasecmp.c
+++ b/src/strcasecmp.c
@@ -66,7 +66,7 @@ strcasecmp(const char *str1, const char *str2)
         if ( !c )
             return 0;
     }
-    return map[*r] - map[*l];
+    return map[*l] - map[*r];
 }
 
 
-- 
2.43.0


From 5ccb183dbfbf08df2f5cb8a3b2bfdb629a025036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 120/182] fix: strncasecmp: bytes above 127 indexed before the
 map

---
 src/strcasecmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strcasecmp.c b/src/strcasecmp.c
index c8fd7ad..e637bbc 100644
--- a/src/strcasecmp.c
+++ b/src/strcasecmp.c
@@ -92,8 +92,8 @@ strncasecmp(const char *str1, const char *str2, size_t length)
 
     for (; length > 0;length--, str1++, str2++)
     {
-        l = map[c1 = *str1];
-        r = map[c2 = *str2];
+        l = map[c1 = (unsigned char)*str1];
+        r = map[c2 = (unsigned char)*str2];
 
         if ( !(c1 && c2) )
             goto _done;
-- 
2.43.0


From 52aecaedecaedbc0635937ac1b44eb915b6141ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 121/182] fix: cdb_find: corrupt files must not cause reads
 outside the mapping

Offsets were checked without the length of what is read there, the sums
wrapped around at 32 bits, and some corruption aborted the program.
---
 src/cdb_read.c   | 40 +++++++++++++++++-----------------------
 src/cdb_reader.h |  1 +
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index efada4e..e820ab1 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -24,7 +24,6 @@
 #include <stdint.h>
 #include <inttypes.h>
 #include <errno.h>
-#include <assert.h>
 #include <string.h>
 #include <stdlib.h>
 #include <sys/types.h>
@@ -34,15 +33,6 @@
 #include "cdb_reader.h"
 
 #define _u32(x)     ((uint32_t)(x))
-#define pU32(x)     ((uint32_t*)(x))
-
-#ifdef __little_endian
-
-#define __read32(d, off) ({ \
-        assert(off < (d)->size); \
-        (*pU32((d)->mmap+off));  \
-        })
-#else
 
 static inline uint32_t
 dec_LE_u32(const uint8_t * p) {
@@ -52,12 +42,12 @@ dec_LE_u32(const uint8_t * p) {
            | (_u32(p[3]) << 24);
 }
 
-#define __read32(d, off) ({ \
-        assert(off < (d)->size); \
-        dec_LE_u32((d)->mmap+off);     \
-        })
-
-#endif /* __little_endian */
+// Return true if there are 'n' bytes at offset 'off'
+static inline int
+cdb_has(const CDB* db, uint64_t off, uint64_t n)
+{
+    return off <= db->size && n <= db->size - off;
+}
 
 extern uint64_t fasthash64(const void*, size_t, uint64_t);
 
@@ -142,22 +132,26 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
     uint32_t slot  = start;
 
      do {
-        uint32_t slotoff  = ii->off + (8 * slot);
-        uint32_t slothash = __read32(db, slotoff);
-        uint32_t off      = __read32(db, slotoff+4);
+        uint64_t slotoff  = ii->off + (8 * (uint64_t)slot);
+        if (!cdb_has(db, slotoff, 8)) return -EINVAL;
+
+        uint32_t slothash = dec_LE_u32(db->mmap+slotoff);
+        uint64_t off      = dec_LE_u32(db->mmap+slotoff+4);
 
         if (slothash == 0) break;
 
         // Now, check to see if the key matches
         if (slothash == h) {
-            uint32_t dklen = __read32(db, off);
-            uint32_t dvlen = __read32(db, off+4);
+            if (!cdb_has(db, off, 8)) return -EINVAL;
+
+            uint64_t dklen = dec_LE_u32(db->mmap+off);
+            uint64_t dvlen = dec_LE_u32(db->mmap+off+4);
 
             if (dklen != klen) return -ENOENT;
 
             // Sanity check
-            assert((off+8+dklen+dvlen) <= db->size);
-        
+            if (!cdb_has(db, off+8, dklen+dvlen)) return -EINVAL;
+
             // key + value is at off+8
             if (0 != memcmp(key, db->mmap+off+8, klen)) return -ENOENT;
 
diff --git a/src/cdb_reader.h b/src/cdb_reader.h
index f61c718..03cc91c 100644
--- a/src/cdb_reader.h
+++ b/src/cdb_reader.h
@@ -85,6 +85,7 @@ extern int cdb_read_init(CDB* db, const char* fname);
  * Returns:
  *      >= 0     key is found; # of bytes of value
  *      -ENOENT  key is not found
+ *      -EINVAL  the DB is corrupt
  */
 extern ssize_t cdb_find(CDB* db, void** p_ret, const void* key, size_t klen);
 
-- 
2.43.0


From 5fee0b77540a27c8cd86ddc472ad3c8a708d9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 122/182] fix: cdb_find: keep looking after a different key
 with the same hash

---
 src/cdb_read.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index e820ab1..bc5ee4f 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -147,17 +147,16 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
             uint64_t dklen = dec_LE_u32(db->mmap+off);
             uint64_t dvlen = dec_LE_u32(db->mmap+off+4);
 
-            if (dklen != klen) return -ENOENT;
-
             // Sanity check
             if (!cdb_has(db, off+8, dklen+dvlen)) return -EINVAL;
 
-            // key + value is at off+8
-            if (0 != memcmp(key, db->mmap+off+8, klen)) return -ENOENT;
-
-            // Value is at off+8+dklen
-            *p_ret = db->mmap + off + 8 + dklen;
-            return dvlen;
+            // key + value is at off+8; another key can have the
+            // same hash.
+            if (dklen == klen && 0 == memcmp(key, db->mmap+off+8, klen)) {
+                // Value is at off+8+dklen
+                *p_ret = db->mmap + off + 8 + dklen;
+                return dvlen;
+            }
         }
 
         slot = (slot + 1) % ii->len;
-- 
2.43.0


From e1e6ea72e0b19a37c3ae2abad9c8e46dc64ada92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 123/182] fix: zbuf: a negative result of the output callback
 is an error

It was used as a length: data was moved from and to outside the buffer.
---
 src/zbuf_c.c   | 2 +-
 src/zbuf_unc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 003bbcf..3e11522 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -85,7 +85,7 @@ z_buf_compress (z_buf_context * zc, void * data, int len)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 3364459..a2e4447 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -129,7 +129,7 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
              * If the callback-func is unable to consume _any_
              * processed data, we can't proceed any further!
              */
-            if ( used == 0 )
+            if ( used <= 0 )
                 return Z_MEM_ERROR;
 
             zs->next_out  = zc->outbuf;
-- 
2.43.0


From e3d3f932629e6cad42bdaf3c3eae576f7bbddcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 124/182] fix: zbuf: the end functions release the zlib state
 on every path

Errors leaked it; z_buf_uncompress_end() moreover lost the last output when
input followed the compressed stream, because of a condition always true.
---
 src/zbuf_c.c   | 13 +++++++++----
 src/zbuf_unc.c | 11 +++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/zbuf_c.c b/src/zbuf_c.c
index 3e11522..2a6cf3a 100644
--- a/src/zbuf_c.c
+++ b/src/zbuf_c.c
@@ -135,7 +135,7 @@ z_buf_compress_end (z_buf_context * zc)
     {
         err = z_buf_compress (zc, 0, 0);
         if ( err != Z_OK )
-            return err;
+            goto end;
     }
 
 
@@ -165,7 +165,10 @@ z_buf_compress_end (z_buf_context * zc)
                 int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
                 if ( used <= 0 )
-                    return Z_MEM_ERROR;
+                {
+                    err = Z_MEM_ERROR;
+                    goto end;
+                }
 
                 buf  += used;
                 rem  -= used;
@@ -193,14 +196,16 @@ z_buf_compress_end (z_buf_context * zc)
         done = zs->avail_out != 0 || err == Z_STREAM_END;
 
         if ( err != Z_OK && err != Z_STREAM_END )
-            return err;
+            goto end;
 
     } while (1);
 
+    err = Z_OK;
 
+end:
     deflateEnd (zs);
 
-    return 0;
+    return err;
 }
 
 /* EOF */
diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index a2e4447..4937797 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -80,11 +80,11 @@ z_buf_uncompress_end (z_buf_context * zc)
     if ( zs->avail_in > 0 )
     {
         err = do_uncompress (zs, zc);
-        if ( err != Z_STREAM_END || err != Z_OK )
-            return err;
+        if ( err == Z_STREAM_END )
+            err = Z_OK;
     }
 
-    if ( zs->avail_out < zc->outbuf_size )
+    if ( err == Z_OK && zs->avail_out < zc->outbuf_size )
     {
         /*
          * Flush remaining output.
@@ -97,7 +97,10 @@ z_buf_uncompress_end (z_buf_context * zc)
             int used  = (*zc->process_output) (zc->opaq, buf, rem);
 
             if ( used <= 0 )
-                return Z_MEM_ERROR;
+            {
+                err = Z_MEM_ERROR;
+                break;
+            }
 
             buf  += used;
             rem  -= used;
-- 
2.43.0


From 643cf2845d80abbd0e6166726bf771cf8666f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:41 +0000
Subject: [PATCH 125/182] fix: daemonize: don't leave stray descriptors of
 /dev/null open

---
 src/daemon.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index c7062ef..52a4bdb 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -60,6 +60,10 @@ daemonize(const char* pwd)
     dup2(fd1, 1);
     dup2(fd2, 2);
 
+    if (fd0 > 2) close(fd0);
+    if (fd1 > 2) close(fd1);
+    if (fd2 > 2) close(fd2);
+
     return 0;
 }
 
-- 
2.43.0


From 11cd9e3ac800ee3049f0c66a8dc3aa5fa56571a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:41 +0000
Subject: [PATCH 126/182] fix: daemonize: report a failing chdir() or
 redirection

---
 src/daemon.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 52a4bdb..aa7b870 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -49,16 +49,20 @@ daemonize(const char* pwd)
     if (!pwd)
         pwd = "/tmp";
 
-    chdir(pwd);
+    if (chdir(pwd) < 0)
+        return -geterrno();
+
     umask(022);
 
     int fd0 = open("/dev/null", O_RDONLY);
     int fd1 = open("/dev/null", O_WRONLY);
     int fd2 = open("/dev/null", O_WRONLY);
 
-    dup2(fd0, 0);
-    dup2(fd1, 1);
-    dup2(fd2, 2);
+    if (fd0 < 0 || fd1 < 0 || fd2 < 0)
+        return -geterrno();
+
+    if (dup2(fd0, 0) < 0 || dup2(fd1, 1) < 0 || dup2(fd2, 2) < 0)
+        return -geterrno();
 
     if (fd0 > 2) close(fd0);
     if (fd1 > 2) close(fd1);
-- 
2.43.0


From feea2c29d9115062dcf19709c3b28a27284c9408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:41 +0000
Subject: [PATCH 127/182] fix: daemonize: the intermediate process must not
 flush stdio again

Output pending at the call was written twice, exit handlers ran twice.
---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index aa7b870..ff7d69c 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -43,7 +43,7 @@ daemonize(const char* pwd)
     if (pid < 0)
         return -geterrno();
     else if (pid > 0)
-        exit(0);
+        _exit(0);   // the parent has flushed stdio and run the exit handlers
 
     // this is now the grandkid of the original process
     if (!pwd)
-- 
2.43.0


From f596c43559041f0b53a5dd3710e3071cff0070d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:05 +0000
Subject: [PATCH 128/182] fix: daemonize: survive the SIGHUP caused by the exit
 of a session leader

Started by the leader of a session with a controlling terminal, the child was
killed when its parent exited before the child had called setsid().
---
 src/daemon.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index ff7d69c..c33f3c7 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -21,6 +21,7 @@
 #include "utils/daemon.h"
 
 #include <fcntl.h>
+#include <signal.h>
 #include <unistd.h>
 #include <stdlib.h>
 #include <sys/stat.h>
@@ -31,14 +32,25 @@
 int
 daemonize(const char* pwd)
 {
+    struct sigaction ign = { .sa_handler = SIG_IGN },
+                     old;
+
+    // If the parent leads a session with a terminal, its exit sends
+    // SIGHUP to us until we are in a session of our own.
+    sigaction(SIGHUP, &ign, &old);
+
     pid_t pid = fork();
 
-    if (pid < 0)
-        return -geterrno();
-    else if (pid > 0)
+    if (pid < 0) {
+        int r = -geterrno();
+        sigaction(SIGHUP, &old, 0);
+        return r;
+    } else if (pid > 0)
         exit(0);      // parent
 
     setsid();
+    sigaction(SIGHUP, &old, 0);
+
     pid = fork();
     if (pid < 0)
         return -geterrno();
-- 
2.43.0


From 5bc3503ad147b8c0ea2ff28c8343457c70374ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 129/182] fix: sockaddr_to_string: link addresses must respect
 the buffer size

---
 src/c_resolve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index a406304..6956e2c 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -139,6 +139,11 @@ sockaddr_to_string(char * buf, size_t bufsiz, const struct sockaddr * sa)
                          * me = m + 6;
             char *p = buf;
 
+            if (bufsiz < 6 * 3) {
+                errno = ENOSPC;     // like inet_ntop() below
+                return 0;
+            }
+
             //hexdump("macdump", sa, sizeof(struct sockaddr_storage));
 
             for (; m < me; ++m) {
-- 
2.43.0


From 14a941cf5be4c1efaa032c196ee6d2e5ba55485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 130/182] fix: get_all_if_address: return -errno and don't leak
 when getifaddrs() fails

---
 src/c_resolve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 6956e2c..363af25 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -203,8 +203,11 @@ get_all_if_address(if_address_vect* addrv, unsigned int mask)
         mask = F_INET|F_INET6;
 
     r = getifaddrs(&ifa);
-    if (r < 0)
+    if (r < 0) {
+        r = -errno;
+        VECT_FINI(&av);
         return r;
+    }
 
     for (ifp = ifa; ifp; ifp = ifp->ifa_next) {
         iftmp t;
-- 
2.43.0


From 699a29f658b011eb7da6f4f3b1669cd8db9da3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 131/182] fix: resolve_host_or_ifname: an unknown host is an
 error

getaddrinfo() sets errno for EAI_SYSTEM only; for other failures the result was
-errno of some earlier call, or 0 (success) without any address.
---
 src/c_resolve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index 363af25..cbb3508 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -442,8 +442,10 @@ resolve_host_or_ifname(const char* name, if_addr_vect* addrv, unsigned int mask)
     hints.ai_socktype = SOCK_STREAM;
 
     n = getaddrinfo(name, 0, &hints, &ai);
-    if (n != 0)
+    if (n == EAI_SYSTEM)
         return -errno;
+    if (n != 0)
+        return n == EAI_MEMORY ? -ENOMEM : -ENOENT;
 
     for (ptr = ai; ptr; ptr = ptr->ai_next) {
         struct sockaddr* s = ptr->ai_addr;
-- 
2.43.0


From b133cd4101a63d16aba142ec6245a59544419e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 132/182] fix: resolve: a host name beginning with an interface
 name is no interface

Names longer than IFNAMSIZ were truncated before asking for the interface.
---
 src/c_resolve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c_resolve.c b/src/c_resolve.c
index cbb3508..fa808fe 100644
--- a/src/c_resolve.c
+++ b/src/c_resolve.c
@@ -113,8 +113,9 @@ is_ifname(const char* name)
         struct ifreq ifr;
         memset(&ifr, 0, sizeof ifr);
 
-        strcopy(ifr.ifr_name, IFNAMSIZ, name);
-        if (ioctl(fd, SIOCGIFMTU, &ifr) == 0)
+        // a longer name is not that of an interface
+        if (strcopy(ifr.ifr_name, IFNAMSIZ, name) >= 0 &&
+            ioctl(fd, SIOCGIFMTU, &ifr) == 0)
             r = 1;
 
         close(fd);
-- 
2.43.0


From 2672df7124a12917d47327a117cd2a24e15f3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 133/182] fix: _Hour() is 60 minutes, not 24

---
 inc/utils/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index c0bf241..43a90ed 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -116,7 +116,7 @@ typedef uint64_t duration_t;
 #define __Duration       ((duration_t)1000000000)
 #define __dur(a)         ((duration_t)(a))
 
-#define _Hour(n)         (_Minute(n) * 24)
+#define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
 #define _Millisecond(n)  (_Second(n) / 1000)
-- 
2.43.0


From 15caf4d1e999e15f4099636fd46688f4a314086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 134/182] fix: _Millisecond() and _Microsecond() overflowed for
 durations that fit

---
 inc/utils/utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/utils/utils.h b/inc/utils/utils.h
index 43a90ed..6ca84d0 100644
--- a/inc/utils/utils.h
+++ b/inc/utils/utils.h
@@ -119,8 +119,8 @@ typedef uint64_t duration_t;
 #define _Hour(n)         (_Minute(n) * 60)
 #define _Minute(n)       (_Second(n) * 60)
 #define _Second(n)       (__dur(n) * __Duration)
-#define _Millisecond(n)  (_Second(n) / 1000)
-#define _Microsecond(n)  (_Millisecond(n) / 1000)
+#define _Millisecond(n)  (__dur(n) * (__Duration / 1000))
+#define _Microsecond(n)  (__dur(n) * (__Duration / 1000000))
 #define _Nanosecond(n)   __dur(n)
 
 /*
-- 
2.43.0


From 6f386fa52e01832327f64252732db5e2a65e2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 135/182] fix: _SEC() and _MSEC() overflowed int arithmetic

---
 inc/fast/tmutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/fast/tmutils.h b/inc/fast/tmutils.h
index 535afbc..363485b 100644
--- a/inc/fast/tmutils.h
+++ b/inc/fast/tmutils.h
@@ -42,8 +42,8 @@ now(void)
 }
 
 // Express 'n' seconds in our canonical format
-#define _SEC(n)     ((uint64_t)((n) * 1000000))
-#define _MSEC(n)    ((uint64_t)((n) * 1000))
+#define _SEC(n)     ((uint64_t)((n) * 1000000ULL))
+#define _MSEC(n)    ((uint64_t)((n) * 1000ULL))
 #define _USEC(n)    ((uint64_t)(n))
 
 
-- 
2.43.0


From 09cadad98e5d21383f94b75ab0db575222cd321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 136/182] fix: mkgetopt: integer options set their present flag
 and are range-checked exactly

---
 tools/mkgetopt.py | 63 ++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 9d2afce..dee7761 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -82,7 +82,7 @@ class opt_int(opt_type):
             {
                 opt->%(varname)s = (%(ctype)s)grok_int(optarg, "%(optname)s",
                                     &opt->%(varname_p)s, &errs,
-                                    %(limit)s, 1);
+                                    %(limit)s, %(is_signed)d);
             }
 """
 
@@ -118,6 +118,7 @@ class opt_int(opt_type):
             'varname_p': opt.varname_p,
             'ctype':    self.ctype,
             'limit':    limit,
+            'is_signed': not self.ctype.startswith('unsigned'),
             'optname':  optname,
             'default':  defval,
         }
@@ -886,7 +887,7 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
         if self.needs_int:
-            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int has_limit);\n"
+            decls += "static unsigned long grok_int(const char * str, const char * option, char * present, int * err, unsigned long limit, int is_signed);\n"
             template += Grok_int_template
 
         if self.needs_size:
@@ -1508,52 +1509,48 @@ Grok_int_template = """
  * @param present Output value -- true if there are no errors, false otherwise
  * @param err     Output value -- incremented on errors
  * @param limit   The maximum permissible limit for this integer
- * @param has_limit   Set if the corresponding option had a size limitation
- *                (e.g., a short integer etc.)
+ * @param is_signed   Set if the corresponding option holds negative
+ *                integers down to -limit-1
  * @return Converted string value.
  */
 static unsigned long
 grok_int(const char * str, const char * option, char * present, int * err,
-            unsigned long limit, int has_limit)
+            unsigned long limit, int is_signed)
 {
     char * xxend = 0;
-    long lim_pos = (long) limit,
-         lim_neg = -lim_pos - 1;
+    unsigned long val = 0,
+                  max = limit;
     int isneg = 0;
-    union
-    {
-        long l;
-        unsigned long ul;
-    } un;
-
-    if (*str == '-') {
-        ++str;
-        isneg = 1;
+
+    while (isspace((unsigned char)*str)) ++str;
+
+    if (*str == '-' || *str == '+')
+        isneg = *str++ == '-';
+
+    if (!isdigit((unsigned char)*str)) {
+        *err += 1;
+        error(0, 0, "Invalid characters '%%s' for integer value in option '%%s'", str, option);
+        return 0;
     }
 
-    un.ul = strtoul(str, &xxend, 0);
+    errno = 0;
+    val   = strtoul(str, &xxend, 0);
     if (xxend && *xxend)
         error(0, 0, "Ignoring trailing characters '%%s' for option '%%s'", xxend, option);
 
-    if (isneg) {
-        un.l *= -1;
-    }
+    if (isneg)
+        max = is_signed ? limit + 1 : 0;
 
-    if (has_limit) {
-        if (isneg && un.l < lim_neg) {
-            *err += 1;
-            error(0, 0, "Integer value '-%%s' underflow for option '%%s' (min %%ld)",
-                    str, option, lim_neg);
-        } else if (!isneg && un.ul > (unsigned long)lim_pos) {
-            *err += 1;
-            error(0, 0, "Integer value '%%s' overflow for option '%%s' (max %%lu)",
-                    str, option, lim_pos);
-        }
+    if (errno == ERANGE || val > max) {
+        *err += 1;
+        error(0, 0, "Integer value '%%s%%s' %%s for option '%%s' (limit %%s%%lu)",
+                isneg ? "-" : "", str, isneg ? "underflow" : "overflow",
+                option, isneg ? "-" : "", max);
+        return 0;
     }
-    else
-        *present = 1;
 
-    return un.ul;
+    *present = 1;
+    return isneg ? 0 - val : val;
 }
 """
 
-- 
2.43.0


From 2a0b57ea9998ac8cfe955aa1368ef80ad2c49722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 137/182] fix: mkgetopt: sizes that overflow or have no digits
 are errors

---
 tools/mkgetopt.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index dee7761..dc0ddd9 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1594,7 +1594,16 @@ grok_size(const char * str, const char * option, char * present, int * err)
 #define _TB         (_GB * 1024)
 #define _PB         (_TB * 1024)
 
+    while (isspace((unsigned char)*str)) ++str;
+
+    if (!isdigit((unsigned char)*str)) {
+        *err += 1;
+        error(0, 0, "Invalid characters '%%s' for size value in option '%%s'", str, option);
+        return 0;
+    }
+
     *present = 1;
+    errno  = 0;
     xxbase = strtoull(str, &xxend, 0);
 
     if (xxend && *xxend) {
@@ -1624,15 +1633,15 @@ grok_size(const char * str, const char * option, char * present, int * err)
                 break;
         }
 
-        xxval = xxbase * xxmult;
-        if ((xxbase == UL_MAX__ && errno == ERANGE) || (xxval < xxbase)) {
-            errs++;
-            error(0, 0, "Size value overflow for option '%%s' (base %%lu, multiplier %%lu)",
-                    option, xxbase, xxmult);
-            *present = 0;
-        }
-    } else
-        xxval = xxbase;
+    }
+
+    xxval = xxbase * xxmult;
+    if (errno == ERANGE || xxbase > UL_MAX__ / xxmult) {
+        errs++;
+        error(0, 0, "Size value overflow for option '%%s' (base %%llu, multiplier %%llu)",
+                option, (unsigned long long)xxbase, (unsigned long long)xxmult);
+        *present = 0;
+    }
 
     *err += errs;
     return xxval;
-- 
2.43.0


From 56f381a3435d27fb20eae9268890d27764aafb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 138/182] fix: mkgetopt: %prefix overrides the command line and
 names the callbacks' struct

---
 tools/mkgetopt.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index dc0ddd9..9ee0bc3 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -751,6 +751,7 @@ class output_state:
     def __init__(self, **kwargs):
         self.__dict__.update(kwargs)
         self.sym_prefix     = "opt"
+        self.has_prefix     = False     # set by the %prefix directive
         self.typename       = self.sym_prefix + "_option"
         self.structname     = 'struct %s' % self.typename
         self.nopermute      = False
@@ -913,6 +914,14 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
 
+        # a %prefix directive overrides the command line
+        prefix = self.sym_prefix
+        if not self.has_prefix and onames.prefix:
+            prefix = onames.prefix
+
+        self.typename   = prefix + "_option"
+        self.structname = 'struct %s' % self.typename
+
         defaults = ""
         casestmt = ""
         longopt  = ""
@@ -951,9 +960,6 @@ extern const char* %s(void);\n\n""" % self.description_fp
         # Fixup help string with program description and such.
         self.format_help()
 
-        prefix   = onames.prefix or self.sym_prefix
-        typename = "%s_option" % prefix
-
         d = {
             'typestr':   typestmt,
             'typestr_p': typestmt_p,
@@ -976,8 +982,8 @@ extern const char* %s(void);\n\n""" % self.description_fp
             'usage_decl':  self.usage_decl,
 
             'prefix':      prefix,
-            'structname': 'struct %s' % typename,
-            'typename':    typename,
+            'structname':  self.structname,
+            'typename':    self.typename,
         }
         
 
@@ -1037,6 +1043,7 @@ class line_parser:
 
     def dir_prefix(self, args):
         self.op.sym_prefix = args
+        self.op.has_prefix = True
 
     def dir_nopermute(self, args):
         self.op.nopermute = True
-- 
2.43.0


From f4fd6d10ab2754a9a914c4e9405ce82e5eb0cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 139/182] fix: mkgetopt: a specification without %description
 is no crash

---
 tools/mkgetopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 9ee0bc3..ce5dd5e 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -861,8 +861,8 @@ extern const char* %s(void);\n\n""" % self.description_fp
             self.usage     = '""'
             self.usage_decl = ""
 
-        brief = self.description[0]
-        if not brief.endswith('.'):
+        brief = self.description[0] if self.description else ""
+        if brief and not brief.endswith('.'):
             brief += '.'
 
         desc = ' '.join(self.description[1:])
-- 
2.43.0


From 5a5f3d700fd83cee0b843ea590886dd0c88c8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 140/182] fix: mkgetopt: place holders of type string, size and
 float without default

---
 tools/mkgetopt.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index ce5dd5e..480e651 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -315,7 +315,7 @@ class opt_float(opt_type):
             optname = opt.short_opt
 
         try:
-            dblval = float(opt.default)
+            dblval = float(opt.default or 0)
         except:
             raise Invalid_Default("Invalid chars in floating point value '%s'" % opt.default)
 
@@ -324,7 +324,7 @@ class opt_float(opt_type):
             'varname_p': opt.varname_p,
             'ctype':     self.ctype,
             'optname':   optname,
-            'default':   opt.default,
+            'default':   opt.default or '0',
         }
 
         case_str   = self.template % d
@@ -433,6 +433,9 @@ def groksize(str):
     Peta bytes.
     """
 
+    if not str:
+        return 0
+
     x    = str[-1]
     mult = 1
     if x.isalpha():
@@ -597,13 +600,11 @@ class option:
         if ty is None:
             raise Invalid_Option("Option '%s' has invalid type %s" % (optname, self.type))
 
+        # strings need dupstr() for their default
+        self.is_string = ty.is_string()
         if not self.placeholder:
-            if ty.is_int():
-                self.is_int = True
-            elif ty.is_size():
-                self.is_size = True
-            elif ty.is_string():
-                self.is_string = True
+            self.is_int  = ty.is_int()
+            self.is_size = ty.is_size()
 
         if ty.needsarg:
             self.optarg = optarg
-- 
2.43.0


From b33304520b921e7a785769da32c5ca430d753db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 141/182] fix: mkgetopt: specifications without long options
 compile

---
 tools/mkgetopt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 480e651..2be2476 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -949,9 +949,10 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
 
 
-        # Erase leading ',' of long-options. This is the first option
-        i = longopt.find(',')
-        longopt = longopt[:i] + ' ' + longopt[i+1:]
+        # The terminating entry supplies the last of the separators
+        if longopt:
+            i = longopt.find(',')
+            longopt = longopt[:i] + ' ' + longopt[i+1:] + '    ,'
 
         # If no permute is given, tell getopt_long() by prefixing with
         # '+'
@@ -1394,7 +1395,7 @@ C_template = """/*
 static const struct option Long_options[] =
 {
 %(longopt)s
-    , {0, 0, 0, 0}
+      {0, 0, 0, 0}
 };
 
 static const char Short_options[] = "%(shortopt)s";
-- 
2.43.0


From 1591df8970e0fd109a16a79c0492c2ac7f2db2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 142/182] fix: mkgetopt: single quotes at the start, quotes
 inside a field, unterminated quotes

---
 tools/mkgetopt.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 2be2476..463a092 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -364,7 +364,7 @@ class opt_string(opt_type):
             'varname_p': opt.varname_p,
             'ctype':    self.ctype,
             'optname':  optname,
-            'default':   opt.default,
+            'default':   cquote(opt.default),
         }
 
         case_str = self.template % d
@@ -458,6 +458,11 @@ def groksize(str):
     return mult * v
 
 
+def cquote(s):
+    """Make 's' fit for use inside a C string literal"""
+    return re.sub(r'(?<!\\)((?:\\\\)*)"', r'\1\\"', s)
+
+
 def error(doex, fmt, *args):
     global Z
     sfmt = "%s: %s" % (Z, fmt)
@@ -695,7 +700,7 @@ class option:
         if self.default != '-' and self.type != 'callback':
             helps += " [%s]" % self.default
 
-        w = list(map(lambda x: x + '\\n"\n', tw.wrap(helps)))
+        w = list(map(lambda x: cquote(x) + '\\n"\n', tw.wrap(helps)))
         l = w[:1]
         for x in w[1:]:
             x = '" ' + x
@@ -868,8 +873,8 @@ extern const char* %s(void);\n\n""" % self.description_fp
 
         desc = ' '.join(self.description[1:])
         tw   = textwrap.TextWrapper(width=74)
-        w    = map(lambda x: '"' + x + '\\n"\n', tw.wrap(desc))
-        self.description = '"' + brief + '\\n\\n"\n' + ''.join(w)
+        w    = map(lambda x: '"' + cquote(x) + '\\n"\n', tw.wrap(desc))
+        self.description = '"' + cquote(brief) + '\\n\\n"\n' + ''.join(w)
 
 
     def generate(self, onames):
@@ -1099,6 +1104,9 @@ class line_parser:
             if self.state == self.FIN:
                 break
 
+        if self.state == self.INQUOTE:
+            raise Parse_Error("Unterminated quote %s" % self.quotechar)
+
         # cleanup any pending words
         if self.state == self.INWORD:
             self.words.append(self.word)
@@ -1109,7 +1117,7 @@ class line_parser:
         if c.isspace():
             return self.INSPACE
 
-        elif c == '"' or c == '"':
+        elif c == '"' or c == "'":
             self.quotechar = c
             return self.INQUOTE
         else:
-- 
2.43.0


From c0bbd10233cf295e4d279026048758d9e7c344c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 143/182] fix: mkgetopt: fail when the specification has errors

---
 tools/mkgetopt.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 463a092..469ee22 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -1176,7 +1176,8 @@ class parser:
         else:
             fd = open(self.fn, 'r')
 
-        ln = 0
+        ln   = 0
+        errs = 0
         for line in fd:
             ln += 1
             try:
@@ -1188,9 +1189,11 @@ class parser:
                 w   = p.parse()
             except Parse_Error as x:
                 error(0, "%s:%d: %s", self.fn, ln, x.what)
+                errs += 1
                 continue
             except Invalid_Directive as x:
                 error(0, "%s:%d: %s", self.fn, ln, x.what)
+                errs += 1
                 continue
 
             if len(w) > 0:
@@ -1199,11 +1202,16 @@ class parser:
                     self.op.add_option(opt)
                 except Invalid_Option as x:
                     error(0, "%s:%d: %s", self.fn, ln, x.what)
+                    errs += 1
                     continue
 
         if self.fn != '-':
             fd.close()
 
+        # don't generate a parser that lacks what couldn't be understood
+        if errs > 0:
+            sys.exit(1)
+
 
 def make_output_names(infile, opt):
     """Given an input file and command line options, generate all the
@@ -1265,7 +1273,10 @@ def main(argc, argv):
     p  = parser(infile, os)
     p.parse()
 
-    os.generate(o_names)
+    try:
+        os.generate(o_names)
+    except Invalid_Default as x:
+        error(1, "%s: %s", infile, x.what)
 
 
 
-- 
2.43.0


From 1a8b6c7d0f20c39c39f5108ad7b72916a564ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 144/182] fix: mkgetopt: an option line that lacks fields is an
 error, not a place holder

---
 tools/mkgetopt.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 469ee22..fda3b88 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -542,24 +542,21 @@ class option:
         self.type      = args[3]
 
         self.placeholder = False
-        if nargs < 6:
-            if self.type == 'callback':
-                self.help = args[4]
-                self.default = ""
-            else:
-                # Variable place holder
-                self.placeholder = True
-                self.help = ""
-                if nargs > 4:
-                    self.default = args[4]
-                else:
-                    self.default = ""
-
+        if self.long_opt == '-' and self.short_opt == '-':
+            # Variable place holder
+            self.placeholder = True
+            self.help    = ""
+            self.default = args[4] if nargs > 4 else ""
+        elif nargs == 5 and self.type.rstrip('?') in ('callback', 'callback_arg'):
+            self.default = ""
+            self.help    = args[4]
+        elif nargs < 6:
+            raise Invalid_Option("Too few parameters to option")
         else:
-            self.placeholder = False
             self.default   = args[4]
             self.help      = args[5]
 
+        optname = self.varname
 
 
         self.builtin   = builtin
@@ -578,9 +575,6 @@ class option:
             self.long_opt  = None
             self.short_opt = None
         else:
-            if self.long_opt == '-' and self.short_opt == '-':
-                raise Invalid_Option("Both short and long options are empty")
-
             optname = None
             if self.long_opt == '-':
                 self.long_opt = None
@@ -697,7 +691,7 @@ class option:
                                      subsequent_indent=' ' * (max_help_len-1))
 
         helps = self.help
-        if self.default != '-' and self.type != 'callback':
+        if self.default != '-' and self.type not in ('callback', 'callback_arg'):
             helps += " [%s]" % self.default
 
         w = list(map(lambda x: cquote(x) + '\\n"\n', tw.wrap(helps)))
-- 
2.43.0


From 34ebe56f5ebc06fb5888f96ef589095b95786e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 145/182] fix: mkgetopt: floats with trailing characters,
 optional float arguments

---
 tools/mkgetopt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index fda3b88..43f41a1 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -295,16 +295,16 @@ class opt_float(opt_type):
                         ++errs;
                         error(0, 0, "Invalid characters '%%s' for floating point value in option '%(optname)s'", xxptr);
                     }
-                    else if (*xxptr)
-                        error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                     else
                     {
+                        if (*xxptr)
+                            error(0, 0, "Ignoring trailing characters '%%s' for option '%(optname)s'", xxptr);
                         opt->%(varname)s = xxdbl;
                         opt->%(varname_p)s = 1;
                     }
                 }
             }
-            break;\n\n"""
+"""
 
     def __init__(self, **kwargs):
         opt_type.__init__(self, **kwargs)
@@ -328,6 +328,10 @@ class opt_float(opt_type):
         }
 
         case_str   = self.template % d
+        if opt.optarg:
+            case_str += self.optional_arg_template % d
+
+        case_str  += " " * 12 + "break;\n\n"
         type_str   = ' ' * 4 + "%(ctype)s %(varname)s;\n" % d
         type_str_p = ' ' * 4 + "char %(varname_p)s;\n" % d
         init_str   = ' ' * 4 + "opt->%(varname)s = %(default)s;\n" % d
-- 
2.43.0


From aeff1a6d3e6faf74e313398631738b81d27a8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 146/182] fix: mkgetopt: hexadecimal default sizes may end in a
 letter

---
 tools/mkgetopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 43f41a1..90cb555 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -442,7 +442,7 @@ def groksize(str):
 
     x    = str[-1]
     mult = 1
-    if x.isalpha():
+    if x.isalpha() and not re.match(r'0x[0-9a-fA-F]+$', str):
         str  = str[:-1]
         mult = _Multipliers.get(x, 0)
         if mult == 0:
-- 
2.43.0


From 753c31ed9d8fd8b47b7a112505be6a419fccec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 147/182] fix: mkgetopt: %nohelp and %noversion free the names
 of the builtin options

---
 tools/mkgetopt.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/mkgetopt.py b/tools/mkgetopt.py
index 90cb555..5ec88c7 100755
--- a/tools/mkgetopt.py
+++ b/tools/mkgetopt.py
@@ -836,17 +836,23 @@ class output_state:
         """Remove the --help option.
         This is called when the directive '%nohelp' is recognized.
         """
+        if not self.nohelp:
+            self.del_builtin('help')
         self.nohelp = True
-        del self.longmap['help']
-        del self.shortmap['h']
 
     def del_version(self):
         """Remove the --version option.
         This is called when the directive '%nohelp' is recognized.
         """
+        if not self.noversion:
+            self.del_builtin('version')
         self.noversion = True
-        del self.longmap['version']
-        del self.shortmap['V']
+
+    def del_builtin(self, nm):
+        """Forget the builtin option 'nm' and all its names"""
+        opt = self.longmap.pop(nm)
+        del self.shortmap[opt.short_opt]
+        del self.varmap[opt.varname]
 
 
     def format_help(self):
-- 
2.43.0


From 02252f19b830f6609ef6e95ffa6b2eb6843e66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 148/182] fix: strsplit returns NULL when memory is exhausted
 instead of crashing

---
 src/strsplit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index 0eda279..f74949c 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -91,7 +91,7 @@ _stra_resize(stra * a)
 
     newarr  = (unsigned char **) realloc(a->arr,
                                  newcap * sizeof (unsigned char *));
-    assert(newarr);
+    if (!newarr) return 0;
 
     memset(newarr + a->cap, 0, a->cap * sizeof (unsigned char *));
     a->cap = newcap;
@@ -168,6 +168,7 @@ strsplit(int *strv_size, char * str, const char * tok, int sqz_consec)
     stra a;
 
     _stra_init(&a);
+    if (!a.arr) return 0;
 
     if (!__split_common(&a, str, tok, sqz_consec)) {
         _stra_fini(&a);
-- 
2.43.0


From 957dbefafb958b7b386111dbd70b6baa8108af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 149/182] fix: xorfilter creation fails cleanly when memory is
 exhausted

---
 src/hashtable/xorfilter.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/hashtable/xorfilter.c b/src/hashtable/xorfilter.c
index 853509a..dfdddac 100644
--- a/src/hashtable/xorfilter.c
+++ b/src/hashtable/xorfilter.c
@@ -203,6 +203,7 @@ xorfilter_init(Xorfilter *x, uint64_t *keys, size_t n)
 
     VECT_INIT(&q, cap);
     VECT_INIT(&stack, n);
+    if (!H) goto fini;
 
     while (1) {
         memset(H, 0, cap * sizeof(H[0]));
@@ -275,6 +276,8 @@ Xorfilter *
 Xorfilter_new8(uint64_t *keys, size_t n)
 {
     Xorfilter *x  = NEWZ(Xorfilter);
+    if (!x) return 0;
+
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
@@ -284,6 +287,12 @@ Xorfilter_new8(uint64_t *keys, size_t n)
     }
 
     x->fp8 = NEWZA(uint8_t, (size_t)x->size * 3);
+    if (!x->fp8) {
+        VECT_FINI(&stack);
+        DEL(x);
+        return 0;
+    }
+
     while (VECT_LEN(&stack) > 0) {
         keyidx  ki = VECT_POP_BACK(&stack);
         uint8_t fp = __xfp8(ki.hash);
@@ -300,6 +309,8 @@ Xorfilter *
 Xorfilter_new16(uint64_t *keys, size_t n)
 {
     Xorfilter *x  = NEWZ(Xorfilter);
+    if (!x) return 0;
+
     keyvect stack = xorfilter_init(x, keys, n);
 
     if (VECT_LEN(&stack) == 0) {
@@ -309,6 +320,12 @@ Xorfilter_new16(uint64_t *keys, size_t n)
     }
 
     x->fp16  = NEWZA(uint16_t, (size_t)x->size * 3);
+    if (!x->fp16) {
+        VECT_FINI(&stack);
+        DEL(x);
+        return 0;
+    }
+
     x->is_16 = 1;
     while (VECT_LEN(&stack) > 0) {
         keyidx   ki = VECT_POP_BACK(&stack);
-- 
2.43.0


From 4ee9825d103519aac9d305de0b2243e3d0f7b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 150/182] fix: vectors check their allocations

---
 inc/fast/vect.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index 384622c..a464090 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -61,6 +61,7 @@ extern "C" {
                                     size_t cap_  = (n);          \
                                     if (cap_ == 0) cap_ = 16;    \
                                     v_->arr  = NEWZA(typeof(v_->arr[0]), cap_);\
+                                    assert(v_->arr);             \
                                     v_->cap  = cap_;             \
                                     v_->size = 0;                \
                                 } while (0)
@@ -73,6 +74,7 @@ extern "C" {
                                     typeof(w) _w = (w);                                         \
                                     assert(sizeof(_v->arr[0]) == sizeof(_w->arr[0]));           \
                                     _v->arr  = NEWZA(typeof(_v->arr[0]), _w->size);             \
+                                    assert(_v->arr || _w->size == 0);                           \
                                     memcpy(_v->arr, _w->arr, _w->size * sizeof(_w->arr[0]));    \
                                     _v->cap  = _v->size = _w->size;                             \
                                 } while (0)
@@ -116,6 +118,7 @@ extern "C" {
                                 if (n_ == 0) n_ = 1;                \
                                 do { n_ *= 2; } while (n_ < want_); \
                                 v_->arr = RENEWA(typeof(v_->arr[0]), v_->arr, n_);\
+                                assert(v_->arr);                  \
                                 memset(v_->arr+v_->size, 0, sizeof(v_->arr[0]) * (n_ - v_->cap));\
                                 v_->cap = n_;          \
                             }                          \
-- 
2.43.0


From 5b61d6d1cabf8910a167a5bb4002e2e872f76faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 151/182] fix: buffers and dynamic queues check their
 allocations

---
 inc/fast/buf.h                | 3 +++
 inc/fast/queue.h              | 2 ++
 inc/fast/spsc_bounded_queue.h | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index aebf917..bfecd1e 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -25,6 +25,7 @@ extern "C" {
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
+#include <assert.h>
 #include "utils/new.h"
 
 
@@ -46,6 +47,7 @@ fast_buf_init(fast_buf *b, size_t sz)
     if (sz == 0) sz = 128;
 
     b->buf  = NEWA(uint8_t, sz);
+    assert(b->buf);
     b->size = 0;
     b->cap  = sz;
     return b;
@@ -78,6 +80,7 @@ fast_buf_reserve(fast_buf *b, size_t want)
         do { b->cap *= 2; } while (b->cap < want);
 
         b->buf = RENEWA(uint8_t, b->buf, b->cap);
+        assert(b->buf);
     }
 }
 
diff --git a/inc/fast/queue.h b/inc/fast/queue.h
index 68a6a05..b20eb0e 100644
--- a/inc/fast/queue.h
+++ b/inc/fast/queue.h
@@ -57,6 +57,7 @@ extern "C" {
 #endif /* __cplusplus */
 
 #include <stdint.h>
+#include <assert.h>
 #include "utils/utils.h"
 
 #ifdef __cplusplus
@@ -123,6 +124,7 @@ typedef struct __fast_queue __fast_queue;
                                 _q->rd = _q->wr = 0;    \
                                 _q->sz = sz_;               \
                                 (q_)->elem = NEWZA(__qetyp(q_), sz_);\
+                                assert((q_)->elem);         \
                             } while (0)
 
 
diff --git a/inc/fast/spsc_bounded_queue.h b/inc/fast/spsc_bounded_queue.h
index 678245c..6a5c0dc 100644
--- a/inc/fast/spsc_bounded_queue.h
+++ b/inc/fast/spsc_bounded_queue.h
@@ -67,6 +67,7 @@ extern "C" {
 #endif /* __cplusplus */
 
 #include <stdint.h>
+#include <assert.h>
 #include <stdatomic.h>
 #include "utils/utils.h"
 
@@ -145,6 +146,7 @@ typedef struct __spscq __spscq;
                             do {                        \
                                 __spscq_init(&(q_)->q, sz_);\
                                 (q_)->elem = NEWZA(__spscqetyp(q_), sz_);\
+                                assert((q_)->elem);     \
                             } while (0)
 
 
-- 
2.43.0


From 0954dd99cc22afba8416d0151216930c4580afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 152/182] fix: worker pools report exhausted memory

---
 src/posix/job.c  | 2 ++
 src/posix/work.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/posix/job.c b/src/posix/job.c
index fecae6b..1e7b912 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -98,6 +98,8 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         nthreads = sys_cpu_getavail();
 
     jm->threads  = NEWZA(job_context, nthreads);
+    if (!jm->threads) return -ENOMEM;
+
     jm->nthreads = nthreads;
 
 
diff --git a/src/posix/work.c b/src/posix/work.c
index d4f3551..75d810b 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -106,6 +106,8 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         nthreads = sys_cpu_getavail();
 
     wm->ctx      = NEWZA(worker_context, nthreads);
+    if (!wm->ctx) return -ENOMEM;
+
     wm->nthreads = nthreads;
     wm->next     = 0;
 
-- 
2.43.0


From 08f4f73321a1291ba36103476d952e8ee76fe318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 153/182] fix: a mutex locker that can't be created is never
 silently missing

---
 src/posix/cmutex.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/posix/cmutex.c b/src/posix/cmutex.c
index fa3f471..2ac0e84 100644
--- a/src/posix/cmutex.c
+++ b/src/posix/cmutex.c
@@ -19,6 +19,7 @@
 #include "utils/lockmgr.h"
 #include "utils/utils.h"
 #include <pthread.h>
+#include <assert.h>
 
 
 static void
@@ -54,15 +55,14 @@ lockmgr_new_mutex(lockmgr* l)
     if (!l)
         return;
 
+    // there is no way to report a failure; and, callers can't go on
+    // without a lock (or worse - with someone else's).
     m = NEWZ(pthread_mutex_t);
-    if (!m)
-        return;
+    assert(m);
 
-    if (pthread_mutex_init(m, 0) < 0)
-    {
-        DEL(m);
-        return;
-    }
+    int r = pthread_mutex_init(m, 0);
+    assert(r == 0);
+    USEARG(r);
 
     *l = Mutex_locker;
     l->opaq   = m;
-- 
2.43.0


From 938d8e781289843c92f1bec92ed3ae477696d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 154/182] fix: gstr_readline leaves a terminated string when
 memory is exhausted

---
 src/gstring.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gstring.c b/src/gstring.c
index 0206daf..7192a23 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -423,8 +423,12 @@ gstr_readline(gstr * g, FILE * fp, const char * tok)
         if (len + 1 >= g->cap) {    // room for the trailing null
             size_t newcap = g->cap * 2;
             str = (char *) realloc(g->str, newcap);
-            if (!str)
+            if (!str) {
+                // keep what we have read so far
+                g->str[len] = 0;
+                g->len      = len;
                 return -ENOMEM;
+            }
 
             g->str = str;
             g->cap = newcap;
-- 
2.43.0


From 359cc72c4c29be22c06fba2cc5d15731e7ed0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 155/182] fix: fletcher-cksum.c compiles on its own (size_t)

---
 src/fletcher-cksum.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fletcher-cksum.c b/src/fletcher-cksum.c
index 36a74ae..9159042 100644
--- a/src/fletcher-cksum.c
+++ b/src/fletcher-cksum.c
@@ -14,6 +14,7 @@
  * suitability for any purpose.
  */
 #include <stdint.h>
+#include <stddef.h>
 
 uint32_t
 fletcher32(uint16_t *data, size_t len)
-- 
2.43.0


From ed06f46a37b6427465b3db5f9d04c222c949648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 156/182] fix: define Null_locker as declared in lockmgr.h

---
 src/posix/cmutex.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/posix/cmutex.c b/src/posix/cmutex.c
index 2ac0e84..3f5a296 100644
--- a/src/posix/cmutex.c
+++ b/src/posix/cmutex.c
@@ -76,4 +76,12 @@ const lockmgr Mutex_locker =
     .dtor   = mutex_delete,
 };
 
+const lockmgr Null_locker =
+{
+    .create = 0,
+    .lock   = 0,
+    .unlock = 0,
+    .dtor   = 0,
+};
+
 /* EOF */
-- 
2.43.0


From 72954ddefc44712577e8b9bd62bc4a5e3274a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 157/182] fix: lockmgr_new_empty leaves no member uninitialized

---
 inc/utils/lockmgr.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/utils/lockmgr.h b/inc/utils/lockmgr.h
index 57ea6a0..1c0fcb1 100644
--- a/inc/utils/lockmgr.h
+++ b/inc/utils/lockmgr.h
@@ -75,8 +75,11 @@ typedef struct lockmgr lockmgr;
 
 /* CTOR to create a NULL lock. */
 #define lockmgr_new_empty(l)    do { \
+                                   (l)->create = 0; \
                                    (l)->lock   = 0; \
                                    (l)->unlock = 0; \
+                                   (l)->dtor   = 0; \
+                                   (l)->opaq   = 0; \
                                 } while (0)
 
 
-- 
2.43.0


From 746d6b4ab602ead95808411dc2e175a9e445445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 158/182] fix: Darwin sem_init reports failures as documented

---
 src/posix/darwin_sem.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/posix/darwin_sem.c b/src/posix/darwin_sem.c
index 71604b0..e227085 100644
--- a/src/posix/darwin_sem.c
+++ b/src/posix/darwin_sem.c
@@ -42,9 +42,15 @@ sem_init(sem_t* s, int pshared, unsigned int val)
     (void)pshared;  // unused
 
     s->s_val = val;
-    pthread_mutex_init(&s->s_lock, 0);
-    if (0 != (r = pthread_cond_init(&s->s_cond, 0)))
-        return r;
+    if (0 != (r = pthread_mutex_init(&s->s_lock, 0))) {
+        errno = r;
+        return -1;
+    }
+    if (0 != (r = pthread_cond_init(&s->s_cond, 0))) {
+        pthread_mutex_destroy(&s->s_lock);
+        errno = r;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 9d05c1dd9d439231a42adcbdf2d9c0c39c2fa62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 159/182] fix: Darwin sem_post doesn't touch a semaphore that
 its waiter may have destroyed

---
 src/posix/darwin_sem.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/posix/darwin_sem.c b/src/posix/darwin_sem.c
index e227085..5d1e521 100644
--- a/src/posix/darwin_sem.c
+++ b/src/posix/darwin_sem.c
@@ -90,10 +90,14 @@ sem_post(sem_t* s)
 
     s->s_val++;
 
-    pthread_mutex_unlock(&s->s_lock);
-
-    /* Wake up all waiters */
+    /*
+     * Wake up all waiters. This must be done with the lock held: as
+     * soon as it is released, a waiter may return and destroy the
+     * semaphore.
+     */
     pthread_cond_broadcast(&s->s_cond);
+
+    pthread_mutex_unlock(&s->s_lock);
     return 0;
 }
 
-- 
2.43.0


From 8a4b76e5389124b6cc1ddc9db65d3023135bcb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 160/182] fix: depweed deletes a dependency file without a rule
 instead of crashing

---
 tools/depweed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/depweed.py b/tools/depweed.py
index 9897edd..bd69d53 100755
--- a/tools/depweed.py
+++ b/tools/depweed.py
@@ -87,6 +87,11 @@ def validate_dep(dfile):
         deplines.append(line.rstrip(' \\'))
 
     makerule = ' '.join(deplines)
+    if ':' not in makerule:
+        debug_info("no rule (truncated?), deleting: %s" % dfile)
+        os.unlink(dfile)
+        return
+
     deps = strip_targetname(makerule)
     debug_info("deps|%s" % deps)
 
-- 
2.43.0


From bb871f3b7178d7ffed2fe13c355448e3c675f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:52 +0000
Subject: [PATCH 161/182] fix: cdb_find finds keys whose hash is 0 and the keys
 stored after them

---
 src/cdb_read.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdb_read.c b/src/cdb_read.c
index bc5ee4f..e95c230 100644
--- a/src/cdb_read.c
+++ b/src/cdb_read.c
@@ -138,7 +138,8 @@ cdb_find(CDB* db, void** p_ret, const void* key, size_t klen)
         uint32_t slothash = dec_LE_u32(db->mmap+slotoff);
         uint64_t off      = dec_LE_u32(db->mmap+slotoff+4);
 
-        if (slothash == 0) break;
+        // An empty slot has no record; 0 is a valid hash.
+        if (off == 0) break;
 
         // Now, check to see if the key matches
         if (slothash == h) {
-- 
2.43.0


From 08a1faa21700b756a188055eb0f6b6d737b0a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 162/182] fix: job_manager_init stops its threads and releases
 its memory when it fails

---
 src/posix/job.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/posix/job.c b/src/posix/job.c
index 1e7b912..e8da6f2 100644
--- a/src/posix/job.c
+++ b/src/posix/job.c
@@ -104,10 +104,17 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
 
 
     r = SYNCQ_INIT(&jm->q, JOB_MAX);
-    if (r != 0) return r;
+    if (r != 0) {
+        DEL(jm->threads);
+        return r;
+    }
 
-    if ((r = sem_init(&jm->done, 0, 0)) != 0)
-        return -errno;
+    if ((r = sem_init(&jm->done, 0, 0)) != 0) {
+        r = -errno;
+        SYNCQ_FINI(&jm->q);
+        DEL(jm->threads);
+        return r;
+    }
 
 
     /*
@@ -126,6 +133,11 @@ job_manager_init(job_manager* jm, int nthreads, jobfunc_t func, void* ctx)
         if ((r = pthread_create(&t->id, 0, thread_func, t)) != 0)
         {
             error(0, r, "job manager coulnd't create thread-%d", i);
+
+            // Stop the threads that did start and undo everything
+            jm->nthreads = i;
+            job_manager_wait(jm);
+            job_manager_destroy(jm);
             return -r;
         }
     }
-- 
2.43.0


From 683e0d78434aa0243b224ab3d8891876c3ef67fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 163/182] fix: work_manager_init stops its threads and releases
 its memory when it fails

---
 src/posix/work.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/posix/work.c b/src/posix/work.c
index 75d810b..889c20e 100644
--- a/src/posix/work.c
+++ b/src/posix/work.c
@@ -112,12 +112,17 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
     wm->next     = 0;
 
 
-    if ((r = sem_init(&wm->done, 0, 0)) != 0)
-        return -errno;
+    if ((r = sem_init(&wm->done, 0, 0)) != 0) {
+        r = -errno;
+        goto fail;
+    }
 
 
-    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0)
-        return -r;
+    if ((r = pthread_mutex_init(&wm->lock, 0)) != 0) {
+        r = -r;
+        sem_destroy(&wm->done);
+        goto fail;
+    }
 
 
     /*
@@ -128,18 +133,34 @@ work_manager_init(work_manager* wm, int nthreads, workfunc_t func, void* ctx)
         worker_context* wc  = &wm->ctx[i];
 
         r = SYNCQ_INIT(&wc->q, WORK_MAX);
-        if (r != 0) return -errno;
+        if (r != 0) goto stop;
 
         wc->func    = func;
         wc->context = ctx;
         wc->cpunr   = i;
         wc->done    = &wm->done;
 
-        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0)
-            return -r;
+        if ((r = pthread_create(&wc->id, 0, thread_func, wc)) != 0) {
+            r = -r;
+            SYNCQ_FINI(&wc->q);
+            goto stop;
+        }
     }
 
     return nthreads;
+
+stop:
+    // Stop the threads that did start and undo everything
+    wm->nthreads = i;
+    work_manager_wait(wm);
+    work_manager_destroy(wm);
+    wm->nthreads = 0;
+    return r;
+
+fail:
+    DEL(wm->ctx);
+    wm->nthreads = 0;
+    return r;
 }
 
 
-- 
2.43.0


From 1335153e8272d12e05b88b16b74ff6ee440551b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 164/182] fix: SYNCQ_INIT reports a mutex failure and releases
 what it created when it fails

---
 inc/fast/syncq.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index b5c1f52..bd6f693 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -72,9 +72,18 @@ __syncobj_init(__syncobj* s, size_t n)
 {
     int r;
 
-    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -errno;
-    if ((r = sem_init(&s->notempty, 0, 0)) != 0)     return -errno;
-    if ((r = sem_init(&s->notfull,  0, n)) != 0)     return -errno;
+    if ((r = pthread_mutex_init(&s->lock, 0)) != 0)  return -r;
+    if ((r = sem_init(&s->notempty, 0, 0)) != 0) {
+        r = -errno;
+        pthread_mutex_destroy(&s->lock);
+        return r;
+    }
+    if ((r = sem_init(&s->notfull,  0, n)) != 0) {
+        r = -errno;
+        sem_destroy(&s->notempty);
+        pthread_mutex_destroy(&s->lock);
+        return r;
+    }
 
     s->rd = s->wr = 0;
     s->sz = n;
-- 
2.43.0


From 7db2690b06382c3e1805625ede829fab5eff7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 165/182] fix: small hash tables grow when their fill
 percentage exceeds fillmax

---
 src/hashtable/hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashtable/hashtab.c b/src/hashtable/hashtab.c
index fdc93a0..a73e03e 100644
--- a/src/hashtable/hashtab.c
+++ b/src/hashtable/hashtab.c
@@ -463,7 +463,7 @@ insert_internal(hash_table * tab, void ** p_data, int op)
      */
     if (b->count == 1) {
         ++tab->stats.fill;
-        if ( ((tab->stats.fill * 100) / (tab->size + 1)) > tab->fillmax )
+        if ( ((tab->stats.fill * 100) / tab->size) > tab->fillmax )
             resize(tab);    // the item is in; growing can wait
     }
 
-- 
2.43.0


From ee75ed074c3f0e527a446b8c8df63b7ef94e0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 166/182] fix: murmur3 hashes read outside inputs of 2 GiB and
 more

---
 src/hashfunc/murmur3_hash.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hashfunc/murmur3_hash.c b/src/hashfunc/murmur3_hash.c
index 5a2d581..75f79f9 100644
--- a/src/hashfunc/murmur3_hash.c
+++ b/src/hashfunc/murmur3_hash.c
@@ -45,6 +45,7 @@
  */
 
 #include "utils/hashfunc.h"
+#include <stddef.h>
 
 
 #if defined(_MSC_VER)
@@ -132,7 +133,7 @@ uint32_t
 murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 {
   const uint8_t * data = (const uint8_t*)key;
-  const int nblocks    = len / 4;
+  const size_t nblocks = len / 4;
 
   uint32_t k1 = 0;
   uint32_t h1 = seed;
@@ -141,9 +142,9 @@ murmur3_hash_32(const void* key, size_t len, uint32_t seed)
 
   const uint32_t * blocks = (const uint32_t *)(data + nblocks*4);
   const uint8_t  * tail   = (const uint8_t *) (data + nblocks*4);
-  int i;
+  ptrdiff_t i;
 
-  for(i = -nblocks; i; i++)
+  for(i = -(ptrdiff_t)nblocks; i; i++)
   {
       k1 = getblock(blocks,i);
 
@@ -185,7 +186,7 @@ uint_128_t
 murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
 {
     const uint8_t * data = (const uint8_t*)key;
-    const int nblocks = len / 16;
+    const size_t nblocks = len / 16;
 
     uint32_t h1 = seed;
     uint32_t h2 = seed;
@@ -203,10 +204,10 @@ murmur3_hash_128(const void* key, const size_t len, uint32_t seed)
     uint32_t c4 = 0xa1e38b93;
     const uint32_t * blocks = (const uint32_t *)(data + nblocks*16);
     const uint8_t * tail    = (const uint8_t*)(data + nblocks*16);
-    int i;
+    ptrdiff_t i;
 
 
-    for(i = -nblocks; i; i++)
+    for(i = -(ptrdiff_t)nblocks; i; i++)
     {
         k1 = getblock(blocks,i*4+0);
         k2 = getblock(blocks,i*4+1);
@@ -294,7 +295,7 @@ uint_128_t
 murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 {
     const uint8_t * data = (const uint8_t*)key;
-    const int nblocks = len / 16;
+    const size_t nblocks = len / 16;
 
     uint64_t h1 = seed;
     uint64_t h2 = seed;
@@ -307,7 +308,7 @@ murmur3_hash64_128(const void* key, size_t len, uint32_t seed)
 
     const uint64_t * blocks = (const uint64_t *)(data);
     const uint8_t * tail    = (const uint8_t*)(data + nblocks*16);
-    int i;
+    size_t i;
 
     for(i = 0; i < nblocks; i++)
     {
-- 
2.43.0


From 516eb041bb47c7ac30c1c0f673f0e680e19a0b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:35 +0000
Subject: [PATCH 167/182] fix: mmap_file::mlock and munlock left out the last
 page of unaligned ranges

---
 src/posix/mmap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/posix/mmap.cpp b/src/posix/mmap.cpp
index a288c9e..d5ad01b 100644
--- a/src/posix/mmap.cpp
+++ b/src/posix/mmap.cpp
@@ -138,8 +138,10 @@ mmap_file::mlock(void * ptr, size_t n)
 {
     const size_t pgsize = pagesize();
 
+    void * end = (char *)ptr + n;
+
     ptr = align_down(ptr, pgsize);
-    n   = align_up(n, pgsize);
+    n   = align_up(size_t((char *)end - (char *)ptr), pgsize);
 
     if ( ::mlock(ptr, n) < 0 )
         throw sys_exception(geterror(), "%s: Can't lock '%lu' bytes at '%p'",
@@ -152,8 +154,10 @@ mmap_file::munlock(void * ptr, size_t n)
 {
     const size_t pgsize = pagesize();
 
+    void * end = (char *)ptr + n;
+
     ptr = align_down(ptr, pgsize);
-    n   = align_up(n, pgsize);
+    n   = align_up(size_t((char *)end - (char *)ptr), pgsize);
 
     if ( ::munlock(ptr, n) < 0 )
         throw sys_exception(geterror(), "%s: Can't unlock '%lu' bytes at '%p'",
-- 
2.43.0


From c344378f3e49527f89b06b815f27ad94e8b7fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:35 +0000
Subject: [PATCH 168/182] fix: kmp_search::matchall compared overlapping
 matches again and was not linear

---
 inc/utils/strmatch.h | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/inc/utils/strmatch.h b/inc/utils/strmatch.h
index 06a167e..8ffabb7 100644
--- a/inc/utils/strmatch.h
+++ b/inc/utils/strmatch.h
@@ -162,21 +162,23 @@ kmp_search<T>::matchall(const  T * text, int textlen)
 {
     std::vector<int> r;
 
-    int off = 0;
-    while(textlen > 0)
-    {
-        std::pair<bool, int> m = match(text, textlen);
-        if ( !m.first )
-            break;
-
-        int consume  = m.second + 1;        // the next match may overlap this one
-        int matchoff = off + m.second;      // offset relative to start of text
+    if ( m_patlen == 0 )
+        return r;
 
-        text        += consume;
-        textlen     -= consume;
-        off         += consume;
+    int i,
+        q = 0;
 
-        r.push_back(matchoff);
+    for (i = 0; i < textlen; i++)
+    {
+        while (q > 0 && !traits_type::eq(m_pat[q], text[i]))
+            q = m_prefix_tab[q - 1];
+        if ( traits_type::eq(m_pat[q], text[i]) )
+            q++;
+        if (q == m_patlen)
+        {
+            r.push_back(i + 1 - m_patlen);
+            q = m_prefix_tab[q - 1];        // the next match may overlap this one
+        }
     }
     return r;
 }
-- 
2.43.0


From 1c50800b2219361e30f23acce815368a126add6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:24 +0000
Subject: [PATCH 169/182] fix: ftw reported a walk cut short by an error as
 complete

---
 src/ftw.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ftw.c b/src/ftw.c
index 8e9412f..ba0614f 100644
--- a/src/ftw.c
+++ b/src/ftw.c
@@ -46,7 +46,7 @@ ftw(const char *path, int (*fn)(const char *, const struct stat *, int),
 	if (!ftsp)
 		return (-1);
 	error = 0;
-	while ((cur = fts_read(ftsp))) {
+	while ((errno = 0, cur = fts_read(ftsp))) {
 		switch (cur->fts_info) {
 		case FTS_D:
 			fnflag = FTW_D;
@@ -80,6 +80,9 @@ ftw(const char *path, int (*fn)(const char *, const struct stat *, int),
 		if (error != 0)
 			break;
 	}
+	/* fts_read() leaves errno at 0 only when the walk is complete. */
+	if (!cur && errno != 0)
+		error = -1;
 done:
 	sverrno = errno;
 	if (fts_close(ftsp) != 0 && error == 0)
-- 
2.43.0


From 3dfc61bb5e5b19a522a0dc3994a2fa61a1232828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 170/182] fix: elements pushed into a vector may come from that
 vector

VECT_PUSH_FRONT evaluated its element after the others had been moved,
and VECT_PUSH_BACK in the same expression that changes the length, so
pushing e.g. VECT_LAST_ELEM() of the same vector stored another element
(or read one that is not there). Evaluate the element first.
---
 inc/fast/vect.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/fast/vect.h b/inc/fast/vect.h
index a464090..a5db8f3 100644
--- a/inc/fast/vect.h
+++ b/inc/fast/vect.h
@@ -158,8 +158,9 @@ extern "C" {
  */
 #define VECT_PUSH_BACK(v,e)    do {                                 \
                                     typeof(v) v_ = (v);             \
+                                    typeof(v_->arr[0]) newelem_ = (e); \
                                     __vect_RESERVE(v_, v_->size+1); \
-                                    v_->arr[v_->size++] = e;        \
+                                    v_->arr[v_->size++] = newelem_; \
                                 } while (0)
 
 
@@ -180,12 +181,13 @@ extern "C" {
  */
 #define VECT_PUSH_FRONT(v,e)         do {                             \
                                             typeof(v) v_ = v;         \
+                                            typeof(v_->arr[0]) newelem_ = (e);      \
                                             __vect_RESERVE(v_, v_->size+1);         \
                                             typeof(v_->arr) start_ = v_->arr;         \
                                             typeof(v_->arr) p_     = start_ + v_->size; \
                                             for (; p_ > start_; p_--)   \
                                                 *p_ = *(p_ - 1);         \
-                                            *p_ = (e);                   \
+                                            *p_ = newelem_;              \
                                             v_->size++;                  \
                                       } while (0)
 
-- 
2.43.0


From 6d0ca8cf53806ad93efe0dc247069c47d928327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:31 +0000
Subject: [PATCH 171/182] fix: list macros evaluate the elements they are given
 once

DL_INSERT_AFTER(h, DL_LAST(h), e), DL_INSERT_BEFORE(h, DL_FIRST(h), e) and
DL_REMOVE(h, DL_LAST(h)) evaluated that position again after having changed
it: the new element was linked to itself, or the wrong one unlinked.
Inserting the result of DL_REMOVE_HEAD() removed several elements.
---
 inc/fast/list.h | 59 +++++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/inc/fast/list.h b/inc/fast/list.h
index c6f362a..22ad8de 100644
--- a/inc/fast/list.h
+++ b/inc/fast/list.h
@@ -307,12 +307,13 @@ struct {                                                \
  * Prepend at the head of the list.
  */
 #define DL_INSERT_HEAD(head,elm,field)    do {       \
-    if ( ((elm)->field.next = (head)->first) )       \
-        (head)->first->field.prev = (elm);           \
+    __typeof__((head)->first) dl_elm__ = (elm);           \
+    if ( (dl_elm__->field.next = (head)->first) )         \
+        (head)->first->field.prev = dl_elm__;             \
     else                                             \
-        (head)->last = (elm);                        \
-    (head)->first = (elm);                           \
-    (elm)->field.prev = 0;                           \
+        (head)->last = dl_elm__;                          \
+    (head)->first = dl_elm__;                             \
+    dl_elm__->field.prev = 0;                             \
 } while (0)
 
 
@@ -321,12 +322,13 @@ struct {                                                \
  * Append at the end of the list.
  */
 #define DL_INSERT_TAIL(head,elm,field)    do {       \
-    if ( ((elm)->field.prev = (head)->last) )           \
-        (head)->last->field.next = (elm);               \
+    __typeof__((head)->first) dl_elm__ = (elm);              \
+    if ( (dl_elm__->field.prev = (head)->last) )             \
+        (head)->last->field.next = dl_elm__;                 \
     else                                                \
-        (head)->first = (elm);                          \
-    (head)->last = (elm);                               \
-    (elm)->field.next = 0;                              \
+        (head)->first = dl_elm__;                            \
+    (head)->last = dl_elm__;                                 \
+    dl_elm__->field.next = 0;                                \
 } while (0)
 
 #define DL_APPEND(head,elm,field)    DL_INSERT_TAIL(head,elm,field)
@@ -336,12 +338,14 @@ struct {                                                \
  * Insert 'elm' after 'inlist'
  */
 #define DL_INSERT_AFTER(head,inlist,elm,field) do {  \
-    if ( ((elm)->field.next = (inlist)->field.next) )   \
-        (inlist)->field.next->field.prev = (elm);       \
+    __typeof__((head)->first) dl_pos__ = (inlist);           \
+    __typeof__((head)->first) dl_elm__ = (elm);              \
+    if ( (dl_elm__->field.next = dl_pos__->field.next) )          \
+        dl_pos__->field.next->field.prev = dl_elm__;              \
     else                                                \
-        (head)->last = (elm);                           \
-    (elm)->field.prev = (inlist);                       \
-    (inlist)->field.next = (elm);                       \
+        (head)->last = dl_elm__;                             \
+    dl_elm__->field.prev = dl_pos__;                              \
+    dl_pos__->field.next = dl_elm__;                              \
 } while (0)
 
 
@@ -350,12 +354,14 @@ struct {                                                \
  * Insert 'elm' before 'inlist'
  */
 #define DL_INSERT_BEFORE(head,inlist,elm,field) do { \
-    if ( ((elm)->field.prev = (inlist)->field.prev) )   \
-        (inlist)->field.prev->field.next = (elm);       \
+    __typeof__((head)->first) dl_pos__ = (inlist);           \
+    __typeof__((head)->first) dl_elm__ = (elm);              \
+    if ( (dl_elm__->field.prev = dl_pos__->field.prev) )          \
+        dl_pos__->field.prev->field.next = dl_elm__;              \
     else                                                \
-        (head)->first = (elm);                          \
-    (elm)->field.next = (inlist);                       \
-    (inlist)->field.prev = (elm);                       \
+        (head)->first = dl_elm__;                            \
+    dl_elm__->field.next = dl_pos__;                              \
+    dl_pos__->field.prev = dl_elm__;                              \
 } while (0)
 
 
@@ -364,14 +370,15 @@ struct {                                                \
  * Remove an arbitrary node in the list.
  */
 #define DL_REMOVE(head,elm,field)               do { \
-    if ( (elm)->field.next )                            \
-        (elm)->field.next->field.prev = (elm)->field.prev; \
+    __typeof__((head)->first) dl_elm__ = (elm);              \
+    if ( dl_elm__->field.next )                              \
+        dl_elm__->field.next->field.prev = dl_elm__->field.prev;  \
     else                                                \
-        (head)->last = (elm)->field.prev;               \
-    if ( (elm)->field.prev )                            \
-        (elm)->field.prev->field.next = (elm)->field.next; \
+        (head)->last = dl_elm__->field.prev;                 \
+    if ( dl_elm__->field.prev )                              \
+        dl_elm__->field.prev->field.next = dl_elm__->field.next;  \
     else                                                \
-        (head)->first = (elm)->field.next;              \
+        (head)->first = dl_elm__->field.next;                \
 } while (0)
 
 
-- 
2.43.0


From 824da1c191875515f40033363d1fa99798351ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:32 +0000
Subject: [PATCH 172/182] fix: SYNCQ_ENQ evaluated the object while holding the
 queue's lock

An object that is itself the result of a blocking call, such as
SYNCQ_ENQ(&out, SYNCQ_DEQ(&in)), kept the consumers of a non-empty queue
waiting, and hung for ever if both were the same queue. Evaluate the object
before anything is acquired.
---
 inc/fast/syncq.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/fast/syncq.h b/inc/fast/syncq.h
index bd6f693..15401be 100644
--- a/inc/fast/syncq.h
+++ b/inc/fast/syncq.h
@@ -118,11 +118,12 @@ __syncobj_init(__syncobj* s, size_t n)
 #define SYNCQ_ENQ(q0, obj)      do { \
                                     typeof(q0)  q_ = q0; \
                                     __syncobj*  s_ = &q_->s; \
+                                    typeof(q_->e[0]) newobj_ = (obj); \
                                     sem_wait(&s_->notfull); \
                                     pthread_mutex_lock(&s_->lock); \
                                     uint32_t w_ = s_->wr++; \
                                     if (s_->wr == s_->sz) s_->wr = 0;\
-                                    q_->e[w_] = obj;\
+                                    q_->e[w_] = newobj_;\
                                     pthread_mutex_unlock(&s_->lock); \
                                     sem_post(&s_->notempty); \
                                 } while (0)
-- 
2.43.0


From 0ca2d2fb2ed19ad67c9997b86a41f6afccc40460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:47 +0000
Subject: [PATCH 173/182] fix: growing a gstr by 2^31 bytes or more truncated
 the length

---
 src/gstring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gstring.c b/src/gstring.c
index 7192a23..5feca2b 100644
--- a/src/gstring.c
+++ b/src/gstring.c
@@ -26,12 +26,12 @@
 #include "bits.h"
 
 /* Grow string `g' by `len' bytes -- if necessary. */
-static gstr* grow_if(gstr * g, int len);
+static gstr* grow_if(gstr * g, size_t len);
 
 
 /* Grow the gstr by additional 'len' bytes -- if necessary. */
 static gstr*
-grow_if(gstr * g, int len)
+grow_if(gstr * g, size_t len)
 {
     size_t want = g->len + len + 1; // trailing null
 
-- 
2.43.0


From 6f19a001c29b251fcca9e00426a643ed7f6dbce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:47 +0000
Subject: [PATCH 174/182] fix: appending a part of a fast_buf to itself read
 freed memory

---
 inc/fast/buf.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/fast/buf.h b/inc/fast/buf.h
index bfecd1e..a061025 100644
--- a/inc/fast/buf.h
+++ b/inc/fast/buf.h
@@ -101,7 +101,13 @@ fast_buf_grow(fast_buf *b, size_t n)
 static inline fast_buf*
 fast_buf_append_buf(fast_buf *b, uint8_t *buf, size_t n)
 {
+    // 'buf' may be (a part of) the buffer we are about to move
+    int    self = buf >= b->buf && buf <= b->buf + b->size;
+    size_t off  = self ? (size_t)(buf - b->buf) : 0;
+
     fast_buf_grow(b, n);
+    if (self) buf = b->buf + off;
+
     memcpy(b->buf+b->size, buf, n);
     b->size += n;
     return b;
-- 
2.43.0


From f2d18a2b01974fb46ad37f0018748053d050b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 175/182] fix: fts_close used a freed entry after a fatal error
 on the way up

---
 src/fts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index 223e20d..c1a6a79 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -426,6 +426,7 @@ fts_read(FTS *sp)
 	/* Move to the next node on this level. */
 next:	tmp = p;
 	if ((p = p->fts_link) != NULL) {
+		sp->fts_cur = p;	/* fts_close() starts here */
 		fts_free(tmp);
 
 		/*
@@ -473,6 +474,7 @@ name:		t = sp->fts_path + NAPPEND(p->fts_parent);
 
 	/* Move up to the parent node. */
 	p = tmp->fts_parent;
+	sp->fts_cur = p;	/* fts_close() starts here */
 	fts_free(tmp);
 
 	if (p->fts_level == FTS_ROOTPARENTLEVEL) {
-- 
2.43.0


From a4b8989e3d102b71f42000302fde2d105cb8fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 176/182] fix: fts looked at an entry through the freed path
 buffer after growing it

---
 src/fts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fts.c b/src/fts.c
index c1a6a79..ce229fa 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -781,6 +781,7 @@ mem1:				saved_errno = errno;
 			/* Did realloc() change the pointer? */
 			if (oldaddr != sp->fts_path) {
 				doadjust = 1;
+				p->fts_path = sp->fts_path;
 				if (ISSET(FTS_NOCHDIR))
 					cp = sp->fts_path + len;
 			}
-- 
2.43.0


From ea87651685da81b335d0d0a60cd6a741659c91a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 177/182] fix: a second fts_children call walked the freed list
 of the first

---
 src/fts.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fts.c b/src/fts.c
index ce229fa..eadd52d 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -578,8 +578,10 @@ fts_children(FTS *sp, int instr)
 		return (NULL);
 
 	/* Free up any previous child list. */
-	if (sp->fts_child)
+	if (sp->fts_child) {
 		fts_lfree(sp->fts_child);
+		sp->fts_child = NULL;
+	}
 
 	if (instr == FTS_NAMEONLY) {
 		SET(FTS_NAMEONLY);
-- 
2.43.0


From f177f18758124716a8fc9e8a383c14a9f77e167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 178/182] fix: uncompressing ended without looking at what was
 still to be written

---
 src/zbuf_unc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/zbuf_unc.c b/src/zbuf_unc.c
index 4937797..3388a0a 100644
--- a/src/zbuf_unc.c
+++ b/src/zbuf_unc.c
@@ -77,7 +77,7 @@ z_buf_uncompress_end (z_buf_context * zc)
     /*
      * Uncompress any pending data.
      */
-    if ( zs->avail_in > 0 )
+    if ( zs->avail_in > 0 || zs->avail_out == 0 )
     {
         err = do_uncompress (zs, zc);
         if ( err == Z_STREAM_END )
@@ -120,7 +120,11 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
 {
     int err = Z_OK;
 
-    while ( zs->avail_in > 0 )
+    /*
+     * With a full output buffer there may be more to come even if all
+     * the input is used up.
+     */
+    while ( zs->avail_in > 0 || zs->avail_out == 0 )
     {
         if ( zs->avail_out == 0 )
         {
@@ -155,7 +159,10 @@ do_uncompress (z_stream * zs, z_buf_context * zc)
         err = inflate (zs, Z_NO_FLUSH);
         if ( err == Z_STREAM_END )
             break;
-        
+
+        if ( err == Z_BUF_ERROR && zs->avail_in == 0 )
+            return Z_OK;
+
         if ( err != Z_OK )
             return err;
     }
-- 
2.43.0


From 6dc4bd1dec848b74bce1c5bfdb2dc576187530c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 179/182] fix: a password that was refused stayed on the stack,
 as the confirmation could

---
 src/readpass.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/readpass.c b/src/readpass.c
index 964f133..e8b83bc 100644
--- a/src/readpass.c
+++ b/src/readpass.c
@@ -34,6 +34,10 @@
 #include "utils/readpass.h"
 
 #define MAXPASSLEN 2048
+
+/* called through a volatile pointer so that the compiler keeps it */
+static void * (* const volatile wipe)(void *, int, size_t) = memset;
+
 #define warnp(x) fprintf(stderr, x ": %s (%d)\n", strerror(errno), errno)
 
 /**
@@ -127,11 +131,12 @@ ok:
         goto err2;
     }
 
-    memset(passbuf,     0, MAXPASSLEN);
-    memset(confpassbuf, 0, MAXPASSLEN);
     r = 0;
 
 err2:
+    wipe(passbuf,     0, MAXPASSLEN);
+    wipe(confpassbuf, 0, MAXPASSLEN);
+
     if (usingtty)          tcsetattr(fileno(readfrom), TCSAFLUSH, &term_old);
 
 err1:
-- 
2.43.0


From 1bb3091ec64da0f13166bf6c8a901dfab7aab032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 180/182] fix: the seed of the random generator stayed on the
 stack

---
 src/arc4random.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arc4random.c b/src/arc4random.c
index 0fa488e..9ec6a1c 100644
--- a/src/arc4random.c
+++ b/src/arc4random.c
@@ -76,6 +76,10 @@ extern int getentropy(void* buf, size_t n);
 
 
 
+/* called through a volatile pointer so that the compiler keeps it */
+static void* (* const volatile _rs_wipe)(void*, int, size_t) = memset;
+
+
 static inline void
 _rs_init(rand_state* st, uint8_t *buf, size_t n)
 {
@@ -99,7 +103,7 @@ _rs_rekey(rand_state* st, uint8_t *dat, size_t datlen)
         for (size_t i = 0; i < m; i++)
             st->rs_buf[i] ^= dat[i];
 
-        memset(dat, 0, datlen);
+        _rs_wipe(dat, 0, datlen);
     }
 
     assert(sizeof(st->rs_buf) > (ARC4R_KEYSZ+ARC4R_IVSZ));
@@ -185,6 +189,7 @@ _rs_setup(rand_state *rs)
     assert(r == 0);
 
     _rs_init(rs, rnd, sizeof rnd);
+    _rs_wipe(rnd, 0, sizeof rnd);
     _rs_rekey(rs, 0, 0);
 }
 
-- 
2.43.0


From ea02794b375f78a5da9e3fa30c6a812c75eeb36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:03 +0000
Subject: [PATCH 181/182] fix: fts looked at the previous entry when told to
 follow a child with FTS_NOCHDIR

---
 src/fts.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fts.c b/src/fts.c
index eadd52d..f7e482b 100644
--- a/src/fts.c
+++ b/src/fts.c
@@ -450,6 +450,10 @@ next:	tmp = p;
 		if (p->fts_instr == FTS_SKIP)
 			goto next;
 		if (p->fts_instr == FTS_FOLLOW) {
+			/* fts_accpath may be fts_path: that names tmp still */
+			t = sp->fts_path + NAPPEND(p->fts_parent);
+			*t++ = '/';
+			memmove(t, p->fts_name, (size_t)(p->fts_namelen + 1));
 			p->fts_info = fts_stat(sp, p, 1);
 			if (p->fts_info == FTS_D && !ISSET(FTS_NOCHDIR)) {
 				if ((p->fts_symfd =
-- 
2.43.0


From 966f0c48d8f8ae75ac971917b2b17c530e902eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:03 +0000
Subject: [PATCH 182/182] fix: saving a filter reports content that could not
 be synced instead of replacing the old file

---
 src/hashtable/bloom_marshal.c     | 8 +++++---
 src/hashtable/xorfilter_marshal.c | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hashtable/bloom_marshal.c b/src/hashtable/bloom_marshal.c
index f50b0bb..ecdc7dd 100644
--- a/src/hashtable/bloom_marshal.c
+++ b/src/hashtable/bloom_marshal.c
@@ -610,10 +610,12 @@ Bloom_marshal(Bloom *b, const char *fname)
      * Calculate checksum from start m.datasize
      */
     cksum(&m.ck, start+m.datasize, start, m.datasize);
-    VECT_FINI(&m.offs);
     munmap(mptr, sz);
-    fsync(fd);
-    fdatasync(fd);
+    if (fsync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
+    VECT_FINI(&m.offs);
     close(fd);
     if (rename(file, fname) < 0) {
         r = -errno;
diff --git a/src/hashtable/xorfilter_marshal.c b/src/hashtable/xorfilter_marshal.c
index 8d73b5b..c99cc83 100644
--- a/src/hashtable/xorfilter_marshal.c
+++ b/src/hashtable/xorfilter_marshal.c
@@ -167,8 +167,10 @@ Xorfilter_marshal(Xorfilter *x, const char *fname)
     crypto_hash_sha256_final(&h, st);
 
     munmap(mptr, filesz);
-    fsync(fd);
-    fdatasync(fd);
+    if (fsync(fd) < 0) {
+        r = errno;
+        goto fail;
+    }
     close(fd);
 
     if (rename(file, fname) < 0) {
-- 
2.43.0

