From 291c1caff53c53f0db5598b163d76bf0e346dbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 01/61] fix: keep using the batch in multi-shard operations

The ACQUIRE macros replaced the caller's batch handle with the root cache, so
the second shard of a scan was locked outside of the batch, which deadlocks
when the batch already owns it, and clear/entry accessors used the batch's
union as if it were a context.
---
 src/pogocache.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index bcf350f..604e905 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1369,9 +1369,10 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
     int shardidx; \
     uint32_t hash; \
     struct shard *shard; \
+    struct pogocache *root = cache; /* do not leave the batch */ \
     bool usebatch = acquire_for_key((key), (keylen), &hash, &shard, &shardidx, \
-        &cache); \
-    struct pgctx *ctx = &cache->ctx; \
+        &root); \
+    struct pgctx *ctx = &root->ctx; \
     (void)shardidx, (void)hash, (void)ctx; \
     rettype status = op; \
     if (!usebatch) { \
@@ -1383,8 +1384,9 @@ static bool acquire_for_key(const char *key, size_t keylen, uint32_t *hash_out,
 // Acquire a lock on the shard at index and execute the provided operation.
 #define ACQUIRE_FOR_SCAN_AND_EXECUTE(rettype, shardidx, op) ({ \
     struct shard *shard; \
-    bool usebatch = acquire_for_scan((shardidx), &shard, &cache); \
-    struct pgctx *ctx = &cache->ctx; \
+    struct pogocache *root = cache; /* do not leave the batch */ \
+    bool usebatch = acquire_for_scan((shardidx), &shard, &root); \
+    struct pgctx *ctx = &root->ctx; \
     (void)ctx; \
     rettype status = op; \
     if (!usebatch) { \
@@ -1738,12 +1740,12 @@ int pogocache_iter(struct pogocache *cache, struct pogocache_iter_opts *opts) {
             return POGOCACHE_FINISHED;
         }
         return ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
-            iterop(shard, opts->oneshardidx, now, opts, &cache->ctx)
+            iterop(shard, opts->oneshardidx, now, opts, ctx)
         );
     }
     for (int i = 0; i < nshards; i++) {
         int status = ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-            iterop(shard, i, now, opts, &cache->ctx)
+            iterop(shard, i, now, opts, ctx)
         );
         if (status != POGOCACHE_FINISHED) {
             return status;
@@ -1785,9 +1787,10 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     int64_t time, uint64_t *cursor)
 {
     assert(cursor);
+    int nshards = pogocache_nshards(cache);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > cache->ctx.nshards) {
+    if (shardidx < 0 || shardidx > nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
@@ -1805,7 +1808,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
         }
         shardidx++;
         iter = 0;
-        if (shardidx == cache->ctx.nshards) {
+        if (shardidx == nshards) {
             goto notfound;
         }
     }
@@ -1950,8 +1953,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
     if (opts->oneshard) {
         if (opts->oneshardidx >= 0 && opts->oneshardidx < nshards) {
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, opts->oneshardidx,
-                sweepop(shard, opts->oneshardidx, now, &sweptc, &keptc,
-                    &cache->ctx);
+                sweepop(shard, opts->oneshardidx, now, &sweptc, &keptc, ctx);
             );
         }
     } else {
@@ -1959,7 +1961,7 @@ void pogocache_sweep(struct pogocache *cache, size_t *swept, size_t *kept,
             size_t sweptc2 = 0;
             size_t keptc2 = 0;
             ACQUIRE_FOR_SCAN_AND_EXECUTE(int, i,
-                sweepop(shard, i, now, &sweptc2, &keptc2, &cache->ctx);
+                sweepop(shard, i, now, &sweptc2, &keptc2, ctx);
             );
             sweptc += sweptc2;
             keptc += keptc2;
@@ -2026,7 +2028,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
 static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now, 
     bool deferfree)
 {
-    struct pgctx *ctx = &cache->ctx;
+    struct pgctx *ctx = &rootcache(cache)->ctx;
     int nbuckets = 0;
     struct bucket *buckets = 0;
     ACQUIRE_FOR_SCAN_AND_EXECUTE(int, shardidx,
@@ -2038,7 +2040,7 @@ static void aquireclearop(struct pogocache *cache, int shardidx, int64_t now,
                 entry_free(get_entry(&buckets[i]), ctx);
             }
         }
-        cache->ctx.free(buckets);
+        ctx->free(buckets);
     }
 }
 
@@ -2056,7 +2058,7 @@ void pogocache_clear(struct pogocache *cache, struct pogocache_clear_opts *opts)
         aquireclearop(cache, opts->oneshardidx, now, opts->deferfree);
         return;
     }
-    for (int i = 0; i < cache->ctx.nshards; i++) {
+    for (int i = 0; i < nshards; i++) {
         aquireclearop(cache, i, now, opts->deferfree);
     }
 }
@@ -2115,7 +2117,7 @@ void pogocache_entry_release(struct pogocache *cache,
     struct pogocache_entry *entry)
 {
     if (entry) {
-        entry_free((struct entry*)entry, &cache->ctx);
+        entry_free((struct entry*)entry, &rootcache(cache)->ctx);
     }
 }
 
@@ -2126,7 +2128,8 @@ const void *pogocache_entry_key(struct pogocache *cache,
     const void *key = 0;
     size_t keylen0 = 0;
     if (entry) {
-        key = entry_key((struct entry*)entry, &keylen0, buf, &cache->ctx);
+        key = entry_key((struct entry*)entry, &keylen0, buf,
+            &rootcache(cache)->ctx);
     }
     if (keylen) {
         *keylen = keylen0;
@@ -2140,7 +2143,8 @@ const void *pogocache_entry_value(struct pogocache *cache,
     const void *value = 0;
     size_t valuelen0 = 0;
     if (entry) {
-        value = entry_value((struct entry*)entry, &valuelen0, &cache->ctx);
+        value = entry_value((struct entry*)entry, &valuelen0,
+            &rootcache(cache)->ctx);
     }
     if (valuelen) {
         *valuelen = valuelen0;
-- 
2.43.0


From 0ea3b07e9c6b16accdc8a11c83c49dcaa1ac0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 02/61] fix: account the memory of removed and updated entries

Expiration, sweep and iteration deletes left the size of the removed entry in
the shard's entry size, and an update kept the size of the previous entry.
---
 src/pogocache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 604e905..36f7a3d 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -948,6 +948,7 @@ static int map_get_bucket(struct map *map, const char *key, size_t keylen,
 // This deletes entry from bucket and adjusts the dibs buckets to right, if
 // needed.
 static void delbkt(struct map *map, size_t i) {
+    map->entsize -= entry_memsize(get_entry(&map->buckets[i]));
     set_dib(&map->buckets[i], 0);
     while (1) {
         size_t h = i;
@@ -991,7 +992,6 @@ static void tryshrink(struct map *map, struct pgctx *ctx) {
 static struct entry *delentry_at_bkt(struct map *map, size_t i) {
     struct entry *old = get_entry(&map->buckets[i]);
     assert(old);
-    map->entsize -= entry_memsize(old);
     delbkt(map, i);
     return old;
 }
@@ -1439,6 +1439,8 @@ static int loadop(const void *key, size_t keylen,
                 return POGOCACHE_NOMEM;
             }
             entry_settime(entry2, now);
+            shard->map.entsize += entry_memsize(entry2);
+            shard->map.entsize -= entry_memsize(entry);
             set_entry(bkt, entry2);
             notify(shardidx, NOTIFY_REPLACED, entry2, entry, now, ctx);
             entry_free(entry, ctx);
-- 
2.43.0


From 75632a420baee23034103d8f51d797f0daca812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 03/61] fix: do not release a null entry when a store runs out
 of memory

---
 src/pogocache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 36f7a3d..fb0b360 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1644,7 +1644,9 @@ static int storeop(const void *key, size_t keylen, const void *val,
         return POGOCACHE_INSERTED;
     }
 nomem:
-    entry_free(entry, ctx);
+    if (entry) {
+        entry_free(entry, ctx);
+    }
     return POGOCACHE_NOMEM;
 }
 
-- 
2.43.0


From 61f66696fd8ec661210465de6afccade43339577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 04/61] fix: clear the buckets and not the map struct when
 clear runs out of memory

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index fb0b360..81c5fb7 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -2008,7 +2008,7 @@ static int clearop(struct shard *shard, int shardidx, int64_t now,
                 }
             }
         }
-        memset(&shard->map.buckets, 0, 
+        memset(shard->map.buckets, 0, 
             sizeof(struct bucket)*shard->map.nbuckets);
         shard->map.count = 0;
         shard->map.entsize = 0;
-- 
2.43.0


From 06b3d61d5f97a15ad479f783c4d5e889d36e75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 05/61] fix: only free initialized shards when pogocache_new
 runs out of memory

---
 src/pogocache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 81c5fb7..27e4656 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1232,7 +1232,8 @@ struct pogocache *pogocache_new(struct pogocache_opts *opts) {
     ctx->free = _free;
     for (int i = 0; i < ctx->nshards; i++) {
         if (!shard_init(&cache->shards[i], ctx)) {
-            // nomem
+            // nomem. Only the previous shards have been initialized.
+            ctx->nshards = i;
             pogocache_free(cache);
             return 0;
         }
-- 
2.43.0


From 69ead5604506c6ef2808e2712d124c077a3659c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 06/61] fix: reject a scan cursor that names the shard after
 the last one

---
 src/pogocache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 27e4656..468e8ef 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1795,7 +1795,7 @@ struct pogocache_entry *pogocache_entry_iter(struct pogocache *cache,
     int nshards = pogocache_nshards(cache);
     int64_t now = time > 0 ? time : getnow();
     int shardidx = (*cursor)>>32;
-    if (shardidx < 0 || shardidx > nshards) {
+    if (shardidx < 0 || shardidx >= nshards) {
         goto notfound;
     }
     int iter = (*cursor)&0xFFFFFFFF;
-- 
2.43.0


From 7b544f1ef94c303d3d871d5478dab59e30f4526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 07/61] fix: count only stored new entries in the total

A store that failed its xx or cas condition and a cancelled delete were counted
as new entries, while a store over an expired entry was not.
---
 src/pogocache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 468e8ef..30d5a78 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -692,7 +692,7 @@ struct map {
     int growat;
     int shrinkat;
     struct bucket *buckets;
-    uint64_t total;  // current entry count
+    uint64_t total;  // number of new entries that have been stored
     size_t entsize;  // memory size of all entries
 };
 
@@ -890,7 +890,6 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
             // new entry
             map->buckets[i] = ebkt;
             map->count++;
-            map->total++;
             *old = 0;
             return true;
         }
@@ -1641,6 +1640,7 @@ static int storeop(const void *key, size_t keylen, const void *val,
             // a low memory event. Evict one entry.
             auto_evict_entry(shard, shardidx, hash, now, ctx);
         }
+        shard->map.total++;
         notify(shardidx, NOTIFY_INSERTED, entry, 0, now, ctx);
         return POGOCACHE_INSERTED;
     }
-- 
2.43.0


From 53a73d895da7836963cb3c546aa48affc4e02033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 08/61] fix: visit each entry once when an iteration deletes
 entries

Deleting an entry near the end of the table moves entries from its start to its
end, where a walk that began at bucket zero met them again: KEYS reported
duplicate keys and a sweep overcounted the kept entries.
---
 src/pogocache.c | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 30d5a78..1d6b389 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -1679,20 +1679,34 @@ int pogocache_nshards(struct pogocache *cache) {
     return cache->ctx.nshards;
 }
 
+// Returns a bucket where a walk over all buckets can start from. No entry has 
+// been pushed over into it from the bucket to its left. Deleting entries 
+// during a walk that starts there and goes around the table will never move
+// an already visited entry into a bucket that has yet to be visited.
+static int walk_start(struct map *map) {
+    int i = 0;
+    while (get_dib(&map->buckets[i]) > 1) {
+        i = (i + 1) & map->mask;
+    }
+    return i;
+}
+
 static int iterop(struct shard *shard, int shardidx, int64_t now,
     struct pogocache_iter_opts *opts, struct pgctx *ctx)
 {
     char buf[128];
     int status = POGOCACHE_FINISHED;
+    int start = walk_start(&shard->map);
     for (int i = 0; i < shard->map.nbuckets; i++) {
-        struct bucket *bkt = &shard->map.buckets[i];
+        int bidx = (start + i) & shard->map.mask;
+        struct bucket *bkt = &shard->map.buckets[bidx];
         if (get_dib(bkt) == 0) {
             continue;
         }
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
-            delbkt(&shard->map, i);
+            delbkt(&shard->map, bidx);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
             i--;
@@ -1714,7 +1728,7 @@ static int iterop(struct shard *shard, int shardidx, int64_t now,
         if (action != POGOCACHE_ITER_CONTINUE) {
             if (action&POGOCACHE_ITER_DELETE) {
                 // Delete entry at bucket
-                delbkt(&shard->map, i);
+                delbkt(&shard->map, bidx);
                 notify(shardidx, NOTIFY_DELETED, 0, entry, now, ctx);
                 entry_free(entry, ctx);
                 i--;
@@ -1759,6 +1773,17 @@ int pogocache_iter(struct pogocache *cache, struct pogocache_iter_opts *opts) {
     return POGOCACHE_FINISHED;
 }
 
+// Returns true if deleting the entry at bucket would move an entry from the 
+// start of the table to the end.
+static bool delbkt_wraps(struct map *map, int i) {
+    while (++i < map->nbuckets) {
+        if (get_dib(&map->buckets[i]) <= 1) {
+            return false;
+        }
+    }
+    return get_dib(&map->buckets[0]) > 1;
+}
+
 static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
     int shardidx, int *iter, struct pgctx *ctx)
 {
@@ -1774,6 +1799,11 @@ static struct pogocache_entry *entryiter(struct shard *shard, int64_t now,
         struct entry *entry = get_entry(bkt);
         if (!entry_alive(entry, now)) {
             // Entry has expired
+            if (delbkt_wraps(&shard->map, i)) {
+                // Leave it for later. Deleting it now causes an entry that
+                // was already returned to be returned again.
+                continue;
+            }
             delbkt(&shard->map, i);
             notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
             entry_free(entry, ctx);
@@ -1918,8 +1948,10 @@ size_t pogocache_size(struct pogocache *cache,
 static int sweepop(struct shard *shard, int shardidx, int64_t now,
     size_t *swept, size_t *kept, struct pgctx *ctx)
 {
+    int start = walk_start(&shard->map);
     for (int i = 0; i < shard->map.nbuckets; i++) {
-        struct bucket *bkt = &shard->map.buckets[i];
+        int bidx = (start + i) & shard->map.mask;
+        struct bucket *bkt = &shard->map.buckets[bidx];
         if (get_dib(bkt) == 0) {
             continue;
         }
@@ -1931,7 +1963,7 @@ static int sweepop(struct shard *shard, int shardidx, int64_t now,
             continue;
         }
         // entry is no longer alive.
-        delbkt(&shard->map, i);
+        delbkt(&shard->map, bidx);
         notify(shardidx, NOTIFY_EXPIRED, 0, entry, now, ctx);
         entry_free(entry, ctx);
         (*swept)++;
-- 
2.43.0


From dbc60520c29fc8969878656549216286b9fe8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 09/61] fix: keep more than 255 colliding keys in a shard
 intact

The distance of a bucket was kept in 8 bits and wrapped to zero, which marked
an occupied bucket as empty and lost the entries behind it.
---
 src/pogocache.c | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/pogocache.c b/src/pogocache.c
index 1d6b389..db8494e 100644
--- a/src/pogocache.c
+++ b/src/pogocache.c
@@ -809,8 +809,19 @@ static uint8_t get_dib(struct bucket *bucket) {
     return bucket->dib;
 }
 
-static void set_dib(struct bucket *bucket, uint8_t dib) {
-    bucket->dib = dib;
+// The stored dib saturates at UINT8_MAX. See bucket_dist
+static void set_dib(struct bucket *bucket, int dib) {
+    bucket->dib = dib < UINT8_MAX ? dib : UINT8_MAX;
+}
+
+// Returns the exact distance of the bucket at index, like the dib but not
+// limited to UINT8_MAX.
+static int bucket_dist(struct map *map, size_t i) {
+    int dib = get_dib(&map->buckets[i]);
+    if (dib == UINT8_MAX) {
+        dib = (int)((i - get_hash(&map->buckets[i])) & map->mask) + 1;
+    }
+    return dib;
 }
 
 static bool map_init(struct map *map, size_t cap, struct pgctx *ctx) {
@@ -839,20 +850,24 @@ static bool resize(struct map *map, size_t new_cap, struct pgctx *ctx) {
     for (int i = 0; i < map->nbuckets; i++) {
         struct bucket ebkt = map->buckets[i];
         if (get_dib(&ebkt)) {
-            set_dib(&ebkt, 1);
+            int dist = 1;
+            set_dib(&ebkt, dist);
             size_t j = get_hash(&ebkt) & map2.mask;
             while (1) {
                 if (get_dib(&map2.buckets[j]) == 0) {
                     map2.buckets[j] = ebkt;
                     break;
                 }
-                if (get_dib(&map2.buckets[j]) < get_dib(&ebkt)) {
+                int dist2 = bucket_dist(&map2, j);
+                if (dist2 < dist) {
                     struct bucket tmp = map2.buckets[j];
                     map2.buckets[j] = ebkt;
                     ebkt = tmp;
+                    dist = dist2;
                 }
                 j = (j + 1) & map2.mask;
-                set_dib(&ebkt, get_dib(&ebkt)+1);
+                dist++;
+                set_dib(&ebkt, dist);
             }
         }
     }
@@ -883,7 +898,8 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
     struct bucket ebkt;
     set_entry(&ebkt, entry);
     set_hash(&ebkt, hash);
-    set_dib(&ebkt, 1);
+    int dist = 1;
+    set_dib(&ebkt, dist);
     size_t i = hash & map->mask;
     while (1) {
         if (get_dib(&map->buckets[i]) == 0) {
@@ -903,13 +919,16 @@ static bool map_insert(struct map *map, struct entry *entry, uint32_t hash,
             set_entry(&map->buckets[i], get_entry(&ebkt));
             return true;
         }
-        if (get_dib(&map->buckets[i]) < get_dib(&ebkt)) {
+        int dist2 = bucket_dist(map, i);
+        if (dist2 < dist) {
             struct bucket tmp = map->buckets[i];
             map->buckets[i] = ebkt;
             ebkt = tmp;
+            dist = dist2;
         }
         i = (i + 1) & map->mask;
-        set_dib(&ebkt, get_dib(&ebkt)+1);
+        dist++;
+        set_dib(&ebkt, dist);
     }
 }
 
@@ -957,7 +976,7 @@ static void delbkt(struct map *map, size_t i) {
             break;
         }
         map->buckets[h] = map->buckets[i];
-        set_dib(&map->buckets[h], get_dib(&map->buckets[h])-1);
+        set_dib(&map->buckets[h], bucket_dist(map, i)-1);
     }
     map->count--;
 }
-- 
2.43.0


From 2b1396fa261f22fbd4106f7a9c7cec217425b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 10/61] fix: empty and blank arguments were accepted as the
 number zero

---
 src/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 9e01e39..142c646 100644
--- a/src/util.c
+++ b/src/util.c
@@ -310,7 +310,7 @@ uint32_t fnv1a_case(const char* buf, size_t len) {
 
 bool parse_i64(const char *data, size_t len, int64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
@@ -323,7 +323,7 @@ bool parse_i64(const char *data, size_t len, int64_t *x) {
 
 bool parse_u64(const char *data, size_t len, uint64_t *x) {
     char buf[24];
-    if (len > 21) {
+    if (len == 0 || len > 21 || isspace((unsigned char)data[0])) {
         return false;
     }
     memcpy(buf, data, len);
-- 
2.43.0


From 9bff8121664d2534f8437e5bd602a044987c1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 11/61] fix: an empty RESP length made the parser read past its
 line and the buffer

---
 src/resp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resp.c b/src/resp.c
index e9ad484..dc6c2b8 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -136,6 +136,11 @@ fail_argsz:
 static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
     bool *ok)
 {
+    if (len == 0 || isspace((unsigned char)data[0])) {
+        // strtoll skips leading spaces, including the line ending
+        *ok = false;
+        return 0;
+    }
     errno = 0;
     char *end;
     int64_t x = strtoll(data, &end, 10);
-- 
2.43.0


From d306aa97fee8fd9d6cb616b55bc78c88f93bbd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 12/61] fix: MONITOR wrote four stray bytes after each escaped
 byte

---
 src/monitor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/monitor.c b/src/monitor.c
index b80cefd..d2705e7 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -86,7 +86,7 @@ void monitor_cmd(int64_t now, int db, const char *addr, struct args *args) {
                 if (ch < 32 || ch >= 127) {
                     char hex[8];
                     snprintf(hex, 8, "\\x%02X", ch);
-                    buf_append(&buf, hex, 8);
+                    buf_append(&buf, hex, 4);
                 } else {
                     buf_append_byte(&buf, ch);
                 }
-- 
2.43.0


From 504d688fa1dc9c19d769f9181ecf4478a3b9ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 13/61] fix: removing the first argument left a second owner of
 the last one

---
 src/args.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/args.c b/src/args.c
index c3c2060..d8e8a3d 100644
--- a/src/args.c
+++ b/src/args.c
@@ -105,5 +105,7 @@ void args_remove_first(struct args *args) {
             args->bufs[i-1] = args->bufs[i];
         }
         args->len--;
+        // The last item was moved, it must not be released twice.
+        memset(&args->bufs[args->len], 0, sizeof(struct buf));
     }
 }
-- 
2.43.0


From a51704610c3c68f58249a92b2e1a1e77bf7a9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 14/61] fix: control characters in RESP errors broke the
 framing of the reply

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 4e15a82..9d79666 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -238,7 +238,7 @@ static void writeln(struct conn *conn, char ch, const void *data, ssize_t len) {
     net_conn_out_write_byte_nocheck(conn->conn5, '\r');
     net_conn_out_write_byte_nocheck(conn->conn5, '\n');
     uint8_t *out = (uint8_t*)net_conn_out(conn->conn5);
-    for (ssize_t i = mark; i < len; i++) {
+    for (size_t i = mark; i < mark+len; i++) {
         if (out[i] < ' ') {
             out[i] = ' ';
         }
-- 
2.43.0


From b318046dc9b8a3aa70fc742bd4037520fca4f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 15/61] fix: memcache add and replace must answer NOT_STORED,
 and NOT_FOUND carried a null byte

---
 src/cmds.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 8d83c2c..03eb0ed 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -122,10 +122,12 @@ static void execSET(struct conn *conn, const char *cmdname,
     switch (conn_proto(conn)) {
     case PROTO_MEMCACHE:
         if (!stored) {
-            if (status == POGOCACHE_FOUND) {
-                conn_write_raw(conn, "EXISTS\r\n", 8);
+            if (!withcas) {
+                conn_write_raw_cstr(conn, "NOT_STORED\r\n");
+            } else if (status == POGOCACHE_FOUND) {
+                conn_write_raw_cstr(conn, "EXISTS\r\n");
             } else {
-                conn_write_raw(conn, "NOT_FOUND\r\n", 12);
+                conn_write_raw_cstr(conn, "NOT_FOUND\r\n");
             }
         } else {
             conn_write_raw(conn, "STORED\r\n", 8);
-- 
2.43.0


From 18658d0effca2bea2f067c7221cc78237469dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 16/61] fix: SET EXAT and PXAT compared wall clock times with
 the monotonic clock

---
 src/cmds.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 03eb0ed..7f5dfb3 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -169,6 +169,13 @@ static int64_t expiry_seconds_time(struct conn *conn, int64_t now,
     return int64_add_clamp(now, expiry);
 }
 
+// Convert a unix time to the clock that is used for expirations.
+static int64_t unix_expires(int64_t now, int64_t unixtime) {
+    int64_t expires = int64_add_clamp(now, unixtime-sys_unixnow());
+    // A time at or before the start of the clock has expired too.
+    return expires > 0 ? expires : 1;
+}
+
 // SET key value [NX | XX] [GET] [EX seconds | PX milliseconds |
 //   EXAT unix-time-seconds | PXAT unix-time-milliseconds | KEEPTTL] 
 //   [FLAGS flags] [CAS cas] 
@@ -247,9 +254,11 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 break;
             case 3:
                 expires = int64_mul_clamp(expires, SECOND);
+                expires = unix_expires(now, expires);
                 break;
             case 4:
                 expires = int64_mul_clamp(expires, MILLISECOND);
+                expires = unix_expires(now, expires);
                 break;
             }
         skip_exkind:
-- 
2.43.0


From 22bce896d27e80f1db7ac0cb114367b2944883f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 17/61] fix: EXPIRE far in the past made a key permanent, and
 memcache touch ignored the exptime rules

---
 src/cmds.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 7f5dfb3..3165439 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -235,8 +235,9 @@ static void cmdSET(struct conn *conn, struct args *args) {
             }
             if (expires <= 0) {
                 if (conn_proto(conn) == PROTO_MEMCACHE) {
-                    // memcache allows for negative expiration
-                    expires = expiry_seconds_time(conn, now, 0);
+                    // memcache allows for negative expiration, which expires
+                    // immediately. Zero never expires.
+                    expires = expires < 0 ? now : 0;
                     goto skip_exkind;
                 } else {
                     conn_write_error(conn, "ERR invalid expire time");
@@ -1039,8 +1040,17 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         conn_write_error(conn, ERR_INVALID_INTEGER);
         return;
     }
-    expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
-    expires = int64_add_clamp(now, expires);
+    if (conn_proto(conn) == PROTO_MEMCACHE && expires <= 0) {
+        // Negative expires immediately. Zero never expires.
+        expires = expires < 0 ? now : 0;
+    } else {
+        expires = int64_mul_clamp(expires, POGOCACHE_SECOND);
+        expires = expiry_seconds_time(conn, now, expires);
+        if (expires <= 0) {
+            // Expired in the past, which must not be taken for no expiry.
+            expires = 1;
+        }
+    }
     struct pogocache_update ctx = { .expires = expires };
     struct pogocache_load_opts lopts = { 
         .time = now,
-- 
2.43.0


From 719893938330e8fe641df6ffd9906a9556e96c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 18/61] fix: memcache decr below zero must stop at zero

---
 src/cmds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 3165439..6db4df1 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1723,6 +1723,9 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
     }
     if (overflow && conn_proto(conn) != PROTO_MEMCACHE) {
         goto fail_overflow;
+    } else if (overflow && decr) {
+        // memcache increments wrap around, while decrements stop at zero.
+        ctx.uval = 0;
     }
     // re-set the value
     char val[24];
-- 
2.43.0


From 923091d18f8e035f6ac952f38adc2a28b2a6bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 19/61] fix: the command lookup ran past the end of its table

---
 src/cmds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds.c b/src/cmds.c
index 6db4df1..bc378ed 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -2396,7 +2396,7 @@ static struct cmd *get_cmd(const char *name, size_t namelen) {
         if (argeq_bytes(name, namelen, buckets[j].name)) {
             return &buckets[j];
         }
-        j++;
+        j = (j+1)&(nbuckets-1);
     }
 }
 
-- 
2.43.0


From 98841f06d8c7597b621e3df5c3f6b58725582c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 20/61] fix: DEBUG POPULATE with an empty expiry range or a
 huge size crashed the server

---
 src/cmds.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index bc378ed..8faddf7 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1344,7 +1344,7 @@ static void *populate_entry(void *arg) {
             .time = now,
         };
         if (ctx->randex) {
-            int ex = (rand()%(ctx->randmax-ctx->randmin))+ctx->randmin;
+            int64_t ex = (rand()%(ctx->randmax-ctx->randmin))+ctx->randmin;
             opts.ttl = ex*POGOCACHE_SECOND;
         }
         pogocache_store(cache, key, keylen, ctx->val, ctx->vallen, &opts);
@@ -1370,7 +1370,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
     size_t prefixlen = args->bufs[2].len;
     char *prefix = args->bufs[2].data;
     int64_t vallen;
-    if (!argi64(args, 3, &vallen) || vallen < 0) {
+    if (!argi64(args, 3, &vallen) || vallen < 0 || vallen > MAXARGSZ) {
         conn_write_error(conn, ERR_SYNTAX_ERROR);
         return;
     }
@@ -1389,6 +1389,10 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
             randex = true;
         }
         xfree(ex);
+        if (randex && (randmin < 0 || randmax <= randmin)) {
+            conn_write_error(conn, ERR_SYNTAX_ERROR);
+            return;
+        }
     }
 
     char *val = xmalloc(vallen);
-- 
2.43.0


From 9c4135e99b419be81e31bd1f09a0e407fdf79607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 21/61] fix: INCR, DECR, APPEND and PREPEND stored new keys
 past the low memory limit

---
 src/cmds.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index 8faddf7..3abd2cf 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1744,6 +1744,7 @@ static void execINCRDECR(struct conn *conn, const char *key, size_t keylen,
         .expires = ctx.expires, 
         .flags = ctx.flags, 
         .cas = ctx.cas,
+        .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         .udata = &ctx,
     };
     status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
@@ -1926,6 +1927,7 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
         len = vallen;
         struct pogocache_store_opts sopts = {
             .time = now,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, val, vallen, &sopts);
     } else {
@@ -1940,6 +1942,7 @@ static void cmdAPPEND(struct conn *conn, struct args *args) {
             .time = now,
             .expires = ctx.expires,
             .flags = ctx.flags,
+            .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         };
         status = pogocache_store(batch, key, keylen, ctx.outval, ctx.outvallen, 
             &sopts);
-- 
2.43.0


From f6426fa9b5ce2a96fd579ec7043625023fdb67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 22/61] fix: SET with NX and GET answered null for an existing
 key

---
 src/cmds.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 3abd2cf..dd33da0 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -56,6 +56,7 @@ extern struct pogocache *cache;
 
 struct set_entry_context {
     bool written;
+    bool nx;
     struct conn *conn;
     const char *cmdname;
 };
@@ -77,7 +78,8 @@ static bool set_entry(int shard, int64_t time, const void *key,
         conn_write_bulk(ctx->conn, val, vallen);
     }
     ctx->written = true;
-    return true;
+    // The NX option keeps the existing entry.
+    return !ctx->nx;
 }
 
 static void execSET(struct conn *conn, const char *cmdname, 
@@ -86,7 +88,8 @@ static void execSET(struct conn *conn, const char *cmdname,
     bool xx, bool get, bool keepttl, uint32_t flags, uint64_t cas, bool withcas)
 {
     stat_cmd_set_incr(conn);
-    struct set_entry_context ctx = { .conn = conn, .cmdname = cmdname };
+    struct set_entry_context ctx = { .conn = conn, .cmdname = cmdname, 
+        .nx = nx };
     struct pogocache_store_opts opts = {
         .time = now,
         .expires = expires,
@@ -94,7 +97,7 @@ static void execSET(struct conn *conn, const char *cmdname,
         .flags = flags,
         .keepttl = keepttl,
         .casop = withcas,
-        .nx = nx,
+        .nx = nx && !get, // otherwise see set_entry
         .xx = xx,
         .lowmem = atomic_load_explicit(&lowmem, __ATOMIC_ACQUIRE),
         .entry = get?set_entry:0,
-- 
2.43.0


From df97acabdaabe624c918543a9c5bff94c7880178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 23/61] fix: threads that could not be started were treated as
 running

---
 src/cmds.c | 12 ++++++------
 src/main.c |  6 +++---
 src/net.c  |  6 +++---
 src/save.c |  7 ++++---
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index dd33da0..d60317b 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -722,7 +722,7 @@ static void flushfast(void) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thflush, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thflush, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -835,7 +835,7 @@ static void cmdFLUSHALL(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thflush0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1153,7 +1153,7 @@ static void sweepfast(size_t *swept, size_t *kept) {
         if (i == nprocs-1) {
             ctx->count = nshards-ctx->start;
         }
-        if (pthread_create(&ctx->th, 0, thsweep, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, thsweep, ctx) != 0) {
             ctx->th = 0;
         }
         start += ctx->count;
@@ -1240,7 +1240,7 @@ static void cmdSWEEP(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thsweep0, ctx);
-        if (ret == -1) {
+        if (ret != 0) {
             xfree(ctx);
             conn_write_error(conn, "ERR failed to do work");
             return;
@@ -1303,7 +1303,7 @@ static void cmdPURGE(struct conn *conn, struct args *args) {
     if (async) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thpurge, 0);
-        if (ret == -1) {
+        if (ret != 0) {
             conn_write_error(conn, "ERR failed to do work");
             return;
         }
@@ -1423,7 +1423,7 @@ static void cmdDEBUG_populate(struct conn *conn, struct args *args) {
         ctx->randex = randex;
         ctx->randmin = randmin;
         ctx->randmax = randmax;
-        if (pthread_create(&ctx->th, 0, populate_entry, ctx) == -1) {
+        if (pthread_create(&ctx->th, 0, populate_entry, ctx) != 0) {
             ctx->th = 0;
         }
         start += group;
diff --git a/src/main.c b/src/main.c
index b3dbbbf..04bbe79 100644
--- a/src/main.c
+++ b/src/main.c
@@ -394,7 +394,7 @@ static void *autosweepticker(void *arg) {
 static void start_sigtermticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, sigtermticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(sigtermticker)");
         exit(1);
     }
@@ -403,7 +403,7 @@ static void start_sigtermticker(void) {
 static void start_memticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, memticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(memticker)");
         exit(1);
     }
@@ -412,7 +412,7 @@ static void start_memticker(void) {
 static void start_autosweepticker(void) {
     pthread_t th;
     int ret = pthread_create(&th, 0, autosweepticker, 0);
-    if (ret == -1) {
+    if (ret != 0) {
         perror("# pthread_create(autosweepticker)");
         exit(1);
     }
diff --git a/src/net.c b/src/net.c
index e822fbf..bea6950 100644
--- a/src/net.c
+++ b/src/net.c
@@ -1223,7 +1223,7 @@ void net_main(struct net_opts *opts) {
     if (!opts->nowarmup) {
         pthread_t th;
         int ret = pthread_create(&th, 0, thwarmup, opts);
-        if (ret != -1) {
+        if (ret == 0) {
             pthread_detach(th);
         }
     }
@@ -1233,7 +1233,7 @@ void net_main(struct net_opts *opts) {
             qthread(ctx);
         } else {
             int ret = pthread_create(&ctx->th, 0, qthread, ctx);
-            if (ret == -1) {
+            if (ret != 0) {
                 perror("# pthread_create");
                 abort();
             }
@@ -1284,7 +1284,7 @@ bool net_conn_bgwork(struct net_conn *conn, void (*work)(void *udata),
     conn->bgctx->work = work;
     conn->bgctx->udata = udata;
     pthread_t th;
-    if (pthread_create(&th, 0, bgwork, conn->bgctx) == -1) {
+    if (pthread_create(&th, 0, bgwork, conn->bgctx) != 0) {
         // Failed to create thread. Revert and return false.
         ret = addread(ctx->qfd, conn->fd);
         assert(ret == 0);
diff --git a/src/save.c b/src/save.c
index 39fbe9b..9c626d5 100644
--- a/src/save.c
+++ b/src/save.c
@@ -183,7 +183,7 @@ int save(const char *path, bool fast) {
             ctx->count = nshards-ctx->start;
         }
         if (nprocs > 1) {
-            if (pthread_create(&ctx->th, 0, thsave, ctx) == -1) {
+            if (pthread_create(&ctx->th, 0, thsave, ctx) != 0) {
                 ctx->th = 0;
             }
         }
@@ -444,11 +444,12 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         ctx->failure = &failure;
         ctx->blocks = blocks;
         atomic_init(&ctx->ok, true);
-        if (pthread_create(&ctx->th, 0, thload, ctx) == -1) {
+        int ret = pthread_create(&ctx->th, 0, thload, ctx);
+        if (ret != 0) {
             ctx->th = 0;
             ok = false;
             if (therrnum == 0) {
-                therrnum = errno;
+                therrnum = ret;
             }
         }
     }
-- 
2.43.0


From e2069390e8790f7c0fdf6a44c61db550f9e2f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 24/61] fix: an entry expiring exactly at load time became
 permanent

---
 src/save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 9c626d5..6a57ed3 100644
--- a/src/save.c
+++ b/src/save.c
@@ -344,7 +344,7 @@ static bool load_block(struct cblock *block, struct loadctx *ctx) {
         p += n;
         if (ttl > 0) {
             int64_t unixexpires = int64_add_clamp(unixtime, ttl);
-            if (unixexpires < unixnow) {
+            if (unixexpires <= unixnow) {
                 // already expired, skip this entry
                 ctx->nexpired++;
                 continue;
-- 
2.43.0


From a6002be457711f2d75949b2109ee503df15956a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 25/61] fix: a failed save leaked the work path

---
 src/save.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save.c b/src/save.c
index 6a57ed3..361dfed 100644
--- a/src/save.c
+++ b/src/save.c
@@ -157,6 +157,7 @@ int save(const char *path, bool fast) {
     }
     int fd = open(workpath, O_RDWR|O_CREAT, S_IRUSR|S_IRGRP|S_IROTH);
     if (fd == -1) {
+        xfree(workpath);
         return -1;
     }
     int nshards = pogocache_nshards(cache);
-- 
2.43.0


From 34e268fe26745639927beae0e980e83b5bddc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 26/61] fix: a power failure after SAVE lost both the old and
 the new snapshot

---
 src/save.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/save.c b/src/save.c
index 361dfed..e4b0ad0 100644
--- a/src/save.c
+++ b/src/save.c
@@ -146,6 +146,20 @@ done:
     return 0;
 }
 
+// Make sure that the directory entry of a renamed file is on disk.
+static bool sync_dir(const char *path) {
+    char *dpath = xmalloc(strlen(path)+1);
+    strcpy(dpath, path);
+    int fd = open(dirname(dpath), O_RDONLY);
+    xfree(dpath);
+    if (fd == -1) {
+        return false;
+    }
+    bool ok = fsync(fd) == 0;
+    close(fd);
+    return ok;
+}
+
 int save(const char *path, bool fast) {
     uint64_t seed = sys_seed();
     size_t psize = strlen(path)+32;
@@ -212,10 +226,17 @@ int save(const char *path, bool fast) {
             goto done;
         }
     }
+    // The data must be on disk before it replaces the previous file
+    if (fsync(fd) == -1) {
+        goto done;
+    }
     // Move file work file to final path
     if (rename(workpath, path) == -1) {
         goto done;
     }
+    if (!sync_dir(path)) {
+        goto done;
+    }
     ok = true;
 done:
     close(fd);
-- 
2.43.0


From ee2418361c22a9c74dcad19ec82e233f91326703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 27/61] fix: the connection map grew with every connection ever
 made

---
 src/net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net.c b/src/net.c
index bea6950..14b346c 100644
--- a/src/net.c
+++ b/src/net.c
@@ -427,6 +427,7 @@ static void cmap_delete(struct cmap *cmap, struct net_conn *conn) {
     } else {
         cmap->buckets[i] = iter->next;
     }
+    cmap->len--;
 }
 
 static atomic_size_t nconns = 0;
-- 
2.43.0


From 5367fcc50fd7bae565c275647c2bc9a7d7b9fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 28/61] fix: requests behind a background request were dropped
 when the peer stopped sending

---
 src/net.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/net.c b/src/net.c
index 14b346c..a4846ee 100644
--- a/src/net.c
+++ b/src/net.c
@@ -723,7 +723,12 @@ static void qattach(struct qthreadctx *ctx) {
         if (conn->closed) {
             ctx->qcloses[ctx->nqcloses++] = conn;
         } else {
-            ctx->qreads[ctx->nqreads++] = conn;
+            // Continue with the requests that were received earlier, before
+            // reading more data or noticing that the peer is done sending.
+            ctx->qins[ctx->nqins] = conn;
+            ctx->qinpkts[ctx->nqins] = "";
+            ctx->qinpktlens[ctx->nqins] = 0;
+            ctx->nqins++;
         }
     }
 }
-- 
2.43.0


From ad1d9612e32665c2dd3f85be424b46a191044f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 29/61] fix: memcache noreply was parsed and then ignored

---
 src/conn.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 9d79666..1f6a868 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -76,6 +76,15 @@ void evclosed(struct net_conn *conn5, void *udata) {
     xfree(conn);
 }
 
+// Discard the reply of a memcache command that had the noreply option.
+static void discard_noreply(struct conn *conn, size_t outlen) {
+    if (conn->proto == PROTO_MEMCACHE && conn->noreply && 
+        net_conn_out_len(conn->conn5) > outlen)
+    {
+        net_conn_out_setlen(conn->conn5, outlen);
+    }
+}
+
 // network data handler
 // The evlen may be zero when returning from a bgwork routine, while having
 // existing data in the connection packet.
@@ -155,7 +164,9 @@ void evdata(struct net_conn *conn5, const void *evdata, size_t evlen,
         } else if (conn->proto != PROTO_POSTGRES || 
             pg_precommand(conn, &conn->args, conn->pg))
         {
+            size_t outlen = net_conn_out_len(conn5);
             evcommand(conn, &conn->args);
+            discard_noreply(conn, outlen);
         }
         len -= n;
         data += n;
@@ -205,7 +216,9 @@ static void work5(void *udata) {
 static void done5(struct net_conn *conn, void *udata) {
     (void)conn;
     struct bgworkctx *ctx = udata;
+    size_t outlen = net_conn_out_len(ctx->conn->conn5);
     ctx->done(ctx->conn, ctx->udata);
+    discard_noreply(ctx->conn, outlen);
     xfree(ctx);
 }
 
-- 
2.43.0


From ea545efe73e1510dd30105d16e450bbfbc727231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 30/61] fix: memcache storage commands with missing arguments
 read past the arguments

---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 7fd2333..789d2e3 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -206,7 +206,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
     if (is_mc_store_cmd(cmd)) {
         // Store commands include 'set', 'add', 'replace', 'append', 'prepend',
         // and 'cas'.
-        if ((cmd == MC_CAS && args->len != 6) && 
+        if ((cmd == MC_CAS && args->len != 6) || 
             (cmd != MC_CAS && args->len != 5))
         {
             parse_seterror("ERROR");
-- 
2.43.0


From 9499e3f8a4e9a1c68ce463b492ed066f2bf3fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 31/61] fix: a space between the carriage return and the
 newline of a memcache line crashed the server

---
 src/memcache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memcache.c b/src/memcache.c
index 789d2e3..8983a29 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -74,6 +74,7 @@ static ssize_t parse_memcache_telnet(const char *data, size_t len,
             // if (wn > 0) {
             args_append(args, s, wn, true);
             s = p;
+            last = ch;
             continue;
         }
         if (ch == '\n') {
-- 
2.43.0


From 6838353c89bcbdd15824712edebdb1a2820f2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 32/61] fix: memcache verbosity without an argument read past
 the arguments

---
 src/memcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache.c b/src/memcache.c
index 8983a29..69ddc0b 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -462,7 +462,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
         args_append(&args2, "version", 7, true);
         *noreply = false;
     } else if (cmd == MC_VERBOSITY) {
-        if (args->len > 2) {
+        if (args->len != 2) {
             parse_seterror("ERROR");
             return -1;
         }
-- 
2.43.0


From 426f30f0e3f5a136412d4dbc2e3149c4ffaac43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 33/61] fix: flags that do not fit were silently cut to 32 bits

---
 src/cmds.c     | 4 ++--
 src/memcache.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index d60317b..ea4f36c 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -281,10 +281,10 @@ static void cmdSET(struct conn *conn, struct args *args) {
                 goto err_syntax;
             }
             uint64_t x;
-            if (!argu64(args, i, &x)) {
+            if (!argu64(args, i, &x) || x > UINT32_MAX) {
                 goto err_syntax;
             }
-            flags = x&UINT32_MAX;
+            flags = x;
         } else if (argeq(args, i, "cas")) {
             i++;
             if (i == args->len) {
diff --git a/src/memcache.c b/src/memcache.c
index 69ddc0b..783286a 100644
--- a/src/memcache.c
+++ b/src/memcache.c
@@ -220,7 +220,7 @@ ssize_t parse_memcache(const char *data, size_t len, struct args *args,
             return -1;
         }
         int64_t x;
-        if (!argi64(args, 2, &x) || x < 0) {
+        if (!argi64(args, 2, &x) || x < 0 || x > UINT32_MAX) {
             parse_seterror(CLIENT_ERROR_BAD_FORMAT);
             return -1;
         }
-- 
2.43.0


From 526b9e34ae494d5f61569e5ff5d81662123db20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 34/61] fix: a first request line that arrived in pieces was
 refused

---
 src/parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 7b928c3..4900718 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -56,6 +56,11 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
             break;
         }
     }
+    if (n == 0 && len <= MAXARGSZ) {
+        // The first line is not complete yet.
+        *proto = 0;
+        return true;
+    }
     // Look for " HTTP/*.*\r\n" suffix
     if (n >= 11 && memcmp(data+n-11, " HTTP/", 5) == 0 && 
         data[n-4] == '.' && data[n-2] == '\r')
@@ -65,7 +70,7 @@ static bool sniff_proto(const char *data, size_t len, int *proto) {
     }
     // Trim the prefix, Resp+Telnet and Memcache both allow for spaces between
     // arguments.
-    while (*data == ' ') {
+    while (n > 0 && *data == ' ') {
         data++;
         n--;
         len--;
-- 
2.43.0


From 3d93a4e9872c82340b480d3fe848138f80c04424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 35/61] fix: HTTP requests without headers hung, and headers
 split at their end were refused

---
 src/http.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/http.c b/src/http.c
index 7b786af..bf111e2 100644
--- a/src/http.c
+++ b/src/http.c
@@ -112,8 +112,24 @@ ssize_t parse_http(const char *data, size_t len, struct args *args,
 readhdrs:
     // Parse the headers, pulling the pairs along the way.
     while (p < e) {
+        if (*p == '\r') {
+            // An empty line ends the headers
+            p++;
+            if (p == e) {
+                break;
+            }
+            if (*p != '\n') {
+                goto badreq;
+            }
+            p++;
+            goto readbody;
+        }
         hdrname = p;
         while (p < e) {
+            if (*p == '\n') {
+                // header without a colon
+                goto badreq;
+            }
             if (*p == ':') {
                 hdrnamelen = p-hdrname;
                 p++;
@@ -158,15 +174,6 @@ readhdrs:
                             authhdrlen = hdrvallen;
                         }
                         p++;
-                        if (p < e && *p == '\r') {
-                            p++;
-                            if (p < e && *p == '\n') {
-                                p++;
-                            } else {
-                                goto badreq;
-                            }
-                            goto readbody;
-                        }
                         break;
                     }
                     p++;
-- 
2.43.0


From 176d74b138ec31723ab7882bf40dbbf1648a39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 36/61] fix: unsupported HTTP methods were answered with Bad
 Request

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index bf111e2..bb24441 100644
--- a/src/http.c
+++ b/src/http.c
@@ -325,7 +325,7 @@ readbody:
         args_append(args, uri, urilen, true);
     } else {
         parse_seterror("Method Not Allowed");
-        goto badreq;
+        return -1;
     }
 
     // Check authorization
-- 
2.43.0


From ffec0de2e970b2aeabbe3d6fefd8212a945b9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 37/61] fix: a trailing ampersand made the last HTTP query
 parameter be ignored

---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index bb24441..98bbe1b 100644
--- a/src/http.c
+++ b/src/http.c
@@ -260,7 +260,7 @@ readbody:
             } else if (query[i] == '&' || i == querylen-1) {
                 qval = 0;
                 qvallen = 0;
-                if (i == querylen-1) {
+                if (query[i] != '&') {
                     i++;
                 }
                 k = i;
-- 
2.43.0


From f8987f4267ee2d928c021b74282a42d937a72953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 38/61] fix: HTTP bodies in chunked encoding were silently
 stored as empty values

---
 src/http.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http.c b/src/http.c
index 98bbe1b..57fb8c9 100644
--- a/src/http.c
+++ b/src/http.c
@@ -156,6 +156,11 @@ readhdrs:
                             }
                             bodylen = x;
                             nocontentlength = false;
+                        } else if (argeq_bytes(hdrname, hdrnamelen,
+                            "transfer-encoding"))
+                        {
+                            // Not supported. The body length is unknown.
+                            goto badreq;
                         } else if (argeq_bytes(hdrname, hdrnamelen,
                             "connection"))
                         {
-- 
2.43.0


From 9d0cd026aaede6263a2e67e59039369d371a9dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 39/61] fix: HTTP bodies with a malformed or contradictory
 length were stored cut off

---
 src/http.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index 57fb8c9..0a4bd87 100644
--- a/src/http.c
+++ b/src/http.c
@@ -10,6 +10,7 @@
 //
 // Unit http.c provides the parser for the HTTP wire protocol.
 #define _GNU_SOURCE  
+#include <ctype.h>
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -132,6 +133,9 @@ readhdrs:
             }
             if (*p == ':') {
                 hdrnamelen = p-hdrname;
+                if (hdrnamelen == 0 || isspace((unsigned char)*(p-1))) {
+                    goto badreq;
+                }
                 p++;
                 while (p < e && *p == ' ') {
                     p++;
@@ -149,7 +153,8 @@ readhdrs:
                         if (argeq_bytes(hdrname, hdrnamelen, "content-length")){
                             uint64_t x;
                             if (!parse_u64(hdrval, hdrvallen, &x) || 
-                                x > MAXARGSZ)
+                                x > MAXARGSZ || 
+                                (!nocontentlength && x != bodylen))
                             {
                                 stat_store_too_large_incr(0);
                                 goto badreq;
-- 
2.43.0


From c6a55b770490ddacf5016d677de4a4eb7ffa3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 40/61] fix: a Postgres message with an invalid length was read
 out of bounds

---
 src/postgres.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index c24de1c..f263a5c 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1069,7 +1069,12 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
         return 0;
     }
     int msgbyte = data[0];
-    size_t msglen = read_i32(data+1);
+    int32_t nbytes = read_i32(data+1);
+    if (nbytes < 4) {
+        parse_errorf("invalid message");
+        return -1;
+    }
+    size_t msglen = nbytes;
     if (len < msglen+1) {
         return 0;
     }
-- 
2.43.0


From e6791906d6949049f2b08745b4d15aa1dae801dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 41/61] fix: Postgres strings with doubled quotes were taken as
 empty

---
 src/postgres.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index f263a5c..8728877 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -150,7 +150,7 @@ static void arg_append_unescape_simplestr(struct args *args, const char *str,
 {
     size_t str2len = 0;
     char *str2 = xmalloc(slen+1);
-    for (size_t i = 0; i < str2len; i++) {
+    for (size_t i = 0; i < slen; i++) {
         if (str[i] == '\'' && str[i+1] == '\'') {
             i++;
         }
-- 
2.43.0


From 8ec45b183de048289a8d566c6849b67669e0c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 42/61] fix: escaped quotes vanished from Postgres escape
 strings

---
 src/postgres.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index 8728877..f937b08 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -413,8 +413,7 @@ static inline int encode_codepoint(uint8_t dst[], uint32_t cp) {
             } \
             ii--; \
             continue; \
-        default: \
-            continue; \
+        default: ch = (jstr)[ii]; break; \
         }; \
         if (1) f \
     } \
-- 
2.43.0


From 632232b559c6b181d6c7ab69a524708d65b4e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 43/61] fix: some surrogate pairs in Postgres escape strings
 decoded to other characters

---
 src/postgres.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index f937b08..829dbef 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -337,12 +337,12 @@ static uint32_t decode_hex(const uint8_t *str) {
 }
 
 static bool is_surrogate(uint32_t cp) {
-    return cp > 55296 && cp < 57344;
+    return cp >= 55296 && cp < 57344;
 }
 
 static uint32_t decode_codepoint(uint32_t cp1, uint32_t cp2) {
-    return cp1 > 55296  && cp1 < 56320 && cp2 > 56320 && cp2 < 57344 ?
-        ((cp1 - 55296) << 10) | ((cp2 - 56320) + 65536) :
+    return cp1 >= 55296  && cp1 < 56320 && cp2 >= 56320 && cp2 < 57344 ?
+        (((cp1 - 55296) << 10) | (cp2 - 56320)) + 65536 :
         65533;
 }
 
-- 
2.43.0


From ccd0f3f956cdf2386340b61bf163b064797edfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 44/61] fix: Postgres queries that use a parameter twice were
 refused

---
 src/postgres.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/postgres.c b/src/postgres.c
index 829dbef..5c3589a 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -479,15 +479,6 @@ static void pmap_grow(struct pmap *map) {
     map->nbuckets = nbuckets2;
 }
 
-static void pmap_insert(struct pmap *map, uint16_t param) {
-    assert(param != 0);
-    if (map->count == (map->nbuckets>>1)+(map->nbuckets>>2)) {
-        pmap_grow(map);
-    }
-    pmap_insert0(map->buckets, map->nbuckets, param);
-    map->count++;
-}
-
 static bool pmap_exists(struct pmap *map, uint16_t param) {
     uint16_t hash = mix13(param);
     int i = hash%map->nbuckets;
@@ -502,6 +493,18 @@ static bool pmap_exists(struct pmap *map, uint16_t param) {
     }
 }
 
+static void pmap_insert(struct pmap *map, uint16_t param) {
+    assert(param != 0);
+    if (pmap_exists(map, param)) {
+        return;
+    }
+    if (map->count == (map->nbuckets>>1)+(map->nbuckets>>2)) {
+        pmap_grow(map);
+    }
+    pmap_insert0(map->buckets, map->nbuckets, param);
+    map->count++;
+}
+
 static bool parse_query_args(const char *query, struct args *args, 
     int *nparams, struct buf *argtypes)
 {
-- 
2.43.0


From ac7e3f1a51fa63e33959bfbf94215ecb43a2d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 45/61] fix: Postgres sessions asked for the password again
 after authentication

---
 src/postgres.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/postgres.c b/src/postgres.c
index 5c3589a..3f5516f 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1478,6 +1478,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
         conn_setauth(conn, true);
         write_auth_ok(conn, pg);
         pg->auth = 0;
+        pg->startup = 0;
         return true;
     }
     if (pg->startup == 1) {
-- 
2.43.0


From 338cd9f68e089bd9a13d97b2926d82a10b1b59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 46/61] fix: repeated Postgres startup messages leaked memory

---
 src/postgres.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/postgres.c b/src/postgres.c
index 3f5516f..647e993 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1166,6 +1166,9 @@ static ssize_t parse_magic_proto3(const char *data, size_t len, struct pg *pg) {
             client_encoding);
         return -1;
     }
+    xfree(pg->user);
+    xfree(pg->database);
+    xfree(pg->application_name);
     pg->user = xmalloc(strlen(user)+1);
     strcpy((char*)pg->user, user);
     pg->database = xmalloc(strlen(database)+1);
-- 
2.43.0


From 07aefca2d0d7963d8f8da103e058bbbc80f715fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 47/61] fix: an error in a Postgres extended sequence was
 followed by further replies before the sync

---
 src/postgres.c | 18 ++++++++++++++++++
 src/postgres.h |  3 ++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/postgres.c b/src/postgres.c
index 647e993..dc0ae1e 100644
--- a/src/postgres.c
+++ b/src/postgres.c
@@ -1080,8 +1080,22 @@ static ssize_t parse_message(const char *data, size_t len, struct args *args,
     if (len < msglen+1) {
         return 0;
     }
+    if (pg->failed && msgbyte != 'S' && msgbyte != 'X') {
+        // Skip all messages between an error and the next sync.
+        return msglen+1;
+    }
     msglen -= 4;
     data += 5;
+    if (pg->ready) {
+        // A reply to an extended message has its ready sent upon sync.
+        if (msgbyte == 'Q') {
+            pg->execute = 0;
+        } else if (msgbyte == 'P' || msgbyte == 'B' || msgbyte == 'D' || 
+            msgbyte == 'E')
+        {
+            pg->execute = 1;
+        }
+    }
     ssize_t ret;
     switch (msgbyte) {
     case 'Q':
@@ -1456,6 +1470,7 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
     if (pg->sync) {
         dprintf("====== pg_respond(pg->sync) =====\n");
         pg->execute = 0;
+        pg->failed = 0;
         pg_write_ready(conn, 'I');
         pg->sync = 0;
         return true;
@@ -1497,6 +1512,9 @@ bool pg_respond(struct conn *conn, struct pg *pg) {
 }
 
 void pg_write_error(struct conn *conn, const char *msg) {
+    if (pg_execute(conn)) {
+        conn_pg(conn)->failed = 1;
+    }
     size_t msglen = strlen(msg);
     size_t size = 1+4;
     size += 1+5+1;      // 'S' "ERROR" \0
diff --git a/src/postgres.h b/src/postgres.h
index e505699..28e40ec 100644
--- a/src/postgres.h
+++ b/src/postgres.h
@@ -37,7 +37,8 @@ struct pg {
     bool describe; // describe message received
     bool parse;
     bool bind;
-    bool execute;
+    bool execute;  // in an extended sequence, ready is sent upon sync
+    bool failed;   // skip the rest of the extended sequence
     bool close;
     bool sync;
     bool empty_query;
-- 
2.43.0


From e35d4b65162279c56cb117e0350c30d5cf60633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 48/61] fix: --autosweep no was refused or ignored depending on
 --cas

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 04bbe79..4847916 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,7 +644,7 @@ int main(int argc, char *argv[]) {
 
     if (strcmp(autosweep, "yes") == 0) {
         useautosweep = true;
-    } else if (strcmp(usecas, "no") == 0) {
+    } else if (strcmp(autosweep, "no") == 0) {
         useautosweep = false;
     } else {
         INVALID_FLAG("autosweep", autosweep);
-- 
2.43.0


From f4b1d0215cbadbd2e0ca56385ba48359ecbd8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 49/61] fix: --evict no and --sixpack no had no effect

---
 README.md  | 2 +-
 src/main.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 30269d1..da97eb1 100644
--- a/README.md
+++ b/README.md
@@ -147,7 +147,7 @@ Advanced options:
   --uring yes/no         use uring (linux)              (default: yes)
   --loadfactor percent   hashmap load factor            (default: 75)
   --autosweep yes/no     automatic eviction sweeps      (default: yes)
-  --keysixpack yes/no    sixpack compress keys          (default: yes)
+  --sixpack yes/no       sixpack compress keys          (default: yes)
   --cas yes/no           use compare and store          (default: no)
 ```
 
diff --git a/src/main.c b/src/main.c
index 4847916..5d27fea 100644
--- a/src/main.c
+++ b/src/main.c
@@ -754,6 +754,8 @@ int main(int argc, char *argv[]) {
         .nshards = nshards,
         .loadfactor = loadfactor,
         .usecas = usecasflag,
+        .nosixpack = !usesixpack,
+        .noevict = !useevict,
         .allowshrink = true,
         .usethreadbatch = true,
     };
-- 
2.43.0


From 94671a6253c17facae60d64f1ea55f566d824299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 50/61] fix: RESP lengths with many leading zeros were refused
 only when they arrived in pieces

---
 src/resp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resp.c b/src/resp.c
index dc6c2b8..3716c35 100644
--- a/src/resp.c
+++ b/src/resp.c
@@ -150,7 +150,7 @@ static int64_t read_num(const char *data, size_t len, int64_t min, int64_t max,
 
 #define read_resp_num(var, min, max, errmsg) { \
     char *p = memchr(bytes, '\r', end-bytes); \
-    if (!p) { \
+    if (!p || p-bytes > 32) { \
         if (end-bytes > 32) { \
             parse_seterror("ERR Protocol error: " errmsg); \
             return -1; \
-- 
2.43.0


From 139c4879481fee5b6bee8d74912ef0bf9bebf080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 51/61] fix: glob matching took an escaped ? for a wildcard,
 gave up after 127 stars and could need exponential time

---
 src/util.c | 52 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/util.c b/src/util.c
index 142c646..eb2f9cf 100644
--- a/src/util.c
+++ b/src/util.c
@@ -402,33 +402,45 @@ void binprint(const void *bin, size_t len) {
 
 // pattern matcher
 // see https://github.com/tidwall/match.c
+// Upon a mismatch only the last star needs to take in another character, thus
+// the work is at most plen*slen.
 bool match(const char *pat, size_t plen, const char *str, size_t slen,
     int depth)
 {
-    while (plen > 0) {
-        if (pat[0] == '\\') {
-            if (plen == 1) return false;
-            pat++; plen--; 
-        } else if (pat[0] == '*') {
-            if (plen == 1) return true;
-            if (pat[1] == '*') {
-                pat++; plen--;
+    (void)depth;
+    bool star = false;
+    size_t starp = 0; // pattern position following the last star
+    size_t stars = 0; // string position that was tried for the last star
+    size_t p = 0;
+    size_t s = 0;
+    while (1) {
+        if (p < plen && pat[p] == '*') {
+            p++;
+            star = true;
+            starp = p;
+            stars = s;
+            continue;
+        }
+        if (s == slen) {
+            return p == plen;
+        }
+        if (p < plen) {
+            bool esc = pat[p] == '\\';
+            if (esc ? (p+1 < plen && pat[p+1] == str[s]) :
+                      (pat[p] == '?' || pat[p] == str[s]))
+            {
+                p += esc ? 2 : 1;
+                s++;
                 continue;
             }
-            if (depth == 127) {
-                return false;
-            }
-            if (match(pat+1, plen-1, str, slen, depth+1)) return true;
-            if (slen == 0) return false;
-            str++; slen--;
-            continue;
         }
-        if (slen == 0) return false;
-        if (pat[0] != '?' && str[0] != pat[0]) return false;
-        pat++; plen--;
-        str++; slen--;
+        if (!star) {
+            return false;
+        }
+        p = starp;
+        stars++;
+        s = stars;
     }
-    return slen == 0 && plen == 0;
 }
 
 // Convert an arg to a c-string. 
-- 
2.43.0


From ff318f5f517b47aab53ec879d8730d90be9b0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 52/61] fix: saving a shard larger than 2 GB wrote an empty
 block and reported success

---
 src/save.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index e4b0ad0..feb04f4 100644
--- a/src/save.c
+++ b/src/save.c
@@ -33,6 +33,12 @@
 #define BLOCKSIZE 1048576
 #define COMPRESS
 
+// A block is written out when it grows beyond this size, because a block
+// that is larger than LZ4_MAX_INPUT_SIZE cannot be compressed.
+#ifndef MAXBLOCKSIZE
+#define MAXBLOCKSIZE 536870912
+#endif
+
 extern struct pogocache *cache;
 extern const int verb;
 
@@ -48,6 +54,7 @@ struct savectx {
     int errnum;            // final errno status
     struct buf dst;        // compressed buffer space
     size_t nentries;       // number of entried in block buffer
+    int64_t unixtime;      // unix timestamp of the current shard
 };
 
 static int flush(struct savectx *ctx) {
@@ -62,6 +69,10 @@ static int flush(struct savectx *ctx) {
     // Compress the block
     uint32_t len = LZ4_compress_default((char*)ctx->buf.data, 
         (char*)ctx->dst.data+16, ctx->buf.len, bounds);
+    if (len == 0) {
+        errno = EFBIG;
+        return -1;
+    }
     // The block is now compressed.
     // Genreate a checksum of the compressed data.
     uint32_t crc = crc32(ctx->dst.data+16, len);
@@ -114,6 +125,13 @@ static int save_entry(int shard, int64_t time, const void *key, size_t keylen,
     buf_append_uvarint(&ctx->buf, flags);
     buf_append_uvarint(&ctx->buf, cas);
     ctx->nentries++;
+    if (ctx->buf.len >= MAXBLOCKSIZE) {
+        if (flush(ctx) == -1) {
+            return POGOCACHE_ITER_STOP;
+        }
+        // the next block of the same shard
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
+    }
     return POGOCACHE_ITER_CONTINUE;
 }
 
@@ -129,7 +147,8 @@ static void *thsave(void *arg) {
             .udata = ctx,
         };
         // write the unix timestamp before entries
-        buf_append_uvarint(&ctx->buf, sys_unixnow());
+        ctx->unixtime = sys_unixnow();
+        buf_append_uvarint(&ctx->buf, ctx->unixtime);
         int status = pogocache_iter(cache, &opts);
         if (status == POGOCACHE_CANCELED) {
             goto done;
-- 
2.43.0


From 14b159326a9224d9f88885d09428cf6ee1ef411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 53/61] fix: a damaged block length made LOAD allocate
 gigabytes and abort when that failed

---
 src/save.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/save.c b/src/save.c
index feb04f4..12064b4 100644
--- a/src/save.c
+++ b/src/save.c
@@ -529,11 +529,20 @@ int load(const char *path, bool fast, struct load_stats *stats) {
         memcpy(&crc, head+4, 4);
         size_t dlen = read_u32(head+8);
         size_t clen = read_u32(head+12);
-        buf_ensure(&cdata, clen);
+        if (dlen > clen*255) {
+            // more than any compressed data of that length can hold
+            printf(". bad block size\n");
+            ok = false;
+            break;
+        }
         bool okread = true;
         size_t total = 0;
         while (total < clen) {
-            ssize_t rlen = read(fd, cdata.data+total, clen-total);
+            // Do not trust the length before the data has been seen.
+            size_t rmax = clen-total < BLOCKSIZE ? clen-total : BLOCKSIZE;
+            cdata.len = total;
+            buf_ensure(&cdata, rmax);
+            ssize_t rlen = read(fd, cdata.data+total, rmax);
             if (rlen <= 0) {
                 shortread = true;
                 okread = false;
-- 
2.43.0


From dda56413d153dbd558f4841df45a2090eadd79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 54/61] fix: work files were not removed on file systems that
 do not report file types

---
 src/save.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/save.c b/src/save.c
index 12064b4..840f1ff 100644
--- a/src/save.c
+++ b/src/save.c
@@ -21,6 +21,7 @@
 #include <fcntl.h>
 #include <dirent.h>
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <libgen.h>
 #include "save.h"
 #include "pogocache.h"
@@ -654,7 +655,7 @@ bool cleanwork(const char *persist) {
     }
     struct dirent *entry;
     while ((entry = readdir(dir))) {
-        if (entry->d_type != DT_REG) {
+        if (entry->d_type != DT_REG && entry->d_type != DT_UNKNOWN) {
             continue;
         }
         const char *ext = ".pogocache.work";
@@ -666,6 +667,14 @@ bool cleanwork(const char *persist) {
         size_t filepathcap = strlen(dirpath)+1+strlen(entry->d_name)+1;
         char *filepath = xmalloc(filepathcap);
         snprintf(filepath, filepathcap, "%s/%s", dirpath, entry->d_name);
+        // Not every file system reports the type of its entries
+        struct stat st;
+        if (entry->d_type == DT_UNKNOWN && 
+            (lstat(filepath, &st) == -1 || !S_ISREG(st.st_mode)))
+        {
+            xfree(filepath);
+            continue;
+        }
         if (unlink(filepath) == 0) {
             printf("# deleted work file %s\n", filepath);
         } else {
-- 
2.43.0


From a39499ebb6fa2fedbd864c59d5ad61baae4c765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 55/61] fix: set TCP_QUICKACK at the TCP level

---
 src/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net.c b/src/net.c
index a4846ee..59824a4 100644
--- a/src/net.c
+++ b/src/net.c
@@ -76,7 +76,7 @@ static int settcpnodelay(int fd, bool nodelay) {
 static int setquickack(int fd, bool quickack) {
 #if defined(__linux__)
     int val = quickack;
-    return setsockopt(fd, SOL_SOCKET, TCP_QUICKACK, &val, sizeof(val));
+    return setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &val, sizeof(val));
 #else
     (void)fd, (void)quickack;
     return 0;
-- 
2.43.0


From b406b347228bb4ba47b53728b5b0bf7c4c8ee7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 56/61] fix: clamp numeric program options instead of letting
 them wrap

---
 src/main.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5d27fea..54b1879 100644
--- a/src/main.c
+++ b/src/main.c
@@ -14,6 +14,7 @@
 #include <inttypes.h>
 #include <stdio.h>
 #include <errno.h>
+#include <limits.h>
 #include <assert.h>
 #include <math.h>
 #include <string.h>
@@ -186,6 +187,12 @@ static void showversion(FILE *file) {
 #endif
 }
 
+// Convert a numeric option to an int. Numbers that do not fit are clamped.
+static int parse_int(const char *flag) {
+    long long x = strtoll(flag, 0, 10);
+    return x < INT_MIN ? INT_MIN : x > INT_MAX ? INT_MAX : x;
+}
+
 static size_t calc_memlimit(char *maxmemory) {
     if (strcmp(maxmemory, "unlimited") == 0) {
         return SIZE_MAX;
@@ -509,10 +516,10 @@ int main(int argc, char *argv[]) {
             TFLAG("-vv", verb = 2)
             TFLAG("-vvv", verb = 3)
             AFLAG("port", port = flag)
-            AFLAG("threads", nthreads = atoi(flag))
-            AFLAG("shards", nshards = atoi(flag))
-            AFLAG("backlog", backlog = atoi(flag))
-            AFLAG("queuesize", queuesize = atoi(flag))
+            AFLAG("threads", nthreads = parse_int(flag))
+            AFLAG("shards", nshards = parse_int(flag))
+            AFLAG("backlog", backlog = parse_int(flag))
+            AFLAG("queuesize", queuesize = parse_int(flag))
             AFLAG("maxmemory", maxmemory = flag)
             AFLAG("evict", evict = flag)
             AFLAG("reuseport", reuseport = flag)
@@ -522,8 +529,8 @@ int main(int argc, char *argv[]) {
             AFLAG("quickack", quickack = flag)
             AFLAG("trackallocs", trackallocs = flag)
             AFLAG("cas", usecas = flag)
-            AFLAG("maxconns", maxconns = atoi(flag))
-            AFLAG("loadfactor", loadfactor = atoi(flag))
+            AFLAG("maxconns", maxconns = parse_int(flag))
+            AFLAG("loadfactor", loadfactor = parse_int(flag))
             AFLAG("sixpack", keysixpack = flag)
             AFLAG("seed", seed = strtoull(flag, 0, 10))
             AFLAG("auth", auth = flag)
@@ -540,7 +547,7 @@ int main(int argc, char *argv[]) {
             AFLAG("tlskey", tlskeyfile = flag)
 #endif
             // Hidden or alternative flags
-            BFLAG("-t", nthreads = atoi(flag))  // --threads=<num>
+            BFLAG("-t", nthreads = parse_int(flag))  // --threads=<num>
             BFLAG("-m", maxmemorymb = flag)     // --maxmemory=<mb>M
             TFLAG("-M", evict = "no")           // --evict=no
             END_FLAGS()
-- 
2.43.0


From 46a60f8a9a1d81ae912b091e3e986677693a3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 57/61] fix: treat a maxmemory that does not fit as unlimited

---
 src/main.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index 54b1879..3fe563f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -193,6 +193,11 @@ static int parse_int(const char *flag) {
     return x < INT_MIN ? INT_MIN : x > INT_MAX ? INT_MAX : x;
 }
 
+// Convert to a size. Sizes that do not fit are the same as unlimited.
+static size_t memsize(double size) {
+    return size < (double)SIZE_MAX ? size : SIZE_MAX;
+}
+
 static size_t calc_memlimit(char *maxmemory) {
     if (strcmp(maxmemory, "unlimited") == 0) {
         return SIZE_MAX;
@@ -214,17 +219,17 @@ static size_t calc_memlimit(char *maxmemory) {
         (tolower(end[0])==c&& (!end[1]||(tolower(end[1])=='b'&&!end[2])))
 
     if (strcmp(end, "") == 0) {
-        return mem;
+        return memsize(mem);
     } else if (strcmp(end, "%") == 0) {
-        return (((double)mem)/100.0) * sysmem;
+        return memsize((((double)mem)/100.0) * sysmem);
     } else if (exteq('k')) {
-        return mem*1024.0;
+        return memsize(mem*1024.0);
     } else if (exteq('m')) {
-        return mem*1024.0*1024.0;
+        return memsize(mem*1024.0*1024.0);
     } else if (exteq('g')) {
-        return mem*1024.0*1024.0*1024.0;
+        return memsize(mem*1024.0*1024.0*1024.0);
     } else if (exteq('t')) {
-        return mem*1024.0*1024.0*1024.0*1024.0;
+        return memsize(mem*1024.0*1024.0*1024.0*1024.0);
     }
 fail:
     fprintf(stderr, "# Invalid maxmemory '%s'\n", oval);
-- 
2.43.0


From 3ac7e0689f1c17fb8290b6c73e8e68884066a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 58/61] fix: refuse a unix socket path that is too long

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 3fe563f..e12f7bb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -24,6 +24,7 @@
 #include <unistd.h>
 #include <ctype.h>
 #include <pthread.h>
+#include <sys/un.h>
 #include "net.h"
 #include "conn.h"
 #include "sys.h"
@@ -742,6 +743,10 @@ int main(int argc, char *argv[]) {
         tls_init();
     }
 
+    if (strlen(unixsock) >= sizeof(((struct sockaddr_un*)0)->sun_path)) {
+        INVALID_FLAG("s", unixsock);
+    }
+
     if (!*port && !*tlsport && !*unixsock) {
         printf("Need to specify at least one valid port, tlsport or socket option\n");
         exit(1);
-- 
2.43.0


From f4941dc2241baecca69373253e205dd109cba619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:37 +0000
Subject: [PATCH 59/61] fix: a short read of a block header made loading fail

read(2) may return less than what was asked for. The body of a block was
already read in a loop, the header was not.
---
 src/save.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/save.c b/src/save.c
index 840f1ff..76509e6 100644
--- a/src/save.c
+++ b/src/save.c
@@ -509,11 +509,20 @@ int load(const char *path, bool fast, struct load_stats *stats) {
     bool shortread = false;
     while (ok) {
         uint8_t head[16];
-        ssize_t size = read(fd, head, 16);
-        if (size <= 0) {
-            if (size == -1) {
-                ok = false;
+        ssize_t size = 0;
+        ssize_t n;
+        do {
+            // A read may return less than what was asked for.
+            n = read(fd, head+size, 16-size);
+            if (n > 0) {
+                size += n;
             }
+        } while (n > 0 && size < 16);
+        if (n == -1) {
+            ok = false;
+            break;
+        }
+        if (size == 0) {
             break;
         }
         if (size < 16) {
-- 
2.43.0


From 76b88bd7b1ffff1e85ba36019836f7b5af4c0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 60/61] fix: do not start empty when the snapshot cannot be
 accessed

A failing access() other than for a missing file was taken for no snapshot:
the server started without data and replaced the snapshot at the next save.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index e12f7bb..6fbf4f2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -455,6 +455,10 @@ static void listening(void *udata) {
                 stats.csize/1024.0/1024.0, elapsed, 
                 (stats.ninserted+stats.nexpired)/elapsed, 
                 stats.csize/1024.0/1024.0/elapsed);
+        } else if (errno != ENOENT) {
+            // There may be a file. Do not overwrite it later on.
+            perror("# Load failed");
+            _Exit(1);
         }
     }
     atomic_store(&loaded, true);
-- 
2.43.0


From a6867b9d9a88d027c714a85accb47d620418373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 61/61] fix: count the memcache touch command in the statistics

touch is executed as EXPIRE, which counted neither cmd_touch nor its hits and
misses.
---
 src/cmds.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmds.c b/src/cmds.c
index ea4f36c..9c54109 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -1069,9 +1069,13 @@ static void cmdEXPIRE(struct conn *conn, struct args *args) {
         pg_write_ready(conn, 'I');
         break;
     case PROTO_MEMCACHE:
+        // This is the memcache 'touch' command.
+        stat_cmd_touch_incr(conn);
         if (ret) {
+            stat_touch_hits_incr(conn);
             conn_write_raw_cstr(conn, "TOUCHED\r\n");
         } else {
+            stat_touch_misses_incr(conn);
             conn_write_raw_cstr(conn, "NOT_FOUND\r\n");
         }
         break;
-- 
2.43.0

