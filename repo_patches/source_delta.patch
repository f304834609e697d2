From 6a119ae31bc748bb438ddbc89b57ed281186e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 01/23] fix: don't use an idle queue after its callback drops
 the last reference

Callbacks and destroy functions invoked by gutil_idle_queue_run may drop
the last reference to the queue, after which it was still being accessed.
Now gutil_idle_queue_run holds its own reference, stops invoking callbacks
when all other references are gone and only then cancels what's left.
---
 src/gutil_idlequeue.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/gutil_idlequeue.c b/src/gutil_idlequeue.c
index f841f8b..d7b291c 100644
--- a/src/gutil_idlequeue.c
+++ b/src/gutil_idlequeue.c
@@ -53,6 +53,7 @@ struct gutil_idle_queue_item {
 struct gutil_idle_queue {
     gint ref_count;
     guint source_id;
+    gint running;       /* Number of references held by gutil_idle_queue_run */
     GUtilIdleQueueItem* first;
     GUtilIdleQueueItem* last;
 };
@@ -77,6 +78,14 @@ gutil_idle_queue_run(
     GUtilIdleQueue* q = data;
     GUtilIdleQueueItem* item;
     GUtilIdleQueueItem* done = NULL;
+    gboolean more;
+
+    /*
+     * The callbacks may drop all other references to the queue. This one
+     * keeps it alive until we are done with it.
+     */
+    gutil_idle_queue_ref(q);
+    q->running++;
 
     /*
      * Mark all currently existing items as as completed. Callbacks
@@ -89,7 +98,9 @@ gutil_idle_queue_run(
         item->completed = TRUE;
     }
 
-    while ((item = q->first) && item->completed) {
+    /* Nothing gets invoked after the last external reference is gone */
+    while ((item = q->first) && item->completed &&
+        g_atomic_int_get(&q->ref_count) > q->running) {
         /* Remove this one from the list */
         q->first = item->next;
         if (!q->first) {
@@ -113,13 +124,16 @@ gutil_idle_queue_run(
     /* Free the completed items */
     g_slice_free_chain(GUtilIdleQueueItem, done, next);
 
-    if (q->first) {
-        /* New callbacks have been added */
-        return G_SOURCE_CONTINUE;
-    } else {
+    /* New callbacks may have been added */
+    more = (q->first != NULL);
+    if (!more) {
         q->source_id = 0;
-        return G_SOURCE_REMOVE;
     }
+
+    /* This cancels whatever is left if this was the last reference */
+    q->running--;
+    gutil_idle_queue_unref(q);
+    return more ? G_SOURCE_CONTINUE : G_SOURCE_REMOVE;
 }
 
 GUtilIdleQueue*
-- 
2.43.0


From fce8ca00e8e1deafffef5eb4e126c072e34973c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 02/23] fix: remove idle pool's own event source and nothing
 else

The source isn't necessarily attached to the default context, and its id
may already be gone (or belong to somebody else) if it has fired on
another thread or if its context has been destroyed.
---
 src/gutil_idlepool.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index f279862..7e9107a 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -50,7 +50,7 @@ struct gutil_idle_pool_item {
 
 struct gutil_idle_pool {
     gint ref_count;
-    guint idle_id;
+    GSource* idle;
     GThread* thread;
     GUtilIdlePoolItem* first;
     GUtilIdlePoolItem* last;
@@ -173,11 +173,13 @@ gutil_idle_pool_drain(
         }
         g_slice_free_chain(GUtilIdlePoolItem, items, next);
     }
-    if (self->idle_id) {
-        const guint id = self->idle_id;
+    if (self->idle) {
+        GSource* idle = self->idle;
 
-        self->idle_id = 0;
-        g_source_remove(id);
+        /* Note that it's not necessarily attached to the default context */
+        self->idle = NULL;
+        g_source_destroy(idle);
+        g_source_unref(idle);
     }
 }
 
@@ -188,8 +190,6 @@ gutil_idle_pool_idle(
 {
     GUtilIdlePool* self = user_data;
 
-    self->idle_id = 0;
-
     /*
      * gutil_idle_pool_idle may be invoked on a wrong (main) thread if
      * something is added to a thread specific pool (e.g. the one created
@@ -240,16 +240,22 @@ gutil_idle_pool_add(
             self->first = item;
         }
         self->last = item;
-        if (!self->idle_id) {
+        /* The source is gone if it has fired on a wrong thread or if its
+         * context has been destroyed. */
+        if (self->idle && g_source_is_destroyed(self->idle)) {
+            g_source_unref(self->idle);
+            self->idle = NULL;
+        }
+        if (!self->idle) {
             GSource* src = g_idle_source_new();
             GMainContext* context = g_main_context_get_thread_default();
 
             g_source_set_priority(src, G_PRIORITY_DEFAULT_IDLE);
             g_source_set_callback(src, gutil_idle_pool_idle,
                 gutil_idle_pool_ref(self), gutil_idle_pool_unref_1);
-            self->idle_id = g_source_attach(src, context ? context :
+            self->idle = src;
+            g_source_attach(src, context ? context :
                 g_main_context_default());
-            g_source_unref(src);
         }
     }
     return pointer;
-- 
2.43.0


From 4d33124a9edc6b56925fc28f8e8e537444c21019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 03/23] fix: keep idle pool alive while it's being drained

Its last reference may go away with one of the items.
---
 src/gutil_idlepool.c | 51 +++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/gutil_idlepool.c b/src/gutil_idlepool.c
index 7e9107a..6a630fe 100644
--- a/src/gutil_idlepool.c
+++ b/src/gutil_idlepool.c
@@ -68,6 +68,32 @@ gutil_idle_pool_new()
     return self;
 }
 
+static
+void
+gutil_idle_pool_drain_items(
+    GUtilIdlePool* self)
+{
+    while (self->first) {
+        GUtilIdlePoolItem* items = self->first;
+        GUtilIdlePoolItem* item = items;
+
+        self->first = self->last = NULL;
+        while (item) {
+            item->destroy(item->pointer);
+            item = item->next;
+        }
+        g_slice_free_chain(GUtilIdlePoolItem, items, next);
+    }
+    if (self->idle) {
+        GSource* idle = self->idle;
+
+        /* Note that it's not necessarily attached to the default context */
+        self->idle = NULL;
+        g_source_destroy(idle);
+        g_source_unref(idle);
+    }
+}
+
 static
 void
 gutil_idle_pool_unref_1(
@@ -138,7 +164,7 @@ gutil_idle_pool_unref(
         if (g_atomic_int_dec_and_test(&self->ref_count)) {
             /* Clear pointer to the shared instance */
             if (self->shared) *(self->shared) = NULL;
-            gutil_idle_pool_drain(self);
+            gutil_idle_pool_drain_items(self);
             gutil_slice_free(self);
         }
     }
@@ -162,25 +188,10 @@ gutil_idle_pool_drain(
     if (!self) {
         self = gutil_idle_pool_get_default();
     }
-    while (self->first) {
-        GUtilIdlePoolItem* items = self->first;
-        GUtilIdlePoolItem* item = items;
-
-        self->first = self->last = NULL;
-        while (item) {
-            item->destroy(item->pointer);
-            item = item->next;
-        }
-        g_slice_free_chain(GUtilIdlePoolItem, items, next);
-    }
-    if (self->idle) {
-        GSource* idle = self->idle;
-
-        /* Note that it's not necessarily attached to the default context */
-        self->idle = NULL;
-        g_source_destroy(idle);
-        g_source_unref(idle);
-    }
+    /* The items may be holding the last references to the pool */
+    gutil_idle_pool_ref(self);
+    gutil_idle_pool_drain_items(self);
+    gutil_idle_pool_unref(self);
 }
 
 static
-- 
2.43.0


From 0c526fbd6a466acaf4d85ff4a2d5b49ef1aba4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 04/23] fix: don't close inotify descriptor twice

g_io_channel_shutdown() has already closed it, and by the time of the
second close() the same descriptor may belong to somebody else.
---
 src/gutil_inotify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_inotify.c b/src/gutil_inotify.c
index 7349f1d..6366cff 100644
--- a/src/gutil_inotify.c
+++ b/src/gutil_inotify.c
@@ -120,9 +120,9 @@ gutil_inotify_unref(
         }
         GASSERT(!g_hash_table_size(self->watches));
         g_hash_table_destroy(self->watches);
+        /* This closes the file descriptor */
         g_io_channel_shutdown(self->io_channel, FALSE, NULL);
         g_io_channel_unref(self->io_channel);
-        close(self->fd);
         g_free(self);
         if (gutil_inotify_instance == self) {
             gutil_inotify_instance = NULL;
-- 
2.43.0


From 6f5ff6311e02bd763c36646dc08f8945961bc814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 05/23] fix: avoid integer overflow in the history median

The sum of two values may not fit into int.
---
 src/gutil_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_history.c b/src/gutil_history.c
index 5bb118f..1610566 100644
--- a/src/gutil_history.c
+++ b/src/gutil_history.c
@@ -195,7 +195,7 @@ gutil_int_history_median_at(
             t1 = h->entry[pos].time;
             v1 = h->entry[pos].value;
             dt += t1 - t;
-            area += (t1 - t)*(v + v1)/2;
+            area += (t1 - t)*((gint64)v + v1)/2;
             t = t1;
             v = v1;
         }
-- 
2.43.0


From bfab49e78bc04fe0dfebed55e7055e476512587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 06/23] fix: keep buffer size in sync when ring is flattened

The new buffer was too short for what the ring remembered about it and
adding more elements was corrupting the heap.
---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 93dea3a..c5564ab 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -426,7 +426,7 @@ gutil_ring_flatten(
 
     if (G_LIKELY(r) && n > 0) {
         if (r->start > 0 && r->start >= r->end) {
-            gpointer* buf = g_new(gpointer, n);
+            gpointer* buf = g_new(gpointer, r->alloc);
             const gint n1 = r->alloc - r->start;
 
             memcpy(buf, r->data + r->start, sizeof(gpointer) * n1);
-- 
2.43.0


From d35322b61e23f13edec688a7e41cd0f62709c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 07/23] fix: avoid integer overflow in gutil_ring_can_put

---
 src/gutil_ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index c5564ab..155bbdf 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -271,7 +271,7 @@ gutil_ring_can_put(
     gint n)
 {
     if (G_LIKELY(r)) {
-        return r->maxsiz < 0 || (gutil_ring_size(r) + n) <= r->maxsiz;
+        return r->maxsiz < 0 || n <= (r->maxsiz - gutil_ring_size(r));
     }
     return FALSE;
 }
-- 
2.43.0


From 2e9f8a6c055871f288a059a0b18327a8e5947cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 08/23] fix: never exceed the maximum ring size

The buffer may be larger than that.
---
 src/gutil_ring.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index 155bbdf..e912bac 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -140,10 +140,11 @@ gutil_ring_set_max_size(
     if (G_LIKELY(r) && r->maxsiz != max_size) {
         const gint size = gutil_ring_size(r);
 
+        /* The new limit applies to what the free function may be adding */
+        r->maxsiz = max_size;
         if (max_size >= 0 && size > max_size) {
             gutil_ring_drop(r, size - max_size);
         }
-        r->maxsiz = max_size;
     }
 }
 
@@ -281,7 +282,8 @@ gutil_ring_put(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start < 0) {
             r->start = r->end = 0;
         }
@@ -298,7 +300,8 @@ gutil_ring_put_front(
     GUtilRing* r,
     gpointer data)
 {
-    if (gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
+    if (gutil_ring_can_put(r, 1) &&
+        gutil_ring_reserve(r, gutil_ring_size(r) + 1)) {
         if (r->start >= 0) {
             r->start = (r->start + r->alloc - 1) % r->alloc;
         } else {
-- 
2.43.0


From 2ea1f3e0689a5dbbd39ca22e8d1b5e6ad2cf6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 09/23] fix: remove dropped elements from the ring before
 freeing them

If the free function was using the ring, elements could be freed twice,
get lost or return after they have been freed.
---
 src/gutil_ring.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gutil_ring.c b/src/gutil_ring.c
index e912bac..f81c218 100644
--- a/src/gutil_ring.c
+++ b/src/gutil_ring.c
@@ -365,10 +365,11 @@ gutil_ring_drop(
         } else {
             dropped = n;
             if (r->free_func) {
-                while ((n--) > 0) {
-                    r->free_func(r->data[r->start]);
-                    r->start = (r->start + 1) % r->alloc;
-                    GASSERT(r->start != r->end);
+                GDestroyNotify free_func = r->free_func;
+
+                /* Note that free_func may add and remove elements */
+                while ((n--) > 0 && gutil_ring_size(r) > 0) {
+                    free_func(gutil_ring_get(r));
                 }
             } else {
                 r->start = (r->start + n) % r->alloc;
@@ -393,10 +394,11 @@ gutil_ring_drop_last(
         } else {
             dropped = n;
             if (r->free_func) {
-                while ((n--) > 0) {
-                    r->end = (r->end + r->alloc - 1) % r->alloc;
-                    r->free_func(r->data[r->end]);
-                    GASSERT(r->start != r->end);
+                GDestroyNotify free_func = r->free_func;
+
+                /* Note that free_func may add and remove elements */
+                while ((n--) > 0 && gutil_ring_size(r) > 0) {
+                    free_func(gutil_ring_get_last(r));
                 }
             } else {
                 r->end = (r->end + r->alloc - n) % r->alloc;
-- 
2.43.0


From b0f3cf8efda5286fe7f67e0a9e1a702841d723b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 10/23] fix: Empty slice of shared ints leaked its parent

And offset + count could overflow, resulting in a missing slice or in
a slice which extends beyond the parent.
---
 src/gutil_ints.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 57c0964..9c98a9b 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -110,14 +110,10 @@ gutil_ints_new_from_ints(
     guint offset,
     guint count)
 {
-    if (ints && offset < ints->count) {
-        guint end = offset + count;
-
-        if (end > ints->count) {
-            end = ints->count;
-        }
-        return gutil_ints_new_with_free_func(ints->data + offset, end - offset,
-            gutil_ints_unref1, gutil_ints_ref(ints));
+    if (ints && offset < ints->count && count) {
+        return gutil_ints_new_with_free_func(ints->data + offset,
+            MIN(count, ints->count - offset), gutil_ints_unref1,
+            gutil_ints_ref(ints));
     }
     return NULL;
 }
-- 
2.43.0


From 2ada95c29800412fe19e19f712e625c2dc1b8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 11/23] fix: Race and crash in gutil_ints_unref_to_data

If it wasn't the last reference, the data could be freed by another
thread before being copied. It also crashed if there was no free function
and returned a pointer which can't be freed if g_free was supposed to be
called for something else.
---
 src/gutil_ints.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/gutil_ints.c b/src/gutil_ints.c
index 9c98a9b..0afe163 100644
--- a/src/gutil_ints.c
+++ b/src/gutil_ints.c
@@ -154,17 +154,15 @@ gutil_ints_unref_to_data(
         if (count) {
             *count = ints->count;
         }
-        if (g_atomic_int_dec_and_test(&ints->ref_count)) {
-            if (ints->free_func == g_free) {
-                /* We can allow the caller to free the data */
-                result = (int*)ints->data;
-            } else {
-                result = gutil_memdup(ints->data, ints->count * sizeof(int));
-                ints->free_func(ints->user_data);
-            }
+        if (ints->free_func == g_free && ints->user_data == ints->data &&
+            g_atomic_int_get(&ints->ref_count) == 1) {
+            /* We can allow the caller to free the data */
+            result = (int*)ints->data;
             gutil_slice_free(ints);
         } else {
+            /* Our reference keeps the data alive while it's being copied */
             result = gutil_memdup(ints->data, ints->count * sizeof(int));
+            gutil_ints_unref(ints);
         }
         return result;
     } else {
-- 
2.43.0


From b551b53405908df9aabd8979dc142664edf70695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 12/23] fix: no broken timestamps in the log

If the timestamp doesn't fit into the buffer (or is empty), strftime
returns zero and leaves the contents of the buffer undefined.
---
 src/gutil_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 019f0fb..37bbb98 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -181,7 +181,10 @@ gutil_log_stdio(
 #endif
 
         time(&now);
-        strftime(t, sizeof(t), gutil_log_ftime, localtime(&now));
+        /* The contents of the buffer is undefined if strftime returns zero */
+        if (!strftime(t, sizeof(t), gutil_log_ftime, localtime(&now))) {
+            t[0] = 0;
+        }
 #undef localtime
     } else {
         t[0] = 0;
-- 
2.43.0


From 27fce155d5d2050ee3043da524ed0c81b4f45fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 13/23] fix: respect GLOG_FLAG_DISABLE of the default log
 module

gutil_log_enabled() was saying that the messages are disabled but they
were printed nevertheless if the module was NULL.
---
 src/gutil_log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 37bbb98..4596de2 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -440,6 +440,8 @@ gutil_logv(
     va_list va)
 {
     if (level != GLOG_LEVEL_NONE && gutil_log_func2) {
+        /* NULL stands for the default module, flags included */
+        if (!module) module = &gutil_log_default;
         gutil_logv_r(module, module, level, format, va);
     }
 }
-- 
2.43.0


From cbbfca9f3e05b70636b86456c7994fe658de953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 14/23] fix: GLOG_FLAG_HIDE_NAME was ignored by module specific
 log functions

---
 src/gutil_log.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/gutil_log.c b/src/gutil_log.c
index 4596de2..373f45f 100644
--- a/src/gutil_log.c
+++ b/src/gutil_log.c
@@ -158,6 +158,16 @@ gutil_log_format(
     return buffer;
 }
 
+/* The name which is allowed to show up in the log, NULL if there's none */
+static
+const char*
+gutil_log_module_name(
+    const GLogModule* module)
+{
+    return (module && !(module->flags & GLOG_FLAG_HIDE_NAME)) ?
+        module->name : NULL;
+}
+
 /* Forward output to stdout or stderr */
 void
 gutil_log_stdio(
@@ -257,7 +267,7 @@ gutil_log_stdout2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_stdout(module ? module->name : NULL, level, format, va);
+    gutil_log_stdout(gutil_log_module_name(module), level, format, va);
 }
 
 void
@@ -267,7 +277,7 @@ gutil_log_stderr2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_stderr(module ? module->name : NULL, level, format, va);
+    gutil_log_stderr(gutil_log_module_name(module), level, format, va);
 }
 
 /* Formards output to syslog */
@@ -348,7 +358,7 @@ gutil_log_syslog2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_syslog(module ? module->name : NULL, level, format, va);
+    gutil_log_syslog(gutil_log_module_name(module), level, format, va);
 }
 #endif /* GLOG_SYSLOG */
 
@@ -380,7 +390,7 @@ gutil_log_glib2(
     const char* format,
     va_list va) /* Since 1.0.43 */
 {
-    gutil_log_glib(module ? module->name : NULL, level, format, va);
+    gutil_log_glib(gutil_log_module_name(module), level, format, va);
 }
 #endif /* GLOG_GLIB */
 
@@ -398,8 +408,7 @@ gutil_log_default_proc(
 {
     GLogProc log = gutil_log_func;
     if (G_LIKELY(log)) {
-        log((module->flags & GLOG_FLAG_HIDE_NAME) ? NULL : module->name,
-            level, format, va);
+        log(gutil_log_module_name(module), level, format, va);
     }
 }
 
-- 
2.43.0


From a3ecaff11e431446aa6dcf00d7f3c8da863800c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 15/23] fix: reject huge lengths in gutil_tlv_decode

Those with the highest bit set were treated as negative numbers, i.e.
accepted, the position was moved backwards and the contents was outside
of the input.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 1a7f945..9199027 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -411,7 +411,7 @@ gutil_tlv_decode(
 
     if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
-        (tmp.end - tmp.ptr) >= (gssize) len) {
+        (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
             val->bytes = tmp.ptr;
             val->size = (gsize) len;
-- 
2.43.0


From 367cc08308634d6374e6d5282ca2b3508c964351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 16/23] fix: don't consume records with zero tags

gutil_tlv_decode was returning zero (i.e. failure) for those but moved
the position, so that gutil_tlvs_decode stopped there without reporting
an error if the broken record happened to be the last one.
---
 src/gutil_datapack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_datapack.c b/src/gutil_datapack.c
index 9199027..5cfeb98 100644
--- a/src/gutil_datapack.c
+++ b/src/gutil_datapack.c
@@ -409,7 +409,7 @@ gutil_tlv_decode(
     GUtilRange tmp = *in;
     guint64 tag, len;
 
-    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag <= INT_MAX &&
+    if (gutil_unsigned_mbn_decode(&tmp, &tag) && tag > 0 && tag <= INT_MAX &&
         gutil_unsigned_mbn_decode(&tmp, &len) &&
         (guint64)(tmp.end - tmp.ptr) >= len) {
         if (val) {
-- 
2.43.0


From dccfed9f23b0eba46150acfac800caa3b8f2a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:47 +0000
Subject: [PATCH 17/23] fix: zero the id before removing the event source

The destroy notify could see (and even remove again) the id which isn't
valid anymore, and the memory that contains it may be gone by the time
when g_source_remove() returns.
---
 src/gutil_misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 241edd5..953d4d7 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -99,8 +99,11 @@ gutil_source_clear(
 {
     /* Yet another zero-tolerant version of g_source_remove */
     if (id && *id) {
-        g_source_remove(*id);
+        const guint source_id = *id;
+
+        /* Destroy notify may look at the id, or even free it */
         *id = 0;
+        g_source_remove(source_id);
         return TRUE;
     }
     return FALSE;
-- 
2.43.0


From f2458139c3c94e5b3b87bfb52670df2b65fd6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 18/23] fix: zero the handler id before disconnecting the
 handler

If closure's finalization notifier disconnects the same set of handlers,
it shouldn't find the id which isn't valid anymore.
---
 src/gutil_misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index 953d4d7..cf962b9 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -53,8 +53,11 @@ gutil_disconnect_handlers(
 
         for (i=0; i<count; i++) {
             if (ids[i]) {
-                g_signal_handler_disconnect(instance, ids[i]);
+                const gulong id = ids[i];
+
+                /* Zero it first, in case if we are called recursively */
                 ids[i] = 0;
+                g_signal_handler_disconnect(instance, id);
             }
         }
     }
-- 
2.43.0


From 93e4d9c32a16ca7d3c92a5183c9c981f128ed7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 19/23] fix: don't overflow when sorting int arrays

Comparing by subtraction overflows if the values are far apart, and the
array comes out in a wrong order.
---
 src/gutil_intarray.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index 2dec4b5..df56116 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -320,7 +320,8 @@ gutil_int_array_sort_ascending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v1 - *v2;
+    /* The difference may overflow */
+    return (*v1 > *v2) - (*v1 < *v2);
 }
 
 void
@@ -341,7 +342,8 @@ gutil_int_array_sort_descending_proc(
     const int* v1 = a;
     const int* v2 = b;
 
-    return *v2 - *v1;
+    /* The difference may overflow */
+    return (*v2 > *v1) - (*v2 < *v1);
 }
 
 void
-- 
2.43.0


From 3d092856cb4e683b54d42047ea50df7b54bc7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 20/23] fix: limit the range without overflow

pos + count may wrap around, and then the range to remove is neither
empty nor limited to the end of the array.
---
 src/gutil_intarray.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/gutil_intarray.c b/src/gutil_intarray.c
index df56116..c23a571 100644
--- a/src/gutil_intarray.c
+++ b/src/gutil_intarray.c
@@ -301,12 +301,9 @@ gutil_int_array_remove_range(
     guint count)
 {
     if (array && pos < array->count && count) {
-        guint end = pos + count;
+        const guint max = array->count - pos;
 
-        if (end > array->count) {
-            end = array->count;
-        }
-        g_array_remove_range((GArray*)array, pos, end - pos);
+        g_array_remove_range((GArray*)array, pos, MIN(count, max));
     }
     return array;
 }
-- 
2.43.0


From e4172af7ee0008d75eda88a4f5341844d8c3a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 21/23] fix: don't compare with the string which has been freed

The string passed to gutil_strv_remove() may belong to the array.
---
 src/gutil_strv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gutil_strv.c b/src/gutil_strv.c
index a637782..6ed43fd 100644
--- a/src/gutil_strv.c
+++ b/src/gutil_strv.c
@@ -244,17 +244,21 @@ gutil_strv_remove(
 
         if (pos >= 0) {
             guint len = gutil_strv_length(sv);
+            /* The string to look for may be the one being removed */
+            char* copy = remove_all ? g_strdup(s) : NULL;
 
             sv = gutil_strv_remove_impl(sv, pos, len, TRUE);
             if (remove_all) {
                 int i, l;
 
+                s = copy;
                 len--;
                 l = len - pos;
                 while ((i = gutil_strv_find_last_impl(sv + pos, s, l)) >= 0) {
                     sv = gutil_strv_remove_impl(sv, pos + i, len--, TRUE);
                     l = i;
                 }
+                g_free(copy);
             }
         }
     }
-- 
2.43.0


From ef8755d2c64738de6f5e487f46e226b374f0c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 22/23] fix: don't accept whitespace as a number

The string is empty once stripped, and then strtoll() returns zero without
complaining.
---
 src/gutil_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index cf962b9..e42aac3 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -318,7 +318,7 @@ gutil_parse_int64(
 
         errno = 0;
         ll = g_ascii_strtoll(stripped, &end, base);
-        if (end && !*end &&
+        if (end && end > stripped && !*end &&
             !((ll == G_MAXINT64 || ll == G_MININT64) && errno == ERANGE) &&
             !(ll == 0 && errno == EINVAL)) {
             if (value) {
@@ -353,7 +353,7 @@ gutil_parse_uint64(
 
             errno = 0;
             ull = g_ascii_strtoull(stripped, &end, base);
-            if (end && !*end &&
+            if (end && end > stripped && !*end &&
                 !(ull == G_MAXUINT64 && errno == ERANGE) &&
                 !(ull == 0 && errno == EINVAL)) {
                 if (value) {
-- 
2.43.0


From 2a3f6eea8c9cfb32c94c565ce1537378ad68146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 23/23] fix: don't let minus hide behind vertical tab

Vertical tab isn't stripped but strtoull() skips it.
---
 src/gutil_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gutil_misc.c b/src/gutil_misc.c
index e42aac3..46e940f 100644
--- a/src/gutil_misc.c
+++ b/src/gutil_misc.c
@@ -347,7 +347,7 @@ gutil_parse_uint64(
         char* tmp = NULL;
         const char* stripped = gutil_strstrip(str, &tmp);
 
-        if (*stripped != '-') {
+        if (!strchr(stripped, '-')) {
             char* end = NULL;
             guint64 ull;
 
-- 
2.43.0

