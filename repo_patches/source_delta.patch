From 171f180e077087a494a89d63b18b90b71c5976fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 01/29] fix: sized put/get pass the element size in bytes, not
 bits

The active-message path computes the packet's byte count from it, so
shmem_getSIZE answered with eight times the requested data (truncation
error at the origin) and putSIZE announced eight times too much.
---
 src/shmem/rma_sized.c.tpl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/shmem/rma_sized.c.tpl b/src/shmem/rma_sized.c.tpl
index 27b11f2..9ec43b4 100644
--- a/src/shmem/rma_sized.c.tpl
+++ b/src/shmem/rma_sized.c.tpl
@@ -12,26 +12,26 @@
 
 void shmem_getSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                    source /* target_addr */ , nelems, pe);
 }
 
 void shmem_getSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_getSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE, dest /* origin_addr */ ,
+    OSHMPI_ctx_get_nbi(ctx, MPI_TYPE, SIZE / 8, dest /* origin_addr */ ,
                        source /* target_addr */ , nelems, pe);
 }
 
@@ -51,13 +51,13 @@ void shmem_ctx_igetSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, ptr
 
 void shmem_putSIZENAME(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME(shmem_ctx_t ctx, void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                    dest /* target_addr */ , nelems, pe);
 }
 
@@ -77,14 +77,14 @@ void shmem_ctx_iputSIZENAME(shmem_ctx_t ctx, void *dest, const void *source,
 
 void shmem_putSIZENAME_nbi(void *dest, const void *source, size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 
 void shmem_ctx_putSIZENAME_nbi(shmem_ctx_t ctx, void *dest, const void *source,
                                size_t nelems, int pe)
 {
-    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE, source /* origin_addr */ ,
+    OSHMPI_ctx_put_nbi(ctx, MPI_TYPE, SIZE / 8, source /* origin_addr */ ,
                        dest /* target_addr */ , nelems, pe);
 }
 /* TPL_BLOCK_END */
\ No newline at end of file
-- 
2.43.0


From 4db8d588ea931feca093a034fbf38aaa8cf07472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 02/29] fix: shmem_addr_accessible reports the memory of
 attached spaces

---
 src/shmem/setup.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/shmem/setup.c b/src/shmem/setup.c
index 2e619ff..c0631e2 100644
--- a/src/shmem/setup.c
+++ b/src/shmem/setup.c
@@ -71,9 +71,28 @@ int shmem_pe_accessible(int pe)
 
 int shmem_addr_accessible(const void *addr, int pe)
 {
-    return ((OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
-             OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr)) &&
-            (pe >= 0 && pe < OSHMPI_global.team_world_n_pes)) ? 1 : 0;
+    OSHMPI_space_t *space, *tmp;
+    int accessible = 0;
+
+    if (pe < 0 || pe >= OSHMPI_global.team_world_n_pes)
+        return 0;
+
+    if (OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_heap_attr) ||
+        OSHMPI_sobj_check_range(addr, OSHMPI_global.symm_data_attr))
+        return 1;
+
+    /* Memory of an attached space is remotely accessible as well */
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (OSHMPI_sobj_check_range(addr, space->sobj_attr)) {
+            accessible = OSHMPI_SOBJ_HANDLE_GET_KIND(space->sobj_attr.handle) ==
+                OSHMPI_SOBJ_SPACE_ATTACHED_HEAP;
+            break;
+        }
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+
+    return accessible;
 }
 
 void *shmem_ptr(const void *dest, int pe)
-- 
2.43.0


From adeb2a15606181bb29275b00f3aa847d0a12f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 03/29] fix: quiet and fence on an explicit context complete
 active messages

---
 src/internal/order_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 8d0bcb0..16e2a1c 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -38,6 +38,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Fence on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Active messages are not separated by context */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
@@ -69,6 +71,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     if (ctx != SHMEM_CTX_DEFAULT) {
         /* Quiet on specific context (window) */
         ctx_flush_impl(&(((OSHMPI_ctx_t *) ctx)->ictx));
+        /* Active messages are not separated by context */
+        OSHMPI_am_flush_all(ctx);
         return;
     }
 #ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-- 
2.43.0


From 6f57f7285a3d34fca62795af4edb6361fa4f5d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 04/29] fix: quiet and fence skip spaces that are not attached

---
 src/internal/order_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index 16e2a1c..ca13b33 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -54,10 +54,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBU
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* Contexts and default window exist only while the space is attached */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
@@ -87,10 +89,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
     LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
         int i;
-        for (i = 0; i < space->config.num_contexts; i++)
+        /* Contexts and default window exist only while the space is attached */
+        for (i = 0; space->ctx_list && i < space->config.num_contexts; i++)
             ctx_flush_impl(&(space->ctx_list[i].ictx));
 #ifndef OSHMPI_ENABLE_DYNAMIC_WIN
-        ctx_flush_impl(&space->default_ictx);
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            ctx_flush_impl(&space->default_ictx);
 #endif
     }
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
-- 
2.43.0


From a205019e60e5c6b28e71af8b737972612a26579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 05/29] fix: barrier and sync cover the memory of attached
 spaces

A barrier flushes every object of the default context and active messages to
every PE, as quiet does, and like sync makes stores to attached spaces visible.
---
 src/include/oshmpi_impl.h          |  1 +
 src/internal/coll_activeset_impl.h | 27 +++++----------------------
 src/internal/coll_impl.h           | 26 +++++---------------------
 src/internal/order_impl.h          | 20 ++++++++++++++++++++
 4 files changed, 31 insertions(+), 43 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 74d4a8d..7278690 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -508,6 +508,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_allreduce(void *dest, const void *source
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_fence(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)));
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)));
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_mem_sync_all(void);
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp);
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_test_lock(long *lockp);
diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index 36a9079..e49a9ed 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -119,24 +119,12 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier(int PE_start, int logPE_stride,
 {
     MPI_Comm comm = MPI_COMM_NULL;
 
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush(SHMEM_CTX_DEFAULT, PE_start, logPE_stride, PE_size);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put on the
+     * default context, to every symmetric object and every PE. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
-#endif
+    OSHMPI_mem_sync_all();
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
     OSHMPI_am_progress_mpi_barrier(comm);
@@ -147,12 +135,7 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     MPI_Comm comm = MPI_COMM_NULL;
 
     /* Ensure completion of previously issued memory store */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
-#endif
+    OSHMPI_mem_sync_all();
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
     OSHMPI_am_progress_mpi_barrier(comm);
diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 243168d..3711ae0 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -11,35 +11,19 @@
 #include "oshmpi_util.h"
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_barrier_all(void)
 {
-    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_flush_all(OSHMPI_global.symm_data_ictx.win));
-#endif
-    /* Ensure AM completion (e.g., AM AMOs) */
-    OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
+    /* Ensure completion of all outstanding Put, AMO, and nonblocking Put on the
+     * default context, to every symmetric object and every PE. */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
 
     /* Ensure completion of memory store */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
-#endif
+    OSHMPI_mem_sync_all();
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 {
     /* Ensure completion of previously issued memory store */
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
-#else
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
-    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
-#endif
+    OSHMPI_mem_sync_all();
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
 }
 
diff --git a/src/internal/order_impl.h b/src/internal/order_impl.h
index ca13b33..7dee50d 100644
--- a/src/internal/order_impl.h
+++ b/src/internal/order_impl.h
@@ -103,4 +103,24 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_quiet(shmem_ctx_t ctx)
     OSHMPI_am_flush_all(ctx);
 }
 
+/* Ensure completion of memory store to every symmetric object on the default context. */
+OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_mem_sync_all(void)
+{
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_ictx.win));
+#else
+    OSHMPI_space_t *space, *tmp;
+
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_heap_ictx.win));
+    OSHMPI_CALLMPI(MPI_Win_sync(OSHMPI_global.symm_data_ictx.win));
+
+    OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.space_list.cs);
+    LL_FOREACH_SAFE(OSHMPI_global.space_list.head, space, tmp) {
+        if (space->default_ictx.win != MPI_WIN_NULL)
+            OSHMPI_CALLMPI(MPI_Win_sync(space->default_ictx.win));
+    }
+    OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.space_list.cs);
+#endif
+}
+
 #endif /* INTERNAL_ORDER_IMPL_H */
-- 
2.43.0


From 9693d8b7a0ecbded00e9a4395bba00fff414e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 06/29] fix: shmem_team_sync synchronizes every valid team

---
 src/internal/coll_impl.h |  2 ++
 src/shmem/coll.c         | 13 ++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/internal/coll_impl.h b/src/internal/coll_impl.h
index 3711ae0..b782f8c 100644
--- a/src/internal/coll_impl.h
+++ b/src/internal/coll_impl.h
@@ -29,6 +29,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_all(void)
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync_team(OSHMPI_team_t * team)
 {
+    /* Ensure completion of previously issued memory store */
+    OSHMPI_mem_sync_all();
     OSHMPI_am_progress_mpi_barrier(team->comm);
 }
 
diff --git a/src/shmem/coll.c b/src/shmem/coll.c
index 972f3d2..fd26f34 100644
--- a/src/shmem/coll.c
+++ b/src/shmem/coll.c
@@ -13,11 +13,14 @@ void shmem_barrier_all(void)
 
 int shmem_team_sync(shmem_team_t team)
 {
-    if (team == SHMEM_TEAM_WORLD) {
-        OSHMPI_sync_all();
-        return SHMEM_SUCCESS;
-    }
-    return SHMEM_OTHER_ERR;
+    OSHMPI_team_t *team_obj;
+
+    if (team == SHMEM_TEAM_INVALID)
+        return SHMEM_OTHER_ERR;
+
+    OSHMPI_TEAM_GET_OBJ(team, team_obj);
+    OSHMPI_sync_team(team_obj);
+    return SHMEM_SUCCESS;
 }
 
 void shmem_sync_all(void)
-- 
2.43.0


From 1ed18d702b02fc2b00dbf8ea9939177a20b584fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 07/29] fix: destroying a context completes its outstanding
 operations

---
 src/internal/ctx_impl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal/ctx_impl.c b/src/internal/ctx_impl.c
index 812a798..6c81bcb 100644
--- a/src/internal/ctx_impl.c
+++ b/src/internal/ctx_impl.c
@@ -8,6 +8,8 @@
 
 void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx)
 {
+    /* Destroy implies quiet on the context */
+    OSHMPI_ctx_quiet((shmem_ctx_t) ctx);
     OSHMPIU_ATOMIC_FLAG_STORE(ctx->used_flag, 0);
 
     /* Do not free window.
-- 
2.43.0


From 7d48ce3e4b1c122eb58c3cf605a2151e8a7a273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 08/29] fix: active set broadcast takes the root relative to
 the active set

---
 src/internal/coll_activeset_impl.h | 45 ++++--------------------------
 1 file changed, 6 insertions(+), 39 deletions(-)

diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index e49a9ed..fe73904 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -141,53 +141,20 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_sync(int PE_start, int logPE_stride, int
     OSHMPI_am_progress_mpi_barrier(comm);
 }
 
-/* Return 1 if root is included in the active set, otherwise 0. */
-OSHMPI_STATIC_INLINE_PREFIX int coll_check_root_in_active_set(int PE_root,
-                                                              int PE_start, int logPE_stride,
-                                                              int PE_size)
-{
-    int i, included = 0;
-    const int pe_stride = 1 << logPE_stride;    /* Implement 2^pe_logs with bitshift. */
-    for (i = 0; i < PE_size; i++) {
-        if (PE_root == PE_start + i * pe_stride) {
-            included = 1;
-            break;
-        }
-    }
-    return included;
-}
-
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_broadcast(void *dest, const void *source, size_t nelems,
                                                   MPI_Datatype mpi_type, int PE_root, int PE_start,
                                                   int logPE_stride, int PE_size)
 {
     MPI_Comm comm = MPI_COMM_NULL;
+    /* PE_root is the zero-based ordinal of the root within the active set,
+     * thus also its rank in the communicator of the active set. */
+    const int root_pe = PE_start + PE_root * (1 << logPE_stride);
 
     coll_acquire_comm(PE_start, logPE_stride, PE_size, &comm);
 
-    /* Special path: directly use MPI_Bcast if root is included in active set */
-    if (coll_check_root_in_active_set(PE_root, PE_start, logPE_stride, PE_size)) {
-        OSHMPI_am_progress_mpi_bcast(PE_root ==
-                                     OSHMPI_global.team_world_my_pe ? (void *) source : dest,
-                                     nelems, mpi_type, PE_root, comm);
-    } else {
-        OSHMPI_ictx_t *ictx = NULL;
-        OSHMPI_sobj_attr_t *sobj_attr = NULL;
-        MPI_Aint target_disp = -1;
-
-        /* Generic path: every PE in active set gets data from root
-         * FIXME: the semantics ensures dest is updated only on local PE at return,
-         * thus we assume barrier is unneeded.*/
-        OSHMPI_sobj_query_attr_ictx(SHMEM_CTX_DEFAULT, source, PE_root, &sobj_attr, &ictx);
-        OSHMPI_ASSERT(sobj_attr && ictx);
-        OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, source, PE_root,
-                                        OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);
-        OSHMPI_ASSERT(target_disp >= 0);
-
-        OSHMPI_CALLMPI(MPI_Get
-                       (dest, nelems, mpi_type, PE_root, target_disp, nelems, mpi_type, ictx->win));
-        OSHMPI_CALLMPI(MPI_Win_flush_local(PE_root, ictx->win));
-    }
+    OSHMPI_am_progress_mpi_bcast(root_pe ==
+                                 OSHMPI_global.team_world_my_pe ? (void *) source : dest,
+                                 nelems, mpi_type, PE_root, comm);
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_collect(void *dest, const void *source, size_t nelems,
-- 
2.43.0


From b504ad5664b184da10197d10068181676f37e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 09/29] fix: reuse active message tags instead of aborting when
 they run out

---
 src/internal/am_impl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/internal/am_impl.h b/src/internal/am_impl.h
index c5081be..9e9cb92 100644
--- a/src/internal/am_impl.h
+++ b/src/internal/am_impl.h
@@ -14,9 +14,10 @@
  * have specific source rank. However, here we use an atomic counter per PE for simplicity. */
 OSHMPI_STATIC_INLINE_PREFIX int OSHMPI_am_get_pkt_ptag(void)
 {
-    int tag = OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) + OSHMPI_AM_PKT_PTAG_START;
-    OSHMPI_ASSERT(tag < OSHMPI_am.pkt_ptag_ub);
-    return tag;
+    /* Wrap around when all tags have been handed out. */
+    unsigned int ntags = (unsigned int) (OSHMPI_am.pkt_ptag_ub - OSHMPI_AM_PKT_PTAG_START);
+    unsigned int off = (unsigned int) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off);
+    return (int) (off % ntags) + OSHMPI_AM_PKT_PTAG_START;
 }
 
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_am_flush(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)),
-- 
2.43.0


From 9420e04087863e2553aae4da9c2541378a4e87c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 10/29] OSHMPI_VP: loop annotations for contract-based
 verification

---
 src/include/oshmpi_util.h          | 8 ++++++++
 src/internal/coll_activeset_impl.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 0d55ac3..3f8b915 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -20,6 +20,14 @@
 #define __STDC_FORMAT_MACROS
 #include <inttypes.h>
 
+/* Loop invariants for contract-based verification (oshmpi_vp.h is supplied by the verifier's
+ * build); expands to nothing in a normal build. */
+#ifdef OSHMPI_VP
+#include "oshmpi_vp.h"
+#else
+#define OSHMPI_VP_LOOP(name)
+#endif
+
 /* ======================================================================
  * Generic Utility MACROs and inline functions.
  * ====================================================================== */
diff --git a/src/internal/coll_activeset_impl.h b/src/internal/coll_activeset_impl.h
index fe73904..2443a42 100644
--- a/src/internal/coll_activeset_impl.h
+++ b/src/internal/coll_activeset_impl.h
@@ -100,6 +100,7 @@ OSHMPI_STATIC_INLINE_PREFIX void coll_acquire_comm(int PE_start, int logPE_strid
     /* Implement 2^pe_logs with bitshift. */
     const int pe_stride = 1 << logPE_stride;
     for (int i = 0; i < PE_size; i++)
+        OSHMPI_VP_LOOP(aset_pe_list)
         pe_list[i] = PE_start + i * pe_stride;
 
     OSHMPI_CALLMPI(MPI_Group_incl
-- 
2.43.0


From 426e213f83aa818ce6efa51d3fec0bb5dc6a3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:30 +0000
Subject: [PATCH 11/29] fix: an unknown comparison in wait_until and test is an
 error

---
 src/internal/p2p_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/p2p_impl.h b/src/internal/p2p_impl.h
index 7ef9c8c..81275eb 100644
--- a/src/internal/p2p_impl.h
+++ b/src/internal/p2p_impl.h
@@ -25,7 +25,7 @@
         case SHMEM_CMP_LE:                                                         \
             ret = (a <= b) ? 1 : 0; break;                                         \
         default:                                                                   \
-            OSHMPI_ASSERT(comp_op < SHMEM_CMP_EQ || comp_op > SHMEM_CMP_LE);       \
+            OSHMPI_ASSERT(comp_op >= SHMEM_CMP_EQ && comp_op <= SHMEM_CMP_LE);     \
             break;                                                                 \
     }                                                                              \
 } while (0)
-- 
2.43.0


From 95eea5dbc3548bf579aa6d04eaa941974ecc5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 12/29] OSHMPI_VP: loop annotations for the waits in locks and
 wait_until

---
 src/internal/lock_impl.h | 6 ++++--
 src/internal/p2p_impl.h  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 4928f7f..85e5678 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -67,7 +67,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_set_lock(long *lockp)
 
         /* Wait till received release signal of this lock.
          * Do not reset, we will reset at next set_lock call. */
-        while (1) {
+        while (1)
+        OSHMPI_VP_LOOP(lock_signal) {
             OSHMPI_CALLMPI(MPI_Fetch_and_op
                            (NULL, &signal, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,
                             lock_next_disp, MPI_NO_OP, ictx->win));
@@ -112,7 +113,8 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     /* If I am not the last one, then notify the next that I released */
     if (curid != myid) {
-        while (1) {
+        while (1)
+        OSHMPI_VP_LOOP(lock_next) {
             OSHMPI_CALLMPI(MPI_Fetch_and_op
                            (NULL, &next, MPI_UNSIGNED, OSHMPI_global.team_world_my_pe,
                             lock_next_disp, MPI_NO_OP, ictx->win));
diff --git a/src/internal/p2p_impl.h b/src/internal/p2p_impl.h
index 81275eb..60e7bdd 100644
--- a/src/internal/p2p_impl.h
+++ b/src/internal/p2p_impl.h
@@ -44,7 +44,8 @@
     OSHMPI_sobj_trans_vaddr_to_disp(sobj_attr, ivar, OSHMPI_global.team_world_my_pe,                \
                                     OSHMPI_ICTX_DISP_MODE(ictx), &target_disp);                     \
     OSHMPI_ASSERT(target_disp >= 0);                                                                \
-    while (1) {                                                                                     \
+    while (1)                                                                                       \
+    OSHMPI_VP_LOOP(wait_until) {                                                                    \
         OSHMPI_CALLMPI(MPI_Fetch_and_op(NULL, &tmp_var, MPI_TYPE,                                   \
                                         OSHMPI_global.team_world_my_pe, target_disp, MPI_NO_OP,     \
                                         ictx->win));                                                \
-- 
2.43.0


From 1a7a8c4b5dc7bbb1718bd685f91faf5a2c1f75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:08 +0000
Subject: [PATCH 13/29] fix: clearing a lock completes the updates made while
 holding it

---
 src/internal/lock_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/lock_impl.h b/src/internal/lock_impl.h
index 85e5678..9969b98 100644
--- a/src/internal/lock_impl.h
+++ b/src/internal/lock_impl.h
@@ -104,6 +104,9 @@ OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_clear_lock(long *lockp)
 
     lock_next_disp = lock_last_disp + sizeof(int);
 
+    /* Complete all updates issued while holding the lock before any other PE can get it */
+    OSHMPI_ctx_quiet(SHMEM_CTX_DEFAULT);
+
     /* Release the lock in root process if I am the last one holding the lock */
     OSHMPI_CALLMPI(MPI_Compare_and_swap
                    (&zero, &myid, &curid, MPI_INT, OSHMPI_LOCK_ROOT_WRANK, lock_last_disp,
-- 
2.43.0


From 01b14775d7bc6281e0fa5187d47394393127de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 14/29] fix: every object allocated from the symmetric heap is
 recognized as symmetric

---
 src/internal/setup_impl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 2c0e21d..801c140 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -179,9 +179,9 @@ static void attach_symm_heap(void)
         base = OSHMPIU_malloc(true_size);
     OSHMPI_ASSERT(base);
 
-    /* Setup sobj attributes */
+    /* Setup sobj attributes. Objects may be allocated anywhere in the MSPACE. */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
@@ -265,9 +265,9 @@ static void initialize_symm_heap(void)
                                     &OSHMPI_global.symm_heap_ictx.win));
     OSHMPI_ASSERT(base);
 
-    /* Setup sobj attributes */
+    /* Setup sobj attributes. Objects may be allocated anywhere in the MSPACE. */
     int symm_flag = 0;
-    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, size);
+    OSHMPI_sobj_init_attr(&OSHMPI_global.symm_heap_attr, SHMEMX_MEM_HOST, base, true_size);
     OSHMPI_sobj_symm_info_allgather(&OSHMPI_global.symm_heap_attr, &symm_flag);
     OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, symm_flag, 0);
 
-- 
2.43.0


From 37ed3f1cb53be44ffdcfb7e76fea095a0de9c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:37 +0000
Subject: [PATCH 15/29] fix: the symmetric heap never grows beyond the
 symmetric memory

---
 src/internal/setup_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 801c140..9c3f0ae 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -190,6 +190,8 @@ static void attach_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never extend the heap beyond the symmetric memory */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_attach(OSHMPI_global.symm_ictx.win, base, true_size));
@@ -276,6 +278,8 @@ static void initialize_symm_heap(void)
                                                              OSHMPI_global.thread_level ==
                                                              SHMEM_THREAD_MULTIPLE ? 1 : 0);
     OSHMPI_ASSERT(OSHMPI_global.symm_heap_mspace != NULL);
+    /* Never extend the heap beyond the symmetric memory */
+    mspace_set_footprint_limit(OSHMPI_global.symm_heap_mspace, true_size);
     OSHMPI_THREAD_INIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
 
     OSHMPI_CALLMPI(MPI_Win_lock_all(MPI_MODE_NOCHECK, OSHMPI_global.symm_heap_ictx.win));
-- 
2.43.0


From 6a6511665eba5e95b105b6e4ee7e4beb85c4b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 16/29] fix: shmem_realloc meets all PEs before the old object
 may be released

---
 src/internal/mem_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/mem_impl.c b/src/internal/mem_impl.c
index 5b920e7..7f342c7 100644
--- a/src/internal/mem_impl.c
+++ b/src/internal/mem_impl.c
@@ -55,6 +55,9 @@ void *OSHMPI_realloc(void *ptr, size_t size)
     if (size == 0 && ptr == NULL)
         return ptr;
 
+    /* The old object may be released: no PE may access it any more */
+    OSHMPI_barrier_all();
+
     OSHMPI_THREAD_ENTER_CS(&OSHMPI_global.symm_heap_mspace_cs);
     rptr = mspace_realloc(OSHMPI_global.symm_heap_mspace, ptr, size);
     OSHMPI_THREAD_EXIT_CS(&OSHMPI_global.symm_heap_mspace_cs);
-- 
2.43.0


From e4136e8a9409f791f51e8e7980d046e5c71628e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:40 +0000
Subject: [PATCH 17/29] fix: the space allocator refuses empty and oversized
 requests

---
 src/internal/util/mem_pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index db2b3d5..7839966 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -42,6 +42,10 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
     int off = 0, navail = 0;
     void *ptr = NULL;
 
+    /* Nothing to allocate, or it can never fit */
+    if (size == 0 || size > mem_pool->size)
+        return NULL;
+
     size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
     int nalloc = aligned_sz / mem_pool->chunk_size;
 
-- 
2.43.0


From 14d5ff71486c1a29747b339668232e9691cbf84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 18/29] OSHMPI_VP: loop annotations for the space allocator

---
 src/internal/util/mem_pool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/util/mem_pool.c b/src/internal/util/mem_pool.c
index 7839966..637b475 100644
--- a/src/internal/util/mem_pool.c
+++ b/src/internal/util/mem_pool.c
@@ -30,6 +30,7 @@ void OSHMPIU_mempool_destroy(OSUMPIU_mempool_t * mem_pool)
 {
     int i;
     for (i = 0; i < mem_pool->nchunks; i++)
+        OSHMPI_VP_LOOP(mempool_destroy)
         OSHMPI_ASSERT(mem_pool->chunks_nused[i] == 0);
 
     OSHMPIU_free(mem_pool->chunks_nused);
@@ -49,7 +50,8 @@ void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t * mem_pool, size_t size)
     size_t aligned_sz = OSHMPI_ALIGN(size, mem_pool->chunk_size);
     int nalloc = aligned_sz / mem_pool->chunk_size;
 
-    while (off < mem_pool->nchunks) {
+    while (off < mem_pool->nchunks)
+    OSHMPI_VP_LOOP(mempool_alloc) {
         unsigned int nused = mem_pool->chunks_nused[off];
         /* Skip nused number of chunks as they are already used.
          * Also reset navail because we need allocate contiguous region */
-- 
2.43.0


From b135205a0eeca9604298ac6a7a2d91d15d0fc4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 19/29] fix: shmemx_space_align returns aligned memory

---
 src/internal/space_impl.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 881054f..e733e2d 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -184,7 +184,9 @@ void OSHMPI_space_create(shmemx_space_config_t space_config, OSHMPI_space_t ** s
             break;
         case SHMEMX_MEM_HOST:
         default:
-            base = OSHMPIU_malloc(size);
+            /* Aligned to page, so that every chunk of the pool is */
+            if (posix_memalign(&base, OSHMPI_global.page_sz, size))
+                base = NULL;
             space_config.memkind = SHMEMX_MEM_HOST;
             break;
     }
@@ -376,7 +378,11 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
-    return OSHMPI_space_malloc(space, OSHMPI_ALIGN(size, alignment));
+    /* The pool's chunks are aligned to page. A larger alignment cannot be ensured on all PEs,
+     * the request is refused by all of them in the same way as one which does not fit. */
+    if (alignment > OSHMPI_global.page_sz)
+        size = 0;
+    return OSHMPI_space_malloc(space, size);
 }
 
 /* Collectively free a buffer from the space */
-- 
2.43.0


From 59294ef142ca10a0a2f25d594278371d368ab24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 20/29] fix: shmemx_space_calloc allocates and clears count
 elements

---
 src/include/oshmpi_impl.h |  1 +
 src/internal/space_impl.c | 24 ++++++++++++++++++++++++
 src/shmemx/space.c        |  3 +--
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 7278690..7408d25 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -389,6 +389,7 @@ int OSHMPI_space_create_ctx(OSHMPI_space_t * space, long options, OSHMPI_ctx_t *
 void OSHMPI_space_attach(OSHMPI_space_t * space);
 void OSHMPI_space_detach(OSHMPI_space_t * space);
 void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size);
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size);
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size);
 void OSHMPI_space_free(OSHMPI_space_t * space, void *ptr);
 
diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index e733e2d..6f2e744 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -375,6 +375,30 @@ void *OSHMPI_space_malloc(OSHMPI_space_t * space, size_t size)
     return ptr;
 }
 
+/* Collectively allocate a zeroed buffer of count elements from the space */
+void *OSHMPI_space_calloc(OSHMPI_space_t * space, size_t count, size_t size)
+{
+    void *ptr = NULL;
+    size_t total;
+
+    /* A total that cannot be represented never fits */
+    if (__builtin_mul_overflow(count, size, &total))
+        total = SIZE_MAX;
+
+    OSHMPI_THREAD_ENTER_CS(&space->mem_pool_cs);
+    ptr = OSHMPIU_mempool_alloc(&space->mem_pool, total);
+    OSHMPI_THREAD_EXIT_CS(&space->mem_pool_cs);
+
+    /* No PE may write to the buffer before it is zeroed */
+    if (ptr)
+        memset(ptr, 0, total);
+
+    OSHMPI_DBGMSG("space_calloc from space %p, count %ld, size %ld -> ptr %p, disp 0x%lx\n",
+                  space, count, size, ptr, (MPI_Aint) ptr - (MPI_Aint) space->sobj_attr.base);
+    OSHMPI_barrier_all();
+    return ptr;
+}
+
 /* Collectively allocate a buffer from the space with byte alignment */
 void *OSHMPI_space_align(OSHMPI_space_t * space, size_t alignment, size_t size)
 {
diff --git a/src/shmemx/space.c b/src/shmemx/space.c
index 4e45509..7353258 100644
--- a/src/shmemx/space.c
+++ b/src/shmemx/space.c
@@ -50,8 +50,7 @@ void *shmemx_space_calloc(shmemx_space_t space, size_t count, size_t size)
 {
     void *ptr = NULL;
     OSHMPI_NOINLINE_RECURSIVE()
-        ptr = OSHMPI_space_malloc((OSHMPI_space_t *) space, size);
-    memset(ptr, 0, size);
+        ptr = OSHMPI_space_calloc((OSHMPI_space_t *) space, count, size);
     return ptr;
 }
 
-- 
2.43.0


From 2ad620beb79cf7426489a352068516f816b63020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 21/29] fix: shmemx_space_detach processes active messages
 until all PEs have arrived

---
 src/internal/space_impl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 6f2e744..93cfaf0 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -337,8 +337,11 @@ void OSHMPI_space_detach(OSHMPI_space_t * space)
 {
     int i;
 
-#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
+    /* Other PEs may still need this PE to process their active messages,
+     * which it does not do while blocked in the collective MPI_Win_free. */
     OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
+#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
     OSHMPI_CALLMPI(MPI_Win_detach(OSHMPI_global.symm_ictx.win, space->sobj_attr.base));
 #else
     /* Destroy internal window */
-- 
2.43.0


From 671aba30cb6b73f483cde82f4309910c268c2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 22/29] fix: shmemx_space_attach processes active messages
 until all PEs have arrived

---
 src/internal/space_impl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal/space_impl.c b/src/internal/space_impl.c
index 93cfaf0..04406d1 100644
--- a/src/internal/space_impl.c
+++ b/src/internal/space_impl.c
@@ -282,6 +282,10 @@ void OSHMPI_space_attach(OSHMPI_space_t * space)
     /* Space should not be attached yet */
     OSHMPI_ASSERT(!space->ctx_list);
 
+    /* Other PEs may still need this PE to process their active messages,
+     * which it does not do while blocked in the collective window creation. */
+    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+
     OSHMPI_CALLMPI(MPI_Info_create(&info));
     OSHMPI_set_mpi_info_args(info);
 
-- 
2.43.0


From 3edd40b958bb47920a14f4ce4821e015e79f2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 23/29] fix: team splits process active messages until all PEs
 have arrived

---
 src/internal/team_impl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 048c83a..31cd579 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -47,6 +47,9 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team
     MPI_Comm new_comm;
     MPI_Group new_group;
 
+    /* Other PEs may still need this PE to process their active messages,
+     * which it does not do while blocked in the collective communicator creation. */
+    OSHMPI_am_progress_mpi_barrier(team->comm);
     OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
-- 
2.43.0


From 3291d4976dfc0b49285de3ccb722cdc29e3e4c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:30 +0000
Subject: [PATCH 24/29] fix: shmem_team_translate_pe answers -1 for PE numbers
 outside of the source team

---
 src/shmem/team.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index cc3b68d..206088d 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -75,6 +75,11 @@ int shmem_team_translate_pe(shmem_team_t src_team, int src_pe, shmem_team_t dest
         return -1;
     }
 
+    /* Not a member of the source team */
+    if (src_pe < 0 || src_pe >= shmem_team_n_pes(src_team)) {
+        return -1;
+    }
+
     if (src_team == SHMEM_TEAM_WORLD) {
         src_group = OSHMPI_global.team_world_group;
     } else if (src_team == SHMEM_TEAM_SHARED) {
-- 
2.43.0


From 10ebc57e0da7a41744d184b71e15ae5626acbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 25/29] fix: strided team splits with empty, degenerate,
 overflowing or backward ranges

---
 src/include/oshmpi_impl.h |  2 +-
 src/internal/team_impl.c  |  4 ++--
 src/shmem/team.c          | 21 ++++++++++++++-------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/include/oshmpi_impl.h b/src/include/oshmpi_impl.h
index 7408d25..afc36c5 100644
--- a/src/include/oshmpi_impl.h
+++ b/src/include/oshmpi_impl.h
@@ -397,7 +397,7 @@ void OSHMPI_ctx_destroy(OSHMPI_ctx_t * ctx);
 
 int OSHMPI_team_create(OSHMPI_team_t ** team);
 void OSHMPI_team_destroy(OSHMPI_team_t ** team);
-int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team);
+int OSHMPI_team_split(OSHMPI_team_t * team, int color, int key, OSHMPI_team_t ** new_team);
 
 /* Subroutines for rma. */
 OSHMPI_STATIC_INLINE_PREFIX void OSHMPI_ctx_put_nbi(shmem_ctx_t ctx OSHMPI_ATTRIBUTE((unused)),
diff --git a/src/internal/team_impl.c b/src/internal/team_impl.c
index 31cd579..a36a815 100644
--- a/src/internal/team_impl.c
+++ b/src/internal/team_impl.c
@@ -40,7 +40,7 @@ void OSHMPI_team_destroy(OSHMPI_team_t ** team)
     *team = NULL;
 }
 
-int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team)
+int OSHMPI_team_split(OSHMPI_team_t * team, int color, int key, OSHMPI_team_t ** new_team)
 {
     int rc = SHMEM_SUCCESS;
     OSHMPI_team_t *_new_team = NULL;
@@ -50,7 +50,7 @@ int OSHMPI_team_split(OSHMPI_team_t * team, int color, OSHMPI_team_t ** new_team
     /* Other PEs may still need this PE to process their active messages,
      * which it does not do while blocked in the collective communicator creation. */
     OSHMPI_am_progress_mpi_barrier(team->comm);
-    OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, team->my_pe, &new_comm));
+    OSHMPI_CALLMPI(MPI_Comm_split(team->comm, color, key, &new_comm));
 
     if (new_comm != MPI_COMM_NULL) {
         OSHMPI_CALLMPI(MPI_Comm_group(new_comm, &new_group));
diff --git a/src/shmem/team.c b/src/shmem/team.c
index 206088d..c8fd135 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -128,11 +128,11 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
     /* sanity checks
      * 1. valid start pe rank
      * 2. valid end pe rank */
-    if (start < 0 || start >= _parent_team->n_pes) {
+    if (start < 0 || start >= _parent_team->n_pes || size <= 0 || (stride == 0 && size > 1)) {
         goto fn_fail;
     }
 
-    int end_pe = start + stride * (size - 1);
+    int64_t end_pe = start + (int64_t) stride * (size - 1);
     if (end_pe < 0 || end_pe >= _parent_team->n_pes) {
         goto fn_fail;
     }
@@ -141,10 +141,17 @@ int shmem_team_split_strided(shmem_team_t parent_team, int start, int stride, in
      * 1. rank of the PE in parent team need to be between start and end (calculated using stride
      * and size).
      * 2. rank of the PE must be selected by the (start, stride, size). */
-    rank_selected = (_parent_team->my_pe >= start) && (_parent_team->my_pe <= end_pe)
-        && ((_parent_team->my_pe - start) % stride == 0);
+    int offset = _parent_team->my_pe - start;
+    if (size == 1) {
+        rank_selected = (offset == 0);
+    } else {
+        rank_selected = (offset % stride == 0) && (offset / stride >= 0)
+            && (offset / stride < size);
+    }
 
-    OSHMPI_team_split(_parent_team, (rank_selected) ? 1 : MPI_UNDEFINED, &_new_team);
+    /* A negative stride lists the PEs of the parent team backwards */
+    OSHMPI_team_split(_parent_team, (rank_selected) ? 1 : MPI_UNDEFINED,
+                      (stride < 0) ? -_parent_team->my_pe : _parent_team->my_pe, &_new_team);
 
     if (_new_team != NULL) {
         /* handle config if there is config and config_mask != 0 */
@@ -190,8 +197,8 @@ int shmem_team_split_2d(shmem_team_t parent_team, int xrange,
     int x_pos = _parent_team->my_pe % xrange;
     int y_pos = _parent_team->my_pe / xrange;
 
-    OSHMPI_team_split(_parent_team, y_pos, &_new_x_team);
-    OSHMPI_team_split(_parent_team, x_pos, &_new_y_team);
+    OSHMPI_team_split(_parent_team, y_pos, _parent_team->my_pe, &_new_x_team);
+    OSHMPI_team_split(_parent_team, x_pos, _parent_team->my_pe, &_new_y_team);
 
     if (_new_x_team != NULL) {
         if (xaxis_config && xaxis_mask != 0) {
-- 
2.43.0


From a4d913379e47a27bcb7f9cac1bb40ebeb5a30ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 26/29] fix: shmem_team_split_2d refuses an xrange which is not
 positive

---
 src/shmem/team.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shmem/team.c b/src/shmem/team.c
index c8fd135..23279d4 100644
--- a/src/shmem/team.c
+++ b/src/shmem/team.c
@@ -179,7 +179,7 @@ int shmem_team_split_2d(shmem_team_t parent_team, int xrange,
     OSHMPI_team_t *_new_x_team = NULL;
     OSHMPI_team_t *_new_y_team = NULL;
 
-    if (parent_team == SHMEM_TEAM_INVALID) {
+    if (parent_team == SHMEM_TEAM_INVALID || xrange <= 0) {
         goto fn_fail;
     }
 
-- 
2.43.0


From f4679359235defce83fc34643a41fb99cf787f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 27/29] fix: SHMEM_TEAM_SHARED contains the PEs which share
 memory

---
 src/internal/setup_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index 9c3f0ae..b4e0ff6 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -811,9 +811,9 @@ void OSHMPI_initialize_thread(int required, int *provided)
     OSHMPI_global.team_world->config.num_contexts = 0;
 
     /* Create SHMEM_TEAM_SHARED */
-    OSHMPI_CALLMPI(MPI_Comm_split(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
-                                  OSHMPI_global.team_world_my_pe,
-                                  &(OSHMPI_global.team_shared_comm)));
+    OSHMPI_CALLMPI(MPI_Comm_split_type(OSHMPI_global.team_world_comm, MPI_COMM_TYPE_SHARED,
+                                       OSHMPI_global.team_world_my_pe, MPI_INFO_NULL,
+                                       &(OSHMPI_global.team_shared_comm)));
     OSHMPI_CALLMPI(MPI_Comm_size(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_n_pes));
     OSHMPI_CALLMPI(MPI_Comm_rank(OSHMPI_global.team_shared_comm, &OSHMPI_global.team_shared_my_pe));
     OSHMPI_CALLMPI(MPI_Comm_group(OSHMPI_global.team_shared_comm,
-- 
2.43.0


From 16121375722b276d283973354458886786247d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 28/29] fix: shmem_finalize completes outstanding active
 messages

---
 src/internal/setup_impl.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/internal/setup_impl.c b/src/internal/setup_impl.c
index b4e0ff6..7683f81 100644
--- a/src/internal/setup_impl.c
+++ b/src/internal/setup_impl.c
@@ -864,9 +864,8 @@ static void finalize_impl(void)
 
     /* Implicit global barrier is required to ensure
      * that pending communications are completed and that no resources
-     * are released until all PEs have entered shmem_finalize.
-     * The completion part is ensured in unlock calls.*/
-    OSHMPI_am_progress_mpi_barrier(OSHMPI_global.team_world_comm);
+     * are released until all PEs have entered shmem_finalize. */
+    OSHMPI_barrier_all();
 
     OSHMPI_coll_finalize();
     OSHMPI_am_finalize();
-- 
2.43.0


From bb112a7b1d28645051cdda8d0b72339f50c427fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 29/29] fix: sizes in environment variables keep their
 precision and round up without a suffix as well

---
 src/include/oshmpi_util.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/oshmpi_util.h b/src/include/oshmpi_util.h
index 3f8b915..007ec55 100644
--- a/src/include/oshmpi_util.h
+++ b/src/include/oshmpi_util.h
@@ -155,9 +155,7 @@ OSHMPI_STATIC_INLINE_PREFIX uint64_t OSHMPIU_str_to_size(char *s)
     double val;
     char *e;
 
-    val = (double) strtof(s, &e);
-    if (e == NULL || *e == '\0')
-        return val;
+    val = strtod(s, &e);
 
     if (*e == 'K' || *e == 'k')
         val *= 1024.;
-- 
2.43.0

