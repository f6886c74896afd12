/* Spaces: allocation from a space (on the pool's contract, harness/mempool.c), creation, attachment, contexts.
 *
 * VP_M 1 shmemx_space_malloc/calloc/align (VP_R), 2 OSHMPI_space_free, 3 create, 4 destroy, 5 attach, 6 detach,
 * 7 create_ctx, 8 context routines.  VP_S: which of the spaces of the list is used, VP_NC: its number of contexts.
 */
#include "vp_core.h"
#include <stdlib.h>
#undef malloc
#undef free
static void *vp_alloc(size_t n);
static void vp_release(void *p);
static int vp_memalign(void **p, size_t a, size_t n);
#define malloc vp_alloc
#define free vp_release
#define posix_memalign vp_memalign
#ifndef VP_NC
#define VP_NC 0
#endif
#ifndef VP_S
#define VP_S 0
#endif
#ifdef VP_PROVE
/* text for diagnostics and hints: contents unspecified, at most 16 characters */
static int vp_snprintf(char *s, size_t n) { int r = vp_nd_int("len"); VP_ASSUME(r >= 0 && r <= 16); VP_ASSERT("text has room", n >= 17); s[0] = 0; return r; }
#define snprintf(s, n, ...) vp_snprintf(s, n)
#endif
#include "oshmpi_impl.h"
static void vp_on_coll(void);
#define VP_ON_COLL(c) vp_on_coll()
#define vp_complete vp_complete_
#include "vp_mpi.h"
#include "vp_world.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "internal/coll_impl.c"
#define VP_AM_NMAX 1
#define VP_AM_CONTRACT
#include "vp_am.h"
#include "vp_comm.h"
static void vp_on_release(void);
#define VP_ON_RELEASE(w) vp_on_release()
#include "vp_win.h"

static struct { size_t size, count, align; shmemx_space_config_t cfg; int used[4]; unsigned long base; long opt; int idx; } in;
static struct { int clock, meet_n, meet_t, rel_after_meet, a_n, a_t, f_n, z, am_n, am_t; size_t a_size; unsigned long p, f; OSUMPIU_mempool_t *pool;
                int init_n, dest_n; unsigned long i_base; size_t i_size, i_chunk; int fr_base, fr_space, fr_ctx, al_space, al_base; size_t al_ctx, al_align, al_size;
                int args_n, ovf; size_t prod; } g;
static OSHMPI_space_t vp_new_space;
static OSHMPI_ctx_t vp_ctxs[4];
static void vp_on_release(void) { if (!g.rel_after_meet) g.rel_after_meet = g.meet_n ? 1 : 2; }
static void vp_on_coll(void) { g.meet_n++; g.meet_t = ++g.clock; }
void vp_barrier_contract(void) { vp_on_coll(); }
void vp_amflush_contract(shmem_ctx_t ctx, int PE_start, int logPE_stride, int PE_size) {
#if VP_M == 8
    VP_ASSERT("completed before it can be handed out again", VP_FLAG(VP_SCTX(VP_S)->used_flag) != 0);
#endif
    g.am_n++; g.am_t = ++g.clock; if (PE_start == 0 && logPE_stride == 0 && PE_size == OSHMPI_global.team_world_n_pes) vp.am_pend = 0; }
#define SUBJ VP_SPACE(VP_S)

/* the pool's routines by their contract (proved in harness/mempool.c) */
void *OSHMPIU_mempool_alloc(OSUMPIU_mempool_t *q, size_t size)
{
    unsigned long b = vp_nd_u64("block"), lo = (unsigned long) q->base;
    g.a_n++; g.a_t = ++g.clock; g.a_size = size; g.pool = q; g.p = 0;
    if (size == 0 || size > q->size || vp_nd_bool("full")) return NULL;
    VP_ASSUME(b >= lo && b - lo <= q->size && size <= q->size - (b - lo) && ((b - lo) & (q->chunk_size - 1)) == 0);
    g.p = b;
    return (void *) b;
}
void OSHMPIU_mempool_free(OSUMPIU_mempool_t *q, void *p) { g.f_n++; g.pool = q; g.f = (unsigned long) p; }
void OSHMPIU_mempool_init(OSUMPIU_mempool_t *q, void *base, size_t size, size_t chunk)
{
    VP_ASSERT("whole chunks", size > 0 && (size & (chunk - 1)) == 0);
    g.init_n++; g.pool = q; g.i_base = (unsigned long) base; g.i_size = size; g.i_chunk = chunk;
    q->base = base; q->size = size; q->chunk_size = chunk;
}
void OSHMPIU_mempool_destroy(OSUMPIU_mempool_t *q) { g.dest_n++; g.pool = q; VP_ASSERT("the pool of the space is released while it exists", !g.fr_space); }
void OSHMPI_set_mpi_info_args(MPI_Info i) { VP_ASSERT("info object valid", i == VP_INFO && vp_wn.info_live); VP_ASSERT("hints are set before windows are made", vp_wn.n == 0); g.args_n++; }

static void *vp_alloc(size_t n)
{
#if VP_M == 5
    VP_ASSERT("room for every context", n >= sizeof(OSHMPI_ctx_t) * VP_NC && n <= sizeof vp_ctxs);
    g.al_ctx = n;
    return vp_ctxs;
#elif VP_M == 3
    if (!g.al_space) { VP_ASSERT("room for the space", n >= sizeof(OSHMPI_space_t)); g.al_space = 1; return &vp_new_space; }
    g.al_base++; g.al_size = n; g.al_align = 16;
    return (void *) in.base;
#else
    VP_ASSERT("nothing is allocated", 0);
    return NULL;
#endif
}
static int vp_memalign(void **p, size_t a, size_t n) { g.al_base++; g.al_align = a; g.al_size = n; *p = (void *) in.base; return 0; }
static void vp_release(void *p)
{
    if (!p) return;
    if (p == (void *) SUBJ) g.fr_space++;
    else if (p == (void *) vp_ctxs) g.fr_ctx++;
    else if ((unsigned long) p == (unsigned long) SUBJ->sobj_attr.base) { VP_ASSERT("the memory is read from a live space", !g.fr_space); g.fr_base++; }
    else VP_ASSERT("only the space's own buffers are released", 0);
}
#if VP_M == 1
static void *vp_memset(void *p, int c, size_t n)
{
    VP_ASSERT("writes inside the block only", g.p && (unsigned long) p >= g.p && n <= g.a_size && (unsigned long) p - g.p <= g.a_size - n);
    VP_ASSERT("zeroed before the PEs meet", !g.meet_n);
    if ((unsigned long) p == g.p && c == 0 && n >= g.a_size) g.z = 1;
    return p;
}
#define memset vp_memset
#endif
#if VP_M == 1
/* the product of the caller's arguments is computed once */
static int vp_mul(size_t c, size_t n, size_t *p)
{
    if ((c == in.count && n == in.size) || (c == in.size && n == in.count)) { *p = g.prod; return g.ovf; }
    return __builtin_mul_overflow(c, n, p);
}
#define __builtin_mul_overflow(a, b, p) vp_mul(a, b, p)
#endif
#include "internal/space_impl.c"
#undef __builtin_mul_overflow
#if VP_M == 8
#include "internal/ctx_impl.c"
#include "shmem/context.c"
#endif
#include "shmemx/space.c"

/* the other objects stay as they were */
static OSHMPI_space_t old0, old1; static OSHMPI_ctx_t oldc0, oldc1; static OSHMPI_global_t oldg; static int old_wins[VP_NWIN];
#define VP_CP(a, b) do { (a).ictx.win = (b).ictx.win; VP_FLAG((a).ictx.outstanding_op) = VP_FLAG((b).ictx.outstanding_op); VP_FLAG((a).used_flag) = VP_FLAG((b).used_flag); \
    (a).sobj_attr.handle = (b).sobj_attr.handle; (a).sobj_attr.memkind = (b).sobj_attr.memkind; (a).sobj_attr.base = (b).sobj_attr.base; (a).sobj_attr.size = (b).sobj_attr.size; } while (0)
static void vp_snapshot(void)
{
    old0 = vp_space0; old1 = vp_space1; VP_CP(oldc0, vp_sctx0); VP_CP(oldc1, vp_sctx1); oldg = OSHMPI_global;
    for (int i = 0; i < VP_NWIN; i++) old_wins[i] = vp.win[i].valid;
}
static int vp_same_attr(const OSHMPI_sobj_attr_t *a, const OSHMPI_sobj_attr_t *b) { return a->handle == b->handle && a->memkind == b->memkind && a->base == b->base && a->size == b->size; }
static int vp_same_ictx(const OSHMPI_ictx_t *a, const OSHMPI_ictx_t *b) { return a->win == b->win && VP_FLAG(a->outstanding_op) == VP_FLAG(b->outstanding_op); }
static int vp_same_space(const OSHMPI_space_t *a, const OSHMPI_space_t *b, int next)
{
    return vp_same_attr(&a->sobj_attr, &b->sobj_attr) && a->config.num_contexts == b->config.num_contexts && a->config.sheap_size == b->config.sheap_size
        && a->config.memkind == b->config.memkind && a->ctx_list == b->ctx_list && vp_same_ictx(&a->default_ictx, &b->default_ictx)
        && a->mem_pool.base == b->mem_pool.base && a->mem_pool.size == b->mem_pool.size && (!next || a->next == b->next);
}
static int vp_same_ctx(const OSHMPI_ctx_t *a, const OSHMPI_ctx_t *b) { return vp_same_ictx(&a->ictx, &b->ictx) && VP_FLAG(a->used_flag) == VP_FLAG(b->used_flag) && vp_same_attr(&a->sobj_attr, &b->sobj_attr); }
static int vp_same_fixed(void)
{
    return vp_same_attr(&OSHMPI_global.symm_heap_attr, &oldg.symm_heap_attr) && vp_same_attr(&OSHMPI_global.symm_data_attr, &oldg.symm_data_attr)
        && vp_same_ictx(&OSHMPI_global.symm_heap_ictx, &oldg.symm_heap_ictx) && vp_same_ictx(&OSHMPI_global.symm_data_ictx, &oldg.symm_data_ictx)
        && vp_same_ctx(&vp_sctx0, &oldc0) && vp_same_ctx(&vp_sctx1, &oldc1);
}
/* only windows of the space given (0, 1; -1 none) may have gone */
static int vp_wins_ok(int w1, int w2, int w3)
{
    int ok = 1;
    for (int i = 0; i < VP_NWIN; i++)
        ok = ok && (vp_wn.freed[i] == (old_wins[i] && (i == w1 || i == w2 || i == w3)));
    return ok;
}

int vp_main(void)
{
    vp_shape0 = VP_SHAPE0; vp_shape1 = VP_SHAPE1;
    vp_world(); vp_am_world(); vp_reset_comm(); vp_win_reset();
    VP_IN_TO(size_t, in.size, "size"); VP_IN_TO(size_t, in.count, "count"); VP_IN_TO(size_t, in.align, "alignment"); VP_IN_TO(uint64_t, in.base, "membase");
    VP_IN_TO(long, in.opt, "options"); VP_IN_TO(int, in.idx, "attach_idx");
    VP_ASSUME(in.align && (in.align & (in.align - 1)) == 0);
    { __typeof__(g) z = { 0 }; g = z; }
    OSHMPI_space_t *s = SUBJ;
    int i;
#if VP_M == 1
    void *p = NULL;
    size_t need = in.size;
    s->mem_pool.chunk_size = OSHMPI_global.page_sz;
    VP_ASSUME(((unsigned long) s->mem_pool.base & (OSHMPI_global.page_sz - 1)) == 0);     /* create's contract (VP_M 3) */
    vp_snapshot();
#if VP_R == 2
    g.ovf = __builtin_mul_overflow(in.count, in.size, &g.prod); need = g.prod;
#endif
    VP_REACH("pre");
#if VP_R == 1
    p = shmemx_space_malloc((shmemx_space_t) s, in.size);
#elif VP_R == 2
    p = shmemx_space_calloc((shmemx_space_t) s, in.count, in.size);
#else
    p = shmemx_space_align((shmemx_space_t) s, in.align, in.size);
#endif
    VP_ASSERT("taken from the space's pool", g.a_n <= 1 && (!g.a_n || g.pool == &s->mem_pool));
    VP_ASSERT("null or the block that was reserved", (unsigned long) p == g.p);
    if (p) {
        VP_ASSERT("inside the space", (unsigned long) p >= (unsigned long) s->sobj_attr.base && !g.ovf && need <= g.a_size
                  && (unsigned long) p - (unsigned long) s->sobj_attr.base <= (size_t) s->sobj_attr.size - need);
#if VP_R == 2
        VP_ASSERT("zeroed", g.z);
#elif VP_R == 3
        VP_ASSERT("aligned as asked", ((unsigned long) p & (in.align - 1)) == 0);
#endif
    }
#if VP_R != 2
    VP_ASSERT("asks for what was requested", g.a_n == 0 || g.a_size == need || (VP_R == 3 && in.align > OSHMPI_global.page_sz));
#else
    VP_ASSERT("asks for what was requested", g.a_n == 0 || g.a_size == need || g.ovf);
#endif
    VP_ASSERT("all PEs meet after the allocation", g.meet_n == 1 && g.meet_t > g.a_t);
    VP_ASSERT("other objects unchanged", vp_same_space(&vp_space0, &old0, 1) && vp_same_space(&vp_space1, &old1, 1));
#elif VP_M == 2
    VP_REACH("pre");
    OSHMPI_space_free(s, (void *) in.base);
    VP_ASSERT("released to the space's pool once", g.f_n == 1 && g.pool == &s->mem_pool && g.f == in.base);
#elif VP_M == 3
    shmemx_space_t out = NULL;
    VP_IN_TO(size_t, in.cfg.sheap_size, "sheap_size"); VP_IN_TO(int, in.cfg.num_contexts, "nctx"); VP_IN_TO(long, in.cfg.hints, "hints"); VP_IN_TO(int, in.cfg.memkind, "memkind");
    VP_ASSUME(in.cfg.sheap_size > 0 && in.cfg.sheap_size < (1ul << 45) && in.cfg.num_contexts >= 0 && in.cfg.memkind == SHMEMX_MEM_HOST);
    VP_ASSUME(in.base && in.base < VP_ADDR_MAX);
    vp_snapshot();
    VP_REACH("pre");
    shmemx_space_create(in.cfg, &out);
    VP_ASSERT("the new space is returned", out == (shmemx_space_t) &vp_new_space);
    VP_ASSERT("as configured", vp_new_space.config.sheap_size == in.cfg.sheap_size && vp_new_space.config.num_contexts == in.cfg.num_contexts && vp_new_space.config.hints == in.cfg.hints && vp_new_space.config.memkind == SHMEMX_MEM_HOST);
    VP_ASSERT("memory of the size asked for, aligned to pages", g.al_base == 1 && (g.al_align & (OSHMPI_global.page_sz - 1)) == 0 && g.al_align
              && g.al_size >= in.cfg.sheap_size && (unsigned long) vp_new_space.sobj_attr.base == in.base
              && vp_new_space.sobj_attr.size >= (MPI_Aint) in.cfg.sheap_size && vp_new_space.sobj_attr.size <= (MPI_Aint) g.al_size);
    VP_ASSERT("pool covers the memory", g.init_n == 1 && g.pool == &vp_new_space.mem_pool && g.i_base == in.base && g.i_size == (size_t) vp_new_space.sobj_attr.size && g.i_chunk == OSHMPI_global.page_sz);
    VP_ASSERT("not attached", OSHMPI_SOBJ_HANDLE_GET_KIND(vp_new_space.sobj_attr.handle) == OSHMPI_SOBJ_SPACE_HEAP && vp_new_space.ctx_list == NULL
              && vp_new_space.default_ictx.win == MPI_WIN_NULL && VP_FLAG(vp_new_space.default_ictx.outstanding_op) == 0 && vp_wn.n == 0);
    VP_ASSERT("appended to the list", vp_new_space.next == NULL && OSHMPI_global.space_list.nspaces == vp_nspaces + 1
              && (vp_nspaces == 0 ? OSHMPI_global.space_list.head == &vp_new_space : OSHMPI_global.space_list.head == oldg.space_list.head
                  && (vp_nspaces == 1 ? vp_space0.next == &vp_new_space : vp_space0.next == &vp_space1 && vp_space1.next == &vp_new_space)));
    VP_ASSERT("other spaces unchanged", vp_same_space(&vp_space0, &old0, 0) && vp_same_space(&vp_space1, &old1, 0) && vp_same_fixed());
    VP_ASSERT("no meeting of the PEs", g.meet_n == 0);
#elif VP_M == 4
    vp_snapshot();
    unsigned long base = (unsigned long) s->sobj_attr.base; (void) base;
    VP_REACH("pre");
    shmemx_space_destroy((shmemx_space_t) s);
    VP_ASSERT("the pool is released once", g.dest_n == 1 && g.pool == &s->mem_pool);
    VP_ASSERT("memory and descriptor are released once", g.fr_base == 1 && g.fr_space == 1 && g.fr_ctx == 0);
    VP_ASSERT("removed from the list", OSHMPI_global.space_list.nspaces == vp_nspaces - 1
              && (vp_nspaces == 1 ? OSHMPI_global.space_list.head == NULL : OSHMPI_global.space_list.head == VP_SPACE(1 - VP_S) && VP_SPACE(1 - VP_S)->next == NULL));
    VP_ASSERT("other spaces unchanged", (VP_S == 0 || vp_same_space(&vp_space0, &old0, 0)) && (VP_S == 1 || vp_same_space(&vp_space1, &old1, 0)) && vp_same_fixed() && vp_wins_ok(0, 0, 0));
#elif VP_M == 5
    s->config.num_contexts = VP_NC;
    VP_IN_TO(long, s->config.hints, "hints");
    VP_ASSUME(in.idx > 2 && in.idx < OSHMPI_SOBJ_HANDLE_IDX_MASK);       /* above every index given so far */
    space_attach_idx = in.idx;
    vp_snapshot();
    VP_REACH("pre");
    shmemx_space_attach((shmemx_space_t) s);
    VP_ASSERT("identity from the number of attachments so far", OSHMPI_SOBJ_HANDLE_GET_IDX(s->sobj_attr.handle) == (unsigned) in.idx && space_attach_idx > in.idx
              && OSHMPI_SOBJ_HANDLE_GET_KIND(s->sobj_attr.handle) == OSHMPI_SOBJ_SPACE_ATTACHED_HEAP);
    VP_ASSERT("memory unchanged", s->sobj_attr.base == (VP_S ? old1 : old0).sobj_attr.base && s->sobj_attr.size == (VP_S ? old1 : old0).sobj_attr.size && s->next == (VP_S ? old1 : old0).next);
    VP_ASSERT("a window for the space and for each context", vp_wn.n == 1 + VP_NC && vp_wnew(s->default_ictx.win) && VP_FLAG(s->default_ictx.outstanding_op) == 0);
    for (i = 0; i < 1 + VP_NC; i++)
        VP_ASSERT("every window covers exactly the space, on all PEs, and is ready", vp_wn.w[i].base == (unsigned long) s->sobj_attr.base && vp_wn.w[i].size == s->sobj_attr.size
                  && vp_wn.w[i].unit == 1 && vp_wn.w[i].comm == OSHMPI_global.team_world_comm && vp_wn.w[i].locked && !vp_wn.w[i].freed);
    VP_ASSERT("contexts present", VP_NC == 0 ? s->ctx_list == NULL : s->ctx_list == vp_ctxs);
    for (i = 0; i < VP_NC; i++)
        VP_ASSERT("every context has a window of its own and is free", vp_wnew(vp_ctxs[i].ictx.win) && vp_ctxs[i].ictx.win != s->default_ictx.win && (i == 0 || vp_ctxs[i].ictx.win != vp_ctxs[i - 1].ictx.win)
                  && (i < 2 || vp_ctxs[i].ictx.win != vp_ctxs[i - 2].ictx.win) && VP_FLAG(vp_ctxs[i].ictx.outstanding_op) == 0 && VP_FLAG(vp_ctxs[i].used_flag) == 0 && vp_same_attr(&vp_ctxs[i].sobj_attr, &s->sobj_attr));
    VP_ASSERT("info released", vp_wn.info_made == 1 && !vp_wn.info_live && g.args_n == 1);
    VP_ASSERT("list and other spaces unchanged", (VP_S == 0 || vp_same_space(&vp_space0, &old0, 1)) && (VP_S == 1 || vp_same_space(&vp_space1, &old1, 1)) && vp_same_fixed()
              && OSHMPI_global.space_list.head == oldg.space_list.head && OSHMPI_global.space_list.nspaces == oldg.space_list.nspaces);
#elif VP_M == 6
    /* VP_NC contexts, none in use */
    s->config.num_contexts = VP_NC;
    s->ctx_list = VP_NC ? vp_ctxs : NULL;
    for (i = 0; i < VP_NC; i++) {
        vp_mkwin(i ? VP_WIN_CTX + 2 : VP_WIN_CTX + VP_S, (long) s->sobj_attr.base, s->sobj_attr.size);
        vp_mkictx(&vp_ctxs[i].ictx, i ? VP_WIN_CTX + 2 : VP_WIN_CTX + VP_S);
        vp_ctxs[i].sobj_attr = s->sobj_attr; VP_FLAG(vp_ctxs[i].used_flag) = 0;
    }
    vp_snapshot();
    VP_REACH("pre");
    vp.no_block = !OSHMPI_ENABLE_AM_ASYNC_THREAD_RUNTIME;
    shmemx_space_detach((shmemx_space_t) s);
    VP_ASSERT("all PEs meet, serving active messages, before the first blocking release", g.meet_n == 1 && vp.coll[0].comm == OSHMPI_global.team_world_comm && g.rel_after_meet == 1);
    VP_ASSERT("exactly the space's windows are released", vp_wins_ok(VP_WIN_SPACE + VP_S, VP_NC > 0 ? VP_WIN_CTX + VP_S : 0, VP_NC > 1 ? VP_WIN_CTX + 2 : 0) && vp_wn.nfreed == 1 + VP_NC);
    VP_ASSERT("the contexts are released once", g.fr_ctx == (VP_NC > 0) && s->ctx_list == NULL && !g.fr_base && !g.fr_space);
    VP_ASSERT("no longer attached", OSHMPI_SOBJ_HANDLE_GET_KIND(s->sobj_attr.handle) == OSHMPI_SOBJ_SPACE_HEAP && s->default_ictx.win == MPI_WIN_NULL);
    VP_ASSERT("memory unchanged", s->sobj_attr.base == (VP_S ? old1 : old0).sobj_attr.base && s->sobj_attr.size == (VP_S ? old1 : old0).sobj_attr.size && s->next == (VP_S ? old1 : old0).next
              && s->mem_pool.base == (VP_S ? old1 : old0).mem_pool.base && s->mem_pool.size == (VP_S ? old1 : old0).mem_pool.size && s->config.num_contexts == VP_NC);
    VP_ASSERT("list and other spaces unchanged", (VP_S == 0 || vp_same_space(&vp_space0, &old0, 1)) && (VP_S == 1 || vp_same_space(&vp_space1, &old1, 1)) && vp_same_fixed()
              && OSHMPI_global.space_list.head == oldg.space_list.head && OSHMPI_global.space_list.nspaces == oldg.space_list.nspaces);
    VP_ASSERT("outstanding operations stay remembered", vp_track_all());
#elif VP_M == 7
    shmem_ctx_t out = (shmem_ctx_t) 5;
    int rc, k = -1, taken = 0;
    s->config.num_contexts = VP_NC; s->ctx_list = VP_NC ? vp_ctxs : NULL;
    for (i = 0; i < VP_NC; i++) { VP_IN_TO(unsigned char, in.used[i], "used"); in.used[i] = in.used[i] != 0; VP_FLAG(vp_ctxs[i].used_flag) = in.used[i]; taken += in.used[i]; vp_ctxs[i].sobj_attr = s->sobj_attr; }
    vp_snapshot();
    VP_REACH("pre");
    rc = shmemx_space_create_ctx((shmemx_space_t) s, in.opt, &out);
    for (i = 0; i < VP_NC; i++) if (out == (shmem_ctx_t) &vp_ctxs[i]) k = i;
    VP_ASSERT("fails exactly when none is left", (rc == SHMEM_SUCCESS) == (taken < VP_NC));
    if (rc == SHMEM_SUCCESS) VP_ASSERT("a context no other user holds", k >= 0 && !in.used[k] && VP_FLAG(vp_ctxs[k].used_flag));
    for (i = 0; i < VP_NC; i++) VP_ASSERT("no other context changes", (rc == SHMEM_SUCCESS && i == k) || VP_FLAG(vp_ctxs[i].used_flag) == (unsigned) in.used[i]);
    VP_ASSERT("no handle is made up", rc == SHMEM_SUCCESS || k < 0);
    VP_ASSERT("other objects unchanged", vp_same_space(&vp_space0, &old0, 1) && vp_same_space(&vp_space1, &old1, 1) && vp_same_fixed());
#elif VP_M == 8
    OSHMPI_ctx_t *cx = VP_SCTX(VP_S);
    shmem_ctx_t out = (shmem_ctx_t) 5; shmem_team_t tm = (shmem_team_t) 5;
#if VP_R == 1
    int w = cx->ictx.win, other = VP_FLAG(VP_SCTX(1 - VP_S)->used_flag); unsigned h = cx->sobj_attr.handle; unsigned long b = (unsigned long) cx->sobj_attr.base;
    for (i = 0; i < VP_NWIN; i++) old_wins[i] = vp.win[i].valid;
    VP_REACH("pre");
    shmem_ctx_destroy((shmem_ctx_t) cx);
    VP_ASSERT("available again", VP_FLAG(cx->used_flag) == 0);
    VP_ASSERT("its operations are complete", !vp.win[VP_WIN_CTX + VP_S].pend && !vp.am_pend);
    VP_ASSERT("its window stays", cx->ictx.win == w && cx->sobj_attr.handle == h && (unsigned long) cx->sobj_attr.base == b && vp_wins_ok(0, 0, 0));
    VP_ASSERT("other contexts unchanged", (int) VP_FLAG(VP_SCTX(1 - VP_S)->used_flag) == other);
    VP_ASSERT("outstanding operations stay remembered", vp_track_all());
#else
    int rc;
    vp_snapshot();
    VP_REACH("pre");
    shmem_ctx_destroy(in.opt & 1 ? SHMEM_CTX_INVALID : SHMEM_CTX_DEFAULT);
    rc = shmem_ctx_create(in.opt, &out);
    VP_ASSERT("no context outside of a space", rc != 0 && out == SHMEM_CTX_INVALID);
    out = (shmem_ctx_t) 5;
    rc = shmem_team_create_ctx(in.opt & 2 ? SHMEM_TEAM_INVALID : SHMEM_TEAM_WORLD, in.opt, &out);
    VP_ASSERT("no context outside of a space (team)", rc != 0 && out == SHMEM_CTX_INVALID);
    rc = shmem_ctx_get_team(SHMEM_CTX_DEFAULT, &tm);
    VP_ASSERT("the default context's team", rc == 0 && tm == SHMEM_TEAM_WORLD);
    rc = shmem_ctx_get_team(SHMEM_CTX_INVALID, &tm);
    VP_ASSERT("no team for no context", rc != 0 && tm == SHMEM_TEAM_INVALID);
    VP_ASSERT("other objects unchanged", vp_same_space(&vp_space0, &old0, 1) && vp_same_space(&vp_space1, &old1, 1) && vp_same_fixed() && vp_wins_ok(0, 0, 0));
#endif
#endif
    VP_REACH("post");
    return 0;
}
