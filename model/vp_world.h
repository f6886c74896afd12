/* Arbitrary valid library state ("type invariant" of OSHMPI_global and friends).
 * Included after oshmpi_impl.h and vp_mpi.h. */
#ifndef VP_WORLD_H
#define VP_WORLD_H

OSHMPI_env_t OSHMPI_env;
#ifndef VP_REAL_SETUP
OSHMPI_global_t OSHMPI_global;
#endif

#ifndef VP_NSPACE
#define VP_NSPACE 2             /* attached/unattached user spaces present in the symbolic state */
#endif
#define VP_WIN_HEAP 1
#define VP_WIN_DATA 2
#define VP_WIN_SPACE 3          /* + i : default window of space i  (3,4,5) */
#define VP_WIN_CTX 6            /* + i : window of the explicit context of space i (6,7,8) */
#define VP_ADDR_MAX (1L << 46)

/* separate objects, so that a pointer into one cannot be confused with another by the verifier */
static OSHMPI_space_t vp_space0, vp_space1;
static OSHMPI_ctx_t vp_sctx0, vp_sctx1;
#define VP_SPACE(i) ((i) == 0 ? &vp_space0 : &vp_space1)
#define VP_SCTX(i) ((i) == 0 ? &vp_sctx0 : &vp_sctx1)
static OSHMPI_team_t vp_team_world, vp_team_shared;
static int vp_nspaces;


#ifdef OSHMPI_ENABLE_THREAD_MULTIPLE
#define VP_FLAG(f) ((f).v)
#else
#define VP_FLAG(f) (f)
#endif

/* an object [base, base+size) in user address space */
static void vp_range(long *base, long *size)
{
    VP_IN_TO(long, *base, "base");
    VP_IN_TO(long, *size, "size");
    VP_ASSUME(*base >= 4096 && *base < VP_ADDR_MAX && *size >= 0 && *size < VP_ADDR_MAX - *base);
}
static int vp_disjoint(long b1, long s1, long b2, long s2) { return b1 + s1 <= b2 || b2 + s2 <= b1; }

static void vp_mkwin(int w, long base, long size)
{
    vp.win[w].valid = 1; vp.win[w].base = base; vp.win[w].size = size; vp.win[w].dyn = 0;
    vp.win[w].freed = 0; vp.win[w].synced = 0; vp.win[w].flushes = 0;
    VP_IN_TO(unsigned char, vp.win[w].pend, "pend");
    vp.win[w].pend &= 3;
    vp.win[w].pend_loc = 0;
}
/* representation invariant of operation tracking: an operation not known complete => flag set */
static void vp_mkictx(OSHMPI_ictx_t *ic, int w)
{
    ic->win = w;
    unsigned f;
    VP_IN_TO(unsigned, f, "oflag");
    f = f & 1;
    VP_FLAG(ic->outstanding_op) = f;
#ifdef OSHMPI_ENABLE_OP_TRACKING
    VP_ASSUME(!vp.win[w].pend || f);
#endif
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
    ic->disp_mode = OSHMPI_RELATIVE_DISP;
#endif
}
static int vp_track_ok(OSHMPI_ictx_t *ic)
{
#ifdef OSHMPI_ENABLE_OP_TRACKING
    return !(ic->win > 0 && ic->win < VP_NWIN && vp.win[ic->win].valid && vp.win[ic->win].pend) || VP_FLAG(ic->outstanding_op) != 0;
#else
    return 1;
#endif
}

/* Case split over the shape of the space list: each space absent (0), present (1), present with a
 * context configured (2), attached (3), attached with a context (4).  -1: left symbolic. */
static int vp_shape0 = -1, vp_shape1 = -1;
#ifdef VP_PROVE
#define VP_CASE_END VP_ASSUME(0)
#else
#define VP_CASE_END return 0
#endif
/* run BODY once for every shape (k0, k1); together the cases cover every list of at most two spaces */
#define VP_SHAPES(BODY)                                                                         \
    do {                                                                                        \
        int cs_;                                                                                \
        VP_IN_TO(int, cs_, "shape");                                                            \
        VP_ASSUME(cs_ >= 0 && cs_ < 25 && !(cs_ > 0 && cs_ < 5));                               \
        for (vp_shape0 = 0; vp_shape0 < 5; vp_shape0++)                                         \
            for (vp_shape1 = 0; vp_shape1 < (vp_shape0 && VP_NSPACE > 1 ? 5 : 1); vp_shape1++)                   \
                if (cs_ == vp_shape0 * 5 + vp_shape1) { BODY; VP_CASE_END; }                    \
    } while (0)

static void vp_world(void)
{
    int n, me;
    VP_IN_TO(int, n, "n_pes");
    VP_IN_TO(int, me, "my_pe");
    VP_ASSUME(n >= 1 && me >= 0 && me < n && n <= (1 << 24));
    OSHMPI_global.is_initialized = 1;
    OSHMPI_global.team_world_my_pe = me;
    OSHMPI_global.team_world_n_pes = n;
    OSHMPI_global.team_world_comm = 10;
    OSHMPI_global.team_world_group = 10;
    OSHMPI_global.thread_level = SHMEM_THREAD_SINGLE;
#ifdef OSHMPI_ENABLE_THREAD_MULTIPLE
    OSHMPI_global.thread_level = SHMEM_THREAD_MULTIPLE;
#endif
    OSHMPI_global.page_sz = 4096;
    vp_team_world.my_pe = me; vp_team_world.n_pes = n; vp_team_world.comm = 10; vp_team_world.group = 10;
    OSHMPI_global.team_world = &vp_team_world;
    VP_IN_TO(int, vp_team_shared.my_pe, "sh_my_pe");
    VP_IN_TO(int, vp_team_shared.n_pes, "sh_n_pes");
    VP_ASSUME(vp_team_shared.n_pes >= 1 && vp_team_shared.n_pes <= n && vp_team_shared.my_pe >= 0 && vp_team_shared.my_pe < vp_team_shared.n_pes);
    vp_team_shared.comm = 11; vp_team_shared.group = 11;
    OSHMPI_global.team_shared = &vp_team_shared;
    OSHMPI_global.team_shared_comm = 11; OSHMPI_global.team_shared_group = 11;
    OSHMPI_global.team_shared_my_pe = vp_team_shared.my_pe; OSHMPI_global.team_shared_n_pes = vp_team_shared.n_pes;
    VP_IN_TO(int, vp.w_pe, "w_pe");
    VP_ASSUME(vp.w_pe >= 0 && vp.w_pe < n);

    long hb, hs, db, ds;
    vp_range(&hb, &hs);
    vp_range(&db, &ds);
    VP_ASSUME(vp_disjoint(hb, hs, db, ds));
    OSHMPI_global.symm_heap_attr.base = (void *) hb;
    OSHMPI_global.symm_heap_attr.size = hs;
    OSHMPI_global.symm_heap_attr.memkind = SHMEMX_MEM_HOST;
    OSHMPI_sobj_set_handle(&OSHMPI_global.symm_heap_attr, OSHMPI_SOBJ_SYMM_HEAP, 0, 0);
    OSHMPI_global.symm_data_attr.base = (void *) db;
    OSHMPI_global.symm_data_attr.size = ds;
    OSHMPI_global.symm_data_attr.memkind = SHMEMX_MEM_HOST;
    OSHMPI_sobj_set_handle(&OSHMPI_global.symm_data_attr, OSHMPI_SOBJ_SYMM_DATA, 0, 0);
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
    vp_mkwin(VP_WIN_HEAP, 0, 0);
    vp_mkictx(&OSHMPI_global.symm_ictx, VP_WIN_HEAP);
    OSHMPI_global.symm_ictx.disp_mode = OSHMPI_ABS_DISP;
    vp.win[VP_WIN_HEAP].dyn = 1;
#else
    vp_mkwin(VP_WIN_HEAP, hb, hs);
    vp_mkictx(&OSHMPI_global.symm_heap_ictx, VP_WIN_HEAP);
    vp_mkwin(VP_WIN_DATA, db, ds);
    vp_mkictx(&OSHMPI_global.symm_data_ictx, VP_WIN_DATA);
#endif

    /* user spaces: each attached (windows present, contexts available) or not */
    OSHMPI_global.space_list.head = NULL;
    VP_IN_TO(int, vp_nspaces, "nspaces");
    if (vp_shape0 >= 0) vp_nspaces = vp_shape0 == 0 ? 0 : vp_shape1 == 0 ? 1 : 2;
    VP_ASSUME(vp_nspaces >= 0 && vp_nspaces <= VP_NSPACE);
    for (int i = VP_NSPACE - 1; i >= 0; i--) {
        OSHMPI_space_t *s = VP_SPACE(i);
        long b, z;
        int att, nctx, c;
        vp_range(&b, &z);
        VP_ASSUME(vp_disjoint(hb, hs, b, z) && vp_disjoint(db, ds, b, z));
        for (int j = i + 1; j < VP_NSPACE; j++)
            VP_ASSUME(vp_disjoint((long) VP_SPACE(j)->sobj_attr.base, VP_SPACE(j)->sobj_attr.size, b, z));
        VP_IN_TO(unsigned char, att, "attached");
        att = att != 0;
        VP_IN_TO(int, nctx, "num_contexts");
        VP_ASSUME(nctx >= 0 && nctx <= 1);
        if (vp_shape0 >= 0) { int k = i == 0 ? vp_shape0 : vp_shape1; att = k >= 3; nctx = k == 2 || k == 4; }
        s->sobj_attr.base = (void *) b;
        s->sobj_attr.size = z;
        s->sobj_attr.memkind = SHMEMX_MEM_HOST;
        /* the index of a space is unique */
        OSHMPI_sobj_set_handle(&s->sobj_attr, att ? OSHMPI_SOBJ_SPACE_ATTACHED_HEAP : OSHMPI_SOBJ_SPACE_HEAP, 0, (uint32_t) (i + 1));
        s->config.num_contexts = nctx;
        s->config.sheap_size = (size_t) z;
        s->config.memkind = SHMEMX_MEM_HOST;
        s->mem_pool.base = (void *) b;
        s->mem_pool.size = (size_t) z;
        s->ctx_list = NULL;
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
        s->default_ictx.win = MPI_WIN_NULL;
        VP_FLAG(s->default_ictx.outstanding_op) = 0;
        if (att) { vp_mkwin(VP_WIN_SPACE + i, b, z); vp_mkictx(&s->default_ictx, VP_WIN_SPACE + i); }
#endif
        if (att && nctx > 0) {
            OSHMPI_ctx_t *cx = VP_SCTX(i);
            vp_mkwin(VP_WIN_CTX + i, b, z);
            vp_mkictx(&cx->ictx, VP_WIN_CTX + i);
            VP_FLAG(cx->used_flag) = 1;
            cx->sobj_attr = s->sobj_attr;
            s->ctx_list = cx;
        }
        s->next = NULL;
        if (i < vp_nspaces) { s->next = OSHMPI_global.space_list.head; OSHMPI_global.space_list.head = s; }
    }
    OSHMPI_global.space_list.nspaces = vp_nspaces;
    VP_IN_TO(unsigned, OSHMPI_env.debug, "debug");
    OSHMPI_env.rma_dbg_mode = OSHMPI_DBG_AUTO;
    OSHMPI_env.amo_dbg_mode = OSHMPI_DBG_AUTO;
    OSHMPI_env.mpi_gpu_features = 0;
    vp.nwin = VP_NWIN;
}

/* the windows of live contexts */
static int vp_space_live(int i) { return i < vp_nspaces; }

/* which symmetric object holds addr: 0 none, 1 heap, 2 data, 3+i space i */
static int vp_obj_of(long a)
{
    long b = (long) OSHMPI_global.symm_heap_attr.base;
    if (a >= b && a < b + OSHMPI_global.symm_heap_attr.size) return 1;
    b = (long) OSHMPI_global.symm_data_attr.base;
    if (a >= b && a < b + OSHMPI_global.symm_data_attr.size) return 2;
    for (int i = 0; i < VP_NSPACE; i++) {
        b = (long) VP_SPACE(i)->sobj_attr.base;
        if (i < vp_nspaces && a >= b && a < b + VP_SPACE(i)->sobj_attr.size) return 3 + i;
    }
    return 0;
}
static long vp_obj_base(int o)
{
    return o == 1 ? (long) OSHMPI_global.symm_heap_attr.base : o == 2 ? (long) OSHMPI_global.symm_data_attr.base
        : (long) VP_SPACE(o - 3)->sobj_attr.base;
}
static long vp_obj_size(int o)
{
    return o == 1 ? OSHMPI_global.symm_heap_attr.size : o == 2 ? OSHMPI_global.symm_data_attr.size
        : VP_SPACE(o - 3)->sobj_attr.size;
}
static int vp_obj_attached(int o)
{
    return o == 1 || o == 2 || (o >= 3 && OSHMPI_SOBJ_HANDLE_GET_KIND(VP_SPACE(o - 3)->sobj_attr.handle) == OSHMPI_SOBJ_SPACE_ATTACHED_HEAP);
}
/* tracking invariant over all live contexts */
static int vp_track_all(void)
{
    int ok = 1;
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
    ok = ok && vp_track_ok(&OSHMPI_global.symm_ictx);
#else
    ok = ok && vp_track_ok(&OSHMPI_global.symm_heap_ictx) && vp_track_ok(&OSHMPI_global.symm_data_ictx);
#endif
    for (int i = 0; i < VP_NSPACE; i++)
        if (i < vp_nspaces) {
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
            ok = ok && vp_track_ok(&VP_SPACE(i)->default_ictx);
#endif
            if (VP_SPACE(i)->ctx_list) ok = ok && vp_track_ok(&VP_SCTX(i)->ictx);
        }
    return ok;
}
/* frame of the one-sided operations: ghost state plus tracking flags */
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
#define VP_FRAME_FLAGS OSHMPI_global.symm_ictx.outstanding_op, vp_space0, vp_space1, vp_sctx0, vp_sctx1
#else
#define VP_FRAME_FLAGS OSHMPI_global.symm_heap_ictx.outstanding_op, OSHMPI_global.symm_data_ictx.outstanding_op, \
    vp_space0.default_ictx.outstanding_op, vp_space1.default_ictx.outstanding_op, \
    vp_sctx0.ictx.outstanding_op, vp_sctx1.ictx.outstanding_op
#endif
#endif
