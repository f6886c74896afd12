/* Collectives.
 *
 * VP_M 1: coll_acquire_comm: whatever sets were used before, the communicator consists of exactly the
 *         PEs of the active set, in order, and is remembered for that set only.
 *    2: ... and is built once.    3: OSHMPI_coll_finalize releases every one once.
 * VP_M 4: the core routines, team form (VP_ASET: active-set form, coll_acquire_comm by its contract):
 *         which collective runs on which communicator, and where every member's data goes.
 *         VP_FAM 1 broadcast 2 collect 3 fcollect 4 alltoall 5 alltoalls 6 reductions.
 * VP_M 5: every public routine of the family with the core calls replaced by their contract.
 * VP_M 6: one public type VP_TY, everything in line.
 */
#include "vp_core.h"
static void vp_copied(void *d, const void *s, size_t n);
static struct { int n; const void *d, *s; size_t bytes; int before; } cp;
static int cp_on;
static void *vp_memcpy(void *d, const void *s, size_t n)
{
    if (cp_on) { cp.n++; cp.d = d; cp.s = s; cp.bytes = n; return d; }
#ifdef VP_PROVE
    return memcpy(d, s, n);
#else
    return memcpy(d, s, n);
#endif
}
#define memcpy(d, s, n) vp_memcpy(d, s, n)
#define memmove(d, s, n) vp_memcpy(d, s, n)
#include "oshmpi_impl.h"
#include "internal/coll_activeset_impl.h"
#define VP_PKT_SIZE sizeof(OSHMPI_am_pkt_t)
struct vp_coll_s;
static void vp_coll_started(void *c);
#define VP_COLL_RESULT(c) vp_coll_started(c)
#include "vp_mpi.h"
#include "vp_world.h"
#include "vp_types.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "internal/coll_impl.c"
#include "vp_am.h"
#include "vp_cache.h"
#include "vp_comm.h"
#undef memcpy
#undef memmove

#define FM_BCAST 1
#define FM_COLLECT 2
#define FM_FCOLLECT 3
#define FM_A2A 4
#define FM_A2AS 5
#define FM_REDUCE 6
#define NMAX 4                  /* members, where counts differ per member (collect) */
typedef unsigned long long u64;
static struct {
    int start, log, size, me, root, team, ty, kind, rop, mt, inplace; size_t sz, n; long dst, sst; void *dest; const void *src;
    int cnt[NMAX];
} in;
static int vp_valid_aset(int start, int log, int size)
{
    return start >= 0 && log >= 0 && log < 31 && size >= 1 && start < OSHMPI_global.team_world_n_pes
        && (size - 1) <= (OSHMPI_global.team_world_n_pes - 1 - start) >> log;
}
/* ------------------------------------------------------------------ communicator cache */
static OSHMPI_comm_cache_obj_t vp_cc0, vp_cc1;
static void vp_cc_add(OSHMPI_comm_cache_obj_t *c)
{
    VP_IN_TO(int, c->pe_start, "cc_start"); VP_IN_TO(int, c->pe_stride, "cc_log"); VP_IN_TO(int, c->pe_size, "cc_size");
    VP_ASSUME(vp_valid_aset(c->pe_start, c->pe_stride, c->pe_size));
    vp.grp[vp.ngrp].of_comm = 0; vp.grp[vp.ngrp].size = c->pe_size; vp.grp[vp.ngrp].freed = 0; vp.grp[vp.ngrp].parent = 10;
    vp.grp[vp.ngrp].member = vp.w_i < c->pe_size ? c->pe_start + (int) ((unsigned) vp.w_i << c->pe_stride) : -1;
    c->group = VP_GRP0 + vp.ngrp++;
    c->comm = vp_comm_new(10, VP_CK_GROUP, 0, 0);
    vp.comm[c->comm - VP_COMM0].size = c->pe_size; vp.comm[c->comm - VP_COMM0].group = c->group;
    LL_PREPEND(OSHMPI_coll_comm_cache.head, c);
    OSHMPI_coll_comm_cache.nobjs++;
}
static int vp_cc_has(int comm)
{
    OSHMPI_comm_cache_obj_t *c = OSHMPI_coll_comm_cache.head;
    for (int i = 0; i < 4 && c; i++, c = c->next) if (c->comm == comm) return 1;
    return 0;
}
/* every entry: its own live communicator and group, of exactly the PEs it is filed under */
static int vp_cc_ok(void)
{
    OSHMPI_comm_cache_obj_t *c = OSHMPI_coll_comm_cache.head;
    int n = 0;
    for (int i = 0; i < 4 && c; i++, c = c->next, n++)
        if (!vp_comm_live(c->comm) || !vp_comm_is_aset(c->comm, c->pe_start, c->pe_stride, c->pe_size) || !vp_grp_live(c->group)
            || c->comm < VP_COMM0 || vp.comm[c->comm - VP_COMM0].group != c->group) return 0;
    if (c || n != OSHMPI_coll_comm_cache.nobjs) return 0;
    for (int i = 0; i < 3; i++) if (i < vp.ncomm && !vp_cc_has(VP_COMM0 + i)) return 0;
    return 1;
}
static void vp_cc_world(void)
{
    int n;
    OSHMPI_coll_comm_cache.head = NULL; OSHMPI_coll_comm_cache.nobjs = 0;
    VP_IN_TO(int, n, "cc_entries");
    VP_ASSUME(n >= 0 && n <= 2);
    if (n > 0) vp_cc_add(&vp_cc0);
    if (n > 1) vp_cc_add(&vp_cc1);
}
static struct { int n, start, log, size; } acq;
/* contract of coll_acquire_comm (proved by units coll.acquire*): a communicator of exactly that set */
void vp_acquire_contract(int PE_start, int logPE_stride, int PE_size, MPI_Comm *comm)
{
    VP_ASSERT("active set valid", vp_valid_aset(PE_start, logPE_stride, PE_size));
    acq.n++; acq.start = PE_start; acq.log = logPE_stride; acq.size = PE_size;
    *comm = 15;
}
#ifndef VP_INLINE
/* contract of OSHMPI_create_strided_dtype (enforced in harness/strided.c) */
static unsigned char sdt_tight[VP_NDT];   /* the layout's extent is nelems * stride elements */
void vp_sdt_contract(size_t nelems, ptrdiff_t stride, MPI_Datatype mpi_type, size_t required_ext_nelems, size_t *cnt, MPI_Datatype *type)
{
    VP_ASSERT("create_strided_dtype_precondition", nelems <= 0x7fffffff && stride >= 1 && stride <= 0x7fffffffL && mpi_type > 0 && mpi_type < VP_BASIC_MAX);
    if (stride == 1) { *cnt = nelems; *type = mpi_type; return; }
    VP_ASSUME(vp.ndt < VP_NDT);
    vp_dt_t *d = &vp.dt[vp.ndt];
    d->base = mpi_type; d->cnt = nelems; d->blk = 1; d->st = stride; d->committed = 1; d->freed = 0;
    d->ext = required_ext_nelems ? (long) (required_ext_nelems << vp_bshift(vp_bsize(mpi_type))) : -1;
    sdt_tight[vp.ndt] = required_ext_nelems == nelems * (size_t) stride;
    *cnt = 1; *type = VP_DT0 + vp.ndt++;
}
#endif
/* ------------------------------------------------------------------ what the last collective did */
static struct { int n, at_c, at_d, early, ccnt, kinds[3], released; } cap;
/* runs when a collective starts: note arguments held in memory, and give the exchanged counts */
static void vp_coll_started(void *p)
{
    vp_coll_t *c = p;
    if (cap.n < 3) cap.kinds[cap.n] = c->kind;
    cap.n++;
#if VP_M != 5
    if (VP_FAM == FM_COLLECT && c->rb != in.dest) {
        size_t es = vp_bsize(c->st);
        VP_ASSERT("counts of all members are exchanged", c->kind == VP_C_ALLGATHER && c->sc == 1 && c->rc == 1 && es == vp_bsize(c->rt) && (es == 4 || es == 8));
        VP_ASSERT("own count sent", vp_load(c->sb, 4) == in.n && (es == 4 || vp_load(c->sb, 8) == in.n));
        for (int i = 0; i < NMAX; i++)
            if (i < in.size) { if (es == 8) ((u64 *) c->rb)[i] = (u64) in.cnt[i]; else ((int *) c->rb)[i] = in.cnt[i]; }
        cap.ccnt++;
        return;
    }
    if (c->kind == VP_C_ALLGATHERV) {
        for (int i = 0; i < NMAX; i++) if (i == vp.w_i && i < in.size) { cap.at_c = c->counts[i]; cap.at_d = c->displs[i]; }
    }
    for (int i = 0; i < VP_NDT; i++)
        if (VP_FAM == FM_A2AS && i < vp.ndt && (c->st == VP_DT0 + i || c->rt == VP_DT0 + i) && (vp.dt[i].freed || !vp.dt[i].committed)) cap.released = 1;
#endif
}
static int tkind(int t)
{
    switch (t) {
        case MPI_FLOAT: case MPI_DOUBLE: case MPI_LONG_DOUBLE: return 2;
        case MPI_C_COMPLEX: case MPI_C_DOUBLE_COMPLEX: return 3;
        case MPI_UNSIGNED_CHAR: case MPI_UNSIGNED_SHORT: case MPI_UNSIGNED: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG:
        case MPI_UINT8_T: case MPI_UINT16_T: case MPI_UINT32_T: case MPI_UINT64_T: return 0;
        case MPI_CHAR: return (char) -1 < 0;
        case MPI_BYTE: return -1;
    }
    return vp_bsize(t) ? 1 : -1;
}
/* reduction in.rop on MPI type t computes what it should on elements of kind in.kind */
static int kind_fits(int t)
{
    int k = tkind(t);
    if (in.rop == MPI_BAND || in.rop == MPI_BOR || in.rop == MPI_BXOR) return k <= 1 && in.kind <= 1;
    if (in.rop == MPI_SUM || in.rop == MPI_PROD) return k == in.kind || (k >= 0 && in.kind >= 0 && k <= 1 && in.kind <= 1);
    return k == in.kind;
}
static vp_coll_t *last(void) { return &vp.coll[vp.ncoll == 2 ? 1 : 0]; }
static size_t bytes(int n, int t) { return (size_t) n << vp_bshift(vp_bsize(t)); }
#if VP_M == 4 || VP_M == 6
static int post_comm(void)
{
    vp_coll_t *c = last();
    int want = 10;
#ifdef VP_ASET
#ifdef VP_INLINE
    return vp_comm_is_aset(c->comm, in.start, in.log, in.size) && (vp.ncoll < 2 || vp.coll[0].comm == c->comm);
#else
    if (!(acq.n >= 1 && acq.start == in.start && acq.log == in.log && acq.size == in.size)) return 0;
    want = 15;
#endif
#else
    want = in.team == 0 ? 10 : in.team == 1 ? 11 : 16;
#endif
    return c->comm == want && (vp.ncoll < 2 || vp.coll[0].comm == want);
}
static int post_once(void) { return vp.ncoll == 1 + (VP_FAM == FM_COLLECT) && cap.ccnt == (VP_FAM == FM_COLLECT); }
static int post_done(void)
{
    for (int i = 0; i < VP_NCOLL; i++) if (i < vp.ncoll && !vp.coll[i].done) return 0;
    return vp.req_live == 0 && !cap.released;
}
/* a block of the payload: nb elements at the start of buffer b, each block nb elements further */
static int post_placed(void)
{
    vp_coll_t *c = last();
#if VP_FAM == FM_BCAST
    int isroot = in.me == in.root;
    if (c->kind != VP_C_BCAST || c->root != in.root || bytes(c->rc, c->rt) != in.n * in.sz) return 0;
    return isroot ? c->rb == (void *) in.src || (cp.n && cp.before && c->rb == in.dest) : c->rb == in.dest;
#elif VP_FAM == FM_COLLECT
    size_t off = 0;
    for (int i = 0; i < NMAX; i++) if (i < vp.w_i) off += (size_t) in.cnt[i];
    int w = 0;
    for (int i = 0; i < NMAX; i++) if (i == vp.w_i) w = in.cnt[i];
    if (c->sb != in.src || c->rb != in.dest || bytes(c->sc, c->st) != in.n * in.sz) return 0;
    if (c->kind == VP_C_ALLGATHER) return bytes(c->rc, c->rt) == (size_t) w * in.sz && (size_t) vp.w_i * (size_t) c->rc * vp_bsize(c->rt) == off * in.sz;
    return c->kind == VP_C_ALLGATHERV && bytes(cap.at_c, c->rt) == (size_t) w * in.sz && bytes(cap.at_d, c->rt) == off * in.sz;
#elif VP_FAM == FM_FCOLLECT
    return c->kind == VP_C_ALLGATHER && c->sb == in.src && c->rb == in.dest && bytes(c->sc, c->st) == in.n * in.sz && bytes(c->rc, c->rt) == in.n * in.sz;
#elif VP_FAM == FM_A2A
    return c->kind == VP_C_ALLTOALL && c->sb == in.src && c->rb == in.dest && bytes(c->sc, c->st) == in.n * in.sz && bytes(c->rc, c->rt) == in.n * in.sz;
#elif VP_FAM == FM_A2AS
    if (c->kind != VP_C_ALLTOALL || c->sb != in.src || c->rb != in.dest) return 0;
    for (int side = 0; side < 2; side++) {
        int t = side ? c->rt : c->st, k = side ? c->rc : c->sc;
        long st = side ? in.dst : in.sst;
        if (t < VP_DT0) { if (st != 1 || bytes(k, t) != in.n * in.sz) return 0; continue; }
        if (t >= VP_DT0 + vp.ndt) return 0;
        vp_dt_t *d = &vp.dt[t - VP_DT0];
        if (k != 1 || d->cnt != in.n || d->blk != 1 || d->st != st || vp_bsize(d->base) != in.sz) return 0;
        /* consecutive blocks are n * stride elements apart */
#ifdef VP_INLINE
        if (in.n && d->ext != (long) ((in.n * (size_t) st) << vp_bshift(in.sz))) return 0;
#else
        if (in.n && !sdt_tight[t - VP_DT0]) return 0;
#endif
    }
    return 1;
#elif VP_FAM == FM_REDUCE
    if (c->kind != VP_C_ALLREDUCE || c->rb != in.dest || c->rc != (int) in.n || c->op != in.rop) return 0;
    if (vp_bsize(c->rt) != in.sz || !kind_fits(c->rt)) return 0;
    return in.inplace ? c->sb == MPI_IN_PLACE : c->sb == in.src;
#endif
}
/* team broadcast: the root's destination holds the data as well; active-set form: it is left alone */
static int post_rootcopy(void)
{
#if VP_FAM == FM_BCAST && !defined(VP_ASET)
    if (in.me == in.root && in.n) return cp.n == 1 && cp.d == in.dest && cp.s == in.src && cp.bytes == in.n * in.sz;
    return cp.n == 0 || in.n == 0;
#else
    return cp.n == 0;
#endif
}
#endif
#define RESTATE                                                                            \
    VP_POST("the collective runs once", post_once());                                      \
    VP_POST("on the members, in their order", post_comm());                                \
    VP_POST("every contribution goes to its place", post_placed());                        \
    VP_POST("broadcast root: own destination as specified", post_rootcopy());              \
    VP_POST("complete on return", post_done());                                            \
    VP_POST("no other communication", vp.rma_calls == 0 && vp.amo_n == 0 && vp.nmsg == 0)

#if VP_M >= 4
static char src_[8], dst_[8];
static OSHMPI_team_t *team_obj;
static void setup(void)
{
    vp_world();
    vp_world_cache(0);
    vp_reset_comm();
    OSHMPI_am.cb_req = VP_REQ_CB; vp.cb_posted = 1;
    OSHMPI_am.comm = VP_AM_COMM; OSHMPI_am.ack_comm = VP_ACK_COMM;
    OSHMPI_coll_comm_cache.head = NULL; OSHMPI_coll_comm_cache.nobjs = 0;
    vp.no_block = 1;
    VP_IN_TO(unsigned char, vp.stall, "stall"); vp.stall &= 1;
#ifdef VP_ASET
    VP_IN_TO(int, in.start, "PE_start"); VP_IN_TO(int, in.log, "logPE_stride"); VP_IN_TO(int, in.size, "PE_size");
    VP_ASSUME(vp_valid_aset(in.start, in.log, in.size));
#ifdef VP_INLINE
    VP_ASSUME(in.size <= 3 && in.log <= 3);
#endif
    VP_IN_TO(int, in.me, "my_index");
    VP_ASSUME(in.me >= 0 && in.me < in.size);
    VP_ASSUME(OSHMPI_global.team_world_my_pe == in.start + (int) ((unsigned) in.me << in.log));
#else
    VP_IN_TO(int, in.team, "team");
    VP_ASSUME(in.team >= 0 && in.team <= 2);
    if (in.team == 0) team_obj = OSHMPI_global.team_world;
    else if (in.team == 1) team_obj = OSHMPI_global.team_shared;
    else team_obj = &vp_team_user;
    in.size = team_obj->n_pes; in.me = team_obj->my_pe;
#endif
    VP_IN_TO(int, in.root, "root");
    VP_IN_TO(size_t, in.n, "nelems");
    VP_IN_TO(long, in.dst, "dst"); VP_IN_TO(long, in.sst, "sst");
    VP_ASSUME(in.root >= 0 && in.root < in.size && in.n <= 0x7fffffff && in.dst >= 1 && in.sst >= 1 && in.dst <= 0x7fffffffL && in.sst <= 0x7fffffffL);
#if VP_FAM == FM_A2AS
#ifdef VP_INLINE
    VP_ASSUME(in.n <= 31 && in.dst <= 31 && in.sst <= 31);
#endif
#endif
    VP_ASSUME(vp.w_i < in.size);
    VP_IN_TO(unsigned char, in.inplace, "in_place"); in.inplace = VP_FAM == FM_REDUCE && in.inplace != 0;
    in.src = src_; in.dest = in.inplace ? (void *) src_ : (void *) dst_;
#if VP_FAM == FM_COLLECT
    VP_ASSUME(in.size <= NMAX);
    long sum = 0;
    for (int i = 0; i < NMAX; i++) {
        VP_IN_TO(int, in.cnt[i], "count");
        VP_ASSUME(in.cnt[i] >= 0 && in.cnt[i] < (1 << 28));
        sum += in.cnt[i];
    }
    for (int i = 0; i < NMAX; i++) if (i == in.me) VP_ASSUME(in.n == (size_t) in.cnt[i]);
#endif
    cp_on = VP_FAM == FM_BCAST;
    cp.n = 0; acq.n = 0; cap.n = cap.ccnt = cap.released = 0;
}
#endif

#if VP_M <= 3
int vp_main(void)
{
    MPI_Comm comm = MPI_COMM_NULL, again = MPI_COMM_NULL;
    vp_world();
    vp_reset_comm();
    vp_cc_world();
    int n0 = vp.ncomm, nobj0 = OSHMPI_coll_comm_cache.nobjs;
    VP_ASSUME(vp_cc_ok());
    VP_IN_TO(int, in.start, "PE_start"); VP_IN_TO(int, in.log, "logPE_stride"); VP_IN_TO(int, in.size, "PE_size");
    VP_ASSUME(vp_valid_aset(in.start, in.log, in.size));
#ifdef VP_SMALL
    VP_ASSUME(in.size <= 4);
#endif
    VP_REACH("pre");
#if VP_M == 3
    OSHMPI_coll_finalize();
    VP_ASSERT("cache empty", OSHMPI_coll_comm_cache.head == NULL && OSHMPI_coll_comm_cache.nobjs == 0);
    for (int i = 0; i < 2; i++)
        if (i < n0) VP_ASSERT("communicators and groups released", vp.comm[i].freed == 1 && vp.grp[i].freed == 1);
#else
    coll_acquire_comm(in.start, in.log, in.size, &comm);
    VP_ASSERT("communicator usable", vp_comm_live(comm));
    VP_ASSERT("exactly the PEs of the set, in order", vp_comm_is_aset(comm, in.start, in.log, in.size));
    VP_ASSERT("cached sets stay right", vp_cc_ok());
    VP_ASSERT("at most one communicator is built and every one is kept", vp.ncomm <= n0 + 1 && OSHMPI_coll_comm_cache.nobjs == nobj0 + vp.ncomm - n0);
#if VP_M == 2
    int n1 = vp.ncomm, g1 = vp.ngrp;
    coll_acquire_comm(in.start, in.log, in.size, &again);
    VP_ASSERT("the set's communicator is reused", again == comm && vp.ncomm == n1 && vp.ngrp == g1 && vp_cc_ok());
#endif
#endif
    VP_REACH("post");
    return 0;
}
#elif VP_M == 4
static void run_core(void)
{
#if VP_FAM == FM_REDUCE
#ifdef VP_ASET
    OSHMPI_allreduce(in.dest, in.src, (int) in.n, in.mt, in.rop, in.start, in.log, in.size);
#else
    OSHMPI_allreduce_team(team_obj, in.dest, in.src, in.n, in.mt, in.rop);
#endif
#else
#ifdef VP_ASET
#define T_(f, ...) OSHMPI_##f(__VA_ARGS__, in.start, in.log, in.size)
#else
#define T_(f, ...) OSHMPI_##f##_team(team_obj, __VA_ARGS__)
#endif
#if VP_FAM == FM_BCAST
    T_(broadcast, in.dest, in.src, in.n, in.mt, in.root);
#elif VP_FAM == FM_COLLECT
    T_(collect, in.dest, in.src, in.n, in.mt);
#elif VP_FAM == FM_FCOLLECT
    T_(fcollect, in.dest, in.src, in.n, in.mt);
#elif VP_FAM == FM_A2A
    T_(alltoall, in.dest, in.src, in.n, in.mt);
#else
    T_(alltoalls, in.dest, in.src, in.dst, in.sst, in.n, in.mt);
#endif
#endif
}
int vp_main(void)
{
    setup();
    VP_IN_TO(int, in.mt, "mpi_type"); VP_IN_TO(int, in.rop, "op");
    VP_ASSUME(in.mt > 0 && in.mt < VP_BASIC_MAX);
    in.sz = vp_bsize(in.mt); in.kind = tkind(in.mt);
    if (VP_FAM == FM_REDUCE) VP_ASSUME(kind_fits(in.mt));
    VP_ASSUME(in.sz == 1 || in.sz == 2 || in.sz == 4 || in.sz == 8 || in.sz == 16);
    VP_REACH("pre");
    run_core();
    RESTATE;
#if VP_FAM == FM_COLLECT
    /* another member takes the same branch */
    int k0 = cap.kinds[1], me2;
    VP_IN_TO(int, me2, "other_member");
    VP_ASSUME(me2 >= 0 && me2 < in.size);
    for (int i = 0; i < NMAX; i++) if (i == me2) in.n = (size_t) in.cnt[i];
#ifdef VP_ASET
    OSHMPI_global.team_world_my_pe = in.start + (int) ((unsigned) me2 << in.log);
#else
    if (in.team == 0) { OSHMPI_global.team_world_my_pe = me2; vp_team_world.my_pe = me2; } else if (in.team == 1) vp_team_shared.my_pe = me2; else vp_team_user.my_pe = me2;
#endif
    vp.ncoll = 0; cap.n = 0;
    run_core();
    VP_ASSERT("all members run the same collectives", cap.n == 2 && cap.kinds[1] == k0);
#endif
    VP_REACH("post");
    return 0;
}
#else
#include "coll_api.h"
#endif
