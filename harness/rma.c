/* One-sided data movement: every typed, sized and byte put/get/iput/iget/p/g of the public API.
 *
 * VP_FAM selects the family.  VP_LEVEL 1: the contract of the core routine (vp_c_core) is enforced
 * on its body, for every element type.  VP_LEVEL 2: every public routine of the family (all types
 * and sizes, default and explicit context) is verified with calls to the core routines replaced by
 * their contract.  VP_LEVEL 3: the same for one routine VP_TY with everything in line; the judge
 * when a refactoring moved work between the public and the core routine.
 */
#define VP_DT1
#include "vp_core.h"
#include "oshmpi_impl.h"
#define VP_PKT_SIZE sizeof(OSHMPI_am_pkt_t)
#ifdef VP_VIA_AM                /* message path: the request that leaves is judged */
#define VP_OWN_REMOTE
#define VP_AM_NMAX 2
#endif
#include "vp_mpi.h"
#include "vp_world.h"
#include "vp_types.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "vp_am.h"
#include "vp_cache.h"
#if VP_LEVEL == 1 && VP_FAM >= 5
/* contract of OSHMPI_create_strided_dtype (enforced on its body in harness/strided.c): the result
 * denotes `nelems` elements of the basic type, `stride` apart */
void vp_sdt_contract(size_t nelems, ptrdiff_t stride, MPI_Datatype mpi_type, size_t required_ext_nelems,
                            size_t *strided_cnt, MPI_Datatype *strided_type)
{
    VP_ASSERT("create_strided_dtype_precondition", nelems <= 0x7fffffff && stride >= 1 && stride <= 0x7fffffffL
              && mpi_type > 0 && mpi_type < VP_BASIC_MAX && required_ext_nelems == 0);
    if (stride == 1) { *strided_cnt = nelems; *strided_type = mpi_type; return; }
    VP_ASSUME(vp.ndt < VP_NDT);
    vp_dt_t *d = &vp.dt[vp.ndt];
    d->base = mpi_type; d->cnt = nelems; d->blk = 1; d->st = stride; d->ext = -1; d->committed = 1; d->freed = 0;
    *strided_cnt = 1; *strided_type = VP_DT0 + vp.ndt++;
}
#endif
#if VP_LEVEL == 2
/* Calls to the core routines are replaced by their contract: the effect of core(kind, args) is the
 * transfer proved for it at level 1, so it is enough to know with which arguments it is called. */
enum { VP_K_PUT = 1, VP_K_PUT_NBI, VP_K_GET, VP_K_GET_NBI, VP_K_IPUT, VP_K_IGET };
static struct { int n, kind, mt, idx, pe; shmem_ctx_t ctx; size_t sz, nelems; uint64_t loc, sym; long lst, rst;
    unsigned char val[16]; } vp_core;
static int vp_core_scalar; static unsigned char vp_core_rval[16];
static void vp_rec(int kind, shmem_ctx_t ctx, int mt, int idx, size_t sz, const void *loc, const void *sym, long lst, long rst, size_t n, int pe)
{
    vp_core.n++; vp_core.kind = kind; vp_core.mt = mt; vp_core.idx = idx; vp_core.pe = pe; vp_core.ctx = ctx; vp_core.sz = sz;
    vp_core.nelems = n; vp_core.loc = (uint64_t) loc; vp_core.sym = (uint64_t) sym; vp_core.lst = lst; vp_core.rst = rst;
    if (vp_core_scalar && n == 1 && sz <= 16 && sz == vp_bsize(mt)) {
        if (kind <= VP_K_PUT_NBI) memcpy(vp_core.val, loc, sz);
        else memcpy((void *) loc, vp_core_rval, sz);
    }
}
#define OSHMPI_ctx_put(ctx, mt, sz, o, t, n, pe) vp_rec(VP_K_PUT, ctx, mt, 0, sz, o, t, 1, 1, n, pe)
#define OSHMPI_ctx_put_nbi(ctx, mt, sz, o, t, n, pe) vp_rec(VP_K_PUT_NBI, ctx, mt, 0, sz, o, t, 1, 1, n, pe)
#define OSHMPI_ctx_get(ctx, mt, sz, o, t, n, pe) vp_rec(VP_K_GET, ctx, mt, 0, sz, o, t, 1, 1, n, pe)
#define OSHMPI_ctx_get_nbi(ctx, mt, sz, o, t, n, pe) vp_rec(VP_K_GET_NBI, ctx, mt, 0, sz, o, t, 1, 1, n, pe)
#define OSHMPI_ctx_iput(ctx, mt, ix, o, t, tst, ost, n, pe) vp_rec(VP_K_IPUT, ctx, mt, ix, 0, o, t, ost, tst, n, pe)
#define OSHMPI_ctx_iget(ctx, mt, ix, o, t, ost, tst, n, pe) vp_rec(VP_K_IGET, ctx, mt, ix, 0, o, t, ost, tst, n, pe)
#endif
#include "shmem/rma_typed.c"
#include "shmem/rma_sized.c"
#include "shmem/rma.c"

#define F_PUT 1
#define F_PUT_NBI 2
#define F_GET 3
#define F_GET_NBI 4
#define F_IPUT 5
#define F_IGET 6
#define F_P 7
#define F_G 8
#define VP_IS_PUT (VP_FAM == F_PUT || VP_FAM == F_PUT_NBI || VP_FAM == F_IPUT || VP_FAM == F_P)
#define VP_IS_BLOCKING (VP_FAM != F_PUT_NBI && VP_FAM != F_GET_NBI)
#define VP_IS_STRIDED (VP_FAM == F_IPUT || VP_FAM == F_IGET)
#define VP_IS_SCALAR (VP_FAM == F_P || VP_FAM == F_G)

/* index of each routine of the family */
enum {
#define X(t, n, k) VP_T_##n,
    VP_RMA_TYPES(X)
#undef X
#define X(b, s) VP_S_##b,
    VP_SIZES(X)
#undef X
    VP_T_MEM, VP_T_LAST
};
static int vp_shift_of(int ty)
{
    switch (ty) {
#define X(t, n, k) case VP_T_##n: return vp_bshift(sizeof(t));
            VP_RMA_TYPES(X)
#undef X
#define X(b, s) case VP_S_##b: return vp_bshift(s);
            VP_SIZES(X)
#undef X
    }
    return 0;
}

#if VP_FAM == F_PUT
#define VP_CALL1(fn) fn(dest, src, n, pe)
#define VP_CALLC(fn) fn(ctx, dest, src, n, pe)
#define VP_FN(N) shmem_##N##_put
#define VP_FNC(N) shmem_ctx_##N##_put
#define VP_FNS(B) shmem_put##B
#define VP_FNSC(B) shmem_ctx_put##B
#elif VP_FAM == F_PUT_NBI
#define VP_CALL1(fn) fn(dest, src, n, pe)
#define VP_CALLC(fn) fn(ctx, dest, src, n, pe)
#define VP_FN(N) shmem_##N##_put_nbi
#define VP_FNC(N) shmem_ctx_##N##_put_nbi
#define VP_FNS(B) shmem_put##B##_nbi
#define VP_FNSC(B) shmem_ctx_put##B##_nbi
#elif VP_FAM == F_GET
#define VP_CALL1(fn) fn(dest, src, n, pe)
#define VP_CALLC(fn) fn(ctx, dest, src, n, pe)
#define VP_FN(N) shmem_##N##_get
#define VP_FNC(N) shmem_ctx_##N##_get
#define VP_FNS(B) shmem_get##B
#define VP_FNSC(B) shmem_ctx_get##B
#elif VP_FAM == F_GET_NBI
#define VP_CALL1(fn) fn(dest, src, n, pe)
#define VP_CALLC(fn) fn(ctx, dest, src, n, pe)
#define VP_FN(N) shmem_##N##_get_nbi
#define VP_FNC(N) shmem_ctx_##N##_get_nbi
#define VP_FNS(B) shmem_get##B##_nbi
#define VP_FNSC(B) shmem_ctx_get##B##_nbi
#elif VP_FAM == F_IPUT
#define VP_CALL1(fn) fn(dest, src, dst, sst, n, pe)
#define VP_CALLC(fn) fn(ctx, dest, src, dst, sst, n, pe)
#define VP_FN(N) shmem_##N##_iput
#define VP_FNC(N) shmem_ctx_##N##_iput
#define VP_FNS(B) shmem_iput##B
#define VP_FNSC(B) shmem_ctx_iput##B
#elif VP_FAM == F_IGET
#define VP_CALL1(fn) fn(dest, src, dst, sst, n, pe)
#define VP_CALLC(fn) fn(ctx, dest, src, dst, sst, n, pe)
#define VP_FN(N) shmem_##N##_iget
#define VP_FNC(N) shmem_ctx_##N##_iget
#define VP_FNS(B) shmem_iget##B
#define VP_FNSC(B) shmem_ctx_iget##B
#endif


#if VP_IS_PUT
#define VP_DIR 1
#else
#define VP_DIR 2
#endif

/* ------------------------------------------------------------------ specification */
/* the object a one-sided call through `ctx` on address `sym` refers to (0: invalid use) */
static int vp_obj_for(shmem_ctx_t ctx, const void *sym)
{
    int o = vp_obj_of((long) sym);
    if (ctx == SHMEM_CTX_DEFAULT) return o && vp_obj_attached(o) ? o : 0;
    if (o >= 3 && vp_obj_attached(o) && VP_SPACE(o - 3)->ctx_list == (OSHMPI_ctx_t *) ctx) return o;
    return 0;
}
static int vp_exp_win(shmem_ctx_t ctx, int o)
{
    return ctx != SHMEM_CTX_DEFAULT ? VP_WIN_CTX + o - 3 : o == 1 ? VP_WIN_HEAP : o == 2 ? VP_WIN_DATA : VP_WIN_SPACE + o - 3;
}
/* w_k times a stride */
static uint64_t vp_mul(long st) { return (uint64_t) (st == 1 ? (long) vp.w_k : st == vp.w_st[0] ? vp.w_prod[0] : vp.w_prod[1]); }
/* valid use: the accessed elements lie in one symmetric object; the witness byte is in the payload */
static int vp_rma_pre(shmem_ctx_t ctx, size_t sz, const void *sym, long st, size_t n, int pe)
{
    int o = vp_obj_for(ctx, sym), sh = vp_bshift(sz);
    long room = vp_obj_base(o ? o : 1) + vp_obj_size(o ? o : 1) - (long) sym;
    return o && n <= 0x7fffffff && pe >= 0 && pe < OSHMPI_global.team_world_n_pes && st >= 1 && st <= 0x7fffffffL
        && (sz == 1 || sz == 2 || sz == 4 || sz == 8 || sz == 16)
        && vp.w_r < sz && vp.w_k <= 0x7fffffff && (n == 0 || vp.w_k < n) && vp.w_b == (vp.w_k << sh) + vp.w_r
        && (VP_IS_STRIDED ? (long) ((vp_mul(st) + 1) << sh) <= room : (long) (n << sh) <= room)
        && vp.moved == 0 && vp.w_hits == 0 && vp.rma_calls == 0 && !vp.rma_bad_type && vp.amo_n == 0 && vp.nmsg == 0 && vp.ncoll == 0
        && vp.c_sz == (int) sz && vp_track_all();
}
/* zero-length transfers have no effect; others move every byte exactly once, in the right direction */
static int vp_post_count(size_t sz, size_t n)
{
    if (n == 0) return vp.moved == 0 && vp.w_hits == 0 && vp.rma_calls == 0 && vp.nmsg == 0;
    return vp.moved == (n << vp_bshift(sz)) && vp.w_hits == 1 && !vp.rma_bad_type && vp.w_dir == VP_DIR;
}
/* every element is taken from / stored to its place on the calling PE */
static int vp_post_local(size_t sz, const void *loc, long st, size_t n)
{
    return n == 0 || vp.w_org == (uint64_t) loc + (vp_mul(st) << vp_bshift(sz)) + vp.w_r;
}
/* ... and its place on the target PE: window of the object, PE, offset from the object's base */
static int vp_post_remote(shmem_ctx_t ctx, size_t sz, const void *sym, long st, size_t n, int pe)
{
    if (n == 0) return 1;
    int o = vp_obj_for(ctx, sym);
    if (!o) return 0;
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
    if (ctx == SHMEM_CTX_DEFAULT)
        return vp.w_tpe == pe && vp.w_win == VP_WIN_HEAP &&
            vp.w_disp == (long) ((uint64_t) sym + (uint64_t) vp_obj_off(o, pe) + (vp_mul(st) << vp_bshift(sz)) + vp.w_r);
#endif
    return vp.w_tpe == pe && vp.w_win == vp_exp_win(ctx, o) &&
        vp.w_disp == (long) ((uint64_t) sym - (uint64_t) vp_obj_base(o) + (vp_mul(st) << vp_bshift(sz)) + vp.w_r);
}
/* a blocking transfer leaves no locally incomplete operation behind */
static int vp_post_complete(void)
{
    if (VP_IS_BLOCKING)
        for (int w = 1; w < VP_NWIN; w++) if (vp.win[w].pend_loc) return 0;
    return 1;
}
/* an operation not yet remotely complete is visible to quiet/fence */
static int vp_post_tracked(void) { return vp_track_all(); }
static int vp_post_silent(void) { return vp.amo_n == 0 && vp.nmsg == 0 && vp.ncoll == 0; }
static int vp_post_value(const void *loc)
{
    if (!vp.deref) return 1;
    if (VP_IS_PUT) return vp.w_val == ((const unsigned char *) loc)[vp.w_b & 31];
    return ((const unsigned char *) loc)[vp.w_b & 31] == vp.rval[vp.w_b & 31];
}

/* ------------------------------------------------------------------ contract of the core routine */
#if VP_FAM == F_PUT || VP_FAM == F_P
#define VP_CORE OSHMPI_ctx_put
#elif VP_FAM == F_PUT_NBI
#define VP_CORE OSHMPI_ctx_put_nbi
#elif VP_FAM == F_GET || VP_FAM == F_G
#define VP_CORE OSHMPI_ctx_get
#elif VP_FAM == F_GET_NBI
#define VP_CORE OSHMPI_ctx_get_nbi
#elif VP_FAM == F_IPUT
#define VP_CORE OSHMPI_ctx_iput
#else
#define VP_CORE OSHMPI_ctx_iget
#endif
#define VP_POSTS(ctx, sz, loc, lst, sym, rst, n, pe)                    \
    VP_ENS(vp_post_count(sz, n))                                        \
    VP_ENS(vp_post_local(sz, loc, lst, n))                              \
    VP_ENS(vp_post_remote(ctx, sz, sym, rst, n, pe))                    \
    VP_ENS(vp_post_complete())                                          \
    VP_ENS(vp_post_tracked())                                           \
    VP_ENS(vp_post_silent())
#define VP_RESTATE(ctx, sz, loc, lst, sym, rst, n, pe)                  \
    VP_POST("every payload byte is moved exactly once, none for an empty transfer", vp_post_count(sz, n)); \
    VP_POST("local address of every element", vp_post_local(sz, loc, lst, n)); \
    VP_POST("target PE, window and offset of every element", vp_post_remote(ctx, sz, sym, rst, n, pe)); \
    VP_POST("blocking transfer is locally complete on return", vp_post_complete()); \
    VP_POST("pending operation is visible to quiet and fence", vp_post_tracked()); \
    VP_POST("no other communication", vp_post_silent())

/* the active-message type index names the same element type */
static int vp_idx_type(int idx)
{
    switch (idx) {
#define X(i, t) case i: return t;
            X(OSHMPI_AM_MPI_CHAR, MPI_CHAR) X(OSHMPI_AM_MPI_SIGNED_CHAR, MPI_SIGNED_CHAR) X(OSHMPI_AM_MPI_SHORT, MPI_SHORT)
            X(OSHMPI_AM_MPI_INT, MPI_INT) X(OSHMPI_AM_MPI_LONG, MPI_LONG) X(OSHMPI_AM_MPI_LONG_LONG, MPI_LONG_LONG)
            X(OSHMPI_AM_MPI_UNSIGNED_CHAR, MPI_UNSIGNED_CHAR) X(OSHMPI_AM_MPI_UNSIGNED_SHORT, MPI_UNSIGNED_SHORT)
            X(OSHMPI_AM_MPI_UNSIGNED, MPI_UNSIGNED) X(OSHMPI_AM_MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG)
            X(OSHMPI_AM_MPI_UNSIGNED_LONG_LONG, MPI_UNSIGNED_LONG_LONG) X(OSHMPI_AM_MPI_INT8_T, MPI_INT8_T)
            X(OSHMPI_AM_MPI_INT16_T, MPI_INT16_T) X(OSHMPI_AM_MPI_INT32_T, MPI_INT32_T) X(OSHMPI_AM_MPI_INT64_T, MPI_INT64_T)
            X(OSHMPI_AM_MPI_UINT8_T, MPI_UINT8_T) X(OSHMPI_AM_MPI_UINT16_T, MPI_UINT16_T) X(OSHMPI_AM_MPI_UINT32_T, MPI_UINT32_T)
            X(OSHMPI_AM_MPI_UINT64_T, MPI_UINT64_T) X(OSHMPI_AM_OSHMPI_MPI_SIZE_T, OSHMPI_MPI_SIZE_T)
            X(OSHMPI_AM_OSHMPI_MPI_PTRDIFF_T, OSHMPI_MPI_PTRDIFF_T) X(OSHMPI_AM_MPI_FLOAT, MPI_FLOAT)
            X(OSHMPI_AM_MPI_DOUBLE, MPI_DOUBLE) X(OSHMPI_AM_MPI_LONG_DOUBLE, MPI_LONG_DOUBLE)
            X(OSHMPI_AM_MPI_C_DOUBLE_COMPLEX, MPI_C_DOUBLE_COMPLEX)
#undef X
    }
    return -1;
}
#if VP_LEVEL == 1
#if !VP_IS_STRIDED
static int vp_core_pre(shmem_ctx_t ctx, MPI_Datatype mt, size_t sz, const void *sym, size_t n, int pe)
{
    return mt > 0 && mt < VP_BASIC_MAX && vp_bsize(mt) == sz && vp_rma_pre(ctx, sz, sym, 1, n, pe);
}
#if VP_IS_PUT
void vp_c_core(shmem_ctx_t ctx, MPI_Datatype mpi_type, size_t typesz, const void *origin_addr, void *target_addr, size_t nelems, int pe)
VP_REQ(vp_core_pre(ctx, mpi_type, typesz, target_addr, nelems, pe))
VP_POSTS(ctx, typesz, origin_addr, 1, target_addr, 1, nelems, pe)
VP_ENS(vp_post_value(origin_addr))
VP_ASG(vp, VP_FRAME_FLAGS);
#else
void vp_c_core(shmem_ctx_t ctx, MPI_Datatype mpi_type, size_t typesz, void *origin_addr, const void *target_addr, size_t nelems, int pe)
VP_REQ(vp_core_pre(ctx, mpi_type, typesz, target_addr, nelems, pe))
VP_POSTS(ctx, typesz, origin_addr, 1, target_addr, 1, nelems, pe)
VP_ENS(vp_post_value(origin_addr))
VP_ASG(vp, VP_FRAME_FLAGS; vp.deref: __CPROVER_object_whole(origin_addr));
#endif
#else
static int vp_core_pre(shmem_ctx_t ctx, MPI_Datatype mt, int idx, const void *sym, long rst, long lst, size_t n, int pe)
{
    return mt > 0 && mt < VP_BASIC_MAX && vp_bsize(vp_idx_type(idx)) == vp_bsize(mt) && lst >= 1 && lst <= 0x7fffffffL
        && vp_rma_pre(ctx, vp_bsize(mt), sym, rst, n, pe);
}
#if VP_IS_PUT
void vp_c_core(shmem_ctx_t ctx, MPI_Datatype mpi_type, OSHMPI_am_mpi_datatype_index_t mpi_type_idx, const void *origin_addr, void *target_addr,
               ptrdiff_t target_st, ptrdiff_t origin_st, size_t nelems, int pe)
#else
void vp_c_core(shmem_ctx_t ctx, MPI_Datatype mpi_type, OSHMPI_am_mpi_datatype_index_t mpi_type_idx, void *origin_addr, const void *target_addr,
               ptrdiff_t origin_st, ptrdiff_t target_st, size_t nelems, int pe)
#endif
VP_REQ(vp_core_pre(ctx, mpi_type, mpi_type_idx, target_addr, target_st, origin_st, nelems, pe))
VP_POSTS(ctx, vp_bsize(mpi_type), origin_addr, origin_st, target_addr, target_st, nelems, pe)
VP_ASG(vp, VP_FRAME_FLAGS, OSHMPI_strided_dtype_cache);
#endif
#endif

/* ------------------------------------------------------------------ the public routines */
static struct {
    int ty, usectx, space, obj; shmem_ctx_t ctx;
    uint64_t sym, loc; size_t n, sz; int pe; long rst, lst;
    unsigned char val[32], ret[32];
} in;
#ifdef VP_VIA_AM
static struct { int n, nd, type, idx; size_t bytes, nelems, pay; long st; int tag, dtag, bad; } rq;
static void vp_remote(void) { }
static void rq_data(vp_msg_t *m)
{
    rq.nd++; rq.pay = m->payload; rq.dtag = m->tag;
    rq.bad |= m->peer != in.pe || vp_bsize(vp_dt_base(m->dt)) != in.sz;
}
static void vp_deliver(vp_msg_t *m, MPI_Status *st)
{
    (void) st;
    rq_data(m);
    if (VP_FAM == F_G && vp_bsize(m->dt) == in.sz && m->count == 1) memcpy((void *) m->buf, vp.rval, in.sz);
}
static void requests(void)
{
    OSHMPI_am_pkt_t p;
    for (int i = 0; i < VP_NMSG; i++)
        if (i < vp.nmsg && vp.msg[i].kind == VP_K_SEND) {
            if (vp.msg[i].tag != OSHMPI_AM_PKT_TAG) { rq_data(&vp.msg[i]); continue; }
            rq.bad |= vp.msg[i].has_data != 1 || vp.msg[i].peer != in.pe;
            memcpy(&p, vp.msg[i].data, sizeof p);
            rq.n++; rq.type = p.type;
            if (p.type == OSHMPI_AM_PKT_PUT) { rq.bytes = p.put.bytes; rq.tag = p.put.ptag; }
            else if (p.type == OSHMPI_AM_PKT_GET) { rq.bytes = p.get.bytes; rq.tag = p.get.ptag; }
            else if (p.type == OSHMPI_AM_PKT_IPUT) { rq.idx = p.iput.mpi_type_idx; rq.st = p.iput.target_st; rq.nelems = p.iput.nelems; rq.tag = p.iput.ptag; }
            else if (p.type == OSHMPI_AM_PKT_IGET) { rq.idx = p.iget.mpi_type_idx; rq.st = p.iget.target_st; rq.nelems = p.iget.nelems; rq.tag = p.iget.ptag; }
        }
}
static int rq_kind(void) { return rq.type == (VP_IS_STRIDED ? (VP_IS_PUT ? OSHMPI_AM_PKT_IPUT : OSHMPI_AM_PKT_IGET) : VP_IS_PUT ? OSHMPI_AM_PKT_PUT : OSHMPI_AM_PKT_GET); }
static int rq_size(void)
{
    return VP_IS_STRIDED ? vp_bsize(vp_idx_type(rq.idx)) == in.sz && rq.nelems == in.n && rq.st == in.rst : rq.bytes == in.n << vp_bshift(in.sz);
}
#endif

static int vp_api_pre(void) { return vp_rma_pre(in.ctx, in.sz, (void *) in.sym, in.rst, in.n, in.pe); }
static int vp_api_value(void)
{
    if (VP_FAM == F_P) return vp.w_val == in.val[vp.w_r];
    if (VP_FAM == F_G) return in.ret[vp.w_r] == vp.rval[vp.w_r];
    return 1;
}
static int vp_api_local(void) { return VP_IS_SCALAR || vp_post_local(in.sz, (void *) in.loc, in.lst, in.n); }

#if VP_LEVEL == 2
static int vp_l2_once(void) { return vp_core.n == 1; }
static int vp_l2_kind(void)
{
    return vp_core.kind == (VP_FAM == F_P ? VP_K_PUT : VP_FAM == F_G ? VP_K_GET : VP_FAM) && vp_core.ctx == in.ctx && vp_core.pe == in.pe;
}
static int vp_l2_type(void)
{
    return vp_core.mt > 0 && vp_core.mt < VP_BASIC_MAX && vp_bsize(vp_core.mt) == in.sz
        && (VP_IS_STRIDED ? vp_bsize(vp_idx_type(vp_core.idx)) == in.sz : vp_core.sz == in.sz);
}
static int vp_l2_addr(void)
{
    return vp_core.sym == in.sym && (VP_IS_SCALAR || vp_core.loc == in.loc) && vp_core.nelems == in.n
        && vp_core.lst == in.lst && vp_core.rst == in.rst;
}
static int vp_l2_value(void)
{
    if (VP_FAM == F_P) return vp_core.val[vp.w_r & 15] == in.val[vp.w_r & 15];
    if (VP_FAM == F_G) return in.ret[vp.w_r & 15] == vp_core_rval[vp.w_r & 15];
    return 1;
}
#endif
/* one call of any routine of the family */
static void vp_xfer(int ty, int usectx, shmem_ctx_t ctx, void *dest, const void *src, long dst, long sst, size_t n, int pe)
#if VP_LEVEL == 2
VP_REQ(1)
VP_ENS(vp_l2_once())
VP_ENS(vp_l2_kind())
VP_ENS(vp_l2_type())
VP_ENS(vp_l2_addr())
VP_ENS(vp_l2_value())
VP_ASG(vp_core, in.ret);
#else
VP_REQ(vp_api_pre())
VP_ENS(vp_post_count(in.sz, in.n))
VP_ENS(vp_api_local())
VP_ENS(vp_post_remote(in.ctx, in.sz, (void *) in.sym, in.rst, in.n, in.pe))
VP_ENS(vp_post_complete())
VP_ENS(vp_post_tracked())
VP_ENS(vp_post_silent())
VP_ENS(vp_api_value())
VP_ASG(vp, VP_FRAME_FLAGS, in.ret, OSHMPI_strided_dtype_cache);
#endif

static void vp_xfer(int ty, int usectx, shmem_ctx_t ctx, void *dest, const void *src, long dst, long sst, size_t n, int pe)
{
#if VP_FAM == F_P
    switch (ty) {
#define X(t, nm, k) case VP_T_##nm: { t v; memcpy(&v, in.val, sizeof v); if (usectx) shmem_ctx_##nm##_p(ctx, dest, v, pe); else shmem_##nm##_p(dest, v, pe); } break;
            VP_RMA_TYPES(X)
#undef X
    }
#elif VP_FAM == F_G
    switch (ty) {
#define X(t, nm, k) case VP_T_##nm: { t v; if (usectx) v = shmem_ctx_##nm##_g(ctx, src, pe); else v = shmem_##nm##_g(src, pe); memcpy(in.ret, &v, sizeof v); } break;
            VP_RMA_TYPES(X)
#undef X
    }
#else
    switch (ty) {
#define X(t, nm, k) case VP_T_##nm: if (usectx) VP_CALLC(VP_FNC(nm)); else VP_CALL1(VP_FN(nm)); break;
            VP_RMA_TYPES(X)
#undef X
#define X(b, s) case VP_S_##b: if (usectx) VP_CALLC(VP_FNSC(b)); else VP_CALL1(VP_FNS(b)); break;
            VP_SIZES(X)
#undef X
#if VP_FAM <= F_GET_NBI
        case VP_T_MEM: if (usectx) VP_CALLC(VP_FNSC(mem)); else VP_CALL1(VP_FNS(mem)); break;
#endif
    }
#endif
}

#if VP_LEVEL == 2
int vp_main(void)
{
    VP_IN_TO(unsigned char, in.usectx, "use_ctx"); in.usectx = in.usectx != 0;
    VP_IN_TO(uint64_t, in.sym, "sym_addr");
    VP_IN_TO(uint64_t, in.loc, "local_addr");
    VP_IN_TO(size_t, in.n, "nelems");
    VP_IN_TO(int, in.pe, "pe");
    VP_IN_TO(size_t, vp.w_r, "w_r");
    VP_IN_TO(int, in.ty, "type");
    in.rst = in.lst = 1;
    if (VP_IS_STRIDED) { VP_IN_TO(long, in.rst, "sym_stride"); VP_IN_TO(long, in.lst, "local_stride"); }
    if (VP_IS_SCALAR) in.n = 1;
    in.ctx = in.usectx ? (shmem_ctx_t) &vp_sctx0 : SHMEM_CTX_DEFAULT;
    VP_ASSUME(in.ty >= 0 && in.ty < (VP_IS_SCALAR ? VP_S_8 : VP_IS_STRIDED ? VP_T_MEM : VP_T_LAST));
    in.sz = 1ul << vp_shift_of(in.ty);
    VP_ASSUME(vp.w_r < in.sz);
    if (VP_IS_SCALAR && in.ty == VP_T_longdouble) VP_ASSUME(vp.w_r < 10);    /* value bytes; the rest is padding */
    uint64_t v64[4];
    VP_IN_TO(uint64_t, v64[0], "val"); VP_IN_TO(uint64_t, v64[1], "val"); VP_IN_TO(uint64_t, v64[2], "rval"); VP_IN_TO(uint64_t, v64[3], "rval");
    memcpy(in.val, &v64[0], 16); memcpy(vp_core_rval, &v64[2], 16);
    vp_core.n = 0; vp_core_scalar = VP_IS_SCALAR;
    VP_REACH("pre");
    void *d = (void *) (VP_IS_PUT ? in.sym : in.loc), *s = (void *) (VP_IS_PUT ? in.loc : in.sym);
    vp_xfer(in.ty, in.usectx, in.ctx, d, s, VP_IS_PUT ? in.rst : in.lst, VP_IS_PUT ? in.lst : in.rst, in.n, in.pe);
    VP_POST("exactly one transfer", vp_l2_once());
    VP_POST("kind, context and PE of the transfer", vp_l2_kind());
    VP_POST("element type and size", vp_l2_type());
    VP_POST("addresses, strides and element count", vp_l2_addr());
    VP_POST("value", vp_l2_value());
    VP_REACH("post");
    return 0;
}
#else
int vp_main(void)
{
    vp_world();
    vp_world_cache(0);
    VP_IN_TO(unsigned char, in.usectx, "use_ctx"); in.usectx = in.usectx != 0;
    VP_IN_TO(int, in.obj, "obj");
    VP_IN_TO(uint64_t, in.sym, "sym_addr");
    VP_IN_TO(uint64_t, in.loc, "local_addr");
    VP_IN_TO(size_t, in.n, "nelems");
    VP_IN_TO(int, in.pe, "pe");
    VP_IN_TO(size_t, vp.w_k, "w_k");
    VP_IN_TO(size_t, vp.w_r, "w_r");
    in.rst = in.lst = 1;
    if (VP_IS_STRIDED) {
        VP_IN_TO(long, in.rst, "sym_stride");
        VP_IN_TO(long, in.lst, "local_stride");
    }
    VP_ASSUME(in.obj >= 1 && in.obj <= 2 + vp_nspaces);
    in.space = in.obj - 3;
    VP_ASSUME(!in.usectx || (in.obj >= 3 && VP_SPACE(in.space)->ctx_list));
    in.ctx = in.usectx ? (shmem_ctx_t) VP_SPACE(in.space)->ctx_list : SHMEM_CTX_DEFAULT;
    VP_ASSUME(in.loc >= 4096 && in.loc < VP_ADDR_MAX && in.lst >= 1 && in.lst <= 0x7fffffffL && in.rst >= 1 && in.rst <= 0x7fffffffL);
#if VP_LEVEL == 1
    /* core routine: any basic type */
    int mt, idx;
    VP_IN_TO(int, mt, "mpi_type");
    VP_ASSUME(mt > 0 && mt < VP_BASIC_MAX);
    in.sz = vp_bsize(mt);
    VP_ASSUME(in.sz >= 1 && in.sz <= 16);
    int sh = vp_bshift(in.sz);
#else
#ifdef VP_TY
    in.ty = VP_TY;
#else
    VP_IN_TO(int, in.ty, "type");
#endif
    VP_ASSUME(in.ty >= 0 && in.ty < (VP_IS_SCALAR ? VP_S_8 : VP_IS_STRIDED ? VP_T_MEM : VP_T_LAST));
    int sh = vp_shift_of(in.ty);
    in.sz = 1ul << sh;
    if (VP_IS_SCALAR) in.n = 1;
    if (VP_IS_SCALAR && in.ty == VP_T_longdouble) VP_ASSUME(vp.w_r < 10);    /* value bytes; the rest is padding */
    vp.deref = VP_IS_SCALAR;
#endif
    VP_ASSUME(vp.w_r < in.sz && vp.w_k <= 0x7fffffff);
    vp.w_b = (vp.w_k << sh) + vp.w_r;
#if VP_IS_STRIDED
    vp_set_strides(in.rst, in.lst);
#endif
    vp.c_sz = (int) in.sz;
    uint64_t v64[4];
    VP_IN_TO(uint64_t, v64[0], "val"); VP_IN_TO(uint64_t, v64[1], "val"); VP_IN_TO(uint64_t, v64[2], "rval"); VP_IN_TO(uint64_t, v64[3], "rval");
    memcpy(in.val, &v64[0], 16); memcpy(vp.rval, &v64[2], 16);
    VP_ASSUME(vp_api_pre());
#ifdef VP_VIA_AM
    vp_am_world();
    OSHMPI_env.rma_dbg_mode = OSHMPI_DBG_AM;
    rq.n = rq.nd = rq.bad = 0;
    VP_ASSUME(in.n >= 1);
#endif
    VP_REACH("pre");
#if VP_LEVEL == 1
#if VP_IS_STRIDED
    VP_IN_TO(int, idx, "type_idx");
    VP_ASSUME(vp_bsize(vp_idx_type(idx)) == in.sz);
    VP_CORE(in.ctx, mt, idx, (void *) in.loc, (void *) in.sym, VP_IS_PUT ? in.rst : in.lst, VP_IS_PUT ? in.lst : in.rst, in.n, in.pe);
#else
    VP_IN_TO(unsigned char, vp.deref, "deref"); vp.deref = vp.deref != 0 && in.n == 1;
    if (vp.deref) { in.loc = (uint64_t) in.ret; memcpy(in.ret, in.val, 32); }
    void *lp = vp.deref ? (void *) in.ret : (void *) in.loc;
    VP_CORE(in.ctx, mt, in.sz, lp, (void *) in.sym, in.n, in.pe);
    VP_POST("value delivered", vp_post_value(lp));
#endif
#else
    void *d = (void *) (VP_IS_PUT ? in.sym : in.loc), *s = (void *) (VP_IS_PUT ? in.loc : in.sym);
    vp_xfer(in.ty, in.usectx, in.ctx, d, s, VP_IS_PUT ? in.rst : in.lst, VP_IS_PUT ? in.lst : in.rst, in.n, in.pe);
#ifdef VP_VIA_AM
    requests();
    VP_POST("one request and one payload", rq.n == 1 && rq.nd == 1 && rq.tag == rq.dtag && vp.rma_calls == 0);
    VP_POST("kind, PE and element type", rq_kind() && !rq.bad);
    VP_POST("length of request and payload", rq_size() && rq.pay == in.n << vp_bshift(in.sz));
    if (VP_FAM == F_G) VP_POST("value delivered", vp_api_value());
    VP_REACH("post");
    return 0;
#endif
    VP_POST("value delivered", vp_api_value());
#endif
#if VP_NATIVE
    if (VP_IS_SCALAR) in.loc = vp.w_org - vp.w_r;
#endif
    VP_RESTATE(in.ctx, in.sz, (void *) in.loc, in.lst, (void *) in.sym, in.rst, in.n, in.pe);
    VP_REACH("post");
    return 0;
}
#endif
