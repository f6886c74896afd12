/* Atomic memory operations, direct (window) path.
 *
 * VP_LEVEL 1: contracts of the core routines OSHMPI_amo_cswap/fetch/post (VP_K 1/2/3), enforced on
 * their bodies: the target element named by (context, address, PE) is updated exactly once by the
 * given operation, the prior value is delivered, nothing else is touched.
 * VP_LEVEL 2: every public routine (VP_GRP 1 standard, 2 extended, 3 bitwise types) with the core
 * calls replaced by their contract.  VP_LEVEL 3: one public type VP_TY, everything in line.
 */
#define VP_DT1
#include "vp_core.h"
#include "oshmpi_impl.h"
#define VP_PKT_SIZE sizeof(OSHMPI_am_pkt_t)
#ifdef VP_VIA_AM                /* message path: the request that leaves is judged */
#define VP_OWN_REMOTE
#define VP_AM_NMAX 2
#endif
#include "vp_mpi.h"
#include "vp_world.h"
#include "vp_types.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "vp_am.h"

enum { K_CSWAP = 1, K_FETCH, K_POST };
typedef unsigned long long u64;
/* the semantic operations of OpenSHMEM 1.5 */
enum { S_CSWAP = 1, S_SWAP, S_FETCH, S_ADD, S_AND, S_OR, S_XOR };
static u64 spec_new(int s, size_t sz, u64 old, u64 cond, u64 val)
{
    u64 m = vp_mask(sz), r = old;
    switch (s) {
        case S_CSWAP: r = (old & m) == (cond & m) ? val : old; break;
        case S_SWAP: r = val; break;
        case S_FETCH: r = old; break;
        case S_ADD: r = old + val; break;
        case S_AND: r = old & val; break;
        case S_OR: r = old | val; break;
        case S_XOR: r = old ^ val; break;
    }
    return r & m;
}
/* semantic operation a core call denotes (0: none) */
static int sem_of(int kind, int op)
{
    if (kind == K_CSWAP) return S_CSWAP;
    return op == MPI_REPLACE ? S_SWAP : op == MPI_NO_OP ? S_FETCH : op == MPI_SUM ? S_ADD : op == MPI_BAND ? S_AND : op == MPI_BOR ? S_OR : op == MPI_BXOR ? S_XOR : 0;
}
static int op_of_idx(int i)
{
    switch (i) {
        case OSHMPI_AM_MPI_BAND: return MPI_BAND;
        case OSHMPI_AM_MPI_BOR: return MPI_BOR;
        case OSHMPI_AM_MPI_BXOR: return MPI_BXOR;
        case OSHMPI_AM_MPI_NO_OP: return MPI_NO_OP;
        case OSHMPI_AM_MPI_REPLACE: return MPI_REPLACE;
        case OSHMPI_AM_MPI_SUM: return MPI_SUM;
    }
    return -1;
}
static int type_of_idx(int idx)
{
    switch (idx) {
#define X(i, t) case i: return t;
            X(OSHMPI_AM_MPI_INT, MPI_INT) X(OSHMPI_AM_MPI_LONG, MPI_LONG) X(OSHMPI_AM_MPI_LONG_LONG, MPI_LONG_LONG)
            X(OSHMPI_AM_MPI_UNSIGNED, MPI_UNSIGNED) X(OSHMPI_AM_MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG)
            X(OSHMPI_AM_MPI_UNSIGNED_LONG_LONG, MPI_UNSIGNED_LONG_LONG) X(OSHMPI_AM_MPI_INT32_T, MPI_INT32_T)
            X(OSHMPI_AM_MPI_INT64_T, MPI_INT64_T) X(OSHMPI_AM_MPI_UINT32_T, MPI_UINT32_T) X(OSHMPI_AM_MPI_UINT64_T, MPI_UINT64_T)
            X(OSHMPI_AM_OSHMPI_MPI_SIZE_T, OSHMPI_MPI_SIZE_T) X(OSHMPI_AM_OSHMPI_MPI_PTRDIFF_T, OSHMPI_MPI_PTRDIFF_T)
            X(OSHMPI_AM_MPI_FLOAT, MPI_FLOAT) X(OSHMPI_AM_MPI_DOUBLE, MPI_DOUBLE)
#undef X
    }
    return -1;
}
static struct {
    int usectx, obj, space, pe, sem, fetching, ty, real; shmem_ctx_t ctx; uint64_t dest; size_t sz;
    u64 cond, val, old, ret;
} in;

/* ------------------------------------------------------------------ specification over the ghost cell */
static int post_once(void) { return vp.amo_n == 1 && vp.cell_hits == 1 && vp.cell_other == 0 && vp.rma_calls == 0; }
static int post_value(void) { return vp.cell == spec_new(in.sem, in.sz, in.old, in.cond, in.val); }
static int post_result(void) { return !in.fetching || (in.ret & vp_mask(in.sz)) == (in.old & vp_mask(in.sz)); }
static int post_present(void)
{
    for (int w = 1; w < VP_NWIN; w++) if (vp.win[w].pend_loc) return 0;
    return 1;
}
static int post_tracked(void) { return vp_track_all(); }
static int post_silent(void) { return vp.nmsg == 0 && vp.ncoll == 0; }
#ifdef VP_VIA_AM
static void vp_remote(void) { }
static void vp_deliver(vp_msg_t *m, MPI_Status *st)
{
    (void) st;
    VP_ASSERT("one element of the result is awaited", m->count == 1 && vp_bsize(m->dt) == in.sz && m->comm == VP_ACK_COMM && m->peer == in.pe);
    vp_store((void *) m->buf, in.sz, in.old & vp_mask(in.sz));
}
static struct { int n, kind, op, idx; size_t bytes; u64 cond, val; } rq;
static void requests(void)
{
    OSHMPI_am_pkt_t p;
    rq.n = 0;
    for (int i = 0; i < VP_NMSG; i++)
        if (i < vp.nmsg && vp.msg[i].kind == VP_K_SEND) {
            VP_ASSERT("request goes to the PE", vp.msg[i].has_data == 1 && vp.msg[i].comm == VP_AM_COMM && vp.msg[i].tag == OSHMPI_AM_PKT_TAG && vp.msg[i].peer == in.pe);
            memcpy(&p, vp.msg[i].data, sizeof p);
            rq.n++;
            if (p.type == OSHMPI_AM_PKT_CSWAP) {
                rq.kind = K_CSWAP; rq.op = 0; rq.idx = p.cswap.mpi_type_idx; rq.bytes = p.cswap.bytes;
                rq.cond = vp_load(&p.cswap.cond, in.sz); rq.val = vp_load(&p.cswap.value, in.sz);
            } else if (p.type == OSHMPI_AM_PKT_FETCH) {
                rq.kind = K_FETCH; rq.op = op_of_idx(p.fetch.mpi_op_idx); rq.idx = p.fetch.mpi_type_idx; rq.bytes = p.fetch.bytes;
                rq.val = vp_load(&p.fetch.value, in.sz);
            } else if (p.type == OSHMPI_AM_PKT_POST) {
                rq.kind = K_POST; rq.op = op_of_idx(p.post.mpi_op_idx); rq.idx = p.post.mpi_type_idx; rq.bytes = p.post.bytes;
                rq.val = vp_load(&p.post.value, in.sz);
            } else rq.kind = 0;
        }
}
static int rq_type(void)
{
    int t = type_of_idx(rq.idx);
    return rq.bytes == in.sz && t > 0 && vp_bsize(t) == in.sz && vp_fp(t) == in.real;
}
#define RESTATE                                                                              \
    requests();                                                                              \
    VP_POST("one request leaves", rq.n == 1 && vp.rma_calls == 0 && vp.amo_n == 0);           \
    VP_POST("operation of the request", rq.kind && sem_of(rq.kind, rq.op) == in.sem && (!in.fetching || rq.kind != K_POST)); \
    VP_POST("element type and width of the request", rq_type());                              \
    VP_POST("operands of the request", (in.sem == S_FETCH || rq.val == (in.val & vp_mask(in.sz))) && (in.sem != S_CSWAP || rq.cond == (in.cond & vp_mask(in.sz)))); \
    VP_POST("prior value returned", post_result())
#else
#define RESTATE                                                                              \
    VP_POST("the addressed element is accessed by exactly one atomic operation", post_once()); \
    VP_POST("new value of the element", post_value());                                       \
    VP_POST("prior value returned", post_result());                                          \
    VP_POST("operands read and result present on return", post_present());                   \
    VP_POST("pending update is visible to quiet and fence", post_tracked());                 \
    VP_POST("no other communication", post_silent())
#endif

#if VP_LEVEL != 2
static int vp_obj_for(shmem_ctx_t ctx, uint64_t sym)
{
    int o = vp_obj_of((long) sym);
    if (ctx == SHMEM_CTX_DEFAULT) return o && vp_obj_attached(o) ? o : 0;
    if (o >= 3 && vp_obj_attached(o) && VP_SPACE(o - 3)->ctx_list == (OSHMPI_ctx_t *) ctx) return o;
    return 0;
}
static int pre(void)
{
    return vp.amo_n == 0 && vp.cell_hits == 0 && vp.cell_other == 0 && vp.rma_calls == 0 && vp.nmsg == 0 && vp.ncoll == 0
        && vp.cell == (in.old & vp_mask(in.sz)) && vp.c_sz == (int) in.sz && vp_track_all() && vp.c_pe == in.pe
        && vp.c_win == (in.ctx != SHMEM_CTX_DEFAULT ? VP_WIN_CTX + in.obj - 3 : in.obj == 1 ? VP_WIN_HEAP : in.obj == 2 ? VP_WIN_DATA : VP_WIN_SPACE + in.obj - 3)
        && vp.c_disp == (long) in.dest - vp_obj_base(in.obj);
}
static void setup_world(void)
{
    vp_world();
#ifdef VP_VIA_AM
    vp_am_world();
    OSHMPI_global.amo_direct = 0;
#else
    OSHMPI_global.amo_direct = 1;
#endif
    VP_IN_TO(unsigned char, in.usectx, "use_ctx"); in.usectx = in.usectx != 0;
    VP_IN_TO(int, in.obj, "obj");
    VP_IN_TO(uint64_t, in.dest, "dest_addr");
    VP_IN_TO(int, in.pe, "pe");
    VP_ASSUME(in.obj >= 1 && in.obj <= 2 + vp_nspaces);
    in.space = in.obj - 3;
    VP_ASSUME(!in.usectx || (in.obj >= 3 && VP_SPACE(in.space)->ctx_list));
    in.ctx = in.usectx ? (shmem_ctx_t) VP_SPACE(in.space)->ctx_list : SHMEM_CTX_DEFAULT;
    VP_ASSUME(in.pe >= 0 && in.pe < OSHMPI_global.team_world_n_pes);
    VP_IN_TO(u64, in.cond, "cond"); VP_IN_TO(u64, in.val, "value"); VP_IN_TO(u64, in.old, "old"); VP_IN_TO(u64, in.ret, "ret0");
}
static void setup_cell(void)
{
    VP_ASSUME(vp_obj_for(in.ctx, in.dest) == in.obj);
    VP_ASSUME(vp_obj_base(in.obj) + vp_obj_size(in.obj) - (long) in.dest >= (long) in.sz);
    vp.c_pe = in.pe; vp.c_sz = (int) in.sz; vp.cell = in.old & vp_mask(in.sz);
    vp.c_win = in.ctx != SHMEM_CTX_DEFAULT ? VP_WIN_CTX + in.obj - 3 : in.obj == 1 ? VP_WIN_HEAP : in.obj == 2 ? VP_WIN_DATA : VP_WIN_SPACE + in.obj - 3;
    vp.c_disp = (long) in.dest - vp_obj_base(in.obj);
    VP_ASSUME(pre());
}
#endif

#if VP_LEVEL == 1
/* ------------------------------------------------------------------ contracts of the core routines */
static int core_pre(int kind, shmem_ctx_t ctx, int mt, int idx, size_t bytes, int op, int opidx, const void *dest, int pe)
{
    return ctx == in.ctx && (uint64_t) dest == in.dest && pe == in.pe && bytes == in.sz && mt > 0 && mt < VP_BASIC_MAX && vp_bsize(mt) == in.sz
        && type_of_idx(idx) > 0 && vp_bsize(type_of_idx(idx)) == in.sz && in.sem == sem_of(kind, op) && in.fetching == (kind != K_POST)
        && (kind == K_CSWAP || (op_of_idx(opidx) == op && sem_of(kind, op) && !(vp_fp(mt) && op != MPI_REPLACE && op != MPI_NO_OP))) && !(kind == K_CSWAP && vp_fp(mt)) && pre();
}
#define CPOSTS VP_ENS(post_once()) VP_ENS(post_value()) VP_ENS(post_result()) VP_ENS(post_present()) VP_ENS(post_tracked()) VP_ENS(post_silent())
#if VP_K == 1
void vp_c_core(shmem_ctx_t ctx, MPI_Datatype mpi_type, OSHMPI_am_mpi_datatype_index_t mpi_type_idx, size_t bytes, void *dest,
               void *cond_ptr, void *value_ptr, int pe, void *oldval_ptr)
VP_REQ(core_pre(K_CSWAP, ctx, mpi_type, mpi_type_idx, bytes, 0, 0, dest, pe))
VP_REQ(cond_ptr == &in.cond && value_ptr == &in.val && oldval_ptr == &in.ret)
CPOSTS
VP_ASG(vp, VP_FRAME_FLAGS, in.ret);
#elif VP_K == 2
void vp_c_core(shmem_ctx_t ctx, MPI_Datatype mpi_type, OSHMPI_am_mpi_datatype_index_t mpi_type_idx, size_t bytes, MPI_Op op,
               OSHMPI_am_mpi_op_index_t op_idx, void *dest, void *value_ptr, int pe, void *oldval_ptr)
VP_REQ(core_pre(K_FETCH, ctx, mpi_type, mpi_type_idx, bytes, op, op_idx, dest, pe))
VP_REQ((value_ptr == &in.val || (op == MPI_NO_OP && !value_ptr)) && oldval_ptr == &in.ret)
CPOSTS
VP_ASG(vp, VP_FRAME_FLAGS, in.ret);
#else
void vp_c_core(shmem_ctx_t ctx, MPI_Datatype mpi_type, OSHMPI_am_mpi_datatype_index_t mpi_type_idx, size_t bytes, MPI_Op op,
               OSHMPI_am_mpi_op_index_t op_idx, void *dest, void *value_ptr, int pe)
VP_REQ(core_pre(K_POST, ctx, mpi_type, mpi_type_idx, bytes, op, op_idx, dest, pe))
VP_REQ(value_ptr == &in.val)
CPOSTS
VP_ASG(vp, VP_FRAME_FLAGS);
#endif
int vp_main(void)
{
    int mt, idx, op, opidx, nullv;
    setup_world();
    VP_IN_TO(int, mt, "mpi_type"); VP_IN_TO(int, idx, "type_idx"); VP_IN_TO(int, op, "op"); VP_IN_TO(int, opidx, "op_idx");
    VP_IN_TO(unsigned char, nullv, "null_value");
    VP_ASSUME(mt > 0 && mt < VP_BASIC_MAX);
    in.sz = vp_bsize(mt);
    VP_ASSUME(in.sz == 4 || in.sz == 8);
    in.sem = sem_of(VP_K, op); in.fetching = VP_K != K_POST;
    setup_cell();
    VP_ASSUME(core_pre(VP_K, in.ctx, mt, idx, in.sz, op, opidx, (void *) in.dest, in.pe));
    VP_REACH("pre");
#if VP_K == 1
    OSHMPI_amo_cswap(in.ctx, mt, idx, in.sz, (void *) in.dest, &in.cond, &in.val, in.pe, &in.ret);
#elif VP_K == 2
    OSHMPI_amo_fetch(in.ctx, mt, idx, in.sz, op, opidx, (void *) in.dest, op == MPI_NO_OP && nullv ? NULL : &in.val, in.pe, &in.ret);
#else
    OSHMPI_amo_post(in.ctx, mt, idx, in.sz, op, opidx, (void *) in.dest, &in.val, in.pe);
#endif
    RESTATE;
    VP_REACH("post");
    return 0;
}
#else
/* ------------------------------------------------------------------ the public routines */
#if VP_LEVEL == 2
static struct { int n, kind, mt, idx, op, opidx, pe, got_res; shmem_ctx_t ctx; size_t bytes; uint64_t dest; u64 cond, val; } vp_core;
static u64 vp_core_old;
static void vp_rec(int kind, shmem_ctx_t ctx, int mt, int idx, size_t bytes, int op, int opidx, const void *dest, const void *cond, const void *val, int pe, void *res)
{
    vp_core.n++; vp_core.kind = kind; vp_core.ctx = ctx; vp_core.mt = mt; vp_core.idx = idx; vp_core.bytes = bytes; vp_core.op = op; vp_core.opidx = opidx;
    vp_core.dest = (uint64_t) dest; vp_core.pe = pe;
    if (bytes == 4 || bytes == 8) {
        if (cond) vp_core.cond = vp_load(cond, bytes);
        if (val && !(kind == K_FETCH && op == MPI_NO_OP)) vp_core.val = vp_load(val, bytes);
        if (res) vp_store(res, bytes, vp_core_old);
    }
}
#define OSHMPI_amo_cswap(ctx, mt, ix, sz, dest, cond, val, pe, res) vp_rec(K_CSWAP, ctx, mt, ix, sz, 0, 0, dest, cond, val, pe, res)
#define OSHMPI_amo_fetch(ctx, mt, ix, sz, op, opix, dest, val, pe, res) vp_rec(K_FETCH, ctx, mt, ix, sz, op, opix, dest, NULL, val, pe, res)
#define OSHMPI_amo_post(ctx, mt, ix, sz, op, opix, dest, val, pe) vp_rec(K_POST, ctx, mt, ix, sz, op, opix, dest, NULL, val, pe, NULL)
#endif
#if VP_GRP == 1
#include "shmem/amo_std_typed.c"
#define TYPES VP_AMO_STD_TYPES
/* form: R returns the prior value, N stores it through a pointer, V neither; args: C cond+value, V value, 0 none; X also with a context */
#define OPS(o, T)                                                                                  \
    o(T, compare_swap, atomic_compare_swap, S_CSWAP, R, C, 1) o(T, fetch_inc, atomic_fetch_inc, S_ADD, R, 0, 1) o(T, inc, atomic_inc, S_ADD, V, 0, 1)  \
    o(T, fetch_add, atomic_fetch_add, S_ADD, R, V, 1) o(T, add, atomic_add, S_ADD, V, V, 1)          \
    o(T, compare_swap_nbi, atomic_compare_swap_nbi, S_CSWAP, N, C, 1) o(T, fetch_inc_nbi, atomic_fetch_inc_nbi, S_ADD, N, 0, 1)    \
    o(T, fetch_add_nbi, atomic_fetch_add_nbi, S_ADD, N, V, 1)                                      \
    o(T, d_cswap, cswap, S_CSWAP, R, C, 0) o(T, d_finc, finc, S_ADD, R, 0, 0) o(T, d_inc, inc, S_ADD, V, 0, 0) o(T, d_fadd, fadd, S_ADD, R, V, 0) o(T, d_add, add, S_ADD, V, V, 0)
#elif VP_GRP == 2
#include "shmem/amo_ext_typed.c"
#define TYPES VP_AMO_EXT_TYPES
#define OPS(o, T)                                                                                  \
    o(T, fetch, atomic_fetch, S_FETCH, R, 0, 1) o(T, set, atomic_set, S_SWAP, V, V, 1) o(T, swap, atomic_swap, S_SWAP, R, V, 1)     \
    o(T, fetch_nbi, atomic_fetch_nbi, S_FETCH, N, 0, 1) o(T, swap_nbi, atomic_swap_nbi, S_SWAP, N, V, 1) \
    o(T, d_fetch, fetch, S_FETCH, R, 0, 0) o(T, d_set, set, S_SWAP, V, V, 0) o(T, d_swap, swap, S_SWAP, R, V, 0)
#else
#include "shmem/amo_bitws_typed.c"
#define TYPES VP_AMO_BIT_TYPES
#define OPS(o, T)                                                                                  \
    o(T, fetch_and, atomic_fetch_and, S_AND, R, V, 1) o(T, and, atomic_and, S_AND, V, V, 1) o(T, fetch_and_nbi, atomic_fetch_and_nbi, S_AND, N, V, 1) \
    o(T, fetch_or, atomic_fetch_or, S_OR, R, V, 1) o(T, or, atomic_or, S_OR, V, V, 1) o(T, fetch_or_nbi, atomic_fetch_or_nbi, S_OR, N, V, 1)     \
    o(T, fetch_xor, atomic_fetch_xor, S_XOR, R, V, 1) o(T, xor, atomic_xor, S_XOR, V, V, 1) o(T, fetch_xor_nbi, atomic_fetch_xor_nbi, S_XOR, N, V, 1)
#endif
enum {
#define X(t, n, k) VP_T_##n,
    TYPES(X)
#undef X
    VP_T_LAST
};
enum {
#define O(T, id, fn, s, f, a, c) VP_O_##id,
    OPS(O, 0)
#undef O
    VP_O_LAST
};
static int op;
/* argument lists by form */
#define ARG_R_C(D) D, cond, value, in.pe
#define ARG_R_V(D) D, value, in.pe
#define ARG_R_0(D) D, in.pe
#define ARG_V_V(D) D, value, in.pe
#define ARG_V_0(D) D, in.pe
#define ARG_N_C(D) &old, D, cond, value, in.pe
#define ARG_N_V(D) &old, D, value, in.pe
#define ARG_N_0(D) &old, D, in.pe
#define GET_R(call) old = call
#define GET_V(call) call
#define GET_N(call) call
#define CALL_1(tn, fn, f, a) if (in.usectx) { GET_##f(shmem_ctx_##tn##_##fn(in.ctx, ARG_##f##_##a(dest))); } else { GET_##f(shmem_##tn##_##fn(ARG_##f##_##a(dest))); }
#define CALL_0(tn, fn, f, a) GET_##f(shmem_##tn##_##fn(ARG_##f##_##a(dest)));
#define ISF_R 1
#define ISF_N 1
#define ISF_V 0
#define ISC_C 0
#define ISC_V 0
#define ISC_0 1
static int op_info(void)
{
    int c = 0, inc = 0;
    switch (op) {
#define O(T, id, fn, s, f, a, x) case VP_O_##id: in.sem = s; in.fetching = ISF_##f; c = x; inc = ISC_##a; break;
            OPS(O, 0)
#undef O
    }
    if (inc && in.sem == S_ADD) in.val = 1;
    return c;
}
static void type_info(void)
{
    switch (in.ty) {
#define X(t, n, k) case VP_T_##n: in.sz = sizeof(t); in.real = k == 2; break;
            TYPES(X)
#undef X
    }
}
#if VP_LEVEL == 2
static int l2_once(void) { return vp_core.n == 1; }
static int l2_op(void)
{
    return sem_of(vp_core.kind, vp_core.op) == in.sem && (vp_core.kind == K_CSWAP || op_of_idx(vp_core.opidx) == vp_core.op) && (in.fetching ? vp_core.kind != K_POST : 1);
}
static int l2_type(void)
{
    int t = type_of_idx(vp_core.idx);
    return vp_core.mt > 0 && vp_core.mt < VP_BASIC_MAX && vp_bsize(vp_core.mt) == in.sz && vp_core.bytes == in.sz && vp_fp(vp_core.mt) == in.real
        && t > 0 && vp_bsize(t) == in.sz && vp_fp(t) == in.real;
}
static int l2_target(void) { return vp_core.ctx == in.ctx && vp_core.dest == in.dest && vp_core.pe == in.pe; }
static int l2_operands(void)
{
    u64 m = vp_mask(in.sz);
    return (in.sem == S_FETCH || vp_core.val == (in.val & m)) && (in.sem != S_CSWAP || vp_core.cond == (in.cond & m));
}
static int l2_result(void) { return !in.fetching || (in.ret & vp_mask(in.sz)) == (vp_core_old & vp_mask(in.sz)); }
static void vp_call(void)
VP_REQ(1)
VP_ENS(l2_once()) VP_ENS(l2_op()) VP_ENS(l2_type()) VP_ENS(l2_target()) VP_ENS(l2_operands()) VP_ENS(l2_result())
VP_ASG(vp_core, in.ret);
#endif
#define O(T, id, fn, s, f, a, x) case VP_O_##id: CALL_##x(T, fn, f, a) break;
#define X(t, tn, k) static void call_##tn(void)                                                  \
    {                                                                                            \
        t cond, value, old = 0, *dest = (t *) in.dest;                                           \
        memcpy(&cond, &in.cond, sizeof cond); memcpy(&value, &in.val, sizeof value);             \
        switch (op) { OPS(O, tn) }                                                               \
        if (in.fetching) { in.ret = 0; memcpy(&in.ret, &old, sizeof old); }                      \
    }
TYPES(X)
#undef X
#undef O
static void vp_call(void)
{
    switch (in.ty) {
#define X(t, tn, k) case VP_T_##tn: call_##tn(); break;
        TYPES(X)
#undef X
    }
}
int vp_main(void)
{
#if VP_LEVEL == 2
    VP_IN_TO(unsigned char, in.usectx, "use_ctx"); in.usectx = in.usectx != 0;
    in.ctx = in.usectx ? (shmem_ctx_t) &vp_sctx0 : SHMEM_CTX_DEFAULT;
    VP_IN_TO(uint64_t, in.dest, "dest_addr");
    VP_IN_TO(int, in.pe, "pe");
    VP_IN_TO(u64, in.cond, "cond"); VP_IN_TO(u64, in.val, "value"); VP_IN_TO(u64, vp_core_old, "old");
    vp_core.n = 0;
#else
    setup_world();
#endif
#ifdef VP_TY
    in.ty = VP_TY;
#else
    VP_IN_TO(int, in.ty, "type");
#endif
#ifdef VP_OP
    op = VP_OP;
#else
    VP_IN_TO(int, op, "operation");
#endif
    VP_ASSUME(in.ty >= 0 && in.ty < VP_T_LAST && op >= 0 && op < VP_O_LAST);
    type_info();
    int hasctx = op_info();
    VP_ASSUME(hasctx || !in.usectx);
#if VP_LEVEL == 2
    VP_REACH("pre");
    vp_call();
    VP_POST("exactly one atomic operation", l2_once());
    VP_POST("operation", l2_op());
    VP_POST("element type and width", l2_type());
    VP_POST("context, address and PE", l2_target());
    VP_POST("operands", l2_operands());
    VP_POST("prior value returned", l2_result());
#else
    setup_cell();
    VP_REACH("pre");
    vp_call();
    RESTATE;
#endif
    VP_REACH("post");
    return 0;
}
#endif
