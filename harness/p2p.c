/* Point-to-point synchronization: wait_until, the older wait forms, and test.
 *
 * The watched variable changes at any time: every read sees an arbitrary value.  A read is an atomic
 * fetch of the variable from this PE's window followed by its local completion.
 * VP_M 1: wait_until and wait (loop contract: any number of reads; without VP_LC at most three reads)
 * VP_M 2: test     VP_M 3: unknown comparison is refused (VP_TEST: by test)
 */
#include "vp_core.h"
#include "oshmpi_impl.h"
#define MPI_Fetch_and_op vp_base_fop
#define MPI_Win_flush_local vp_base_fl
#define MPI_Win_flush vp_base_f
#define MPI_Win_flush_all vp_base_fa
#define MPI_Win_flush_local_all vp_base_fla
#include "vp_mpi.h"
#undef MPI_Fetch_and_op
#undef MPI_Win_flush_local
#undef MPI_Win_flush
#undef MPI_Win_flush_all
#undef MPI_Win_flush_local_all
#include "vp_world.h"
#include "vp_types.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "vp_am.h"
typedef unsigned long long u64;
#define P2P_TYPES(X) \
    X(short, short, 1) X(int, int, 1) X(long, long, 1) X(long long, longlong, 1) X(unsigned short, ushort, 0) \
    X(unsigned int, uint, 0) X(unsigned long, ulong, 0) X(unsigned long long, ulonglong, 0) X(int32_t, int32, 1) X(int64_t, int64, 1) \
    X(uint32_t, uint32, 0) X(uint64_t, uint64, 0) X(size_t, size, 0) X(ptrdiff_t, ptrdiff, 1)
#define OLD_TYPES(X) X(short, short, 1) X(int, int, 1) X(long, long, 1) X(long long, longlong, 1)
enum {
#define X(t, n, k) VP_T_##n,
    P2P_TYPES(X)
#undef X
    VP_T_LAST, VP_T_old = VP_T_LAST,
#define X(t, n, k) VP_W_##n,
    OLD_TYPES(X)
#undef X
    VP_W_LAST, VP_W_wu, VP_W_w };
static struct { int ty, cmp, obj; size_t sz; int sg; u64 val, addr; int win; long disp; } in;
#ifndef vp_gw
#define vp_gw __CPROVER_vp_gw
#endif
/* value of the last completed read; where the running read goes, whether one runs; a read has completed; progress was made
 * since (or no read yet); number of reads (only without VP_LC) */
#ifndef VP_LC
struct vp_gw_s { u64 val; void *res; int pending, seen, prog; unsigned reads; };
#endif
struct vp_gw_s vp_gw;

static u64 ext(u64 v)
{
    u64 m = vp_mask(in.sz);
    v &= m;
    if (in.sg && in.sz < 8 && (v >> (8 * in.sz - 1))) v |= ~m;
    return v;
}
static int holds(u64 a, u64 b)
{
    a = ext(a); b = ext(b);
    int lt = in.sg ? (long long) a < (long long) b : a < b;
    switch (in.cmp) {
        case SHMEM_CMP_EQ: return a == b;
        case SHMEM_CMP_NE: return a != b;
        case SHMEM_CMP_GT: return !lt && a != b;
        case SHMEM_CMP_GE: return !lt;
        case SHMEM_CMP_LT: return lt;
        case SHMEM_CMP_LE: return lt || a == b;
    }
    return 0;
}
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype dt, int pe, MPI_Aint disp, MPI_Op op, MPI_Win w)
{
    VP_ASSERT("reads the watched variable of the calling PE", w == in.win && pe == OSHMPI_global.team_world_my_pe && disp == in.disp);
    VP_ASSERT("does not change it", op == MPI_NO_OP);
    VP_ASSERT("reads the whole element", dt > 0 && dt < VP_BASIC_MAX && vp_bsize(dt) == in.sz && !vp_fp(dt));
    VP_ASSERT("one read at a time", !vp_gw.pending);
    VP_ASSERT("progress is made between reads", vp_gw.prog);
    vp_gw.pending = 1; vp_gw.prog = 0; vp_gw.res = r;
    return 0;
}
static int vp_readc(MPI_Win w, int pe)
{
    if (vp_gw.pending && w == in.win && pe == OSHMPI_global.team_world_my_pe) {
        vp_gw.val = vp_nd_u64("value") & vp_mask(in.sz);
        vp_store(vp_gw.res, in.sz, vp_gw.val);
        vp_gw.pending = 0; vp_gw.seen = 1; vp_gw.reads++;
#if defined(VP_PROVE) && !defined(VP_LC) && VP_M == 1
        if (vp_gw.reads >= 3) VP_ASSUME(holds(vp_gw.val, in.val));
#endif
    }
    return 0;
}
int MPI_Win_flush_local(int pe, MPI_Win w) { return vp_readc(w, pe); }
int MPI_Win_flush(int pe, MPI_Win w) { return vp_readc(w, pe); }
int MPI_Win_flush_local_all(MPI_Win w) { return vp_readc(w, OSHMPI_global.team_world_my_pe); }
int MPI_Win_flush_all(MPI_Win w) { return vp_readc(w, OSHMPI_global.team_world_my_pe); }
/* contracts of the progress engine (harness/progress.c): requests that arrived are executed */
void vp_progress_contract(void) { vp_gw.prog = 1; }
void vp_poll_contract(void) { }
#include "shmem/p2p_typed.c"
#undef shmem_wait_until
#include "shmem/p2p.c"

static int answer;
static void call(void)
{
    void *a = (void *) in.addr;
    switch (in.ty) {
#if VP_M == 2 || defined(VP_TEST)
#define X(t, n, k) case VP_T_##n: answer = shmem_##n##_test(a, in.cmp, (t) in.val); break;
        P2P_TYPES(X)
#undef X
#else
#define X(t, n, k) case VP_T_##n: shmem_##n##_wait_until(a, in.cmp, (t) in.val); break;
        P2P_TYPES(X)
#undef X
#define X(t, n, k) case VP_W_##n: shmem_##n##_wait(a, (t) in.val); break;
        OLD_TYPES(X)
#undef X
#if OSHMPI_HAVE_C11 == 0
        case VP_W_wu: shmem_wait_until(a, in.cmp, (long) in.val); break;
        case VP_W_w: shmem_wait(a, (long) in.val); break;
#endif
#endif
    }
}
int vp_main(void)
{
    vp_world();

    VP_IN_TO(int, in.ty, "type"); VP_IN_TO(int, in.cmp, "cmp"); VP_IN_TO(u64, in.val, "cmp_value"); VP_IN_TO(u64, in.addr, "ivar");
#ifdef VP_TY
    in.ty = VP_TY;
#endif
    VP_ASSUME(in.ty >= 0 && in.ty <= VP_W_w && in.ty != VP_T_old && in.ty != VP_W_LAST);
#if OSHMPI_HAVE_C11 != 0
    VP_ASSUME(in.ty < VP_W_LAST);
#endif
#if VP_M != 1
    VP_ASSUME(in.ty < VP_T_LAST);
#endif
    if (in.ty > VP_T_old && in.ty != VP_W_wu) in.cmp = SHMEM_CMP_NE;
#if VP_M == 3
    VP_ASSUME(in.cmp < SHMEM_CMP_EQ || in.cmp > SHMEM_CMP_LE);
    vp.abort_ok = 1;
#else
    VP_ASSUME(in.cmp >= SHMEM_CMP_EQ && in.cmp <= SHMEM_CMP_LE);
#endif
    in.sz = 8; in.sg = 1;
    switch (in.ty) {
#define X(t, n, k) case VP_T_##n: in.sz = sizeof(t); in.sg = k; break;
        P2P_TYPES(X)
#undef X
#define X(t, n, k) case VP_W_##n: in.sz = sizeof(t); in.sg = k; break;
        OLD_TYPES(X)
#undef X
    }
    in.obj = vp_obj_of((long) in.addr);
    VP_ASSUME(in.obj > 0 && vp_obj_attached(in.obj) && vp_obj_base(in.obj) + vp_obj_size(in.obj) - (long) in.addr >= (long) in.sz);
    in.win = in.obj == 1 ? VP_WIN_HEAP : in.obj == 2 ? VP_WIN_DATA : VP_WIN_SPACE + in.obj - 3;
    in.disp = (long) in.addr - vp_obj_base(in.obj);
    vp_gw.val = vp_gw.reads = vp_gw.pending = vp_gw.seen = 0; vp_gw.prog = 1;
    VP_REACH("pre");
    call();
#if VP_M == 1
    VP_ASSERT("the value last read satisfies the comparison", vp_gw.seen && !vp_gw.pending && holds(vp_gw.val, in.val));
#elif VP_M == 2
    VP_ASSERT("the variable is read", vp_gw.seen && !vp_gw.pending);
    VP_ASSERT("the answer is that of the comparison", answer == holds(vp_gw.val, in.val));
    VP_ASSERT("messages are executed when it does not hold", answer || vp_gw.prog);
#else
    VP_ASSERT("an unknown comparison is refused", 0);
#endif
#if VP_M != 3
    VP_REACH("post");
#endif
    return 0;
}
