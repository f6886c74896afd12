/* Distributed lock: set, test, clear, as seen from one PE among any number of others.
 *
 * The lock is a queue of PEs: the last member's id is in the word "last" on the root PE (0: free), each member's
 * "next" word holds its successor's id, and its top bit says that the lock was passed to it.  The proof carries
 * permissions: being the holder (one token; in the free lock's word, with one PE, or in the top bit on its way),
 * and the right to write a PE's next word once (given by the swap that returned that PE's id).  Between two of
 * the caller's steps the other PEs take any steps these permissions allow, so the contracts proved here for one PE
 * hold together for all of them: the token is never copied and never lost.
 *
 * VP_M 1: set  2: test  3: clear.   Loop contracts lock_signal, lock_next; without them at most three reads.
 * VP_OBJ: the object that holds the lock; VP_SHAPE0: the space list.
 */
#include "vp_core.h"
#include "oshmpi_impl.h"
#ifndef vp_lk
#define vp_lk vp_lk_state
#endif
#define MPI_Fetch_and_op vp_base_fop
#define MPI_Compare_and_swap vp_base_cas
#define MPI_Accumulate vp_base_acc
#define MPI_Win_flush vp_base_f
#define MPI_Win_flush_local vp_base_fl
#define MPI_Win_sync vp_base_sync
#include "vp_mpi.h"
#undef MPI_Fetch_and_op
#undef MPI_Compare_and_swap
#undef MPI_Accumulate
#undef MPI_Win_flush
#undef MPI_Win_flush_local
#undef MPI_Win_sync
#include "vp_world.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#define VP_AM_NMAX 1
#define VP_AM_CONTRACT
#include "vp_am.h"
#ifndef VP_LC_lock
/* in the queue; holds the lock; linked behind its predecessor and waits; id whose next word may be written once;
 * id of the successor once there is one, and whether it wrote this PE's next word; an operation is not complete;
 * progress since the last read; local store not yet synchronized; passed on; released; value of the next word */
struct vp_lk_s { int inq, hold, wait, pred, succ, linked, pend, prog, dirty, passed, released, reads; unsigned next, val; void *res; };
#endif
struct vp_lk_s vp_lk;
static char vp_mem[256];                 /* the symmetric objects; one of them holds this PE's copy of the lock */
static long *vp_lockp;
static void vp_layout(OSHMPI_sobj_attr_t *a, int k) { a->base = vp_mem + 64 * k; a->size = 64; }
static struct { int win, root, obj; long disp; unsigned last0; long off; } in;
#define ME (OSHMPI_global.team_world_my_pe + 1)
#define NPES OSHMPI_global.team_world_n_pes
#define CELL ((OSHMPI_lock_t *) vp_lockp)
#define LAST_DISP (in.disp + (long) offsetof(OSHMPI_lock_t, last))
#define NEXT_DISP (in.disp + (long) offsetof(OSHMPI_lock_t, next))
#define SIG ((unsigned) INT_MAX + 1)
enum { P_NONE, P_CAS_SET, P_CAS_CLEAR, P_SWAP, P_LINK, P_PASS, P_READ };

static int vp_pending_updates(void)
{
    int p = vp.am_pend | vp.win[VP_WIN_HEAP].pend | vp.win[VP_WIN_DATA].pend;
    for (int i = 0; i < VP_NSPACE; i++)
        if (i < vp_nspaces) {
            if (vp.win[VP_WIN_SPACE + i].valid) p |= vp.win[VP_WIN_SPACE + i].pend;
            if (vp.win[VP_WIN_CTX + i].valid) p |= vp.win[VP_WIN_CTX + i].pend;
        }
    return p;
}
/* any other PE's id */
static int vp_other(void)
{
    int q = vp_nd_int("other");
    VP_ASSUME(q >= 1 && q <= NPES && q != ME);
    return q;
}
/* steps of the other PEs, and what this PE did to its own copy since */
static void vp_others(void)
{
    if (CELL->next != vp_lk.next) {
        VP_ASSERT("a waiting PE's link is not lost", !vp_lk.linked || vp_lk.passed || (int) (CELL->next & INT_MAX) == vp_lk.succ || (int) (vp_lk.val & INT_MAX) == vp_lk.succ);
        VP_ASSERT("the signal is not lost", !(vp_lk.wait && (vp_lk.next & SIG)) || (CELL->next & SIG) || vp_lk.hold == 2);
        VP_ASSERT("the lock's word on this PE is reset only", CELL->next == 0);
        vp_lk.next = CELL->next; vp_lk.dirty = 1;
        if (vp_lk.linked) vp_lk.linked = 2;     /* the successor is known to the caller only */
    }
    VP_ASSERT("the word of the root is changed atomically only", (unsigned) CELL->last == in.last0);
    if (vp_lk.inq && !vp_lk.succ && NPES > 1 && vp_nd_bool("joined")) vp_lk.succ = vp_other();
    if (vp_lk.succ && !vp_lk.linked && vp_nd_bool("linked")) {
        VP_ASSERT("no store to a word that others write", !vp_lk.dirty);
        vp_lk.linked = 1; CELL->next |= (unsigned) vp_lk.succ;
    }
    if (vp_lk.wait && !vp_lk.hold && vp_nd_bool("passed")) {
        VP_ASSERT("no store to a word that others write", !vp_lk.dirty);
        CELL->next |= SIG; vp_lk.hold = 1;
    }
    vp_lk.next = CELL->next;
}
static int vp_word(MPI_Win w, int pe, long disp)
{
    VP_ASSERT("the window of the object that holds the lock", w == in.win);
    VP_ASSERT("an existing PE", pe >= 0 && pe < NPES);
    VP_ASSERT("a word of the lock", disp == LAST_DISP || disp == NEXT_DISP);
    VP_ASSERT("one operation at a time", !vp_lk.pend);
    VP_ASSERT("local stores are synchronized first", !vp_lk.dirty);
    return disp == LAST_DISP;
}
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype dt, int pe, MPI_Aint disp, MPI_Op op, MPI_Win w)
{
    vp_others();
    int last = vp_word(w, pe, disp);
    VP_ASSERT("type of the word", vp_bsize(dt) == 4 && !vp_fp(dt));
    vp_lk.res = r;
    if (last) {
        VP_ASSERT("swapped at the root", pe == in.root && op == MPI_REPLACE && *(const int *) o == ME);
        VP_ASSERT("joins the queue once, while not in it", !vp_lk.inq && !vp_lk.hold);
        VP_ASSERT("no stale successor when joining", (vp_lk.next & INT_MAX) == 0);
        vp_lk.pend = P_SWAP;
        vp_lk.val = NPES > 1 && vp_nd_bool("taken") ? (unsigned) vp_other() : 0;
        vp_lk.inq = 1; vp_lk.succ = vp_lk.linked = 0;
        if (vp_lk.val) vp_lk.pred = (int) vp_lk.val; else vp_lk.hold = 1;
    } else {
        VP_ASSERT("reads its own word", pe == ME - 1 && op == MPI_NO_OP);
        VP_ASSERT("progress is made between reads", vp_lk.prog);
        vp_lk.pend = P_READ; vp_lk.prog = 0; vp_lk.reads++;
#if !defined(VP_LC_lock)
        if (vp_lk.reads >= 3) {
#if VP_M == 1
            VP_ASSUME(vp_lk.hold);
#else
            VP_ASSUME(vp_lk.linked);
#endif
        }
#endif
        vp_lk.val = vp_lk.next;
    }
    return 0;
}
int MPI_Compare_and_swap(const void *o, const void *c, void *r, MPI_Datatype dt, int pe, MPI_Aint disp, MPI_Win w)
{
    vp_others();
    int last = vp_word(w, pe, disp), new = *(const int *) o, cmp = *(const int *) c;
    VP_ASSERT("type of the word", vp_bsize(dt) == 4 && !vp_fp(dt));
    VP_ASSERT("compares the root's word", last && pe == in.root);
    vp_lk.res = r;
    if (vp_lk.hold) {                   /* give the lock back if nobody waits */
        VP_ASSERT("freed by its holder", new == 0 && cmp == ME && vp_lk.inq);
        VP_ASSERT("the holder's updates are complete before the lock is freed", !vp_pending_updates());
        vp_lk.pend = P_CAS_CLEAR;
        vp_lk.val = vp_lk.succ ? (unsigned) vp_other() : (unsigned) ME;
        if (!vp_lk.succ) { vp_lk.hold = vp_lk.inq = 0; vp_lk.released = 1; }
    } else {
        VP_ASSERT("claimed only when free, by a PE that is not in the queue", new == ME && cmp == 0 && !vp_lk.inq);
        VP_ASSERT("no stale successor when joining", (vp_lk.next & INT_MAX) == 0);
        vp_lk.pend = P_CAS_SET;
        vp_lk.val = NPES > 1 && vp_nd_bool("taken") ? (unsigned) vp_other() : 0;
        if (!vp_lk.val) { vp_lk.hold = vp_lk.inq = 1; vp_lk.succ = vp_lk.linked = 0; }
    }
    return 0;
}
int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int pe, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{
    vp_others();
    int last = vp_word(w, pe, disp);
    unsigned v = *(const unsigned *) o;
    VP_ASSERT("adds bits to a next word", !last && oc == 1 && tc == 1 && vp_bsize(ot) == 4 && vp_bsize(tt) == 4 && op == MPI_BOR);
    if (v == SIG) {
        VP_ASSERT("passed on by the holder, to its successor, once", vp_lk.hold && vp_lk.inq && vp_lk.linked && pe == vp_lk.succ - 1);
        VP_ASSERT("the holder's updates are complete before the lock is passed on", !vp_pending_updates());
        VP_ASSERT("the successor's link is taken away before the lock leaves", (vp_lk.next & INT_MAX) == 0);
        vp_lk.pend = P_PASS;
        vp_lk.hold = vp_lk.inq = 0; vp_lk.passed = 1;
    } else {
        VP_ASSERT("links itself behind its predecessor, once", v == (unsigned) ME && vp_lk.inq && !vp_lk.hold && vp_lk.pred && pe == vp_lk.pred - 1);
        VP_ASSERT("the signal of an earlier turn is gone before waiting", !(vp_lk.next & SIG));
        vp_lk.pend = P_LINK;
        vp_lk.pred = 0; vp_lk.wait = 1;
    }
    return 0;
}
static int vp_complete_op(MPI_Win w, int remote)
{
    if (w == in.win && vp_lk.pend && (remote || vp_lk.pend == P_SWAP || vp_lk.pend >= P_READ || vp_lk.pend <= P_CAS_CLEAR)) {
        if (vp_lk.pend != P_LINK && vp_lk.pend != P_PASS) *(unsigned *) vp_lk.res = vp_lk.val;
        vp_lk.pend = P_NONE;
    }
    return 0;
}
int MPI_Win_flush(int pe, MPI_Win w) { vp_others(); if (!vp_lk.pend || w != in.win) vp_base_f(pe, w); return vp_complete_op(w, 1); }
int MPI_Win_flush_local(int pe, MPI_Win w) { vp_others(); if (!vp_lk.pend || w != in.win) vp_base_fl(pe, w); return vp_complete_op(w, 0); }
int MPI_Win_sync(MPI_Win w) { vp_others(); vp_base_sync(w); if (w == in.win) vp_lk.dirty = 0; return 0; }
/* contracts of the progress engine (harness/progress.c) and of the message flush (harness/order.c) */
void vp_progress_contract(void) { vp_lk.prog = 1; }
void vp_amflush_contract(shmem_ctx_t ctx, int PE_start, int logPE_stride, int PE_size)
{
    if (logPE_stride == 0 && vp.w_pe >= PE_start && vp.w_pe - PE_start < PE_size) vp.am_pend = 0;
}
#include "shmem/lock.c"

static int vp_body(void)
{
    long o;
    int ret;
    vp_world();
    vp_am_world();
    /* the objects lie side by side in one piece of memory (addresses in general: P03) */
    vp_layout(&OSHMPI_global.symm_heap_attr, 0); vp_layout(&OSHMPI_global.symm_data_attr, 1);
    vp_layout(&vp_space0.sobj_attr, 2); vp_layout(&vp_space1.sobj_attr, 3);
    in.obj = VP_OBJ;
    VP_ASSUME(in.obj >= 1 && in.obj <= 2 + VP_NSPACE && (in.obj < 3 || in.obj - 3 < vp_nspaces) && vp_obj_attached(in.obj));
    o = VP_OBJ * 8;
    in.win = in.obj == 1 ? VP_WIN_HEAP : in.obj == 2 ? VP_WIN_DATA : VP_WIN_SPACE + in.obj - 3;
    vp_lockp = (long *) (vp_mem + (in.obj - 1) * 64 + o);
    in.disp = o; in.root = OSHMPI_LOCK_ROOT_WRANK;
    VP_IN_TO(unsigned, in.last0, "local_last"); CELL->last = (int) in.last0;
    VP_IN_TO(unsigned, CELL->next, "next");
    VP_ASSUME(NPES < INT_MAX);
    vp_lk.inq = vp_lk.hold = vp_lk.wait = vp_lk.pred = vp_lk.succ = vp_lk.linked = vp_lk.pend = vp_lk.dirty = vp_lk.passed = vp_lk.released = vp_lk.reads = 0;
    vp_lk.prog = 1;
#if VP_M == 3
    /* holder: perhaps with a successor, perhaps already linked; the top bit may be left from getting the lock */
    vp_lk.hold = vp_lk.inq = 1;
    if (NPES > 1 && vp_nd_bool("has_succ")) vp_lk.succ = vp_other();
    if (vp_lk.succ && vp_nd_bool("has_link")) vp_lk.linked = 1;
    VP_ASSUME((int) (CELL->next & INT_MAX) == (vp_lk.linked ? vp_lk.succ : 0));
#else
    VP_ASSUME((CELL->next & INT_MAX) == 0);        /* not in the queue: no successor; the top bit may be old */
#endif
    vp_lk.next = CELL->next;
    VP_REACH("pre");
#if VP_M == 1
    shmem_set_lock(vp_lockp);
    vp_others();
    VP_ASSERT("the caller holds the lock", vp_lk.hold == 1 && vp_lk.inq && !vp_lk.pred);
#elif VP_M == 2
    ret = shmem_test_lock(vp_lockp);
    vp_others();
    VP_ASSERT("0 exactly when the caller holds the lock", ret == 0 || ret == 1);
    VP_ASSERT("0 exactly when the caller holds the lock", (ret == 0) == (vp_lk.hold == 1) && (ret == 0) == (vp_lk.inq == 1) && !vp_lk.wait);
#else
    shmem_clear_lock(vp_lockp);
    vp_others();
    VP_ASSERT("the lock is freed or passed on, once", !vp_lk.hold && !vp_lk.inq && vp_lk.released + vp_lk.passed == 1);
    VP_ASSERT("no old successor is left behind", (CELL->next & INT_MAX) == 0);
#endif
    VP_ASSERT("every operation is complete", !vp_lk.pend && !vp_lk.dirty);
    VP_ASSERT("outstanding operations stay remembered", vp_track_all());
    VP_ASSERT("nothing else is communicated", vp.rma_calls == 0 && vp.amo_n == 0 && vp.ncoll == 0 && vp.req_live == 0);
    VP_REACH("post");
    return 0;
}
int vp_main(void)
{
    vp_shape0 = VP_SHAPE0; vp_shape1 = 0;      /* spaces: none, or one that is attached and has a context */
    vp_body();
    return 0;
}
