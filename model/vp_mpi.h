/* Executable contracts of the MPI (and few libc) routines OSHMPI calls.
 *
 * Every stub states what the MPI standard guarantees (its effect on ghost state `vp`) and checks
 * what the standard demands of the caller (VP_ASSERT).  These are the ASSUMED contracts on the
 * dependency: they are trusted, and listed as such in each evidence file.
 *
 * Quantified statements ("for every byte of the payload", "for every PE", "for every window") are
 * decided with arbitrary witnesses: the unit picks vp.w_* freely before the call, the stubs track
 * only the witness, and the postcondition therefore holds for all of them.
 */
#ifndef VP_MPI_IMPL_H
#define VP_MPI_IMPL_H

#define VP_NWIN 10
#define VP_NDT 4
#define VP_DT0 100
#define VP_NMSG 6
#define VP_NREQ 10
#define VP_REQ_CB 1             /* the progress engine's pre-posted receive */
#define VP_REQ0 2
#define VP_NCOLL 4
#define VP_NCOMM 8
#define VP_COMM0 20
#define VP_PKT 96
enum { VP_K_NONE, VP_K_SEND, VP_K_RECV, VP_K_COLL };
enum { VP_C_BARRIER = 1, VP_C_BCAST, VP_C_ALLGATHER, VP_C_ALLGATHERV, VP_C_ALLTOALL, VP_C_ALLREDUCE };

typedef struct { int base; size_t cnt; size_t blk; long st; long ext; int committed, freed; } vp_dt_t;
typedef struct { int kind; int comm, peer, tag; const void *buf; int count; int dt; int done; int req;
                 size_t payload; unsigned char data[VP_PKT]; int has_data; } vp_msg_t;
typedef struct { int kind; int comm; const void *sb; void *rb; int sc, rc; int st, rt; int root; int op;
                 const int *counts, *displs; int done; int req; } vp_coll_t;
typedef struct { int pend;      /* an operation to PE w_pe is not yet complete (1: update, 2: read) */
                 int pend_loc;  /* an operation to PE w_pe is not yet locally complete  */
                 int synced;    /* MPI_Win_sync since the last unit start */
                 int flushes;
                 int valid;     /* window exists and is in a lock_all epoch */
                 long base; long size; int dyn; int freed; int info; int unit; } vp_win_t;

#ifdef VP_PROVE
#define vp __CPROVER_vp_ghost     /* ghost state is not part of the frame */
#endif
static struct vp_s {
    /* witnesses */
    size_t w_k, w_r;            /* element index / byte in element of the witness payload byte */
    size_t w_b;                 /* = w_k * size + w_r */
    int w_pe;
    long w_st[2], w_prod[2];    /* strides of interest and w_k times them */
    /* one-sided transfer of the witness byte */
    size_t moved;               /* payload bytes moved by RMA so far */
    int w_hits;                 /* number of times the witness byte was moved */
    int w_dir;                  /* 1 put, 2 get */
    uint64_t w_org;             /* local address of the witness byte */
    int w_win; int w_tpe; long w_disp;
    int rma_calls;
    int rma_bad_type;           /* element types at the two sides do not match */
    /* accumulate-family */
    int amo_n;
    int amo_win, amo_pe, amo_dt, amo_op, amo_kind; long amo_disp; /* last op */
    unsigned long long cell;    /* contents of the atomic target word named by (c_win,c_pe,c_disp) */
    int c_win, c_pe; long c_disp; int c_sz;
    int cell_hits, cell_other, cell_upd;
    int cell_raw;               /* the cell was touched by a non-atomic access */
    uint64_t amo_result_addr;
    /* scalar transfers: the local buffer is real memory  */
    int deref; unsigned char rval[32]; unsigned char w_val;
    /* objects */
    vp_win_t win[VP_NWIN];
    int nwin;
    vp_dt_t dt[VP_NDT]; int ndt;
    vp_msg_t msg[VP_NMSG]; int nmsg;
    vp_coll_t coll[VP_NCOLL]; int ncoll;
    /* requests */
    int nreq; int req_live;
    int cb_posted; void *cb_buf; int cb_comm; int cb_tag; int cb_src; int cb_arrived; int cb_from;
    int stall;                  /* how many more times a completion test may say "not yet" */
    int progress;
    /* communicators created */
    int w_i;                    /* witness index into a group */
    int ncomm; struct { int parent, color, key, size, rank, freed, kind, group; } comm[VP_NCOMM];
    int ngrp; struct { int of_comm, size, freed, parent, member; } grp[6];
    unsigned comm_freed, grp_freed; int world_size, world_rank;
    /* misc */
    int abort_ok; int aborted;
    int allocs, frees;
    int hook_on; int in_remote;
    size_t recv_hits; uint64_t w_remote; int recv_peer_ok;
    int mpi_init, mpi_final, mpi_thread_req;
    int order;                  /* logical clock of externally visible calls */
    int am_pend;                /* an active message posted to PE w_pe is not known to be executed */
    int no_block;               /* blocking MPI calls are not allowed here (nobody would execute incoming messages) */
    int owed;                   /* a completion test said "not yet" and incoming messages were not polled since */
    int at_coll_pend, at_coll_sync, at_coll_n;  /* state when the (last) collective was started */
    int t_flush_last, t_coll_first, t_sync_last;
    int winlocks, wincreates, winfrees;
} vp;

#define VP_BLOCKING VP_ASSERT("no_blocking_mpi_call_while_messages_may_arrive", !vp.no_block || vp.in_remote)
static int vp_abort_is_ok(void);

int MPI_Abort(MPI_Comm c, int e)
{
    (void) c; (void) e;
#ifdef VP_PROVE
    __CPROVER_assert(vp.abort_ok, "VP:does_not_abort_on_valid_use");
    __CPROVER_assert(vp.abort_ok != 2 || (vp.rma_calls == 0 && vp.amo_n == 0 && vp.nmsg == 0), "VP:nothing_transferred_before_abort");
    __CPROVER_assume(0);
#else
    if (!vp.abort_ok) vp_fail("does_not_abort_on_valid_use");
    printf("REPLAY-ABORT\n"); fflush(stdout);
    _Exit(vp_failures ? 1 : 0);
#endif
    return 0;
}

/* ---------------------------------------------------------------- datatypes */
static size_t vp_bsize(int t)
{
    switch (t) {
        case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE:
        case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL:
            return 1;
        case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T:
            return 2;
        case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T:
            return 4;
        case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG:
        case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_AINT: case MPI_C_COMPLEX:
            return 8;
        case MPI_LONG_DOUBLE: case MPI_C_DOUBLE_COMPLEX:
            return 16;
        case MPI_C_LONG_DOUBLE_COMPLEX:
            return 32;
    }
    return 0;
}
static int vp_bshift(size_t s) { return s == 1 ? 0 : s == 2 ? 1 : s == 4 ? 2 : s == 8 ? 3 : s == 16 ? 4 : 5; }
static int vp_dt_ok(int t)
{
    return (t > 0 && t < VP_BASIC_MAX) || (t >= VP_DT0 && t < VP_DT0 + vp.ndt && !vp.dt[t - VP_DT0].freed);
}
static int vp_dt_base(int t)
{
    return (t >= VP_DT0 && t < VP_DT0 + VP_NDT) ? vp.dt[t - VP_DT0].base : t;
}
/* Units in which a derived datatype is only ever used with count 1 and block length 1 (VP_DT1) leave
 * every other use unspecified, which keeps division and multiplication out of the proofs. */
#if defined(VP_DT1) && defined(VP_PROVE) && !defined(VP_EXACT)
#define VP_DTU 1
#else
#define VP_DTU 0
#endif
/* element count of `count` x t */
static size_t vp_dt_elems(int t, size_t count)
{
    if (t >= VP_DT0 && t < VP_DT0 + VP_NDT) {
        vp_dt_t *d = &vp.dt[t - VP_DT0];
#if VP_DTU
        return count == 1 && d->blk == 1 ? d->cnt : (size_t) vp_nd_u64("elems");
#else
        size_t n = d->blk == 1 ? d->cnt : d->cnt * d->blk;
        return count == 1 ? n : count * n;
#endif
    }
    return count;
}
static long vp_dt_extent(int t)
{
    if (t >= VP_DT0 && t < VP_DT0 + VP_NDT) {
        vp_dt_t *d = &vp.dt[t - VP_DT0];
        if (d->ext >= 0) return d->ext;
        long bs = (long) vp_bsize(d->base);
        return d->cnt == 0 ? 0 : ((long) (d->cnt - 1) * d->st + (long) d->blk) * bs;
    }
    return (long) vp_bsize(t);
}
/* w_k times a stride.  The proofs need nothing of the product but its value at 0, 1 and stride 1, so
 * it is left uninterpreted (any value); counterexamples are recomputed with the exact product. */
static long vp_times(size_t k, long st)
{
#if defined(VP_PROVE) && !defined(VP_EXACT)
    long p = (long) vp_nd_u64("product");
    if (st == 1) p = (long) k;
    else if (k == 0) p = 0;
    else if (k == 1) p = st;
    else VP_ASSUME(st < 1 || (p >= st && p >= (long) k && p < (1l << 62)));
    return p;
#else
    return (long) (k * (unsigned long) st);
#endif
}
/* displacement of element e (of the basic type) in `count` x t */
static long vp_dt_disp(int t, size_t count, size_t e)
{
    if (t >= VP_DT0 && t < VP_DT0 + VP_NDT) {
        vp_dt_t *d = &vp.dt[t - VP_DT0];
        int sh = vp_bshift(vp_bsize(d->base));
        long off = 0;
#if VP_DTU
        if (count != 1 || d->blk != 1) return (long) vp_nd_u64("disp");
#else
        if (count != 1) {
            size_t n = d->blk == 1 ? d->cnt : d->cnt * d->blk;
            if (n) { off = (long) (e / n) * vp_dt_extent(t); e = e % n; }
        }
#endif
        long el;
        /* products with the witness index are computed once, in vp_set_strides() */
        if (d->blk == 1 && e == vp.w_k && d->st == vp.w_st[0]) el = vp.w_prod[0];
        else if (d->blk == 1 && e == vp.w_k && d->st == vp.w_st[1]) el = vp.w_prod[1];
        else if (d->blk == 1) el = vp_times(e, d->st);
#if !VP_DTU
        else el = (long) (e / d->blk) * d->st + (long) (e % d->blk);
#else
        else el = 0;
#endif
        return off + (long) ((unsigned long) el << sh);
    }
    return (long) (e << vp_bshift(vp_bsize(t)));
}

static void vp_set_strides(long a, long b)
{
    vp.w_st[0] = a; vp.w_prod[0] = vp_times(vp.w_k, a);
    vp.w_st[1] = b; vp.w_prod[1] = a == b ? vp.w_prod[0] : vp_times(vp.w_k, b);
}
int MPI_Type_vector(int count, int blk, int stride, MPI_Datatype old, MPI_Datatype *out)
{
    VP_ASSERT("mpi_type_vector_args_valid", count >= 0 && blk >= 0 && old > 0 && old < VP_BASIC_MAX);
    VP_ASSUME(vp.ndt < VP_NDT);
    vp_dt_t *d = &vp.dt[vp.ndt];
    d->base = old; d->cnt = (size_t) count; d->blk = (size_t) blk; d->st = stride; d->ext = -1;
    d->committed = 0; d->freed = 0;
    *out = VP_DT0 + vp.ndt++;
    return 0;
}
int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *out)
{
    return MPI_Type_vector(count, 1, 1, old, out);
}
int MPI_Type_create_resized(MPI_Datatype old, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *out)
{
    VP_ASSERT("mpi_type_resized_args_valid", lb == 0 && old >= VP_DT0 && old < VP_DT0 + VP_NDT);
    VP_ASSUME(vp.ndt < VP_NDT);
    vp.dt[vp.ndt] = vp.dt[old - VP_DT0];
    vp.dt[vp.ndt].ext = ext; vp.dt[vp.ndt].committed = 0; vp.dt[vp.ndt].freed = 0;
    *out = VP_DT0 + vp.ndt++;
    return 0;
}
int MPI_Type_commit(MPI_Datatype *t)
{
    VP_ASSERT("mpi_type_commit_derived", *t >= VP_DT0 && *t < VP_DT0 + VP_NDT);
    vp.dt[*t - VP_DT0].committed = 1;
    return 0;
}
int MPI_Type_free(MPI_Datatype *t)
{
    VP_ASSERT("mpi_type_free_live_derived", *t >= VP_DT0 && *t < VP_DT0 + VP_NDT && !vp.dt[*t - VP_DT0].freed);
    vp.dt[*t - VP_DT0].freed = 1;
    *t = MPI_DATATYPE_NULL;
    return 0;
}
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int) (vp_bsize(vp_dt_base(t)) * vp_dt_elems(t, 1)); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ext) { *lb = 0; *ext = vp_dt_extent(t); return 0; }

static int vp_dt_usable(int t)
{
    return t >= VP_DT0 ? (t < VP_DT0 + VP_NDT && vp.dt[t - VP_DT0].committed && !vp.dt[t - VP_DT0].freed)
        : (t > 0 && t < VP_BASIC_MAX);
}

/* ---------------------------------------------------------------- addresses */
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return (MPI_Aint) ((unsigned long) a + (unsigned long) b); }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return (MPI_Aint) ((unsigned long) a - (unsigned long) b); }

/* ---------------------------------------------------------------- one-sided */
static int vp_win_ok(MPI_Win w) { return w > 0 && w < VP_NWIN && vp.win[w].valid; }
#define VP_WIN_USE(w) do { VP_ASSERT("window_handle_valid", vp_win_ok(w)); VP_ASSUME(vp_win_ok(w)); } while (0)

static void vp_rma(int dir, const void *o, int oc, int ot, int pe, long disp, int tc, int tt, MPI_Win w)
{
    VP_WIN_USE(w);
    VP_ASSERT("rma_counts_nonnegative", oc >= 0 && tc >= 0);
    VP_ASSERT("rma_types_usable", vp_dt_usable(ot) && vp_dt_usable(tt));
    VP_ASSUME(oc >= 0 && tc >= 0 && vp_dt_usable(ot) && vp_dt_usable(tt));
    int ob = vp_dt_base(ot), tb = vp_dt_base(tt);
    size_t osz = vp_bsize(ob), tsz = vp_bsize(tb);
    size_t on = vp_dt_elems(ot, (size_t) oc), tn = vp_dt_elems(tt, (size_t) tc);
    if (osz != tsz || on != tn) vp.rma_bad_type = 1;
    size_t bytes = on << vp_bshift(osz);
    if (vp.w_b >= vp.moved && vp.w_b - vp.moved < bytes) {
        size_t e, r;
        if (vp.moved == 0 && osz > 1) { e = vp.w_k; r = vp.w_r; if (vp.c_sz && (size_t) vp.c_sz != osz) { size_t b = vp.w_b; e = b >> vp_bshift(osz); r = b & (osz - 1); } }
        else { size_t b = vp.w_b - vp.moved; e = b >> vp_bshift(osz); r = b & (osz - 1); }
        vp.w_hits++;
        vp.w_dir = dir;
        vp.w_org = (uint64_t) o + (uint64_t) (vp_dt_disp(ot, (size_t) oc, e) + (long) r);
        vp.w_win = w; vp.w_tpe = pe;
        vp.w_disp = disp + vp_dt_disp(tt, (size_t) tc, e) + (long) r;
    }
    if (vp.deref && dir == 1 && bytes <= 32 && vp.w_b < bytes) vp.w_val = ((const unsigned char *) o)[vp.w_b];
    if (vp.deref && dir == 2 && bytes <= 32 && vp.w_b < bytes) ((unsigned char *) o)[vp.w_b] = vp.rval[vp.w_b];
    vp.moved += bytes;
    vp.rma_calls++;
    vp.order++;
    if (pe == vp.w_pe) { vp.win[w].pend |= dir; vp.win[w].pend_loc = 1; }
}
int MPI_Put(const void *o, int oc, MPI_Datatype ot, int pe, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Win w)
{
    vp_rma(1, o, oc, ot, pe, disp, tc, tt, w);
    return 0;
}
int MPI_Get(void *o, int oc, MPI_Datatype ot, int pe, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Win w)
{
    vp_rma(2, o, oc, ot, pe, disp, tc, tt, w);
    return 0;
}
int MPI_Win_flush(int pe, MPI_Win w)
{
    VP_WIN_USE(w);
    if (pe == vp.w_pe) { vp.win[w].pend = 0; vp.win[w].pend_loc = 0; }
    vp.win[w].flushes++; vp.t_flush_last = ++vp.order;
    return 0;
}
int MPI_Win_flush_all(MPI_Win w)
{
    VP_WIN_USE(w);
    vp.win[w].pend = 0; vp.win[w].pend_loc = 0;
    vp.win[w].flushes++; vp.t_flush_last = ++vp.order;
    return 0;
}
int MPI_Win_flush_local(int pe, MPI_Win w)
{
    VP_WIN_USE(w);
    if (pe == vp.w_pe) { vp.win[w].pend_loc = 0; vp.win[w].pend &= ~2; }
    vp.order++;
    return 0;
}
int MPI_Win_flush_local_all(MPI_Win w) { VP_WIN_USE(w); vp.win[w].pend_loc = 0; vp.win[w].pend &= ~2; vp.order++; return 0; }
int MPI_Win_sync(MPI_Win w) { VP_WIN_USE(w); vp.win[w].synced = ++vp.order; vp.t_sync_last = vp.order; return 0; }

/* The accumulate family is atomic per element; it reads and writes the ghost target word. */
static unsigned long long vp_mask(size_t sz) { return sz >= 8 ? ~0ULL : ((1ULL << (8 * sz)) - 1); }
static int vp_fp(int t) { return t == MPI_FLOAT || t == MPI_DOUBLE || t == MPI_LONG_DOUBLE || t == MPI_C_COMPLEX || t == MPI_C_DOUBLE_COMPLEX; }
static int vp_cplx(int t) { return t == MPI_C_COMPLEX || t == MPI_C_DOUBLE_COMPLEX; }
static int vp_signed(int t)
{
    return t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_SHORT || t == MPI_INT || t == MPI_LONG || t == MPI_LONG_LONG
        || t == MPI_INT8_T || t == MPI_INT16_T || t == MPI_INT32_T || t == MPI_INT64_T || t == MPI_AINT;
}
static unsigned long long vp_load(const void *p, size_t sz)
{
    if (sz == 1) return *(const unsigned char *) p;
    if (sz == 2) return *(const unsigned short *) p;
    if (sz == 4) return *(const unsigned int *) p;
    return *(const unsigned long long *) p;
}
static void vp_store(void *p, size_t sz, unsigned long long v)
{
    if (sz == 1) *(unsigned char *) p = (unsigned char) v;
    else if (sz == 2) *(unsigned short *) p = (unsigned short) v;
    else if (sz == 4) *(unsigned int *) p = (unsigned int) v;
    else *(unsigned long long *) p = v;
}
static unsigned long long vp_apply(int op, int dt, unsigned long long old, unsigned long long v)
{
    unsigned long long m = vp_mask(vp_bsize(dt)), r = old;
    switch (op) {
        case MPI_NO_OP: r = old; break;
        case MPI_REPLACE: r = v; break;
        case MPI_SUM: r = old + v; break;
        case MPI_BAND: r = old & v; break;
        case MPI_BOR: r = old | v; break;
        case MPI_BXOR: r = old ^ v; break;
        default: VP_ASSERT("accumulate_op_known", 0);
    }
    return r & m;
}
static void vp_amo(int kind, const void *o, const void *cmp, void *res, int dt, int pe, long disp, int op, MPI_Win w)
{
    VP_WIN_USE(w);
    VP_ASSERT("accumulate_basic_type", dt > 0 && dt < VP_BASIC_MAX && vp_bsize(dt) <= 8);
    VP_ASSUME(dt > 0 && dt < VP_BASIC_MAX && vp_bsize(dt) <= 8);
    VP_ASSERT("accumulate_fp_ops_supported", !(vp_fp(dt) && op != MPI_NO_OP && op != MPI_REPLACE));
    size_t sz = vp_bsize(dt);
    vp.amo_n++; vp.amo_kind = kind; vp.amo_win = w; vp.amo_pe = pe; vp.amo_disp = disp; vp.amo_dt = dt; vp.amo_op = op;
    if (w == vp.c_win && pe == vp.c_pe && disp == vp.c_disp) {
        unsigned long long old = vp.cell & vp_mask(sz), nw = old;
        VP_ASSERT("accumulate_element_size_matches_object", (int) sz == vp.c_sz);
        if (kind == 3) { if (old == vp_load(cmp, sz)) nw = vp_load(o, sz); }
        else if (op != MPI_NO_OP) nw = vp_apply(op, dt, old, vp_load(o, sz));
        if (res) { vp_store(res, sz, old); vp.amo_result_addr = (uint64_t) res; }
        vp.cell = nw;
        vp.cell_hits++;
        if (kind == 3 || op != MPI_NO_OP) vp.cell_upd++;
    } else {
        vp.cell_other++;
        if (res) vp_store(res, sz, vp_nd_u64("amo_other"));
    }
    vp.order++;
    if (pe == vp.w_pe) { vp.win[w].pend |= (op == MPI_NO_OP && kind != 3) ? 2 : 1; vp.win[w].pend_loc = 1; }
}
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype dt, int pe, MPI_Aint disp, MPI_Op op, MPI_Win w)
{
    vp_amo(1, o, NULL, r, dt, pe, disp, op, w);
    return 0;
}
int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int pe, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{
    VP_ASSERT("accumulate_single_element", oc == 1 && tc == 1 && ot == tt);
    vp_amo(2, o, NULL, NULL, tt, pe, disp, op, w);
    return 0;
}
int MPI_Compare_and_swap(const void *o, const void *c, void *r, MPI_Datatype dt, int pe, MPI_Aint disp, MPI_Win w)
{
    VP_ASSERT("compare_and_swap_integer_type", !vp_fp(dt));
    vp_amo(3, o, c, r, dt, pe, disp, 0, w);
    return 0;
}

/* ---------------------------------------------------------------- point to point, requests */
static void vp_remote(void);    /* unit: let the other PE's progress engine run the real handlers */

static int vp_new_req(void) { VP_ASSUME(vp.nreq < VP_NREQ - VP_REQ0); vp.req_live++; return VP_REQ0 + vp.nreq++; }

static inline vp_msg_t *vp_msg_new(int kind, const void *buf, int count, int dt, int peer, int tag, int comm)
{
    VP_ASSERT("message_count_nonnegative", count >= 0);
    VP_ASSERT("message_type_usable", vp_dt_usable(dt));
    VP_ASSUME(count >= 0 && vp_dt_usable(dt));
    VP_ASSUME(vp.nmsg < VP_NMSG);
    vp_msg_t *m = &vp.msg[vp.nmsg++];
    m->kind = kind; m->buf = buf; m->count = count; m->dt = dt; m->peer = peer; m->tag = tag; m->comm = comm;
    m->done = 0; m->req = 0; m->has_data = 0;
    m->payload = vp_dt_elems(dt, (size_t) count) << vp_bshift(vp_bsize(vp_dt_base(dt)));
    vp.order++;
    return m;
}
static void vp_snap(vp_msg_t *m)
{
#ifdef VP_PKT_SIZE
    if (m->dt == MPI_BYTE && m->count == VP_PKT_SIZE) { memcpy(m->data, m->buf, VP_PKT_SIZE); m->has_data = 1; }
    else
#endif
    if (vp.in_remote && m->dt < VP_DT0 && m->count == 1 && vp_bsize(m->dt) <= 8) {
        unsigned long long v = vp_load(m->buf, vp_bsize(m->dt));
        memcpy(m->data, &v, 8);
        m->has_data = 2;
    }
}
static void vp_unchanged(vp_msg_t *m)
{
#if defined(VP_PKT_SIZE) && !defined(VP_VIA_AM)
    if (m->kind == VP_K_SEND && m->has_data == 1)
        VP_ASSERT("send_buffer_unmodified_until_complete", memcmp(m->data, m->buf, VP_PKT_SIZE) == 0);
#endif
}
static int vp_is_cb(int comm, int src, const void *buf);
#ifndef VP_OWN_P2P
int MPI_Isend(const void *b, int n, MPI_Datatype dt, int dest, int tag, MPI_Comm c, MPI_Request *r)
{
    vp_msg_t *m = vp_msg_new(VP_K_SEND, b, n, dt, dest, tag, c);
    vp_snap(m);
    m->req = *r = vp_new_req();
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype dt, int dest, int tag, MPI_Comm c)
{
    vp_msg_t *m = vp_msg_new(VP_K_SEND, b, n, dt, dest, tag, c);
    vp_snap(m);
    m->done = 1;
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request *r)
{
    if (vp_is_cb(c, src, b)) {
        VP_ASSERT("single_progress_receive_posted", !vp.cb_posted);
        vp.cb_posted = 1; vp.cb_buf = b; vp.cb_comm = c; vp.cb_tag = tag; vp.cb_src = src;
        *r = VP_REQ_CB;
        return 0;
    }
    vp_msg_t *m = vp_msg_new(VP_K_RECV, b, n, dt, src, tag, c);
    m->req = *r = vp_new_req();
    return 0;
}
static void vp_deliver(vp_msg_t *m, MPI_Status *st);
int MPI_Recv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status *st)
{
    vp_msg_t *m = vp_msg_new(VP_K_RECV, b, n, dt, src, tag, c);
    m->done = 1;
    VP_BLOCKING;
    vp_deliver(m, st);
    return 0;
}
#else
static void vp_deliver(vp_msg_t *m, MPI_Status *st);
#endif
/* completes request r */
#ifdef VP_OWN_READY
static void vp_complete(int r);
#else
static void vp_complete(int r)
{
    for (int i = 0; i < VP_NMSG; i++)
        if (i < vp.nmsg && vp.msg[i].req == r && !vp.msg[i].done) {
            vp_unchanged(&vp.msg[i]);
            vp.msg[i].done = 1;
            if (vp.msg[i].kind == VP_K_RECV) vp_deliver(&vp.msg[i], NULL);
        }
    for (int i = 0; i < VP_NCOLL; i++)
        if (i < vp.ncoll && vp.coll[i].req == r) vp.coll[i].done = 1;
    vp.req_live--;
}
#endif
#ifdef VP_OWN_READY
static int vp_ready(void);
#else
static int vp_ready(void)
{
    VP_ASSERT("incoming_messages_executed_while_waiting", !vp.owed);
    if (vp.stall > 0 && !vp_nd_bool("ready")) { vp.stall--; vp.owed = 1; return 0; }
    return 1;
}
#endif
static void vp_run_remote(void)
{
    if (vp.hook_on && !vp.in_remote) { vp.in_remote = 1; vp_remote(); vp.in_remote = 0; }
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st)
{
    if (*r == VP_REQ_CB) {
        VP_ASSERT("progress_receive_posted_when_polled", vp.cb_posted);
        vp.progress++; vp.owed = 0;
        if (!vp.cb_arrived) { *flag = 0; return 0; }
        *flag = 1; vp.cb_arrived = 0; vp.cb_posted = 0;
        *r = MPI_REQUEST_NULL;
        if (st) { st->MPI_SOURCE = vp.cb_from; st->MPI_TAG = 2000; st->MPI_ERROR = 0; }
        return 0;
    }
    if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; }
    if (!vp_ready()) { *flag = 0; return 0; }
    vp_run_remote();
    vp_complete(*r);
    *r = MPI_REQUEST_NULL;
    *flag = 1;
    return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
    if (*r == VP_REQ_CB) {
        VP_ASSERT("progress_receive_posted_when_waited", vp.cb_posted);
        vp.cb_posted = 0;
        *r = MPI_REQUEST_NULL;
        if (st) { st->MPI_SOURCE = vp.cb_from; st->MPI_TAG = 2000; st->MPI_ERROR = 0; }
        return 0;
    }
    if (*r == MPI_REQUEST_NULL) return 0;
    VP_BLOCKING;
    vp_run_remote();
    vp_complete(*r);
    *r = MPI_REQUEST_NULL;
    return 0;
}
#ifndef VP_OWN_TESTALL
int MPI_Testall(int n, MPI_Request rs[], int *flag, MPI_Status sts[])
{
    if (!vp_ready()) { *flag = 0; return 0; }
    VP_ASSERT("waitall_count_valid", n >= 0 && n <= VP_NREQ);
    vp_run_remote();
    for (int i = 0; i < VP_NREQ; i++)
        if (i < n && rs[i] != MPI_REQUEST_NULL) { vp_complete(rs[i]); rs[i] = MPI_REQUEST_NULL; }
    *flag = 1;
    return 0;
}
int MPI_Waitall(int n, MPI_Request rs[], MPI_Status sts[])
{
    int f = 0;
    vp.stall = 0;
    VP_BLOCKING;
    return MPI_Testall(n, rs, &f, sts);
}
#endif
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) { *flag = vp_nd_bool("probe"); return 0; }

/* ---------------------------------------------------------------- collectives */
#ifndef VP_ON_COLL
#define VP_ON_COLL(c) do { } while (0)
#endif
static vp_coll_t *vp_coll_new(int kind, int comm)
{
    VP_ASSUME(vp.ncoll < VP_NCOLL);
    vp_coll_t *c = &vp.coll[vp.ncoll++];
    c->kind = kind; c->comm = comm; c->done = 0; c->req = 0; c->root = -1; c->op = 0;
    c->sb = NULL; c->rb = NULL; c->sc = c->rc = 0; c->st = c->rt = 0; c->counts = c->displs = NULL;
    vp.order++;
    if (!vp.t_coll_first) vp.t_coll_first = vp.order;
    VP_ON_COLL(c);
    return c;
}
#ifndef VP_COLL_RESULT
#define VP_COLL_RESULT(c) do { } while (0)      /* unit may give the result buffers' contents */
#endif
#define VP_COLL(NAME, PARMS, FILL)                                                            \
    int MPI_##NAME PARMS { vp_coll_t *c; VP_BLOCKING; FILL; c->done = 1; VP_COLL_RESULT(c); return 0; }
#define VP_ICOLL(NAME, PARMS, FILL)                                                           \
    int MPI_I##NAME PARMS { vp_coll_t *c; FILL; c->req = *req = vp_new_req(); VP_COLL_RESULT(c); return 0; }

#define F_BARRIER c = vp_coll_new(VP_C_BARRIER, comm)
VP_COLL(Barrier, (MPI_Comm comm), F_BARRIER)
VP_ICOLL(barrier, (MPI_Comm comm, MPI_Request *req), F_BARRIER)
#define F_BCAST c = vp_coll_new(VP_C_BCAST, comm); c->rb = b; c->rc = n; c->rt = t; c->root = root
VP_COLL(Bcast, (void *b, int n, MPI_Datatype t, int root, MPI_Comm comm), F_BCAST)
VP_ICOLL(bcast, (void *b, int n, MPI_Datatype t, int root, MPI_Comm comm, MPI_Request *req), F_BCAST)
#define F_AG(K) c = vp_coll_new(K, comm); c->sb = s; c->sc = sn; c->st = stp; c->rb = r; c->rc = rn; c->rt = rtp
VP_COLL(Allgather, (const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rtp, MPI_Comm comm), F_AG(VP_C_ALLGATHER))
VP_ICOLL(allgather, (const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rtp, MPI_Comm comm, MPI_Request *req), F_AG(VP_C_ALLGATHER))
VP_COLL(Alltoall, (const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rtp, MPI_Comm comm), F_AG(VP_C_ALLTOALL))
VP_ICOLL(alltoall, (const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rtp, MPI_Comm comm, MPI_Request *req), F_AG(VP_C_ALLTOALL))
#define F_AGV c = vp_coll_new(VP_C_ALLGATHERV, comm); c->sb = s; c->sc = sn; c->st = stp; c->rb = r; c->counts = rcs; c->displs = ds; c->rt = rtp
VP_COLL(Allgatherv, (const void *s, int sn, MPI_Datatype stp, void *r, const int rcs[], const int ds[], MPI_Datatype rtp, MPI_Comm comm), F_AGV)
VP_ICOLL(allgatherv, (const void *s, int sn, MPI_Datatype stp, void *r, const int rcs[], const int ds[], MPI_Datatype rtp, MPI_Comm comm, MPI_Request *req), F_AGV)
#define F_AR c = vp_coll_new(VP_C_ALLREDUCE, comm); c->sb = s; c->rb = r; c->rc = n; c->rt = t; c->op = op
VP_COLL(Allreduce, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm), F_AR)
VP_ICOLL(allreduce, (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm, MPI_Request *req), F_AR)

/* ---------------------------------------------------------------- stdio used for diagnostics only */
#endif
