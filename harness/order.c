/* Memory ordering and synchronization: quiet, fence, barrier, sync.
 *
 * VP_M 1: quiet (VP_FENCE: fence) in every form, calls to OSHMPI_am_flush by its contract.
 * VP_M 2: OSHMPI_am_flush / OSHMPI_am_flush_all on their body (bounded number of PEs).
 * VP_M 3: barrier_all, barrier, sync_all, sync, team_sync: what holds when the meeting starts.
 * VP_INLINE: no contract is used for callees (bounded number of PEs).
 */
#include "vp_core.h"
#include "oshmpi_impl.h"
#include "internal/coll_activeset_impl.h"
#define VP_PKT_SIZE sizeof(OSHMPI_am_pkt_t)
#define VP_OWN_REMOTE
#if VP_M == 2 || defined(VP_INLINE)
#define VP_OWN_P2P
#define VP_OWN_TESTALL
#endif
static void vp_on_coll(void);
#define VP_ON_COLL(c) vp_on_coll()
#include "vp_mpi.h"
#include "vp_world.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "internal/coll_impl.c"
#if VP_M != 2 && !defined(VP_INLINE)
#define VP_AM_CONTRACT
#define VP_AM_NMAX 1
#else
#ifdef VP_INLINE
#define VP_AM_NMAX 3
#else
#define VP_AM_NMAX 4
#endif
#endif
#include "vp_am.h"
#include "vp_cache.h"
#include "vp_comm.h"
#include "shmem/order.c"
#include "shmem/coll.c"
#include "shmem/coll_activeset.c"

static struct { int space, form, start, log, size, which; shmem_ctx_t ctx; } in;
static struct { int n, start, log, size; } acq;

static void vp_remote(void) { }
#if VP_M == 2 || defined(VP_INLINE)
/* messages are tracked for the witness PE only, so any number of PEs costs the same */
static struct { int sent, acks, type, ptag, done; MPI_Request *sreq, *areq; const OSHMPI_am_pkt_t *pkt; } fl;
int MPI_Isend(const void *b, int n, MPI_Datatype dt, int dest, int tag, MPI_Comm c, MPI_Request *r)
{
    VP_ASSERT("flush request sent to an existing PE", dest >= 0 && dest < OSHMPI_global.team_world_n_pes);
    VP_ASSERT("flush request well formed", n == (int) sizeof(OSHMPI_am_pkt_t) && dt == MPI_BYTE && tag == OSHMPI_AM_PKT_TAG && c == VP_AM_COMM);
    if (dest == vp.w_pe) {
        fl.sent++; fl.pkt = b; fl.type = fl.pkt->type; fl.ptag = fl.pkt->flush.ptag; fl.sreq = r;
        VP_ASSERT("flush request type", fl.type == OSHMPI_AM_PKT_FLUSH);
    }
    *r = VP_REQ0;
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request *r)
{
    VP_ASSERT("acknowledgement awaited from an existing PE", src >= 0 && src < OSHMPI_global.team_world_n_pes && c == VP_ACK_COMM);
    if (src == vp.w_pe) {
        fl.acks++; fl.areq = r;
        VP_ASSERT("acknowledgement awaited only for a flush request sent to that PE", fl.sent == 1 && tag == fl.ptag);
    }
    *r = VP_REQ0 + 1;
    return 0;
}
int MPI_Testall(int n, MPI_Request rs[], int *flag, MPI_Status sts[])
{
    if (!vp_ready()) { *flag = 0; return 0; }
    if (fl.sent) {
        VP_ASSERT("every flush request is acknowledged", fl.sent == 1 && fl.acks == 1);
        VP_ASSERT("flush requests are waited for", fl.sreq >= rs && fl.sreq < rs + n && fl.areq >= rs && fl.areq < rs + n);
        VP_ASSERT("send_buffer_unmodified_until_complete", fl.pkt->type == fl.type && fl.pkt->flush.ptag == fl.ptag);
        vp.am_pend = 0; fl.done = 1;
    }
    *flag = 1;
    return 0;
}
int MPI_Waitall(int n, MPI_Request rs[], MPI_Status sts[]) { int f; vp.stall = 0; VP_BLOCKING; return MPI_Testall(n, rs, &f, sts); }
int MPI_Send(const void *b, int n, MPI_Datatype dt, int dest, int tag, MPI_Comm c) { VP_ASSERT("unexpected send", 0); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status *st) { VP_ASSERT("unexpected receive", 0); return 0; }
#endif
/* an acknowledgement arrives only for a flush request sent to that PE before, under that request's tag */
static void vp_deliver(vp_msg_t *m, MPI_Status *st)
{
    (void) st;
    int ok = 0;
    if (m->comm == VP_ACK_COMM)
        for (int i = 0; i < VP_NMSG; i++)
            if (i < vp.nmsg && vp.msg[i].kind == VP_K_SEND && vp.msg[i].has_data == 1 && vp.msg[i].comm == VP_AM_COMM
                && vp.msg[i].tag == OSHMPI_AM_PKT_TAG && vp.msg[i].peer == m->peer) {
                OSHMPI_am_pkt_t p;
                memcpy(&p, vp.msg[i].data, sizeof p);
                if (p.type == OSHMPI_AM_PKT_FLUSH && p.flush.ptag == m->tag) ok = 1;
            }
    VP_ASSERT("acknowledgement awaited only for a flush request sent to that PE", ok);
    VP_ASSUME(ok);
    if (m->peer == vp.w_pe) vp.am_pend = 0;
}

/* ---- contracts used for callees (proved by unit order.amflush and in P12) ---- */
static int vp_in_set(int pe, int start, int log, int size)
{
    int d = pe - start;
    return size > 0 && d >= 0 && (d & ((1 << log) - 1)) == 0 && (d >> log) < size;
}
void vp_amflush_contract(shmem_ctx_t ctx, int PE_start, int logPE_stride, int PE_size)
{
    VP_ASSERT("flush of existing PEs", PE_start >= 0 && logPE_stride >= 0 && logPE_stride < 31 && PE_size >= 0
              && (PE_size == 0 || ((PE_size - 1) <= (OSHMPI_global.team_world_n_pes - 1 - PE_start) >> logPE_stride)));
    VP_ASSUME(logPE_stride >= 0 && logPE_stride < 31);
    if (vp_in_set(vp.w_pe, PE_start, logPE_stride, PE_size)) vp.am_pend = 0;
    vp.order++;
}
void vp_acquire_contract(int PE_start, int logPE_stride, int PE_size, MPI_Comm *comm)
{
    acq.n++; acq.start = PE_start; acq.log = logPE_stride; acq.size = PE_size;
    *comm = 15;
}

/* windows of the default context / of every context */
static int vp_pend_default(void)
{
    int p = vp.win[VP_WIN_HEAP].pend;
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
    p |= vp.win[VP_WIN_DATA].pend;
#endif
    for (int i = 0; i < VP_NSPACE; i++)
        if (i < vp_nspaces && vp.win[VP_WIN_SPACE + i].valid) p |= vp.win[VP_WIN_SPACE + i].pend;
    return p;
}
static int vp_pend_ctxs(void)
{
    int p = 0;
    for (int i = 0; i < VP_NSPACE; i++)
        if (i < vp_nspaces && vp.win[VP_WIN_CTX + i].valid) p |= vp.win[VP_WIN_CTX + i].pend;
    return p;
}
static int vp_all_synced(void)
{
    int s = vp.win[VP_WIN_HEAP].synced != 0;
#ifndef OSHMPI_ENABLE_DYNAMIC_WIN
    s = s && vp.win[VP_WIN_DATA].synced;
#endif
    for (int i = 0; i < VP_NSPACE; i++)
        if (i < vp_nspaces && vp.win[VP_WIN_SPACE + i].valid) s = s && vp.win[VP_WIN_SPACE + i].synced;
    return s;
}
static void vp_on_coll(void)
{
    vp.at_coll_n++;
    vp.at_coll_pend = vp_pend_default() | vp.am_pend;
    vp.at_coll_sync = vp_all_synced();
}

static int vp_body(void)
{
    vp_world();
    vp_world_cache(0);
    vp_am_world();
    vp_reset_comm();
    VP_IN_TO(unsigned char, in.form, "form");
    VP_IN_TO(int, in.space, "space");
    VP_IN_TO(int, in.start, "PE_start"); VP_IN_TO(int, in.log, "logPE_stride"); VP_IN_TO(int, in.size, "PE_size");
    VP_IN_TO(unsigned char, vp.stall, "stall"); vp.stall &= 1;
    vp.no_block = 1;
    VP_ASSUME(in.space >= 0 && in.space < VP_NSPACE);
#if VP_M == 1
    int pend0[VP_NWIN];
    VP_ASSUME(in.form < 3);
    VP_ASSUME(in.form != 2 || (in.space < vp_nspaces && VP_SPACE(in.space)->ctx_list));
    in.ctx = in.form == 2 ? (shmem_ctx_t) VP_SPACE(in.space)->ctx_list : SHMEM_CTX_DEFAULT;
    VP_REACH("pre");
#ifdef VP_FENCE
    if (in.form == 0) shmem_fence();
    else if (in.form == 1) shmem_ctx_fence(SHMEM_CTX_DEFAULT);
    else if (in.space == 0) shmem_ctx_fence((shmem_ctx_t) &vp_sctx0);
    else shmem_ctx_fence((shmem_ctx_t) &vp_sctx1);
#define LEFT(p) ((p) & 1)
#else
    if (in.form == 0) shmem_quiet();
    else if (in.form == 1) shmem_ctx_quiet(SHMEM_CTX_DEFAULT);
    else if (in.space == 0) shmem_ctx_quiet((shmem_ctx_t) &vp_sctx0);
    else shmem_ctx_quiet((shmem_ctx_t) &vp_sctx1);
#define LEFT(p) (p)
#endif
    VP_ASSERT("messages to every PE executed", !vp.am_pend);
    if (in.form != 2) {
        VP_ASSERT("direct operations on the default context complete", !LEFT(vp_pend_default()));
        VP_ASSERT("direct operations on every context complete", !LEFT(vp_pend_ctxs()));
    } else
        VP_ASSERT("direct operations on the context complete", !LEFT(vp.win[VP_WIN_CTX + in.space].pend));
    VP_ASSERT("outstanding operations stay remembered", vp_track_all());
    VP_ASSERT("no request left behind", vp.req_live == 0);
    VP_ASSERT("no communication but completion", vp.rma_calls == 0 && vp.amo_n == 0 && vp.ncoll == 0);
#elif VP_M == 2
    VP_ASSUME(in.start >= 0 && in.start < OSHMPI_global.team_world_n_pes && in.log >= 0 && in.log <= 2 && in.size >= 0 && in.size <= VP_AM_NMAX
              && (in.size == 0 || in.start + ((in.size - 1) << in.log) < OSHMPI_global.team_world_n_pes));
    VP_ASSUME(in.form < 2);
    vp.stall = 1;
    int p0 = vp.am_pend, f0 = vp_am_flag_w(), nreq0 = vp.req_live;
    VP_REACH("pre");
    if (in.form == 0) OSHMPI_am_flush_all(SHMEM_CTX_DEFAULT);
    else OSHMPI_am_flush(SHMEM_CTX_DEFAULT, in.start, in.log, in.size);
    if (in.form == 0 || vp_in_set(vp.w_pe, in.start, in.log, in.size))
        VP_ASSERT("messages to the PE executed", !vp.am_pend);
    else
        VP_ASSERT("other PEs left alone", vp.am_pend == p0 && vp_am_flag_w() == f0);
    VP_ASSERT("unexecuted messages stay remembered", !vp.am_pend || vp_am_flag_w());
    VP_ASSERT("no request left behind", vp.req_live == 0);
    VP_ASSERT("flush complete", !fl.sent || fl.done);
#elif VP_M == 3
    OSHMPI_coll_comm_cache.head = NULL; OSHMPI_coll_comm_cache.nobjs = 0;
    shmem_team_t team = (shmem_team_t) &vp_team_user;
    vp_team_user.comm = 16; vp_team_user.group = 16;
    int aset = VP_FORM == 1 || VP_FORM == 3, ret = 0;
    VP_IN_TO(int, in.which, "team");
    VP_ASSUME(in.start >= 0 && in.log >= 0 && in.log < 24 && in.size >= 1 && in.size <= OSHMPI_global.team_world_n_pes
              && (long) in.start + ((long) (in.size - 1) << in.log) < OSHMPI_global.team_world_n_pes);
#ifdef VP_INLINE
    VP_ASSUME(in.log <= 2);
#endif
    VP_REACH("pre");
#if VP_FORM == 0
    shmem_barrier_all();
#elif VP_FORM == 1
    shmem_barrier(in.start, in.log, in.size, NULL);
#elif VP_FORM == 2
    shmem_sync_all();
#elif VP_FORM == 3
    shmem_sync_aset(in.start, in.log, in.size, NULL);
#elif VP_FORM == 4
    team = in.which == 0 ? SHMEM_TEAM_WORLD : in.which == 1 ? SHMEM_TEAM_SHARED : in.which == 2 ? SHMEM_TEAM_INVALID : (shmem_team_t) &vp_team_user;
    ret = shmem_team_sync(team);
#endif
    if (VP_FORM == 4 && in.which == 2) {
        VP_ASSERT("invalid team rejected", ret != 0 && vp.ncoll == 0);
    } else {
        VP_ASSERT("meets exactly once", vp.at_coll_n == 1 && vp.ncoll == 1 && vp.coll[0].kind == VP_C_BARRIER && vp.coll[0].done);
        if (VP_FORM <= 1) VP_ASSERT("updates complete before the meeting", !vp.at_coll_pend);
        VP_ASSERT("stores visible before the meeting", vp.at_coll_sync);
        if (!aset)
            VP_ASSERT("meets the members", vp.coll[0].comm == (VP_FORM != 4 || in.which == 0 ? 10 : in.which == 1 ? 11 : 16));
#ifndef VP_INLINE
        else
            VP_ASSERT("meets the members", vp.coll[0].comm == 15 && acq.n == 1 && acq.start == in.start && acq.log == in.log && acq.size == in.size);
#else
        else
            VP_ASSERT("meets the members", vp_comm_is_aset(vp.coll[0].comm, in.start, in.log, in.size));
#endif
        VP_ASSERT("success reported", ret == 0);
    }
    VP_ASSERT("outstanding operations stay remembered", vp_track_all());
    VP_ASSERT("no request left behind", vp.req_live == 0);
    VP_ASSERT("no data moved", vp.rma_calls == 0 && vp.amo_n == 0);
#endif
    VP_REACH("post");
    return 0;
}
int vp_main(void)
{
#if VP_M == 2
    vp_shape0 = vp_shape1 = 0;
    vp_body();
#else
    VP_SHAPES(vp_body());
#endif
    return 0;
}
