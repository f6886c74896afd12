/* The message progress engine.
 *
 * VP_M 1: one call of the progress routine, an arbitrary message (or none) waiting: handled exactly
 *         once, by the handler of its kind, with its sender and contents, next receive posted after it.
 * VP_M 2: reply of the flush handler.                VP_M 3: identifiers of messages.
 * VP_M 4: waiting wrappers (VP_W 0 send, 1 recv, 2 waitall, 3 barrier, 4 bcast, 5 allgather, 6 allgatherv, 7 alltoall, 8 allreduce).
 * VP_M 5: initialisation.                            VP_M 6: termination.
 */
#include "vp_core.h"
#include "oshmpi_impl.h"
#if VP_M != 4
#define VP_PKT_SIZE sizeof(OSHMPI_am_pkt_t)
#endif
#define VP_OWN_REMOTE
#include "vp_mpi.h"
#include "vp_world.h"
#ifdef VP_PROVE
#define strncpy(d, s, n) ((void) 0)
#ifdef VP_FLAGS
static void vp_zero(char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = 0; }
#define memset(p, c, n) (__builtin_constant_p(n) ? (void) memset(p, c, n) : vp_zero((char *) (p), n))
#endif
#endif
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
static int in_comms, vp_tag_ub, in_freed[2], in_wait_end;
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out)
{
    VP_ASSERT("messages use private copies of the world communicator", c == OSHMPI_global.team_world_comm && in_comms < 2);
    *out = 12 + in_comms++;
    return 0;
}
int MPI_Comm_free(MPI_Comm *c)
{
    VP_ASSERT("communicators of messages freed once", (*c == 12 || *c == 13) && !in_freed[*c == 13]);
    in_freed[*c == 13] = 1;
    *c = MPI_COMM_NULL;
    return 0;
}
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *flag) { *(int **) v = &vp_tag_ub; *flag = k == MPI_TAG_UB; return 0; }
static void vp_remote(void) { }
static void vp_deliver(vp_msg_t *m, MPI_Status *st) { (void) m; (void) st; }
static int in_nrecv, in_order_recv;
static int vp_is_cb(int comm, int src, const void *buf)
{
    if (buf != (const void *) &OSHMPI_am.cb_pkt) return 0;
    VP_ASSERT("progress receives messages of any PE", src == MPI_ANY_SOURCE && comm == OSHMPI_am.comm);
    in_nrecv++;
    in_order_recv = ++vp.order;
    return 1;
}
static struct { int n, kind, src, pe, order; } h;
static OSHMPI_am_pkt_t in_pkt;
#define MARK(p) ((p)->flush.ptag)
static int in_mark;
#define HANDLER(k) static void handler##k(int src, OSHMPI_am_pkt_t *p) { h.n++; h.kind = k; h.src = src; h.order = ++vp.order; \
        VP_ASSERT("handler sees the contents of the message", (int) p->type == k && MARK(p) == in_mark); }
HANDLER(0) HANDLER(1) HANDLER(2) HANDLER(3) HANDLER(4) HANDLER(5) HANDLER(6) HANDLER(7)
static void state(void)
{
    OSHMPI_global.team_world_comm = MPI_COMM_WORLD;
    VP_IN_TO(int, OSHMPI_global.team_world_n_pes, "n_pes");
    VP_ASSUME(OSHMPI_global.team_world_n_pes >= 1 && OSHMPI_global.team_world_n_pes <= (1 << 20));
    VP_IN_TO(int, OSHMPI_global.team_world_my_pe, "my_pe");
    VP_ASSUME(OSHMPI_global.team_world_my_pe >= 0 && OSHMPI_global.team_world_my_pe < OSHMPI_global.team_world_n_pes);
    VP_IN_TO(int, vp_tag_ub, "tag_ub");
    VP_ASSUME(vp_tag_ub >= 32767);
#if VP_M == 3 && VP_UB != 0
    vp_tag_ub = VP_UB;
#endif
    OSHMPI_env.amo_dbg_mode = OSHMPI_DBG_AM; OSHMPI_env.rma_dbg_mode = OSHMPI_DBG_AM;
}
static void init(void)
{
    state();
    OSHMPI_am_initialize();
}
static int tag_at(unsigned c) { OSHMPIU_ATOMIC_CNT_STORE(OSHMPI_am.pkt_ptag_off, (int) c); return OSHMPI_am_get_pkt_ptag(); }
static int tag_ok(int t) { return t >= 0 && t <= vp_tag_ub && t != OSHMPI_AM_PKT_TAG && t != OSHMPI_AM_TERMINATE_TAG; }

int vp_main(void)
{
#if VP_M == 1
    init();
    OSHMPI_am_cb_t tab[8] = { handler0, handler1, handler2, handler3, handler4, handler5, handler6, handler7 };
    for (int k = 0; k < OSHMPI_AM_PKT_MAX; k++) if (k != OSHMPI_AM_PKT_TERMINATE) OSHMPI_am_cb_regist(k, "x", tab[k < 8 ? k : 7]);
    VP_ASSERT("one progress receive after initialisation", in_nrecv == 1 && vp.cb_posted);
    int arrived, kind, from;
    VP_IN_TO(unsigned char, arrived, "arrived"); arrived = arrived != 0;
    VP_IN_TO(int, kind, "kind"); VP_IN_TO(int, from, "from"); VP_IN_TO(int, in_mark, "contents");
    VP_ASSUME(from >= 0 && from < OSHMPI_global.team_world_n_pes);
    vp.cb_arrived = arrived; vp.cb_from = from;
    if (arrived) { memset(&OSHMPI_am.cb_pkt, 0, sizeof OSHMPI_am.cb_pkt); OSHMPI_am.cb_pkt.type = kind; MARK(&OSHMPI_am.cb_pkt) = in_mark; }
    vp.abort_ok = kind < 0 || kind >= OSHMPI_AM_PKT_MAX;
    h.n = 0; vp.nmsg = 0; in_nrecv = 0;
    int calls = 0;
    VP_REACH("pre");
    OSHMPI_am_cb_progress(); calls++;
    int known = kind >= 0 && kind < OSHMPI_AM_PKT_MAX;
    VP_POST("an unknown kind is an error", !arrived || known);
    VP_POST("handled exactly once if it arrived", h.n == (arrived && kind != OSHMPI_AM_PKT_TERMINATE));
    VP_POST("handled by the handler of its kind for its sender", !h.n || (h.kind == kind && h.src == from));
    VP_POST("next receive posted after the message was handled", vp.cb_posted && OSHMPI_am.cb_req == VP_REQ_CB && in_nrecv == arrived && (!h.n || in_order_recv > h.order));
    VP_POST("the receive accepts operation messages", !arrived || vp.cb_tag == OSHMPI_AM_PKT_TAG || vp.cb_tag == MPI_ANY_TAG);
    VP_POST("no other message", vp.nmsg == 0 && vp.ncoll == 0);
    /* a further call does not repeat it */
    OSHMPI_am_cb_progress();
    VP_POST("not handled again", h.n == (arrived && kind != OSHMPI_AM_PKT_TERMINATE));
#elif VP_M == 2
    init();
    int from, t;
    VP_IN_TO(int, from, "from"); VP_IN_TO(int, t, "tag");
    VP_ASSUME(from >= 0 && from < OSHMPI_global.team_world_n_pes && t >= OSHMPI_AM_PKT_PTAG_START && t <= vp_tag_ub);
    vp.cb_arrived = 1; vp.cb_from = from;
    OSHMPI_am.cb_pkt.type = OSHMPI_AM_PKT_FLUSH; OSHMPI_am.cb_pkt.flush.ptag = t;
    vp.nmsg = 0;
    VP_REACH("pre");
    OSHMPI_am_cb_progress();
    VP_POST("one reply to the asking PE with its identifier", vp.nmsg == 1 && vp.msg[0].kind == VP_K_SEND && vp.msg[0].peer == from && vp.msg[0].tag == t && vp.msg[0].comm == OSHMPI_am.ack_comm && vp.msg[0].payload == 0);
#elif VP_M == 3
    init();
    VP_REACH("pre");
    unsigned a;
    VP_IN_TO(unsigned, a, "counter");
#if VP_UB != 0
    unsigned b;
    VP_IN_TO(unsigned, b, "later");
    VP_ASSUME(a < b && b - a < 4096);
    int ta = tag_at(a), tb = tag_at(b);
    VP_POST("identifiers of up to 4096 operations in flight differ", ta != tb);
#else
    int ta = tag_at(a);
    VP_POST("identifier is a legal tag not used for requests", tag_ok(ta));
    VP_POST("each request advances the counter", (unsigned) OSHMPIU_ATOMIC_CNT_FINC(OSHMPI_am.pkt_ptag_off) == a + 1);
#endif
#elif VP_M == 4
    state();
    OSHMPI_am.cb_req = VP_REQ_CB; vp.cb_posted = 1; OSHMPI_am.comm = 12; OSHMPI_am.ack_comm = 13;
    VP_IN_TO(int, vp.stall, "stall");
    VP_ASSUME(vp.stall >= 0 && vp.stall <= 3);
    vp.no_block = 1;
    int n, peer, tag, comm, rn, dt, dt2, op;
    uint64_t sb, rb, cn, dp;
    VP_IN_TO(int, n, "n"); VP_IN_TO(int, rn, "rn"); VP_IN_TO(int, peer, "peer"); VP_IN_TO(int, tag, "tag"); VP_IN_TO(int, comm, "comm");
    VP_IN_TO(int, dt, "dt"); VP_IN_TO(int, dt2, "dt2"); VP_IN_TO(int, op, "op"); VP_IN_TO(uint64_t, sb, "sb"); VP_IN_TO(uint64_t, rb, "rb");
    VP_IN_TO(uint64_t, cn, "counts"); VP_IN_TO(uint64_t, dp, "displs");
    VP_ASSUME(n >= 0 && rn >= 0 && dt > 0 && dt < VP_BASIC_MAX && dt2 > 0 && dt2 < VP_BASIC_MAX);
    VP_ASSUME(rb != (uint64_t) &OSHMPI_am.cb_pkt && sb != (uint64_t) &OSHMPI_am.cb_pkt);
    VP_REACH("pre");
    MPI_Status st;
    MPI_Request rq[2];
    vp_coll_t *c = &vp.coll[0];
    vp_msg_t *m = &vp.msg[0];
#if VP_W == 0
    OSHMPI_am_progress_mpi_send((void *) sb, n, dt, peer, tag, comm);
    VP_POST("the message is sent", vp.nmsg == 1 && m->kind == VP_K_SEND && (uint64_t) m->buf == sb && m->count == n && m->dt == dt && m->peer == peer && m->tag == tag && m->comm == comm && m->done);
#elif VP_W == 1
    OSHMPI_am_progress_mpi_recv((void *) rb, n, dt, peer, tag, comm, &st);
    VP_POST("the message is received", vp.nmsg == 1 && m->kind == VP_K_RECV && (uint64_t) m->buf == rb && m->count == n && m->dt == dt && m->peer == peer && m->tag == tag && m->comm == comm && m->done);
#elif VP_W == 2
    MPI_Isend((void *) sb, n, dt, peer, tag, comm, &rq[0]);
    MPI_Irecv((void *) rb, rn, dt, peer, tag, comm, &rq[1]);
    OSHMPI_am_progress_mpi_waitall(2, rq, MPI_STATUS_IGNORE);
    VP_POST("all requests complete", vp.nmsg == 2 && vp.msg[0].done && vp.msg[1].done && vp.req_live == 0);
#elif VP_W == 3
    OSHMPI_am_progress_mpi_barrier(comm);
    VP_POST("barrier done", c->kind == VP_C_BARRIER);
#elif VP_W == 4
    OSHMPI_am_progress_mpi_bcast((void *) rb, n, dt, peer, comm);
    VP_POST("bcast done", c->kind == VP_C_BCAST && (uint64_t) c->rb == rb && c->rc == n && c->rt == dt && c->root == peer);
#elif VP_W == 5
    OSHMPI_am_progress_mpi_allgather((void *) sb, n, dt, (void *) rb, rn, dt2, comm);
    VP_POST("allgather done", c->kind == VP_C_ALLGATHER && (uint64_t) c->sb == sb && c->sc == n && c->st == dt && (uint64_t) c->rb == rb && c->rc == rn && c->rt == dt2);
#elif VP_W == 6
    OSHMPI_am_progress_mpi_allgatherv((void *) sb, n, dt, (void *) rb, (int *) cn, (int *) dp, dt2, comm);
    VP_POST("allgatherv done", c->kind == VP_C_ALLGATHERV && (uint64_t) c->sb == sb && c->sc == n && c->st == dt && (uint64_t) c->rb == rb && (uint64_t) c->counts == cn && (uint64_t) c->displs == dp && c->rt == dt2);
#elif VP_W == 7
    OSHMPI_am_progress_mpi_alltoall((void *) sb, n, dt, (void *) rb, rn, dt2, comm);
    VP_POST("alltoall done", c->kind == VP_C_ALLTOALL && (uint64_t) c->sb == sb && c->sc == n && c->st == dt && (uint64_t) c->rb == rb && c->rc == rn && c->rt == dt2);
#else
    OSHMPI_am_progress_mpi_allreduce((void *) sb, (void *) rb, n, dt, op, comm);
    VP_POST("allreduce done", c->kind == VP_C_ALLREDUCE && (uint64_t) c->sb == sb && (uint64_t) c->rb == rb && c->rc == n && c->rt == dt && c->op == op);
#endif
#if VP_W >= 3
    VP_POST("the collective completed on its communicator, once", vp.ncoll == 1 && c->comm == comm && c->done && vp.req_live == 0 && vp.nmsg == 0);
#endif
    VP_POST("progress receive stays posted", vp.cb_posted && OSHMPI_am.cb_req == VP_REQ_CB);
#elif VP_M == 5
    state();
    VP_REACH("pre");
#ifdef VP_FLAGS
    VP_ASSUME(OSHMPI_global.team_world_n_pes <= 4);
#endif
    OSHMPI_am_initialize();
    int pe;
    VP_IN_TO(int, pe, "pe");
    VP_ASSUME(pe >= 0 && pe < OSHMPI_global.team_world_n_pes);
#ifdef VP_PROVE
    VP_POST("a flag for every PE", __CPROVER_OBJECT_SIZE(OSHMPI_am.outstanding_op_flags) >= sizeof(OSHMPIU_atomic_flag_t) * (size_t) OSHMPI_global.team_world_n_pes);
#endif
#ifdef VP_FLAGS
    VP_POST("no operation outstanding at start", VP_FLAG(OSHMPI_am.outstanding_op_flags[pe]) == 0);
#endif
    VP_POST("requests and replies have communicators of their own", in_comms == 2 && OSHMPI_am.comm != OSHMPI_am.ack_comm && OSHMPI_am.comm >= 12 && OSHMPI_am.ack_comm >= 12);
    VP_POST("one receive for any PE's operation messages is posted", in_nrecv == 1 && vp.cb_posted && (vp.cb_tag == OSHMPI_AM_PKT_TAG || vp.cb_tag == MPI_ANY_TAG) && OSHMPI_am.cb_req == VP_REQ_CB);
    VP_POST("nothing is sent", vp.nmsg == 0 && vp.ncoll == 0);
#else
    init();
    vp.nmsg = 0;
    VP_REACH("pre");
    OSHMPI_am_finalize();
    VP_POST("the termination message goes to the calling PE", vp.nmsg == 1 && vp.msg[0].kind == VP_K_SEND && vp.msg[0].peer == OSHMPI_global.team_world_my_pe && vp.msg[0].tag == OSHMPI_AM_PKT_TAG && vp.msg[0].comm == 12);
    VP_POST("it is a termination message", ((OSHMPI_am_pkt_t *) vp.msg[0].data)->type == OSHMPI_AM_PKT_TERMINATE);
    VP_POST("the progress receive is completed", !vp.cb_posted);
    VP_POST("communicators freed", in_freed[0] && in_freed[1]);
#endif
    VP_REACH("post");
    return 0;
}
