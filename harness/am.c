/* Operations carried by active messages.
 *
 * The initiator's routine runs against stubs that hold the messages it sends; whenever the target PE
 * may make progress, the state is switched to that of the target (same symmetric objects at other
 * addresses) and the real progress engine and the real handlers execute the waiting messages.  What
 * is specified is the effect of the pair: the bytes moved, the new value, the reply.
 *
 * VP_M 1: put/get/iput/iget (VP_FAM 1/3/5/6, also 2/4 nbi)      VP_M 2: atomics (VP_K 1/2/3)
 * VP_LATE: sends complete at once and the target executes requests only when something waits for it;
 * otherwise every wait has to poll once before it completes and the target executes while it polls.
 * VP_PAIR: another message operation to the same PE is still unexecuted when the operation starts.
 */
#define VP_DT1
#include "vp_core.h"
#include "oshmpi_impl.h"
#define VP_PKT_SIZE sizeof(OSHMPI_am_pkt_t)
#define VP_OWN_P2P
#define VP_OWN_TESTALL
#define VP_OWN_REMOTE
#define VP_OWN_READY
#include "vp_mpi.h"
#include "vp_world.h"
#include "vp_types.h"
/* handler names are for debug output only */
#ifdef VP_PROVE
#define strncpy(d, s, n) ((void) 0)
#endif
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
typedef unsigned long long u64;
static void vp_deliver(vp_msg_t *m, MPI_Status *st) { (void) m; (void) st; }
static int in_init, vp_tag_ub;
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { *out = 0; return 0; }
int MPI_Comm_free(MPI_Comm *c) { return 0; }
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *flag) { *(int **) v = &vp_tag_ub; *flag = k == MPI_TAG_UB; return 0; }
static int vp_is_cb(int comm, int src, const void *buf) { return !vp.in_remote ? 0 : buf == (const void *) &OSHMPI_am.cb_pkt; }
#define VP_AM_COMM 12
#define VP_ACK_COMM 13
#include "vp_cache.h"
static struct {
    int usectx, obj, space, pe, me; shmem_ctx_t ctx; uint64_t sym, loc; size_t n, sz; long rst, lst;
    long tbase; int mt, idx, op, opidx, late, other;
    u64 cond, val, old, ret;
} in;

/* ------------------------------------------------------------------ the network */
#ifdef VP_PAIR
#define NHDR 2
#else
#define NHDR 1
#endif
static struct { int used, done, completed, executed, reqlive; OSHMPI_am_pkt_t pkt; const void *buf; } hdr[NHDR];
static int nhdr, exec_next;
static struct { int used, matched, reqlive, tag; const void *buf; int n, dt; size_t bytes; int opno; } dat[NHDR];
static int ndat;
static struct { int posted, got, tag; void *buf; int n, dt; size_t bytes; } rcv;
static int opno, w_op;                  /* current operation, operation whose payload is followed */
static struct { int hits; uint64_t src, dst; } wit;
enum { R_HDR = 100, R_DAT = 110, R_RCV = 120 };

static size_t payload(int n, int dt) { return vp_dt_elems(dt, (size_t) n) << vp_bshift(vp_bsize(vp_dt_base(dt))); }
/* address of the witness byte in a buffer described by (buf, n, dt) */
static uint64_t wit_addr(const void *buf, int n, int dt)
{
    size_t bs = vp_bsize(vp_dt_base(dt));
    if (bs == in.sz) return (uint64_t) buf + (uint64_t) (vp_dt_disp(dt, (size_t) n, vp.w_k) + (long) vp.w_r);
    if (bs == 1 && dt < VP_DT0) return (uint64_t) buf + vp.w_b;
    return vp_nd_u64("unaligned_layout");
}
static void transfer(const void *sb, int sn, int sdt, const void *rb, int rn, int rdt, int op)
{
    VP_ASSERT("message length matches the receive", payload(sn, sdt) == payload(rn, rdt));
#if VP_M == 1
    if (op == w_op && vp.w_b < payload(sn, sdt)) {
        wit.hits++; wit.src = wit_addr(sb, sn, sdt); wit.dst = wit_addr(rb, rn, rdt);
    }
#endif
}
int MPI_Isend(const void *b, int n, MPI_Datatype dt, int dest, int tag, MPI_Comm c, MPI_Request *r)
{
    VP_ASSERT("handlers do not start nonblocking sends", !vp.in_remote);
    VP_ASSERT("message count and type valid", n >= 0 && vp_dt_usable(dt));
    VP_ASSERT("message goes to the target PE", dest == in.pe && c == VP_AM_COMM);
    vp.order++;
    if (tag == OSHMPI_AM_PKT_TAG) {
        VP_ASSERT("one request per operation, of packet size", nhdr == opno && nhdr < NHDR && n == (int) sizeof(OSHMPI_am_pkt_t) && dt == MPI_BYTE);
        VP_ASSUME(nhdr < NHDR && n == (int) sizeof(OSHMPI_am_pkt_t));
        for (int i = 0; i < NHDR; i++) if (i == nhdr) { memcpy(&hdr[i].pkt, b, sizeof(OSHMPI_am_pkt_t)); hdr[i].buf = b; hdr[i].used = 1; hdr[i].reqlive = 1; }
        *r = R_HDR + nhdr++;
    } else {
        VP_ASSERT("one payload per operation, after its request", ndat < NHDR && nhdr == opno + 1);
        VP_ASSUME(ndat < NHDR);
        for (int i = 0; i < NHDR; i++) if (i == ndat) { dat[i].used = 1; dat[i].tag = tag; dat[i].buf = b; dat[i].n = n; dat[i].dt = dt; dat[i].reqlive = 1; dat[i].opno = opno; }
        *r = R_DAT + ndat++;
    }
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request *r)
{
    if (in_init) { *r = VP_REQ_CB; return 0; }
    if (vp_is_cb(c, src, b)) {
        VP_ASSERT("progress receive posted again, once, for any sender", !vp.cb_posted && src == MPI_ANY_SOURCE && (tag == OSHMPI_AM_PKT_TAG || tag == MPI_ANY_TAG)
                  && c == VP_AM_COMM && n == (int) sizeof(OSHMPI_am_pkt_t) && dt == MPI_BYTE);
        vp.cb_posted = 1;
        *r = VP_REQ_CB;
        return 0;
    }
    VP_ASSERT("reply awaited once, from the target PE", !vp.in_remote && !rcv.posted && src == in.pe && c == VP_ACK_COMM && n >= 0 && vp_dt_usable(dt));
    rcv.posted = 1; rcv.got = 0; rcv.tag = tag; rcv.buf = b; rcv.n = n; rcv.dt = dt;
    *r = R_RCV;
    return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status *st)
{
    VP_ASSERT("only handlers use blocking receives", vp.in_remote);
    VP_ASSERT("payload received from the sender of the request", src == in.me && c == VP_AM_COMM && n >= 0 && vp_dt_usable(dt));
    int found = 0;
    for (int i = 0; i < NHDR; i++)
        if (!found && dat[i].used && !dat[i].matched && dat[i].tag == tag) {
            found = 1; dat[i].matched = 1;
            VP_ASSERT("a request takes the payload of its own operation", dat[i].opno == exec_next);
            transfer(dat[i].buf, dat[i].n, dat[i].dt, b, n, dt, dat[i].opno);
        }
    VP_ASSERT("a payload with the tag of the request exists", found);
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype dt, int dest, int tag, MPI_Comm c)
{
    VP_ASSERT("only handlers use blocking sends", vp.in_remote);
    VP_ASSERT("reply goes to the sender of the request", dest == in.me && c == VP_ACK_COMM && n >= 0 && vp_dt_usable(dt));
    VP_ASSERT("reply awaited under this tag", rcv.posted && !rcv.got && rcv.tag == tag);
    VP_ASSERT("reply of the operation that waits", exec_next == opno);
    transfer(b, n, dt, rcv.buf, rcv.n, rcv.dt, exec_next);
#if VP_M == 2
    size_t s = vp_bsize(dt);
    VP_ASSERT("reply is one element", n == 1 && rcv.n == 1 && s == in.sz && vp_bsize(rcv.dt) == in.sz);
    VP_ASSUME(s == 4 || s == 8);
    vp_store(rcv.buf, s, vp_load(b, s));
#endif
    rcv.got = 1;
    return 0;
}
/* the target PE executes the waiting requests, in the order sent */
static void vp_swap(void);
static void remote_run(void)
{
    for (int i = 0; i < NHDR; i++)
        if (i < nhdr && !hdr[i].executed) {
            hdr[i].executed = 1;
            exec_next = i;
            vp_swap();
            vp.in_remote = 1;
            OSHMPI_am_pkt_t keep = OSHMPI_am.cb_pkt;
            OSHMPI_am.cb_pkt = hdr[i].pkt;
            OSHMPI_am.cb_req = VP_REQ_CB; vp.cb_posted = 1;
            vp.cb_arrived = 1; vp.cb_from = in.me;
            int owed = vp.owed;
            OSHMPI_am_cb_progress();
            vp.owed = owed;
            VP_ASSERT("request executed and next receive posted", !vp.cb_arrived && vp.cb_posted && OSHMPI_am.cb_req == VP_REQ_CB);
            OSHMPI_am.cb_pkt = keep;
            vp.in_remote = 0;
            vp_swap();
        }
}
static void vp_remote(void) { }
static int ntests;
static void complete1(MPI_Request *r)
{
    if (*r == MPI_REQUEST_NULL) return;
    for (int i = 0; i < NHDR; i++) {
        if (*r == R_HDR + i) hdr[i].reqlive = 0;
        if (*r == R_DAT + i) dat[i].reqlive = 0;
    }
    if (*r == R_RCV) {
        VP_ASSERT("reply was sent", rcv.got);
        VP_ASSUME(rcv.got);
        rcv.posted = 0;
    }
    *r = MPI_REQUEST_NULL;
}
static int waits_reply(MPI_Request rs[], int n)
{
    for (int i = 0; i < 2; i++) if (i < n && rs[i] == R_RCV) return 1;
    return 0;
}
int MPI_Testall(int n, MPI_Request rs[], int *flag, MPI_Status sts[])
{
    VP_ASSERT("at most two requests at a time", n >= 0 && n <= 2);
    VP_ASSERT("incoming messages are executed while waiting", !vp.owed);
    if (ntests++ == 0 && !in.late) { vp.owed = 1; *flag = 0; return 0; }
    if (waits_reply(rs, n) || !in.late) remote_run();
    for (int i = 0; i < 2; i++) if (i < n) complete1(&rs[i]);
    *flag = 1;
    return 0;
}
int MPI_Waitall(int n, MPI_Request rs[], MPI_Status sts[]) { int f; vp.stall = 0; VP_BLOCKING; return MPI_Testall(n, rs, &f, sts); }
/* single requests */
static int vp_ready(void)
{
    VP_ASSERT("incoming messages are executed while waiting", !vp.owed);
    if (ntests++ == 0 && !in.late) { vp.owed = 1; return 0; }
    return 1;
}
static void vp_complete(int r)
{
    VP_ASSERT("only requests of the operation are waited for", r >= R_HDR && r <= R_RCV);
    if (r == R_RCV || !in.late) remote_run();
    complete1(&r);
}

/* ------------------------------------------------------------------ two PEs */
/* the target has the same symmetric objects at other addresses */
static void *tb_heap, *tb_data, *tb_space[VP_NSPACE];
static OSHMPIU_atomic_flag_t fcell;
static void swapl(void **p, void **q) { void *t = *p; *p = *q; *q = t; }
static void vp_swap(void)
{
    swapl(&OSHMPI_global.symm_heap_attr.base, &tb_heap);
    swapl(&OSHMPI_global.symm_data_attr.base, &tb_data);
    for (int i = 0; i < VP_NSPACE; i++) swapl(&VP_SPACE(i)->sobj_attr.base, &tb_space[i]);
    int t = in.pe; OSHMPI_global.team_world_my_pe = OSHMPI_global.team_world_my_pe == in.me && vp.in_remote == 0 ? t : in.me;
}
static int vp_obj_for(shmem_ctx_t ctx, uint64_t sym)
{
    int o = vp_obj_of((long) sym);
    if (ctx == SHMEM_CTX_DEFAULT) return o && vp_obj_attached(o) ? o : 0;
    if (o >= 3 && vp_obj_attached(o) && VP_SPACE(o - 3)->ctx_list == (OSHMPI_ctx_t *) ctx) return o;
    return 0;
}
/* the active-message type index names the same element type */
static int vp_idx_type(int idx)
{
    switch (idx) {
#define X(i, t) case i: return t;
            X(OSHMPI_AM_MPI_CHAR, MPI_CHAR) X(OSHMPI_AM_MPI_SIGNED_CHAR, MPI_SIGNED_CHAR) X(OSHMPI_AM_MPI_SHORT, MPI_SHORT)
            X(OSHMPI_AM_MPI_INT, MPI_INT) X(OSHMPI_AM_MPI_LONG, MPI_LONG) X(OSHMPI_AM_MPI_LONG_LONG, MPI_LONG_LONG)
            X(OSHMPI_AM_MPI_UNSIGNED_CHAR, MPI_UNSIGNED_CHAR) X(OSHMPI_AM_MPI_UNSIGNED_SHORT, MPI_UNSIGNED_SHORT)
            X(OSHMPI_AM_MPI_UNSIGNED, MPI_UNSIGNED) X(OSHMPI_AM_MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG)
            X(OSHMPI_AM_MPI_UNSIGNED_LONG_LONG, MPI_UNSIGNED_LONG_LONG) X(OSHMPI_AM_MPI_INT8_T, MPI_INT8_T)
            X(OSHMPI_AM_MPI_INT16_T, MPI_INT16_T) X(OSHMPI_AM_MPI_INT32_T, MPI_INT32_T) X(OSHMPI_AM_MPI_INT64_T, MPI_INT64_T)
            X(OSHMPI_AM_MPI_UINT8_T, MPI_UINT8_T) X(OSHMPI_AM_MPI_UINT16_T, MPI_UINT16_T) X(OSHMPI_AM_MPI_UINT32_T, MPI_UINT32_T)
            X(OSHMPI_AM_MPI_UINT64_T, MPI_UINT64_T) X(OSHMPI_AM_OSHMPI_MPI_SIZE_T, OSHMPI_MPI_SIZE_T)
            X(OSHMPI_AM_OSHMPI_MPI_PTRDIFF_T, OSHMPI_MPI_PTRDIFF_T) X(OSHMPI_AM_MPI_FLOAT, MPI_FLOAT)
            X(OSHMPI_AM_MPI_DOUBLE, MPI_DOUBLE) X(OSHMPI_AM_MPI_LONG_DOUBLE, MPI_LONG_DOUBLE)
            X(OSHMPI_AM_MPI_C_DOUBLE_COMPLEX, MPI_C_DOUBLE_COMPLEX)
#undef X
    }
    return -1;
}
static void setup(void)
{
    vp_world();
    vp_world_cache(0);
    in.me = OSHMPI_global.team_world_my_pe;
    VP_IN_TO(unsigned char, in.usectx, "use_ctx"); in.usectx = in.usectx != 0;
    VP_IN_TO(int, in.obj, "obj");
    VP_IN_TO(uint64_t, in.sym, "sym_addr");
    VP_IN_TO(int, in.pe, "pe");
    VP_ASSUME(in.obj >= 1 && in.obj <= 2 + vp_nspaces);
    in.space = in.obj - 3;
    VP_ASSUME(!in.usectx || (in.obj >= 3 && VP_SPACE(in.space)->ctx_list));
    in.ctx = in.usectx ? (shmem_ctx_t) VP_SPACE(in.space)->ctx_list : SHMEM_CTX_DEFAULT;
    VP_ASSUME(in.pe >= 0 && in.pe < OSHMPI_global.team_world_n_pes);
#ifdef VP_LATE
    in.late = 1;
#endif
    /* active-message state; only the flag of the target is ever touched */
    OSHMPI_am.comm = VP_AM_COMM; OSHMPI_am.ack_comm = VP_ACK_COMM;
    OSHMPI_am.outstanding_op_flags = &fcell - in.pe;
    unsigned f;
    VP_IN_TO(unsigned, f, "am_flag");
    VP_FLAG(fcell) = f & 1;
    int t, ub;
    VP_IN_TO(int, ub, "tag_ub");
    VP_ASSUME(ub >= 32767);
    VP_IN_TO(int, t, "tag_off");
    VP_ASSUME(t >= 0 && t < 32767 - 2 - OSHMPI_AM_PKT_PTAG_START);
    /* handlers and tables as the real initialisation leaves them */
    int n = OSHMPI_global.team_world_n_pes;
    OSHMPIU_atomic_flag_t *fl = OSHMPI_am.outstanding_op_flags;
    OSHMPI_global.team_world_n_pes = 1;
    OSHMPI_env.amo_dbg_mode = OSHMPI_DBG_AM;
    OSHMPI_env.rma_dbg_mode = OSHMPI_DBG_AM;
    vp_tag_ub = ub;
    in_init = 1;
    OSHMPI_am_initialize();
    in_init = 0; vp.cb_posted = 1;
    OSHMPI_global.team_world_n_pes = n;
    OSHMPI_am.comm = VP_AM_COMM; OSHMPI_am.ack_comm = VP_ACK_COMM; OSHMPI_am.outstanding_op_flags = fl;
    OSHMPIU_ATOMIC_CNT_STORE(OSHMPI_am.pkt_ptag_off, t);
    OSHMPI_env.rma_dbg_mode = VP_M == 1 ? OSHMPI_DBG_AM : OSHMPI_DBG_AUTO;
    OSHMPI_env.amo_dbg_mode = VP_M == 2 ? OSHMPI_DBG_AM : OSHMPI_DBG_AUTO;
    vp.order = 0;
    vp.no_block = 1;
    long b;
    VP_IN_TO(long, b, "target_base"); VP_ASSUME(b >= 4096 && b < VP_ADDR_MAX); tb_heap = (void *) b;
    VP_IN_TO(long, b, "target_base"); VP_ASSUME(b >= 4096 && b < VP_ADDR_MAX); tb_data = (void *) b;
    for (int i = 0; i < VP_NSPACE; i++) { VP_IN_TO(long, b, "target_base"); VP_ASSUME(b >= 4096 && b < VP_ADDR_MAX); tb_space[i] = (void *) b; }
}
static long base_of_target(int o) { return (long) (o == 1 ? tb_heap : o == 2 ? tb_data : tb_space[o - 3]); }
static int unexecuted(void) { int u = 0; for (int i = 0; i < NHDR; i++) if (i < nhdr && !hdr[i].executed) u = 1; return u; }
/* nothing of the call is still in flight on the calling side */
static int post_local(void)
{
    for (int i = 0; i < NHDR; i++) if (hdr[i].reqlive || dat[i].reqlive) return 0;
    return !rcv.posted;
}
/* a request that the target has not executed is remembered */
static int post_remembered(void) { return !unexecuted() || VP_FLAG(fcell) != 0; }
static int post_all_used(void) { for (int i = 0; i < NHDR; i++) if (dat[i].used && !dat[i].matched) return 0; return 1; }

#if VP_M == 1
#define IS_PUT (VP_FAM == 1 || VP_FAM == 2 || VP_FAM == 5)
#define IS_STRIDED (VP_FAM >= 5)
static uint64_t vp_mul(long st) { return (uint64_t) (st == 1 ? (long) vp.w_k : st == vp.w_st[0] ? vp.w_prod[0] : vp.w_prod[1]); }
static int post_moved(void)
{
    int sh = vp_bshift(in.sz);
    uint64_t l = in.loc + (vp_mul(in.lst) << sh) + vp.w_r;
    uint64_t r = (uint64_t) (base_of_target(in.obj) + ((long) in.sym - vp_obj_base(in.obj))) + (vp_mul(in.rst) << sh) + vp.w_r;
    if (in.n == 0) return nhdr == opno && ndat == opno && wit.hits == 0;
    return wit.hits == 1 && (IS_PUT ? wit.src == l && wit.dst == r : wit.src == r && wit.dst == l);
}
int vp_main(void)
{
    setup();
    VP_IN_TO(uint64_t, in.loc, "local_addr");
    VP_IN_TO(size_t, in.n, "nelems");
    VP_IN_TO(size_t, vp.w_k, "w_k");
    VP_IN_TO(size_t, vp.w_r, "w_r");
    VP_IN_TO(int, in.idx, "type_idx");
    in.rst = in.lst = 1;
    if (IS_STRIDED) { VP_IN_TO(long, in.rst, "sym_stride"); VP_IN_TO(long, in.lst, "local_stride"); }
    VP_ASSUME(in.idx >= 0 && in.idx < OSHMPI_AM_MPI_DATATYPE_MAX);
    VP_IN_TO(int, in.mt, "mpi_type");
    VP_ASSUME(in.mt > 0 && in.mt < VP_BASIC_MAX);
    in.sz = vp_bsize(in.mt);
    VP_ASSUME(in.sz >= 1 && in.sz <= 16);
    if (IS_STRIDED) VP_ASSUME(vp_bsize(vp_idx_type(in.idx)) == in.sz);
    int sh = vp_bshift(in.sz);
    VP_ASSUME(vp_obj_for(in.ctx, in.sym) == in.obj);
    long room = vp_obj_base(in.obj) + vp_obj_size(in.obj) - (long) in.sym;
    VP_ASSUME(in.loc >= 4096 && in.loc < VP_ADDR_MAX && in.lst >= 1 && in.lst <= 0x7fffffffL && in.rst >= 1 && in.rst <= 0x7fffffffL);
    VP_ASSUME(in.n <= 0x7fffffff && vp.w_r < in.sz && vp.w_k <= 0x7fffffff && (in.n == 0 || vp.w_k < in.n));
    vp.w_b = (vp.w_k << sh) + vp.w_r;
    if (IS_STRIDED) vp_set_strides(in.rst, in.lst);
    VP_ASSUME(IS_STRIDED ? (long) ((vp_mul(in.rst) + 1) << sh) <= room : (long) (in.n << sh) <= room);
    /* the length of one message fits MPI's count */
    VP_ASSUME(IS_STRIDED || (in.n << sh) <= 0x7fffffff);
    vp.c_sz = (int) in.sz;
    VP_REACH("pre");
#ifdef VP_PAIR
    /* a put of other data to the same PE that the PE has not executed yet */
    int late = in.late; in.late = 1;
    uint64_t l0; size_t n0;
    VP_IN_TO(uint64_t, l0, "first_local"); VP_IN_TO(size_t, n0, "first_n");
    VP_ASSUME(n0 >= 1 && n0 <= in.n);
    w_op = 1;
    OSHMPI_ctx_put(in.ctx, in.mt, in.sz, (void *) l0, (void *) in.sym, n0, in.pe);
    in.late = late; opno = 1; ntests = 0;
#endif
#if VP_FAM == 1
    OSHMPI_ctx_put(in.ctx, in.mt, in.sz, (void *) in.loc, (void *) in.sym, in.n, in.pe);
#elif VP_FAM == 2
    OSHMPI_ctx_put_nbi(in.ctx, in.mt, in.sz, (void *) in.loc, (void *) in.sym, in.n, in.pe);
#elif VP_FAM == 3
    OSHMPI_ctx_get(in.ctx, in.mt, in.sz, (void *) in.loc, (void *) in.sym, in.n, in.pe);
#elif VP_FAM == 4
    OSHMPI_ctx_get_nbi(in.ctx, in.mt, in.sz, (void *) in.loc, (void *) in.sym, in.n, in.pe);
#elif VP_FAM == 5
    OSHMPI_ctx_iput(in.ctx, in.mt, in.idx, (void *) in.loc, (void *) in.sym, in.rst, in.lst, in.n, in.pe);
#else
    OSHMPI_ctx_iget(in.ctx, in.mt, in.idx, (void *) in.loc, (void *) in.sym, in.lst, in.rst, in.n, in.pe);
#endif
    VP_POST("no message of the call is in flight locally on return", post_local());
    VP_POST("an unexecuted request is remembered for quiet and fence", post_remembered());
    VP_POST("a get returns with its data", IS_PUT || !unexecuted());
    remote_run();
    VP_POST("every payload byte moves once between its two places", post_moved());
    VP_POST("every message is consumed", post_all_used());
    VP_POST("no direct access", vp.rma_calls == 0 && vp.amo_n == 0);
    VP_REACH("post");
    return 0;
}
#endif
#if VP_M == 2
/* ------------------------------------------------------------------ atomics */
enum { S_CSWAP = 1, S_SWAP, S_FETCH, S_ADD, S_AND, S_OR, S_XOR };
static u64 spec_new(int s, size_t sz, u64 old, u64 cond, u64 val)
{
    u64 m = vp_mask(sz), r = old;
    switch (s) {
        case S_CSWAP: r = (old & m) == (cond & m) ? val : old; break;
        case S_SWAP: r = val; break;
        case S_FETCH: r = old; break;
        case S_ADD: r = old + val; break;
        case S_AND: r = old & val; break;
        case S_OR: r = old | val; break;
        case S_XOR: r = old ^ val; break;
    }
    return r & m;
}
static int sem_of_idx(int i)
{
    switch (i) {
        case OSHMPI_AM_MPI_BAND: return S_AND;
        case OSHMPI_AM_MPI_BOR: return S_OR;
        case OSHMPI_AM_MPI_BXOR: return S_XOR;
        case OSHMPI_AM_MPI_NO_OP: return S_FETCH;
        case OSHMPI_AM_MPI_REPLACE: return S_SWAP;
        case OSHMPI_AM_MPI_SUM: return S_ADD;
    }
    return 0;
}
static int mpi_op_of(int s)
{
    return s == S_SWAP ? MPI_REPLACE : s == S_FETCH ? MPI_NO_OP : s == S_ADD ? MPI_SUM : s == S_AND ? MPI_BAND : s == S_OR ? MPI_BOR : MPI_BXOR;
}
/* the element types of OpenSHMEM's atomics */
static int amo_type(int idx)
{
    int t = vp_idx_type(idx);
    return t > 0 && idx != OSHMPI_AM_MPI_CHAR && (vp_bsize(t) == 4 || vp_bsize(t) == 8) && !vp_cplx(t) ? t : 0;
}
static u64 cell[2];             /* the addressed element and its neighbour in the target's memory */
int vp_main(void)
{
    setup();
    VP_IN_TO(u64, in.cond, "cond"); VP_IN_TO(u64, in.val, "value"); VP_IN_TO(u64, in.old, "old");
    VP_IN_TO(int, in.idx, "type_idx"); VP_IN_TO(int, in.opidx, "op_idx");
    VP_ASSUME(in.idx >= 0 && in.idx < OSHMPI_AM_MPI_DATATYPE_MAX);
    in.mt = amo_type(in.idx);
    VP_ASSUME(in.mt);
    in.sz = vp_bsize(in.mt);
    in.op = VP_K == 1 ? S_CSWAP : sem_of_idx(in.opidx);
    VP_ASSUME(in.op && !(vp_fp(in.mt) && in.op != S_SWAP && in.op != S_FETCH));
    VP_ASSUME(vp_obj_for(in.ctx, in.sym) == in.obj);
    long d = (long) in.sym - vp_obj_base(in.obj);
    VP_ASSUME(d >= 0 && d <= vp_obj_size(in.obj) - (long) in.sz);
    u64 neigh;
    VP_IN_TO(u64, neigh, "neighbour");
    cell[0] = in.old; cell[1] = neigh;
    if (in.obj == 1) tb_heap = (char *) cell - d;
    else if (in.obj == 2) tb_data = (char *) cell - d;
    else for (int i = 0; i < VP_NSPACE; i++) if (i == in.space) tb_space[i] = (char *) cell - d;
    u64 m = vp_mask(in.sz), before = in.old & m, ret = 0;
    VP_REACH("pre");
#ifdef VP_PAIR
    /* an atomic without result that the PE has not executed yet */
    int late = in.late; in.late = 1;
    u64 v0;
    VP_IN_TO(u64, v0, "first_value");
    OSHMPI_amo_post(in.ctx, in.mt, in.idx, in.sz, MPI_REPLACE, OSHMPI_AM_MPI_REPLACE, (void *) in.sym, &v0, in.pe);
    VP_POST("the earlier atomic is remembered", post_remembered());
    before = v0 & m;
    in.late = late; opno = 1; ntests = 0;
#endif
#if VP_K == 1
    OSHMPI_amo_cswap(in.ctx, in.mt, in.idx, in.sz, (void *) in.sym, &in.cond, &in.val, in.pe, &ret);
#elif VP_K == 2
    OSHMPI_amo_fetch(in.ctx, in.mt, in.idx, in.sz, mpi_op_of(in.op), in.opidx, (void *) in.sym, &in.val, in.pe, &ret);
#else
    OSHMPI_amo_post(in.ctx, in.mt, in.idx, in.sz, mpi_op_of(in.op), in.opidx, (void *) in.sym, &in.val, in.pe);
#endif
    VP_POST("no message of the call is in flight locally on return", post_local());
    VP_POST("an unexecuted request is remembered for quiet and fence", post_remembered());
    VP_POST("an atomic with a result returns after its execution", VP_K == 3 || !unexecuted());
    remote_run();
    VP_POST("one request per atomic", nhdr == opno + 1 && ndat == 0);
    u64 want = spec_new(in.op, in.sz, before, in.cond, in.val);
    VP_POST("new value of the element", (cell[0] & m) == want);
    VP_POST("bytes outside the element unchanged", (cell[0] & ~m) == (in.old & ~m) && cell[1] == neigh);
    VP_POST("prior value returned", VP_K == 3 || (ret & m) == before);
    VP_POST("no direct access", vp.rma_calls == 0 && vp.amo_n == 0);
    VP_REACH("post");
    return 0;
}
#endif
