/* Teams.
 *
 * VP_M 1: strided split.  2: 2D split.  Each is run for two arbitrary members of the parent team, so that the
 *         communicator's membership (equal colors) and order (keys) are compared.
 *      3: PE numbers, sizes, configurations, translation.   4: destruction.
 * VP_PAR: parent team, 0 world 1 shared 2 created by the program.
 */
#include "vp_core.h"
#include <stdlib.h>
#undef malloc
#undef free
static void *vp_alloc(size_t n);
static void vp_release(void *p);
#define malloc vp_alloc
#define free vp_release
#include "oshmpi_impl.h"
static void vp_on_coll(void);
#define VP_ON_COLL(c) vp_on_coll()
#include "vp_mpi.h"
#include "vp_world.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "internal/coll_impl.c"
#include "internal/team_impl.c"
#define VP_AM_NMAX 1
#define VP_AM_CONTRACT
#include "vp_am.h"
#include "vp_comm.h"
#ifndef VP_SMALL
#define VP_SMALL 16
#endif
#ifndef VP_PAR
#define VP_PAR 0
#endif

static struct { int start, stride, size, me1, me2, pos1, pos2, in1, in2, cfg, nctx, xr, nctx2, src, dst, pe, tr; long mask, mask2; } in;
static struct { int meet, al, rel, tr_n; } g;
static OSHMPI_team_t vp_new[4];
static OSHMPI_team_t *vp_gone;
static void vp_on_coll(void) { g.meet++; }
static void *vp_alloc(size_t n) { VP_ASSERT("room for the team", n >= sizeof(OSHMPI_team_t)); VP_ASSUME(g.al < 4); return &vp_new[g.al++]; }
static void vp_release(void *p) { VP_ASSERT("released is the team", p == (void *) vp_gone); g.rel++; }

static OSHMPI_team_t *tobj(int k) { return k == 0 ? OSHMPI_global.team_world : k == 1 ? OSHMPI_global.team_shared : &vp_team_user; }
static shmem_team_t thandle(int k) { return k == 0 ? SHMEM_TEAM_WORLD : k == 1 ? SHMEM_TEAM_SHARED : k == 2 ? (shmem_team_t) &vp_team_user : SHMEM_TEAM_INVALID; }
static int tgroup(int k) { return k == 0 ? 10 : k == 1 ? 11 : 16; }
static void set_me(int k, int me)
{
    tobj(k)->my_pe = me;
    if (k == 0) OSHMPI_global.team_world_my_pe = me;
    if (k == 1) OSHMPI_global.team_shared_my_pe = me;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
    VP_ASSERT("the teams' groups", n == 1 && a == tgroup(in.src) && b == tgroup(in.dst));
    VP_ASSERT("rank exists in the group", ra[0] >= 0 && ra[0] < tobj(in.src)->n_pes && ra[0] == in.pe);
    g.tr_n++;
    rb[0] = in.tr;
    return 0;
}
static int vp_new_team_ok(shmem_team_t t, int comm, const shmem_team_config_t *cfg, int cfg_on)
{
    OSHMPI_team_t *o = (OSHMPI_team_t *) t;
    int i, known = 0;
    for (i = 0; i < 4; i++) if (i < g.al && o == &vp_new[i]) known = 1;
    if (!known) return 0;
    return comm >= VP_COMM0 && o->comm == comm && !vp.comm[comm - VP_COMM0].freed && o->n_pes == vp.comm[comm - VP_COMM0].size && o->my_pe == vp.comm[comm - VP_COMM0].rank
        && vp_grp_live(o->group) && o->group >= VP_GRP0 && vp.grp[o->group - VP_GRP0].of_comm == comm
        && o->config.num_contexts == (cfg_on ? cfg->num_contexts : 0);
}
/* comm i was split from the parent after every PE had arrived */
static int vp_split_ok(int i, int color_valid) { return vp.comm[i].kind == VP_CK_SPLIT && vp.comm[i].parent == tobj(VP_PAR)->comm && (vp.comm[i].color != MPI_UNDEFINED) == color_valid; }
/* members a before b in the communicator: by key, then by rank in the parent */
static int vp_before(int i, int a, int j, int b) { return vp.comm[i].key != vp.comm[j].key ? vp.comm[i].key < vp.comm[j].key : a < b; }

int vp_main(void)
{
    OSHMPI_team_t *par;
    vp_shape0 = 0; vp_shape1 = 0;
    vp_world(); vp_am_world(); vp_reset_comm();
    { __typeof__(g) z = { 0 }; g = z; }
    VP_IN_TO(int, vp_team_user.config.num_contexts, "u_ctx"); VP_IN_TO(int, vp_team_world.config.num_contexts, "w_ctx"); VP_IN_TO(int, vp_team_shared.config.num_contexts, "s_ctx");
    par = tobj(VP_PAR);
    OSHMPI_team_t old_w = vp_team_world, old_s = vp_team_shared, old_u = vp_team_user;
    shmem_team_config_t cfg, cfg2;
    VP_IN_TO(int, in.me1, "me1"); VP_IN_TO(int, in.me2, "me2");
    VP_ASSUME(in.me1 >= 0 && in.me1 < par->n_pes && in.me2 >= 0 && in.me2 < par->n_pes);
    VP_IN_TO(unsigned char, in.cfg, "cfg"); VP_IN_TO(long, in.mask, "mask"); VP_IN_TO(int, in.nctx, "nctx");
    VP_IN_TO(long, in.mask2, "mask2"); VP_IN_TO(int, in.nctx2, "nctx2");
    cfg.num_contexts = in.nctx; cfg2.num_contexts = in.nctx2;
#if VP_M == 1
#ifdef VP_STRIDE         /* one stride, any parent, start and size */
    VP_IN_TO(int, in.start, "start"); in.stride = VP_STRIDE; VP_IN_TO(int, in.size, "size");
#else                    /* any small start, stride and size */
    { signed char a, b, c; VP_IN_TO(signed char, a, "start"); VP_IN_TO(signed char, b, "stride"); VP_IN_TO(signed char, c, "size"); in.start = a; in.stride = b; in.size = c; }
    VP_ASSUME(par->n_pes <= VP_SMALL && in.start >= -VP_SMALL && in.start <= VP_SMALL && in.stride >= -VP_SMALL && in.stride <= VP_SMALL && in.size >= -VP_SMALL && in.size <= VP_SMALL);
#endif
    shmem_team_t t1 = (shmem_team_t) 5, t2 = (shmem_team_t) 5;
    int rc1, rc2, valid;
    /* the last member of the team, if the request is valid */
    long last = (long) in.start + (long) in.stride * ((long) in.size - 1);
    valid = in.start >= 0 && in.start < par->n_pes && in.size >= 1 && in.size <= par->n_pes && last >= 0 && last < par->n_pes && (in.stride != 0 || in.size == 1);
    /* positions of the two PEs in the team, if they are members: stated without division */
    VP_IN_TO(int, in.pos1, "pos1"); VP_IN_TO(int, in.pos2, "pos2"); VP_IN_TO(unsigned char, in.in1, "in1"); VP_IN_TO(unsigned char, in.in2, "in2");
#if VP_CASE == 1     /* both are members (position pos1, pos2), in this order */
    VP_ASSUME(valid && in.pos1 >= 0 && in.pos1 < in.size && in.pos2 > in.pos1 && in.pos2 < in.size);
    VP_ASSUME(in.me1 == (long) in.start + (long) in.stride * in.pos1 && in.me2 == (long) in.start + (long) in.stride * in.pos2);
#elif VP_CASE == 2   /* me1 is not a member */
    /* nearest positions below and above: strictly between two members, or beyond either end */
    VP_ASSUME(valid);
    long d = in.stride >= 0 ? (long) in.me1 - in.start : (long) in.start - in.me1, s = in.stride >= 0 ? in.stride : -(long) in.stride;
    VP_ASSUME((in.pos1 == -1 && d < 0) || (in.pos1 == in.size - 1 && d > s * in.pos1) || (in.pos1 >= 0 && in.pos1 < in.size - 1 && d > s * in.pos1 && d < s * in.pos1 + s));
#else                /* the request is not valid */
    VP_ASSUME(!valid);
#endif
    VP_REACH("pre");
    set_me(VP_PAR, in.me1);
    rc1 = shmem_team_split_strided(thandle(VP_PAR), in.start, in.stride, in.size, in.cfg ? &cfg : NULL, in.mask, &t1);
#if VP_CASE == 1
    int meet1 = g.meet;
    vp.nreq = 0;
    set_me(VP_PAR, in.me2);
    rc2 = shmem_team_split_strided(thandle(VP_PAR), in.start, in.stride, in.size, in.cfg ? &cfg : NULL, in.mask, &t2);
    VP_ASSERT("accepted", rc1 == 0 && rc2 == 0);
    VP_ASSERT("every PE takes part in the split of the parent", vp.ncomm == 2 && vp_split_ok(0, 1) && vp_split_ok(1, 1));
    VP_ASSERT("all members get the same team", vp.comm[0].color == vp.comm[1].color);
    VP_ASSERT("in the requested order", vp_before(0, in.me1, 1, in.me2));
    VP_ASSERT("the team describes the communicator", vp_new_team_ok(t1, VP_COMM0, &cfg, in.cfg && in.mask) && vp_new_team_ok(t2, VP_COMM0 + 1, &cfg, in.cfg && in.mask) && t1 != t2);
    VP_ASSERT("active messages are served until all have arrived", meet1 >= 1 && g.meet >= 2);
#elif VP_CASE == 2
    VP_ASSERT("accepted", rc1 == 0);
    VP_ASSERT("every PE takes part in the split of the parent", vp.ncomm == 1 && vp_split_ok(0, 0) && g.meet >= 1);
    VP_ASSERT("no team for other PEs", t1 == SHMEM_TEAM_INVALID && g.al == 0);
#else
    VP_ASSERT("refused", rc1 != 0 && t1 == SHMEM_TEAM_INVALID && g.al == 0);
    VP_ASSERT("refused everywhere without communication", vp.ncomm == 0 && g.meet == 0);
    t1 = (shmem_team_t) 5;
    rc1 = shmem_team_split_strided(SHMEM_TEAM_INVALID, in.start, in.stride, in.size, in.cfg ? &cfg : NULL, in.mask, &t1);
    VP_ASSERT("no team from the invalid team", rc1 != 0 && t1 == SHMEM_TEAM_INVALID && vp.ncomm == 0);
#endif
#elif VP_M == 2
    shmem_team_t x1 = (shmem_team_t) 5, y1 = (shmem_team_t) 5, x2 = (shmem_team_t) 5, y2 = (shmem_team_t) 5;
    int rc1, rc2, x_1, y_1, x_2, y_2;
#ifdef VP_STRIDE
    in.xr = VP_STRIDE;
#else
    { signed char a; VP_IN_TO(signed char, a, "xrange"); in.xr = a; }
    VP_ASSUME(par->n_pes <= VP_SMALL);
#endif
#if VP_CASE == 1
    VP_IN_TO(int, x_1, "x1"); VP_IN_TO(int, y_1, "y1"); VP_IN_TO(int, x_2, "x2"); VP_IN_TO(int, y_2, "y2");
    VP_ASSUME(in.xr > 0 && x_1 >= 0 && x_1 < in.xr && x_2 >= 0 && x_2 < in.xr && y_1 >= 0 && y_2 >= 0);
    VP_ASSUME(in.me1 == (long) y_1 * in.xr + x_1 && in.me2 == (long) y_2 * in.xr + x_2 && in.me1 < in.me2);
    VP_REACH("pre");
    set_me(VP_PAR, in.me1);
    rc1 = shmem_team_split_2d(thandle(VP_PAR), in.xr, in.cfg & 1 ? &cfg : NULL, in.mask, &x1, in.cfg & 2 ? &cfg2 : NULL, in.mask2, &y1);
    vp.nreq = 0;
    set_me(VP_PAR, in.me2);
    rc2 = shmem_team_split_2d(thandle(VP_PAR), in.xr, in.cfg & 1 ? &cfg : NULL, in.mask, &x2, in.cfg & 2 ? &cfg2 : NULL, in.mask2, &y2);
    VP_ASSERT("accepted", rc1 == 0 && rc2 == 0);
    VP_ASSERT("every PE takes part in both splits of the parent", vp.ncomm == 4 && vp_split_ok(0, 1) && vp_split_ok(1, 1) && vp_split_ok(2, 1) && vp_split_ok(3, 1));
    /* which of a PE's two communicators became its x team */
    int cx1 = ((OSHMPI_team_t *) x1)->comm, cy1 = ((OSHMPI_team_t *) y1)->comm, cx2 = ((OSHMPI_team_t *) x2)->comm, cy2 = ((OSHMPI_team_t *) y2)->comm;
    VP_ASSERT("the teams describe their communicators", vp_new_team_ok(x1, cx1, &cfg, (in.cfg & 1) && in.mask) && vp_new_team_ok(x2, cx2, &cfg, (in.cfg & 1) && in.mask)
              && vp_new_team_ok(y1, cy1, &cfg2, (in.cfg & 2) && in.mask2) && vp_new_team_ok(y2, cy2, &cfg2, (in.cfg & 2) && in.mask2) && x1 != y1 && x2 != y2);
    cx1 -= VP_COMM0; cy1 -= VP_COMM0; cx2 -= VP_COMM0; cy2 -= VP_COMM0;
    VP_ASSERT("both PEs split in the same order", cx1 != cy1 && cx1 >= 0 && cx1 < 2 && cy1 >= 0 && cy1 < 2 && cx2 == cx1 + 2 && cy2 == cy1 + 2);
    VP_ASSUME(cx1 >= 0 && cx1 < 2 && cy1 >= 0 && cy1 < 2 && cx2 >= 0 && cx2 < 4 && cy2 >= 0 && cy2 < 4);
    VP_ASSERT("x team: exactly the PEs of the row", (vp.comm[cx1].color == vp.comm[cx2].color) == (y_1 == y_2));
    VP_ASSERT("y team: exactly the PEs of the column", (vp.comm[cy1].color == vp.comm[cy2].color) == (x_1 == x_2));
    VP_ASSERT("in the parent's order", (y_1 != y_2 || vp_before(cx1, in.me1, cx2, in.me2)) && (x_1 != x_2 || vp_before(cy1, in.me1, cy2, in.me2)));
    VP_ASSERT("active messages are served until all have arrived", g.meet >= 4);
#else
    int inv = vp_nd_bool("inv");
    VP_ASSUME(inv || in.xr <= 0);
    VP_REACH("pre");
    rc1 = shmem_team_split_2d(inv ? SHMEM_TEAM_INVALID : thandle(VP_PAR), in.xr, in.cfg & 1 ? &cfg : NULL, in.mask, &x1, in.cfg & 2 ? &cfg2 : NULL, in.mask2, &y1);
    VP_ASSERT("refused", rc1 != 0 && x1 == SHMEM_TEAM_INVALID && y1 == SHMEM_TEAM_INVALID && g.al == 0 && vp.ncomm == 0 && g.meet == 0);
#endif
#elif VP_M == 3
    int r;
    VP_IN_TO(int, in.src, "src"); VP_IN_TO(int, in.dst, "dst"); VP_IN_TO(int, in.pe, "pe"); VP_IN_TO(int, in.tr, "tr");
    VP_ASSUME(in.src >= 0 && in.src <= 3 && in.dst >= 0 && in.dst <= 3);
    if (in.dst < 3) VP_ASSUME(in.tr == MPI_UNDEFINED || (in.tr >= 0 && in.tr < tobj(in.dst)->n_pes));
    if (in.src == in.dst && in.src < 3) VP_ASSUME(in.tr == in.pe || in.pe < 0 || in.pe >= tobj(in.src)->n_pes);
    cfg.num_contexts = -7;
    VP_REACH("pre");
    r = shmem_team_translate_pe(thandle(in.src), in.pe, thandle(in.dst));
    if (in.src == 3 || in.dst == 3 || in.pe < 0 || in.pe >= tobj(in.src)->n_pes) VP_ASSERT("no such member", r == -1);
    else VP_ASSERT("the PE's number in the other team, -1 if it is no member", r == (in.tr == MPI_UNDEFINED ? -1 : in.tr));
    r = shmem_team_my_pe(thandle(in.src));
    VP_ASSERT("PE number", r == (in.src == 3 ? -1 : tobj(in.src)->my_pe));
    r = shmem_team_n_pes(thandle(in.src));
    VP_ASSERT("team size", r == (in.src == 3 ? -1 : tobj(in.src)->n_pes));
    r = shmem_team_get_config(thandle(in.src), 1, &cfg);
    VP_ASSERT("configuration", in.src == 3 ? r != 0 : r == 0 && cfg.num_contexts == tobj(in.src)->config.num_contexts);
#elif VP_M == 4
    VP_IN_TO(int, in.src, "src");
    VP_ASSUME(in.src >= 0 && in.src <= 3);
    vp_gone = in.src == 2 ? &vp_team_user : NULL;
    VP_REACH("pre");
    shmem_team_destroy(thandle(in.src));
    VP_ASSERT("released once, predefined teams never", g.rel == (in.src == 2) && vp.comm_freed == (in.src == 2 ? 1u << 16 : 0) && vp.grp_freed == (in.src == 2 ? 1u << 16 : 0));
#endif
    set_me(0, old_w.my_pe); set_me(1, old_s.my_pe); vp_team_user.my_pe = old_u.my_pe;
#define SAME(a, b) ((a).n_pes == (b).n_pes && (a).comm == (b).comm && (a).group == (b).group && (a).config.num_contexts == (b).config.num_contexts)
    VP_ASSERT("other teams unchanged", SAME(vp_team_world, old_w) && SAME(vp_team_shared, old_s) && (VP_M == 4 || SAME(vp_team_user, old_u))
              && OSHMPI_global.team_world == &vp_team_world && OSHMPI_global.team_shared == &vp_team_shared && (VP_M == 4 || (!vp.comm_freed && !vp.grp_freed)));
    VP_REACH("post");
    return 0;
}
#include "shmem/team.c"
