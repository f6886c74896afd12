/* Public collective routines (included by coll.c).
 * VP_M 5: any routine of the family; the calls to the core routines are replaced by their contract
 *         (the core's effect is proved by VP_M 4), so it is enough to know its arguments.
 * VP_M 6: the routine of type VP_TY (and reduction VP_RO), everything in line. */
#if VP_M == 5
static struct { int n, kind, aset, mt, root, op, start, log, size; OSHMPI_team_t *team; void *d; const void *s; size_t cnt; long dst, sst; } rec;
static void vp_rec(int kind, OSHMPI_team_t *team, void *d, const void *s, size_t n, int mt, int root, int op, long dst, long sst, int aset, int start, int log, int size)
{
    rec.n++; rec.kind = kind; rec.team = team; rec.d = d; rec.s = s; rec.cnt = n; rec.mt = mt; rec.root = root; rec.op = op;
    rec.dst = dst; rec.sst = sst; rec.aset = aset; rec.start = start; rec.log = log; rec.size = size;
}
#define OSHMPI_broadcast_team(t, d, s, n, mt, r) vp_rec(FM_BCAST, t, d, s, n, mt, r, 0, 1, 1, 0, 0, 0, 0)
#define OSHMPI_collect_team(t, d, s, n, mt) vp_rec(FM_COLLECT, t, d, s, n, mt, 0, 0, 1, 1, 0, 0, 0, 0)
#define OSHMPI_fcollect_team(t, d, s, n, mt) vp_rec(FM_FCOLLECT, t, d, s, n, mt, 0, 0, 1, 1, 0, 0, 0, 0)
#define OSHMPI_alltoall_team(t, d, s, n, mt) vp_rec(FM_A2A, t, d, s, n, mt, 0, 0, 1, 1, 0, 0, 0, 0)
#define OSHMPI_alltoalls_team(t, d, s, ds, ss, n, mt) vp_rec(FM_A2AS, t, d, s, n, mt, 0, 0, ds, ss, 0, 0, 0, 0)
#define OSHMPI_allreduce_team(t, d, s, n, mt, op) vp_rec(FM_REDUCE, t, d, s, n, mt, 0, op, 1, 1, 0, 0, 0, 0)
#define OSHMPI_broadcast(d, s, n, mt, r, a, b, c) vp_rec(FM_BCAST, 0, d, s, n, mt, r, 0, 1, 1, 1, a, b, c)
#define OSHMPI_collect(d, s, n, mt, a, b, c) vp_rec(FM_COLLECT, 0, d, s, n, mt, 0, 0, 1, 1, 1, a, b, c)
#define OSHMPI_fcollect(d, s, n, mt, a, b, c) vp_rec(FM_FCOLLECT, 0, d, s, n, mt, 0, 0, 1, 1, 1, a, b, c)
#define OSHMPI_alltoall(d, s, n, mt, a, b, c) vp_rec(FM_A2A, 0, d, s, n, mt, 0, 0, 1, 1, 1, a, b, c)
#define OSHMPI_alltoalls(d, s, ds, ss, n, mt, a, b, c) vp_rec(FM_A2AS, 0, d, s, n, mt, 0, 0, ds, ss, 1, a, b, c)
#define OSHMPI_allreduce(d, s, n, mt, op, a, b, c) vp_rec(FM_REDUCE, 0, d, s, n, mt, 0, op, 1, 1, 1, a, b, c)
#endif
#ifdef VP_ASET
#if VP_FAM == FM_REDUCE
#include "shmem/reduce_bitws_aset_typed.c"
#include "shmem/reduce_minmax_aset_typed.c"
#include "shmem/reduce_sumprod_aset_typed.c"
#else
#include "shmem/coll_activeset.c"
#endif
#else
#if VP_FAM == FM_REDUCE
#include "shmem/reduce_bitws_team_typed.c"
#include "shmem/reduce_minmax_team_typed.c"
#include "shmem/reduce_sumprod_team_typed.c"
#else
#include "shmem/coll_typed.c"
#include "shmem/coll.c"
#endif
#endif
/* ------------------------------------------------------------------ the specification's type tables */
#define CT_CPLX(X) X(double _Complex, complexd, 3) X(float _Complex, complexf, 3)
#define CT_BITT(X) X(unsigned char, uchar, 0) X(unsigned short, ushort, 0) X(unsigned int, uint, 0) X(unsigned long, ulong, 0) \
    X(unsigned long long, ulonglong, 0) X(int8_t, int8, 1) X(int16_t, int16, 1) X(int32_t, int32, 1) X(int64_t, int64, 1) \
    X(uint8_t, uint8, 0) X(uint16_t, uint16, 0) X(uint32_t, uint32, 0) X(uint64_t, uint64, 0) X(size_t, size, 0)
#define CT_BITA(X) X(short, short, 1) X(int, int, 1) X(long, long, 1) X(long long, longlong, 1)
#define CT_MMA(X) CT_BITA(X) X(float, float, 2) X(double, double, 2) X(long double, longdouble, 2)
#ifdef VP_ASET
#define CT_BIT CT_BITA
#define CT_MM CT_MMA
#define CT_SP(X) CT_MMA(X) CT_CPLX(X)
#else
#define CT_BIT CT_BITT
#define CT_MM VP_RMA_TYPES
#define CT_SP(X) VP_RMA_TYPES(X) CT_CPLX(X)
#endif
enum {
#define X(t, n, k) VP_T_##n,
    VP_RMA_TYPES(X) CT_CPLX(X)
#undef X
    VP_T_mem, VP_T_32, VP_T_64, VP_T_LAST };
enum { VP_R_and = 1, VP_R_or, VP_R_xor, VP_R_min, VP_R_max, VP_R_sum, VP_R_prod, VP_R_LAST };
static int ct_has(int ty, int r)
{
    if (VP_FAM != FM_REDUCE) {
#ifdef VP_ASET
        return ty == VP_T_32 || ty == VP_T_64;
#else
        return ty == VP_T_mem || (ty >= 0 && ty < VP_T_complexd);
#endif
    }
#define X(t, n, k) if (ty == VP_T_##n) return 1;
    if (r <= VP_R_xor) { CT_BIT(X) }
    else if (r <= VP_R_max) { CT_MM(X) }
    else { CT_SP(X) }
#undef X
    return 0;
}
static int ct_size(int ty)
{
    switch (ty) {
#define X(t, n, k) case VP_T_##n: return sizeof(t);
        VP_RMA_TYPES(X) CT_CPLX(X)
#undef X
        case VP_T_mem: return 1;
        case VP_T_32: return 4;
        case VP_T_64: return 8;
    }
    return 1;
}
static int ct_kind(int ty)
{
    switch (ty) {
#define X(t, n, k) case VP_T_##n: return VP_T_##n == VP_T_char ? (char) -1 < 0 : k;
        VP_RMA_TYPES(X) CT_CPLX(X)
#undef X
    }
    return -1;
}
static int ct_op(int r)
{
    static const int op[] = { 0, MPI_BAND, MPI_BOR, MPI_BXOR, MPI_MIN, MPI_MAX, MPI_SUM, MPI_PROD };
    return op[r];
}
static int run_api(int ty, int ro, shmem_team_t team, void *d, const void *s)
{
#ifdef VP_ASET
#define AS in.start, in.log, in.size
    long *ps = 0;
#if VP_FAM == FM_REDUCE
#define X(t, nm, k) case VP_T_##nm: RTN(nm)(d, s, (int) in.n, AS, 0, ps); return 0;
#define RTN(nm) shmem_##nm##_and_to_all
    if (ro == VP_R_and) switch (ty) { CT_BIT(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_or_to_all
    if (ro == VP_R_or) switch (ty) { CT_BIT(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_xor_to_all
    if (ro == VP_R_xor) switch (ty) { CT_BIT(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_min_to_all
    if (ro == VP_R_min) switch (ty) { CT_MM(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_max_to_all
    if (ro == VP_R_max) switch (ty) { CT_MM(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_sum_to_all
    if (ro == VP_R_sum) switch (ty) { CT_SP(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_prod_to_all
    if (ro == VP_R_prod) switch (ty) { CT_SP(X) }
#undef RTN
#undef X
#elif VP_FAM == FM_BCAST
    if (ty == VP_T_32) shmem_broadcast32(d, s, in.n, in.root, AS, ps); else shmem_broadcast64(d, s, in.n, in.root, AS, ps);
#elif VP_FAM == FM_COLLECT
    if (ty == VP_T_32) shmem_collect32(d, s, in.n, AS, ps); else shmem_collect64(d, s, in.n, AS, ps);
#elif VP_FAM == FM_FCOLLECT
    if (ty == VP_T_32) shmem_fcollect32(d, s, in.n, AS, ps); else shmem_fcollect64(d, s, in.n, AS, ps);
#elif VP_FAM == FM_A2A
    if (ty == VP_T_32) shmem_alltoall32(d, s, in.n, AS, ps); else shmem_alltoall64(d, s, in.n, AS, ps);
#else
    if (ty == VP_T_32) shmem_alltoalls32(d, s, in.dst, in.sst, in.n, AS, ps); else shmem_alltoalls64(d, s, in.dst, in.sst, in.n, AS, ps);
#endif
    return 0;
#else
#if VP_FAM == FM_REDUCE
#define X(t, nm, k) case VP_T_##nm: return RTN(nm)(team, d, s, in.n);
#define RTN(nm) shmem_##nm##_and_reduce
    if (ro == VP_R_and) switch (ty) { CT_BIT(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_or_reduce
    if (ro == VP_R_or) switch (ty) { CT_BIT(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_xor_reduce
    if (ro == VP_R_xor) switch (ty) { CT_BIT(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_min_reduce
    if (ro == VP_R_min) switch (ty) { CT_MM(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_max_reduce
    if (ro == VP_R_max) switch (ty) { CT_MM(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_sum_reduce
    if (ro == VP_R_sum) switch (ty) { CT_SP(X) }
#undef RTN
#define RTN(nm) shmem_##nm##_prod_reduce
    if (ro == VP_R_prod) switch (ty) { CT_SP(X) }
#undef RTN
#undef X
#else
#if VP_FAM == FM_BCAST
#define RTN(f) f(team, d, s, in.n, in.root)
#define NM(nm) shmem_##nm##_broadcast
    if (ty == VP_T_mem) return RTN(shmem_broadcastmem);
#elif VP_FAM == FM_COLLECT
#define RTN(f) f(team, d, s, in.n)
#define NM(nm) shmem_##nm##_collect
    if (ty == VP_T_mem) return RTN(shmem_collectmem);
#elif VP_FAM == FM_FCOLLECT
#define RTN(f) f(team, d, s, in.n)
#define NM(nm) shmem_##nm##_fcollect
    if (ty == VP_T_mem) return RTN(shmem_fcollectmem);
#elif VP_FAM == FM_A2A
#define RTN(f) f(team, d, s, in.n)
#define NM(nm) shmem_##nm##_alltoall
    if (ty == VP_T_mem) return RTN(shmem_alltoallmem);
#else
#define RTN(f) f(team, d, s, in.dst, in.sst, in.n)
#define NM(nm) shmem_##nm##_alltoalls
    if (ty == VP_T_mem) return RTN(shmem_alltoallsmem);
#endif
    switch (ty) {
#define X(t, nm, k) case VP_T_##nm: return RTN(NM(nm));
        VP_RMA_TYPES(X)
#undef X
    }
#endif
#endif
    return -1;
}
static int ty_, ro_, ret_;
int vp_main(void)
{
    setup();
#ifdef VP_TY
    ty_ = VP_TY; ro_ = VP_RO;
#else
    VP_IN_TO(int, ty_, "type"); VP_IN_TO(int, ro_, "reduction");
    VP_ASSUME(ty_ >= 0 && ty_ < VP_T_LAST && ro_ >= 1 && ro_ < VP_R_LAST && ct_has(ty_, ro_));
    if (VP_FAM != FM_REDUCE) VP_ASSUME(ro_ == 1);
#endif
    in.sz = ct_size(ty_); in.kind = ct_kind(ty_); in.rop = VP_FAM == FM_REDUCE ? ct_op(ro_) : 0;
    shmem_team_t team = 0;
#ifndef VP_ASET
    team = in.team == 0 ? SHMEM_TEAM_WORLD : in.team == 1 ? SHMEM_TEAM_SHARED : (shmem_team_t) team_obj;
#endif
    VP_REACH("pre");
    ret_ = run_api(ty_, ro_, team, in.dest, in.src);
    VP_POST("success is returned", ret_ == SHMEM_SUCCESS);
#if VP_M == 5
    VP_POST("one collective of this kind", rec.n == 1 && rec.kind == VP_FAM);
    VP_POST("buffers and count", rec.d == in.dest && rec.s == in.src && rec.cnt == in.n);
    VP_POST("element size", vp_bsize(rec.mt) == in.sz && rec.mt > 0 && rec.mt < VP_BASIC_MAX);
#if VP_FAM == FM_REDUCE
    VP_POST("reduction and its arithmetic", rec.op == in.rop && kind_fits(rec.mt));
#endif
    VP_POST("root", VP_FAM != FM_BCAST || rec.root == in.root);
    VP_POST("strides", VP_FAM != FM_A2AS || (rec.dst == in.dst && rec.sst == in.sst));
#ifdef VP_ASET
    VP_POST("on the active set", rec.aset == 1 && rec.start == in.start && rec.log == in.log && rec.size == in.size);
#else
    VP_POST("on the team", rec.aset == 0 && rec.team == team_obj);
#endif
#else
    RESTATE;
#endif
    VP_REACH("post");
    return 0;
}
