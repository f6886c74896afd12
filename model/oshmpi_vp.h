/* Loop contracts for the loops marked OSHMPI_VP_LOOP(name) in /repo (hook OSHMPI_VP).  A unit enables
 * those it needs with -DVP_LC_name; the others are unwound. */
#ifndef OSHMPI_VP_H
#define OSHMPI_VP_H
#define OSHMPI_VP_LOOP(name) OSHMPI_VP_LOOP_##name
#ifdef VP_LC
#define vp_wi __CPROVER_vp_wi   /* __CPROVER_ names are kept by the instrumentation's havoc of statics */
extern int vp_wi;
#endif
/* coll_acquire_comm: the list of the active set's PEs (stated at an arbitrary index vp_wi) */
#ifdef VP_LC_aset_pe_list
#define OSHMPI_VP_LOOP_aset_pe_list \
    __CPROVER_assigns(i, __CPROVER_object_whole(pe_list)) \
    __CPROVER_loop_invariant(i >= 0 && i <= PE_size && (vp_wi >= i || pe_list[vp_wi] == PE_start + vp_wi * pe_stride))
#else
#define OSHMPI_VP_LOOP_aset_pe_list
#endif
/* OSHMPI_WAIT_UNTIL: not left before the comparison holds; progress after every read (harness/p2p.c) */
#ifdef VP_LC_wait_until
#define vp_gw __CPROVER_vp_gw
extern struct vp_gw_s { unsigned long long val; void *res; int pending, seen, prog; unsigned reads; } vp_gw;
#define OSHMPI_VP_LOOP_wait_until \
    __CPROVER_assigns(comp_ret, tmp_var, vp_gw) \
    __CPROVER_loop_invariant(comp_ret == 0 && !vp_gw.pending && vp_gw.prog)
#else
#define OSHMPI_VP_LOOP_wait_until
#endif
/* set_lock: waits until the lock is passed on; clear_lock: waits until the successor is known (harness/lock.c) */
#ifdef VP_LC_lock
#define vp_lk __CPROVER_vp_lk
extern struct vp_lk_s { int inq, hold, wait, pred, succ, linked, pend, prog, dirty, passed, released, reads; unsigned next, val; void *res; } vp_lk;
#define VP_LK_OK(lockp) (((OSHMPI_lock_t *) lockp)->next == vp_lk.next && (vp_lk.next & INT_MAX) == (unsigned) (vp_lk.linked ? vp_lk.succ : 0) \
    && vp_lk.succ >= 0 && vp_lk.succ <= OSHMPI_global.team_world_n_pes && vp_lk.succ != OSHMPI_global.team_world_my_pe + 1 && (!vp_lk.linked || vp_lk.succ) \
    && vp_lk.inq && !vp_lk.pend && !vp_lk.dirty && vp_lk.prog && !vp_lk.passed && !vp_lk.released && !vp_lk.pred)
#define OSHMPI_VP_LOOP_lock_signal \
    __CPROVER_assigns(signal, vp_lk, ((OSHMPI_lock_t *) lockp)->next) \
    __CPROVER_loop_invariant(VP_LK_OK(lockp) && vp_lk.wait && vp_lk.hold == (int) (vp_lk.next >> 31))
#define OSHMPI_VP_LOOP_lock_next \
    __CPROVER_assigns(next, nextid, vp_lk, ((OSHMPI_lock_t *) lockp)->next) \
    __CPROVER_loop_invariant(VP_LK_OK(lockp) && !vp_lk.wait && vp_lk.hold == 1 && vp_lk.succ)
#else
#define OSHMPI_VP_LOOP_lock_signal
#define OSHMPI_VP_LOOP_lock_next
#endif
/* space allocator: stated for an arbitrary live allocation [vp_mf, vp_mf + vp_mc) and an arbitrary free
 * stretch of vp_mn chunks at vp_mg (harness/mempool.c) */
#ifdef VP_LC
#define vp_mf __CPROVER_vp_mf
#define vp_mc __CPROVER_vp_mc
#define vp_mg __CPROVER_vp_mg
#define vp_mn __CPROVER_vp_mn
#define vp_mx __CPROVER_vp_mx
extern int vp_mf, vp_mc, vp_mg, vp_mn, vp_mx;
#endif
#ifdef VP_LC_mempool_alloc
#define OSHMPI_VP_LOOP_mempool_alloc \
    __CPROVER_assigns(off, navail) \
    __CPROVER_loop_invariant(off >= 0 && off <= mem_pool->nchunks && navail >= 0 && navail <= off && navail < nalloc \
        && (vp_mc == 0 || off <= vp_mf || off - navail >= vp_mf + vp_mc) \
        && (vp_mn == 0 || (off < vp_mg + vp_mn && (off <= vp_mg || navail >= off - vp_mg)))) \
    __CPROVER_decreases(mem_pool->nchunks - off)
#else
#define OSHMPI_VP_LOOP_mempool_alloc
#endif
#ifdef VP_LC_mempool_destroy
#define OSHMPI_VP_LOOP_mempool_destroy \
    __CPROVER_assigns(i) \
    __CPROVER_loop_invariant(i >= 0 && i <= mem_pool->nchunks && (vp_mx >= i || mem_pool->chunks_nused[vp_mx] == 0)) \
    __CPROVER_decreases(mem_pool->nchunks - i)
#else
#define OSHMPI_VP_LOOP_mempool_destroy
#endif
#endif
