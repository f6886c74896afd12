/* Symmetric addresses: which object and context a one-sided call uses, its displacement, and the
 * translation back to an address on the target PE. */
#define VP_DT1
#include "vp_core.h"
#include "oshmpi_impl.h"
#define VP_PKT_SIZE sizeof(OSHMPI_am_pkt_t)
#include "vp_mpi.h"
#include "vp_world.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "vp_am.h"
#include "vp_cache.h"
#include "shmem/setup.c"

static struct { uint64_t addr; int usectx, space, obj, pe; shmem_ctx_t ctx; OSHMPI_sobj_attr_t *attr; OSHMPI_ictx_t *ictx; MPI_Aint disp; void *va; int mode; } in;

/* ---- specification ---- */
static OSHMPI_sobj_attr_t *vp_attr_of(shmem_ctx_t ctx, int o)
{
    if (ctx != SHMEM_CTX_DEFAULT) return &((OSHMPI_ctx_t *) ctx)->sobj_attr;
    return o == 1 ? &OSHMPI_global.symm_heap_attr : o == 2 ? &OSHMPI_global.symm_data_attr : o >= 3 ? &VP_SPACE(o - 3)->sobj_attr : NULL;
}
static OSHMPI_ictx_t *vp_ictx_of(shmem_ctx_t ctx, int o)
{
    if (ctx != SHMEM_CTX_DEFAULT) return &((OSHMPI_ctx_t *) ctx)->ictx;
#ifdef OSHMPI_ENABLE_DYNAMIC_WIN
    return o ? &OSHMPI_global.symm_ictx : NULL;
#else
    return o == 1 ? &OSHMPI_global.symm_heap_ictx : o == 2 ? &OSHMPI_global.symm_data_ictx : o >= 3 ? &VP_SPACE(o - 3)->default_ictx : NULL;
#endif
}

#if VP_M == 1
/* the lookup finds exactly the object that holds the address, and leaves no match for any other */
static int vp_q_pre(OSHMPI_ctx_t *ctx, const void *a, OSHMPI_sobj_attr_t *pa, OSHMPI_ictx_t *pi) { return pa == NULL && pi == NULL; }
void vp_c_query(OSHMPI_ctx_t *ctx, const void *abs_addr, int target_rank, OSHMPI_sobj_attr_t **sobj_attr_ptr, OSHMPI_ictx_t **ictx_ptr)
VP_REQ(vp_q_pre(ctx, abs_addr, *sobj_attr_ptr, *ictx_ptr))
VP_ENS(*sobj_attr_ptr == vp_attr_of(ctx, vp_obj_of((long) abs_addr)))
VP_ENS(*ictx_ptr == vp_ictx_of(ctx, vp_obj_of((long) abs_addr)))
VP_ASG(*sobj_attr_ptr, *ictx_ptr);
#endif
#if VP_M == 2
void vp_c_disp(OSHMPI_sobj_attr_t *sobj_attr, const void *abs_addr, int target_rank, int disp_mode, MPI_Aint *disp_ptr)
VP_REQ(disp_mode == OSHMPI_RELATIVE_DISP)
VP_ENS(*disp_ptr == (long) abs_addr - (long) sobj_attr->base)
VP_ASG(*disp_ptr);
#endif

#if VP_M == 4
/* the lookup by its contract (proved by unit addr.query), on an address of no object */
void vp_query_contract(OSHMPI_ctx_t *ctx, const void *abs_addr, int target_rank, OSHMPI_sobj_attr_t **sobj_attr_ptr, OSHMPI_ictx_t **ictx_ptr)
{
    VP_ASSERT("lookup precondition", *sobj_attr_ptr == NULL && *ictx_ptr == NULL);
    VP_ASSERT("lookup on the address given", vp_obj_of((long) abs_addr) == 0 && ctx == SHMEM_CTX_DEFAULT);
}
#endif

int vp_main(void)
{
    vp_world();
    vp_world_cache(0);
    VP_IN_TO(uint64_t, in.addr, "addr");
    VP_IN_TO(unsigned char, in.usectx, "use_ctx"); in.usectx = in.usectx != 0;
    VP_IN_TO(int, in.space, "space");
    VP_IN_TO(int, in.pe, "pe");
    VP_ASSUME(in.addr < VP_ADDR_MAX);
    VP_ASSUME(in.space >= 0 && in.space < VP_NSPACE);
    VP_ASSUME(!in.usectx || (in.space < vp_nspaces && VP_SPACE(in.space)->ctx_list));
    in.ctx = in.usectx ? (shmem_ctx_t) VP_SPACE(in.space)->ctx_list : SHMEM_CTX_DEFAULT;
    in.obj = vp_obj_of((long) in.addr);
#if VP_M == 1
    VP_REACH("pre");
    OSHMPI_sobj_query_attr_ictx(in.ctx, (void *) in.addr, in.pe, &in.attr, &in.ictx);
    VP_POST("object of the address", in.attr == vp_attr_of(in.ctx, in.obj));
    VP_POST("context of the address", in.ictx == vp_ictx_of(in.ctx, in.obj));
#elif VP_M == 2
    VP_ASSUME(in.obj >= 1);
    VP_REACH("pre");
    OSHMPI_sobj_trans_vaddr_to_disp(vp_attr_of(SHMEM_CTX_DEFAULT, in.obj), (void *) in.addr, in.pe, OSHMPI_RELATIVE_DISP, &in.disp);
    VP_POST("relative displacement", in.disp == (long) in.addr - vp_obj_base(in.obj));
#elif VP_M == 3
    /* (handle, displacement) names the same element on the target, whose objects lie elsewhere */
    VP_ASSUME(in.obj >= 1 && vp_obj_attached(in.obj));
    VP_ASSUME(!in.usectx || in.obj == 3 + in.space);
    long obase[2 + VP_NSPACE], tb;
    uint32_t h;
    VP_REACH("pre");
    OSHMPI_sobj_query_attr_ictx(in.ctx, (void *) in.addr, in.pe, &in.attr, &in.ictx);
    OSHMPI_sobj_trans_vaddr_to_disp(in.attr, (void *) in.addr, in.pe, OSHMPI_RELATIVE_DISP, &in.disp);
    h = in.attr->handle;
    long off = (long) in.addr - vp_obj_base(in.obj);
    /* the target PE: same objects, other addresses, spaces created in any local order */
    for (int i = 0; i < 2 + VP_NSPACE; i++) {
        VP_IN_TO(long, tb, "target_base");
        VP_ASSUME(tb >= 4096 && tb < VP_ADDR_MAX);
        obase[i] = tb;
    }
    OSHMPI_global.symm_heap_attr.base = (void *) obase[0];
    OSHMPI_global.symm_data_attr.base = (void *) obase[1];
    for (int i = 0; i < VP_NSPACE; i++) VP_SPACE(i)->sobj_attr.base = (void *) obase[2 + i];
    if (vp_nspaces == 2) {
        unsigned char sw;
        VP_IN_TO(unsigned char, sw, "other_order");
        if (sw) { vp_space1.next = &vp_space0; vp_space0.next = NULL; OSHMPI_global.space_list.head = &vp_space1; }
    }
    OSHMPI_sobj_trans_disp_to_vaddr(h, in.disp, &in.va);
    VP_ASSERT("translation names the same element on the target PE", (long) in.va == obase[in.obj - 1] + off);
#elif VP_M == 4
    /* a one-sided call on an address outside every symmetric object transfers nothing and does not return */
    size_t n;
    VP_IN_TO(size_t, n, "nelems");
    in.mode = VP_MODE;
    VP_ASSUME(in.obj == 0 && n >= 1 && n < 1000 && in.pe >= 0 && in.pe < OSHMPI_global.team_world_n_pes);
    vp.abort_ok = 2;
    static long buf[4];
    VP_REACH("pre");
    switch (VP_MODE) {
        case 0: OSHMPI_ctx_put(SHMEM_CTX_DEFAULT, MPI_LONG, 8, buf, (void *) in.addr, n, in.pe); break;
        case 1: OSHMPI_ctx_put_nbi(SHMEM_CTX_DEFAULT, MPI_LONG, 8, buf, (void *) in.addr, n, in.pe); break;
        case 2: OSHMPI_ctx_get(SHMEM_CTX_DEFAULT, MPI_LONG, 8, buf, (void *) in.addr, n, in.pe); break;
        case 3: OSHMPI_ctx_get_nbi(SHMEM_CTX_DEFAULT, MPI_LONG, 8, buf, (void *) in.addr, n, in.pe); break;
        case 4: OSHMPI_ctx_iput(SHMEM_CTX_DEFAULT, MPI_LONG, OSHMPI_AM_MPI_LONG, buf, (void *) in.addr, 2, 2, n, in.pe); break;
        case 5: OSHMPI_ctx_iget(SHMEM_CTX_DEFAULT, MPI_LONG, OSHMPI_AM_MPI_LONG, buf, (void *) in.addr, 2, 2, n, in.pe); break;
        case 6: OSHMPI_amo_cswap(SHMEM_CTX_DEFAULT, MPI_LONG, OSHMPI_AM_MPI_LONG, 8, (void *) in.addr, buf, buf + 1, in.pe, buf + 2); break;
        case 7: OSHMPI_amo_fetch(SHMEM_CTX_DEFAULT, MPI_LONG, OSHMPI_AM_MPI_LONG, 8, MPI_SUM, OSHMPI_AM_MPI_SUM, (void *) in.addr, buf, in.pe, buf + 2); break;
        default: OSHMPI_amo_post(SHMEM_CTX_DEFAULT, MPI_LONG, OSHMPI_AM_MPI_LONG, 8, MPI_SUM, OSHMPI_AM_MPI_SUM, (void *) in.addr, buf, in.pe); break;
    }
    VP_ASSERT("access outside every symmetric object is refused", 0);
#elif VP_M == 5
    /* a handle keeps its three fields apart */
    unsigned kind, symm, idx;
    OSHMPI_sobj_attr_t a;
    VP_IN_TO(unsigned, kind, "kind"); VP_IN_TO(unsigned, symm, "symm"); VP_IN_TO(unsigned, idx, "idx");
    VP_ASSUME(kind < 4 && symm < 2 && idx <= OSHMPI_SOBJ_HANDLE_IDX_MASK);
    VP_REACH("pre");
    OSHMPI_sobj_set_handle(&a, (OSHMPI_sobj_kind_t) kind, (int) symm, (int) idx);
    VP_ASSERT("handle kind", OSHMPI_SOBJ_HANDLE_GET_KIND(a.handle) == kind);
    VP_ASSERT("handle symmetric bit", OSHMPI_SOBJ_HANDLE_GET_SYMMBIT(a.handle) == symm && !OSHMPI_SOBJ_HANDLE_CHECK_SYMMBIT(a.handle) == !symm);
    VP_ASSERT("handle index", OSHMPI_SOBJ_HANDLE_GET_IDX(a.handle) == idx);
#elif VP_M == 6
    /* queries about PEs and addresses */
    VP_REACH("pre");
    VP_ASSERT("pe_accessible", shmem_pe_accessible(in.pe) == (in.pe >= 0 && in.pe < OSHMPI_global.team_world_n_pes));
    VP_ASSERT("my_pe and n_pes", shmem_my_pe() == OSHMPI_global.team_world_my_pe && shmem_n_pes() == OSHMPI_global.team_world_n_pes
              && shmem_my_pe() >= 0 && shmem_my_pe() < shmem_n_pes());
    VP_ASSERT("legacy names agree", _my_pe() == shmem_my_pe() && _num_pes() == shmem_n_pes());
    int acc = shmem_addr_accessible((void *) in.addr, in.pe);
    int valid = in.pe >= 0 && in.pe < OSHMPI_global.team_world_n_pes;
    VP_ASSERT("addr_accessible is 0 or 1", acc == 0 || acc == 1);
    VP_ASSERT("an accessible address is symmetric and the PE exists", !acc || (valid && in.obj >= 1));
    VP_ASSERT("every address of the symmetric heap and data segment is accessible", !(valid && (in.obj == 1 || in.obj == 2)) || acc);
    VP_ASSERT("every address of an attached space is accessible", !(valid && in.obj >= 3 && vp_obj_attached(in.obj)) || acc);
    void *p = shmem_ptr((void *) in.addr, in.pe);
    VP_ASSERT("ptr is the address itself for the calling PE and NULL otherwise", p == (in.pe == OSHMPI_global.team_world_my_pe ? (void *) in.addr : NULL));
#endif
#if VP_M != 4
    VP_REACH("post");
#endif
    return 0;
}
