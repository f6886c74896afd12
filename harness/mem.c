/* Symmetric heap allocation: malloc, calloc, align, realloc, free and their older names.
 *
 * dlmalloc's mspace routines by their (assumed) contract: a block lies in the memory given to create_mspace_with_base
 * and below the footprint limit (harness/init.c shows that this memory is the symmetric heap), is large enough, aligned,
 * and calloc's is zeroed and refused when the product does not fit.
 * The collective call is seen by its contract (P09); VP_INLINE: on its body.
 */
#include "vp_core.h"
#include <stdlib.h>
static void *vp_memset(void *p, int c, size_t n);
#define memset vp_memset
#define VP_OWN_MEMSET
#include "oshmpi_impl.h"
static void vp_on_coll(void);
#define VP_ON_COLL(c) vp_on_coll()
#define vp_complete vp_complete_
#include "vp_mpi.h"
#include "vp_world.h"
#include "internal/am_impl.c"
#include "internal/rma_am_impl.c"
#include "internal/amo_am_impl.c"
#include "internal/strided_impl.c"
#include "internal/common.c"
#include "internal/coll_impl.c"
#define VP_AM_NMAX 1
#define VP_AM_CONTRACT
#include "vp_am.h"

enum { R_MALLOC, R_HINTS, R_CALLOC, R_ALIGN, R_REALLOC, R_FREE, R_SHMALLOC, R_SHMEMALIGN, R_SHREALLOC, R_SHFREE, R_LAST };
static struct { int r; size_t size, count, align; unsigned long p; } in;
static struct { int n, t, freed_n, freed_t, freed_obj, zero, meet_n, meet_first, meet_last, clock; int ovf; size_t size, align, prod; unsigned long p, freed; } g;
static void vp_on_coll(void) { g.meet_n++; g.meet_last = ++g.clock; if (!g.meet_first) g.meet_first = g.clock; }
void vp_barrier_contract(void) { vp_on_coll(); }
void vp_amflush_contract(shmem_ctx_t ctx, int PE_start, int logPE_stride, int PE_size) { }

static void *vp_block(size_t size, size_t align)
{
    unsigned long b = vp_nd_u64("block"), lo = (unsigned long) OSHMPI_global.symm_heap_attr.base, hi = lo + (unsigned long) OSHMPI_global.symm_heap_attr.size;
    g.n++; g.t = ++g.clock; g.size = size; g.align = align; g.zero = 0; g.p = 0;
    if (vp_nd_bool("full")) return NULL;
    VP_ASSUME(b >= lo && b < hi && size <= hi - b && (b & (align - 1)) == 0);
    g.p = b;
    return (void *) b;
}
/* whether the product wraps; the product of the caller's arguments is computed once */
static int vp_mul(size_t c, size_t n, size_t *p)
{
    if ((c == in.count && n == in.size) || (c == in.size && n == in.count)) { *p = g.prod; return g.ovf; }
    return __builtin_mul_overflow(c, n, p);
}
static int vp_space_heap = 0;
#define MSP ((mspace) &vp_space_heap)
#define VP_MSP(m) VP_ASSERT("the heap's memory is used", (m) == MSP)
void *mspace_malloc(mspace m, size_t n) { VP_MSP(m); return vp_block(n, 16); }
void *mspace_calloc(mspace m, size_t c, size_t n)
{
    VP_MSP(m);
    size_t p;
    if (vp_mul(c, n, &p)) { g.n++; g.t = ++g.clock; return NULL; }
    void *b = vp_block(p, 16);
    g.zero = 1;
    return b;
}
void *mspace_memalign(mspace m, size_t a, size_t n)
{
    VP_MSP(m);
    VP_ASSUME(a && (a & (a - 1)) == 0);
    return vp_block(n, a < 16 ? 16 : a);
}
void *mspace_realloc(mspace m, void *p, size_t n)
{
    VP_MSP(m);
    VP_ASSERT("reallocates the object given", (unsigned long) p == in.p);
    void *b = vp_block(n, 16);
    if (b && p) { g.freed_n++; g.freed_t = g.t; g.freed_obj = 1; g.freed = (unsigned long) p; }
    return b;
}
void mspace_free(mspace m, void *p) { VP_MSP(m); g.freed_n++; g.freed_t = ++g.clock; g.freed_obj = 1; g.freed = (unsigned long) p; }
void OSHMPI_space_free(OSHMPI_space_t *s, void *p)
{
    g.freed_n++; g.freed_t = ++g.clock; g.freed = (unsigned long) p;
    g.freed_obj = s == &vp_space0 ? 3 : s == &vp_space1 ? 4 : -1;
}
static void *vp_memset(void *p, int c, size_t n)
{
    if (g.p && (unsigned long) p == g.p && c == 0 && n >= g.size) g.zero = 1;
    VP_ASSERT("writes inside the block only", g.p && (unsigned long) p >= g.p && n <= g.size && (unsigned long) p - g.p <= g.size - n);
    return p;
}
#include "internal/mem_impl.c"
#include "shmem/mem.c"

static int vp_body(void)
{
    void *ret = NULL;
    int fr = 0, obj;
    vp_world(); vp_am_world();
    OSHMPI_global.symm_heap_mspace = MSP;
    VP_IN_TO(int, in.r, "routine"); VP_IN_TO(size_t, in.size, "size"); VP_IN_TO(size_t, in.count, "count"); VP_IN_TO(size_t, in.align, "alignment"); VP_IN_TO(uint64_t, in.p, "ptr");
    in.r = VP_R;
    VP_ASSUME(in.align && (in.align & (in.align - 1)) == 0);
    obj = vp_obj_of((long) in.p);
    if (in.r == R_REALLOC || in.r == R_SHREALLOC) VP_ASSUME(in.p == 0 || obj == 1);
    if (in.r == R_FREE || in.r == R_SHFREE) VP_ASSUME(in.p == 0 || obj == 1 || obj >= 3);
    g.n = g.t = g.freed_n = g.freed_t = g.freed_obj = g.zero = g.meet_n = g.meet_first = g.meet_last = g.clock = 0; g.p = g.freed = g.size = g.align = 0;
    if (in.r == R_CALLOC) g.ovf = __builtin_mul_overflow(in.count, in.size, &g.prod);
    VP_REACH("pre");
    switch (in.r) {
        case R_MALLOC: ret = shmem_malloc(in.size); break;
        case R_HINTS: ret = shmem_malloc_with_hints(in.size, (long) in.count); break;
        case R_CALLOC: ret = shmem_calloc(in.count, in.size); break;
        case R_ALIGN: ret = shmem_align(in.align, in.size); break;
        case R_REALLOC: ret = shmem_realloc((void *) in.p, in.size); break;
        case R_FREE: fr = 1; shmem_free((void *) in.p); break;
        case R_SHMALLOC: ret = shmalloc(in.size); break;
        case R_SHMEMALIGN: ret = shmemalign(in.align, in.size); break;
        case R_SHREALLOC: ret = shrealloc((void *) in.p, in.size); break;
        case R_SHFREE: fr = 1; shfree((void *) in.p); break;
    }
    unsigned long r = (unsigned long) ret, lo = (unsigned long) OSHMPI_global.symm_heap_attr.base;
    size_t need = in.size;
    int ovf = 0, re = in.r == R_REALLOC || in.r == R_SHREALLOC, al = in.r == R_ALIGN || in.r == R_SHMEMALIGN, ca = in.r == R_CALLOC;
    if (ca) { ovf = g.ovf; need = g.prod; }
    int none = fr || (ca && (in.count == 0 || in.size == 0)) || (!re && !al && !ca && in.size == 0) || (re && in.size == 0 && in.p == 0);
    if (none) {
        VP_ASSERT("nothing is allocated", ret == NULL && g.n == 0);
        VP_ASSERT("meets only to free", fr || g.meet_n == 0);
    } else {
        VP_ASSERT("null exactly when there is no block", ovf ? ret == NULL : (g.n == 1 && r == g.p));
        VP_ASSERT("the block lies in the heap and is large enough", !ret || (r >= lo && r - lo <= (size_t) OSHMPI_global.symm_heap_attr.size && need <= (size_t) OSHMPI_global.symm_heap_attr.size - (r - lo) && g.size >= need));
        VP_ASSERT("aligned as asked", !ret || !al || (r & (in.align - 1)) == 0);
        VP_ASSERT("zeroed", !ret || !ca || g.zero);
        VP_ASSERT("all PEs meet after the allocation", g.meet_n == (re ? 2 : 1) && (g.n == 0 || g.meet_last > g.t));
    }
    VP_ASSERT("all PEs meet before memory is released", !g.freed_n || (g.meet_first && g.meet_first < g.freed_t));
    if (fr) {
        VP_ASSERT("all PEs meet once", g.meet_n == 1);
        VP_ASSERT("released to the object it came from", in.p == 0 ? g.freed_n == 0 : g.freed_n == 1 && g.freed == in.p && g.freed_obj == obj);
    } else
        VP_ASSERT("nothing else is released", g.freed_n == (re && ret && in.p ? 1 : 0) && (!g.freed_n || g.freed == in.p));
    VP_ASSERT("outstanding operations stay remembered", vp_track_all());
    VP_REACH("post");
    return 0;
}
int vp_main(void)
{
#ifdef VP_SHAPE0
    vp_shape0 = VP_SHAPE0; vp_shape1 = VP_SHAPE1;
    vp_body();
#else
    VP_SHAPES(vp_body());
#endif
    return 0;
}
