/* Allocator of a space's memory: init, alloc, free, destroy, on a table of any size.
 *
 * Invariant of the table: the counter at the first chunk of every live allocation is its length in chunks, every other
 * counter is 0, allocations do not overlap and end inside the pool.  Stated for all chunks (quantified) before the call
 * and shown for an arbitrary live allocation, an arbitrary counter and an arbitrary free stretch after it.
 * VP_M 1 alloc, 2 free, 3 init, 4 destroy.  Without VP_LC: tables of at most VP_NCH chunks.
 */
#include "vp_core.h"
#ifdef VP_PROVE
static void *vp_alloc(size_t n);
static void vp_release(void *p);
static void *vp_memset(void *p, int c, size_t n);
#undef malloc
#undef free
#define malloc vp_alloc
#define free vp_release
#define memset vp_memset
#endif
#ifndef VP_CHUNK
#define VP_CHUNK 4096
#endif
#include "oshmpi_util.h"
#ifndef VP_LC
int vp_mf, vp_mc, vp_mg, vp_mn, vp_mx;
#else
int vp_mf, vp_mc, vp_mg, vp_mn, vp_mx;
#endif
static int vp_aborts_ok, vp_freed; static size_t vp_asked;
int MPI_Abort(MPI_Comm c, int e)
{
    VP_ASSERT("does not abort on valid use", vp_aborts_ok);
#ifdef VP_PROVE
    __CPROVER_assume(0);
#else
    _Exit(vp_failures ? 1 : 0);
#endif
    return 0;
}
#ifdef VP_PROVE
#ifdef VP_LC
unsigned vp_cells[__CPROVER_constant_infinity_uint];
#define CELLS vp_cells
#else
unsigned CELLS[VP_NCH];
#endif
static void *vp_alloc(size_t n) { vp_asked = n; return CELLS; }
static void vp_release(void *p) { VP_ASSERT("releases the table", p == (void *) CELLS); vp_freed++; }
static void *vp_memset(void *p, int c, size_t n)
{
    VP_ASSERT("writes the table only", p == (void *) CELLS && n <= vp_asked);
    if ((size_t) vp_mx < n / sizeof(unsigned)) CELLS[vp_mx] = (unsigned) c * 0x01010101u;
    return p;
}
#else
static unsigned *CELLS;
#endif
#include "internal/util/mem_pool.c"

static OSUMPIU_mempool_t pool;
static struct { int n; unsigned long base, size; } in;
#ifdef VP_LC
#define VP_FORALL(i, e) __CPROVER_forall { int i; (0 <= i && i < in.n) ==> (e) }
#else
static int vp_all_run(int f, int c, int own);
#endif
/* allocation at i against [f, f + c) */
#define RUN_OK(i) (CELLS[i] == 0 || CELLS[i] <= (unsigned) (in.n - i))
#define APART(i, f, c) (CELLS[i] == 0 || i + (int) CELLS[i] <= f || i >= f + c)

int vp_main(void)
{
    int n, old_x;
    void *p = NULL;
    VP_IN_TO(int, n, "nchunks"); VP_IN_TO(uint64_t, in.base, "base"); VP_IN_TO(uint64_t, in.size, "size");
    VP_IN_TO(int, vp_mf, "f"); VP_IN_TO(int, vp_mc, "c"); VP_IN_TO(int, vp_mg, "g"); VP_IN_TO(int, vp_mx, "x");
    VP_ASSUME(n >= 1 && (size_t) n <= (1ul << 30) && in.base < (1ul << 46) && (in.base & 15) == 0 && in.base);
    in.n = n;
#ifndef VP_LC
    VP_ASSUME(n <= VP_NCH);
#endif
#ifndef VP_PROVE
    CELLS = calloc(n, sizeof(unsigned));
#endif
    VP_ASSUME(vp_mx >= 0 && vp_mx < n);
    vp_aborts_ok = 0; vp_freed = 0;
    pool.base = (void *) in.base; pool.size = (size_t) n * VP_CHUNK; pool.chunk_size = VP_CHUNK; pool.nchunks = n; pool.chunks_nused = CELLS;
    /* any valid table: an arbitrary live allocation (vp_mc == 0: none), and every other one apart from it */
#if VP_M <= 2
    VP_ASSUME(vp_mc >= 0 && vp_mc <= n && vp_mf >= 0 && vp_mf <= n - vp_mc);
#ifdef VP_LC
    VP_ASSUME(VP_FORALL(i, RUN_OK(i)));
    VP_ASSUME(vp_mc == 0 || (CELLS[vp_mf] == (unsigned) vp_mc && VP_FORALL(i, i == vp_mf || APART(i, vp_mf, vp_mc))));
#else
    int f_ok = vp_mc == 0;
    for (int i = 0, run = 0; i < VP_NCH; i++)
        if (i < n) {
            unsigned v;
            VP_IN_TO(unsigned, v, "counter");
            CELLS[i] = run ? 0 : v; run = run ? run - 1 : v ? (int) v - 1 : 0;
            VP_ASSUME(RUN_OK(i));
            if (vp_mc && i == vp_mf && CELLS[i] == (unsigned) vp_mc) f_ok = 1;
        }
    VP_ASSUME(f_ok);
#endif
#endif
#if VP_M == 1
    /* an arbitrary free stretch that is long enough (vp_mn == 0: none) */
    unsigned long need = in.size / VP_CHUNK + (in.size % VP_CHUNK != 0);
    vp_mn = vp_nd_bool("room") ? (int) need : 0;
    VP_ASSUME(vp_mn == 0 || (in.size > 0 && need <= (unsigned long) n && vp_mg >= 0 && vp_mg <= n - vp_mn));
#ifdef VP_LC
    VP_ASSUME(vp_mn == 0 || VP_FORALL(i, APART(i, vp_mg, vp_mn)));
#else
    for (int i = 0; i < VP_NCH; i++) if (i < n && vp_mn) VP_ASSUME(APART(i, vp_mg, vp_mn));
#endif
    old_x = CELLS[vp_mx];
    VP_REACH("pre");
    p = OSHMPIU_mempool_alloc(&pool, in.size);
    unsigned long off = (unsigned long) p - in.base, first = off / VP_CHUNK;
    VP_ASSERT("nothing is refused that fits", !vp_mn || p);
    if (p) {
        VP_ASSERT("inside the pool", (unsigned long) p >= in.base && off < pool.size && in.size <= pool.size - off && in.size > 0);
        VP_ASSERT("starts at a chunk", first * VP_CHUNK == off);
        VP_ASSERT("its length is remembered", first < (unsigned long) n && CELLS[first] == need && need <= n - first);
        VP_ASSERT("overlaps no live allocation", !vp_mc || first >= (unsigned long) (vp_mf + vp_mc) || first + need <= (unsigned long) vp_mf);
    }
    VP_ASSERT("no other allocation changes", (p && (unsigned long) vp_mx == first) || CELLS[vp_mx] == (unsigned) old_x);
    VP_ASSERT("the pool stays as it is", (unsigned long) pool.base == in.base && pool.size == (size_t) n * VP_CHUNK && pool.chunk_size == VP_CHUNK && pool.nchunks == n && pool.chunks_nused == CELLS);
#elif VP_M == 2
    VP_ASSUME(vp_mc > 0);
    old_x = CELLS[vp_mx];
    VP_REACH("pre");
    OSHMPIU_mempool_free(&pool, (void *) (in.base + (unsigned long) vp_mf * VP_CHUNK));
    VP_ASSERT("the block is free again", CELLS[vp_mf] == 0);
    VP_ASSERT("no other allocation changes", vp_mx == vp_mf || CELLS[vp_mx] == (unsigned) old_x);
    VP_ASSERT("the pool stays as it is", (unsigned long) pool.base == in.base && pool.size == (size_t) n * VP_CHUNK && pool.chunk_size == VP_CHUNK && pool.nchunks == n && pool.chunks_nused == CELLS);
#elif VP_M == 3
    OSUMPIU_mempool_t q;
    VP_REACH("pre");
    OSHMPIU_mempool_init(&q, (void *) in.base, (size_t) n * VP_CHUNK, VP_CHUNK);
    VP_ASSERT("describes the memory", (unsigned long) q.base == in.base && q.size == (size_t) n * VP_CHUNK && q.chunk_size == VP_CHUNK && q.nchunks == n);
    VP_ASSERT("one counter per chunk", vp_asked >= (size_t) n * sizeof(unsigned) && q.chunks_nused == CELLS);
    VP_ASSERT("all of it is free", CELLS[vp_mx] == 0);
#elif VP_M == 4
    vp_aborts_ok = CELLS[vp_mx] != 0;
#ifdef VP_LC
    if (!vp_aborts_ok) VP_ASSUME(VP_FORALL(i, CELLS[i] == 0));
#else
    if (!vp_aborts_ok) for (int i = 0; i < VP_NCH; i++) CELLS[i] = 0;
#endif
    VP_REACH("pre");
    OSHMPIU_mempool_destroy(&pool);
    VP_ASSERT("memory in use is reported", !vp_aborts_ok);
    VP_ASSERT("the table is released once", vp_freed == 1);
#endif
    VP_REACH("post");
    return 0;
}
