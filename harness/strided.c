/* Strided datatype creation and its cache: the datatype handed out denotes exactly `nelems`
 * elements of the basic type, `stride` apart, with the requested extent. */
#include "vp_core.h"
#include "oshmpi_impl.h"
#include "vp_mpi.h"
#include "vp_world.h"
#include "internal/strided_impl.c"
#define VP_OWN_REMOTE
static void vp_remote(void) { }
static void vp_deliver(vp_msg_t *m, MPI_Status *st) { }
static int vp_is_cb(int c, int s, const void *b) { return 0; }
#include "vp_cache.h"

static struct { size_t n, ext, cnt; long st; int mt, rt; } in;

static int vp_sdt_pre(size_t n, long st, int mt, size_t ext)
{
    return n <= 0x7fffffff && st >= 1 && st <= 0x7fffffffL && mt > 0 && mt < VP_BASIC_MAX && vp_bsize(mt) >= 1 && ext < (1ul << 32) && vp_cache_ok();
}
/* cnt x type = n elements of mt; element k at k*st */
static int vp_sdt_elems(size_t n, long st, int mt, size_t cnt, int rt)
{
    if (rt == mt) return st == 1 && cnt == n;
    if (rt < VP_DT0 || rt >= VP_DT0 + vp.ndt) return 0;
    vp_dt_t *d = &vp.dt[rt - VP_DT0];
    return cnt == 1 && d->base == mt && d->cnt == n && d->blk == 1 && d->st == st;
}
static int vp_sdt_live(int mt, int rt) { return rt == mt || (rt >= VP_DT0 && rt < VP_DT0 + vp.ndt && vp.dt[rt - VP_DT0].committed && !vp.dt[rt - VP_DT0].freed); }
static int vp_sdt_extent(int mt, int rt, size_t ext)
{
    /* an extent is requested by the alltoalls users only, and the contiguous case takes it from count */
    return rt == mt || ext == 0 || vp_dt_extent(rt) == (long) (ext << vp_bshift(vp_bsize(mt)));
}
void vp_c_sdt(size_t nelems, ptrdiff_t stride, MPI_Datatype mpi_type, size_t required_ext_nelems, size_t *strided_cnt, MPI_Datatype *strided_type)
VP_REQ(vp_sdt_pre(nelems, stride, mpi_type, required_ext_nelems))
VP_ENS(vp_sdt_elems(nelems, stride, mpi_type, *strided_cnt, *strided_type))
VP_ENS(vp_sdt_live(mpi_type, *strided_type))
VP_ENS(vp_sdt_extent(mpi_type, *strided_type, required_ext_nelems))
VP_ENS(vp_cache_ok())
VP_ASG(vp, OSHMPI_strided_dtype_cache, *strided_cnt, *strided_type);

int vp_main(void)
{
    vp_world();
    vp_world_cache(2);
    VP_IN_TO(size_t, in.n, "nelems");
    VP_IN_TO(long, in.st, "stride");
    VP_IN_TO(int, in.mt, "mpi_type");
    VP_IN_TO(size_t, in.ext, "ext");
    VP_ASSUME(vp_sdt_pre(in.n, in.st, in.mt, in.ext));
    VP_REACH("pre");
#ifdef VP_FREE
    OSHMPI_create_strided_dtype(in.n, in.st, in.mt, in.ext, &in.cnt, &in.rt);
    int rt0 = in.rt;
    OSHMPI_free_strided_dtype(in.mt, &in.rt);
    VP_ASSERT("cache entries survive the release of a datatype", vp_cache_ok());
    OSHMPI_strided_finalize();
    VP_ASSERT("cached datatypes are released at finalize", rt0 == in.mt || vp.dt[rt0 - VP_DT0].freed);
#else
    OSHMPI_create_strided_dtype(in.n, in.st, in.mt, in.ext, &in.cnt, &in.rt);
    VP_POST("datatype denotes the requested elements", vp_sdt_elems(in.n, in.st, in.mt, in.cnt, in.rt));
    VP_POST("datatype is live", vp_sdt_live(in.mt, in.rt));
    VP_POST("datatype has the requested extent", vp_sdt_extent(in.mt, in.rt, in.ext));
    VP_POST("cache entries stay valid", vp_cache_ok());
#endif
    VP_REACH("post");
    return 0;
}
