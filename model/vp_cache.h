/* Strided-datatype cache in an arbitrary valid state with up to two entries.
 * Representation invariant: an entry's datatype is live, committed and denotes `nelems` elements of
 * `dtype` at `stride`, with the extent the entry was made for. */
#ifndef VP_CACHE_H
#define VP_CACHE_H
#ifdef OSHMPI_ENABLE_STRIDED_DTYPE_CACHE
static OSHMPI_dtype_cache_obj_t vp_cent0, vp_cent1;
static int vp_cache_entry_ok(OSHMPI_dtype_cache_obj_t *c)
{
    if (c->sdtype < VP_DT0 || c->sdtype >= VP_DT0 + vp.ndt) return 0;
    vp_dt_t *d = &vp.dt[c->sdtype - VP_DT0];
    return d->committed && !d->freed && d->base == c->dtype && d->cnt == c->nelems && d->blk == 1 && d->st == c->stride
        && (c->ext_nelems ? d->ext == (long) (c->ext_nelems << vp_bshift(vp_bsize(c->dtype))) : d->ext == -1);
}
static void vp_cache_add(OSHMPI_dtype_cache_obj_t *c)
{
    int dt;
    VP_IN_TO(size_t, c->nelems, "ce_nelems");
    VP_IN_TO(long, c->stride, "ce_stride");
    VP_IN_TO(int, dt, "ce_dtype");
    VP_IN_TO(size_t, c->ext_nelems, "ce_ext");
    c->dtype = dt;
    VP_ASSUME(c->nelems <= 0x7fffffff && c->stride >= 2 && c->stride <= 0x7fffffffL && dt > 0 && dt < VP_BASIC_MAX && c->ext_nelems < (1ul << 62));
    vp_dt_t *d = &vp.dt[vp.ndt];
    d->base = dt; d->cnt = c->nelems; d->blk = 1; d->st = c->stride; d->committed = 1; d->freed = 0;
    d->ext = c->ext_nelems ? (long) (c->ext_nelems << vp_bshift(vp_bsize(dt))) : -1;
    c->sdtype = VP_DT0 + vp.ndt++;
    c->next = OSHMPI_strided_dtype_cache.head;
    OSHMPI_strided_dtype_cache.head = c;
    OSHMPI_strided_dtype_cache.nobjs++;
}
static void vp_world_cache(int max)
{
    int n;
    OSHMPI_strided_dtype_cache.head = NULL;
    OSHMPI_strided_dtype_cache.nobjs = 0;
    VP_IN_TO(int, n, "cache_entries");
    VP_ASSUME(n >= 0 && n <= max);
    if (n > 0) vp_cache_add(&vp_cent0);
    if (n > 1) vp_cache_add(&vp_cent1);
}
static int vp_cache_ok(void)
{
    OSHMPI_dtype_cache_obj_t *c = OSHMPI_strided_dtype_cache.head;
    for (int i = 0; i < 5 && c; i++, c = c->next) if (!vp_cache_entry_ok(c)) return 0;
    return c == NULL;
}
#else
static void vp_world_cache(int max) { }
static int vp_cache_ok(void) { return 1; }
#endif
#endif
