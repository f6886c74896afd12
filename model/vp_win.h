/* Window creation and destruction, info objects.  Windows 1..9 exist in the initial state (vp_world.h). */
#ifndef VP_WIN_H
#define VP_WIN_H
#define VP_WNEW0 40
#define VP_NWNEW 8
#define VP_INFO 77
#ifndef VP_ON_RELEASE
#define VP_ON_RELEASE(w) do { } while (0)       /* unit hook: a window is about to be released */
#endif
static struct vp_wn_s {
    int n, info_live, info_made, info_t, args_t, clock;
    struct { unsigned long base; long size; int unit, comm, info, locked, freed, dyn; } w[VP_NWNEW];
    int unlocked[VP_NWIN], freed[VP_NWIN], nfreed;
} vp_wn;
static int vp_win_new(unsigned long base, long size, int unit, int comm, int info)
{
    VP_ASSERT("communicator valid", vp_comm_live(comm));
    VP_ASSERT("info valid", info == MPI_INFO_NULL || (info == VP_INFO && vp_wn.info_live));
    VP_ASSUME(vp_wn.n < VP_NWNEW);
    int i = vp_wn.n++;
    vp_wn.w[i].base = base; vp_wn.w[i].size = size; vp_wn.w[i].unit = unit; vp_wn.w[i].comm = comm; vp_wn.w[i].info = info;
    vp_wn.w[i].locked = 0; vp_wn.w[i].freed = 0; vp_wn.w[i].dyn = 0;
    vp_wn.clock++;
    return VP_WNEW0 + i;
}
int MPI_Win_create(void *b, MPI_Aint size, int unit, MPI_Info info, MPI_Comm c, MPI_Win *w) { *w = vp_win_new((unsigned long) b, size, unit, c, info); return 0; }
static int vp_wnew(MPI_Win w) { return w >= VP_WNEW0 && w < VP_WNEW0 + vp_wn.n; }
#define VP_WOLD(w) ((w) > 0 && (w) < VP_NWIN && vp.win[w].valid)
int MPI_Win_lock_all(int mode, MPI_Win w)
{
    VP_ASSERT("window locked once", vp_wnew(w) && !vp_wn.w[w - VP_WNEW0].locked && !vp_wn.w[w - VP_WNEW0].freed);
    VP_ASSUME(vp_wnew(w));
    vp_wn.w[w - VP_WNEW0].locked = 1;
    return 0;
}
int MPI_Win_unlock_all(MPI_Win w)
{
    VP_ON_RELEASE(w);
    VP_ASSERT("window unlocked once", (VP_WOLD(w) && !vp_wn.unlocked[w]) || (vp_wnew(w) && vp_wn.w[w - VP_WNEW0].locked));
    VP_ASSUME(VP_WOLD(w) || vp_wnew(w));
    if (w < VP_NWIN) { vp_wn.unlocked[w] = 1; vp.win[w].pend = 0; vp.win[w].pend_loc = 0; }
    else vp_wn.w[w - VP_WNEW0].locked = 0;
    return 0;
}
int MPI_Win_free(MPI_Win *w)
{
    VP_ASSERT("window freed once, after its epoch", (VP_WOLD(*w) && vp_wn.unlocked[*w] && !vp_wn.freed[*w])
              || (vp_wnew(*w) && !vp_wn.w[*w - VP_WNEW0].locked && !vp_wn.w[*w - VP_WNEW0].freed));
    VP_ASSUME(VP_WOLD(*w) || vp_wnew(*w));
    if (*w < VP_NWIN) { vp_wn.freed[*w] = 1; vp.win[*w].valid = 0; }
    else vp_wn.w[*w - VP_WNEW0].freed = 1;
    vp_wn.nfreed++; vp_wn.clock++;
    *w = MPI_WIN_NULL;
    return 0;
}
int MPI_Info_create(MPI_Info *i)
{
    VP_ASSERT("one info object at a time", !vp_wn.info_live);
    vp_wn.info_live = 1; vp_wn.info_made++;
    *i = VP_INFO;
    return 0;
}
int MPI_Info_free(MPI_Info *i)
{
    VP_ASSERT("info object freed once", *i == VP_INFO && vp_wn.info_live);
    vp_wn.info_live = 0;
    *i = MPI_INFO_NULL;
    return 0;
}
#ifndef VP_OWN_INFO_SET
int MPI_Info_set(MPI_Info i, const char *k, const char *v) { VP_ASSERT("info object valid", i == VP_INFO && vp_wn.info_live); return 0; }
#endif
static void vp_win_reset(void)
{
    vp_wn.n = vp_wn.info_live = vp_wn.info_made = vp_wn.info_t = vp_wn.args_t = vp_wn.clock = vp_wn.nfreed = 0;
    for (int i = 0; i < VP_NWIN; i++) vp_wn.unlocked[i] = vp_wn.freed[i] = 0;
}
#endif
