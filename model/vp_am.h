/* Active-message state: arbitrary valid OSHMPI_am.  For units that do not use messages, nothing arrives. */
#ifndef VP_AM_H
#define VP_AM_H
#ifndef VP_OWN_REMOTE
static void vp_remote(void) { }
static void vp_deliver(vp_msg_t *m, MPI_Status *st) { (void) m; (void) st; }
#endif
static int vp_is_cb(int comm, int src, const void *buf)
{
    (void) comm; (void) src;
    return buf == (const void *) &OSHMPI_am.cb_pkt;
}
#define VP_AM_COMM 12
#define VP_ACK_COMM 13
#ifdef VP_AM_NMAX
/* n_pes <= VP_AM_NMAX; flags hold arbitrary values; an unexecuted message to w_pe => its flag is set */
static OSHMPIU_atomic_flag_t vp_flags[VP_AM_NMAX];
static void vp_am_world(void)
{
    OSHMPI_am.comm = VP_AM_COMM;
    OSHMPI_am.ack_comm = VP_ACK_COMM;
    OSHMPI_am.cb_req = VP_REQ_CB;
    vp.cb_posted = 1; vp.cb_buf = &OSHMPI_am.cb_pkt; vp.cb_comm = VP_AM_COMM; vp.cb_tag = OSHMPI_AM_PKT_TAG; vp.cb_src = MPI_ANY_SOURCE;
    OSHMPI_am.outstanding_op_flags = vp_flags;
    VP_IN_TO(unsigned char, vp.am_pend, "am_pend"); vp.am_pend &= 1;
#ifdef VP_AM_CONTRACT
    for (int i = 0; i < VP_AM_NMAX; i++) VP_FLAG(vp_flags[i]) = 0;
#else
    VP_ASSUME(OSHMPI_global.team_world_n_pes <= VP_AM_NMAX);
    for (int i = 0; i < VP_AM_NMAX; i++) {
        unsigned f;
        VP_IN_TO(unsigned, f, "am_flag");
        VP_FLAG(vp_flags[i]) = f & 1;
    }
    for (int i = 0; i < VP_AM_NMAX; i++)
        if (i == vp.w_pe) VP_ASSUME(!vp.am_pend || VP_FLAG(vp_flags[i]));
#endif
    int t, ub;
    VP_IN_TO(int, ub, "tag_ub");
    VP_ASSUME(ub >= 32767);
    OSHMPI_am.pkt_ptag_ub = ub;
    VP_IN_TO(int, t, "tag_off");
    VP_ASSUME(t >= 0 && t < ub - OSHMPI_AM_PKT_PTAG_START);
    OSHMPIU_ATOMIC_CNT_STORE(OSHMPI_am.pkt_ptag_off, t);
}
static int vp_am_flag_w(void)
{
    int r = 0;
    for (int i = 0; i < VP_AM_NMAX; i++) if (i == vp.w_pe) r = VP_FLAG(vp_flags[i]) != 0;
    return r;
}
#endif
#endif
