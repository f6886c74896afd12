/* Communicators and groups.  A group's members are tracked at one arbitrary index vp.w_i. */
#ifndef VP_COMM_H
#define VP_COMM_H
#define VP_GRP0 60
#define VP_NGRP 6
enum { VP_CK_DUP = 1, VP_CK_SPLIT, VP_CK_SHARED, VP_CK_GROUP };
static OSHMPI_team_t vp_team_user;      /* a team created by the program */
int vp_wi;
static void vp_reset_comm(void)
{
    vp.ncomm = 0; vp.ngrp = 0;
    VP_IN_TO(int, vp.w_i, "w_i");
    VP_ASSUME(vp.w_i >= 0);
    vp_wi = vp.w_i;
    VP_IN_TO(int, vp_team_user.n_pes, "u_n_pes");
    VP_IN_TO(int, vp_team_user.my_pe, "u_my_pe");
    VP_ASSUME(vp_team_user.n_pes >= 1 && vp_team_user.n_pes <= OSHMPI_global.team_world_n_pes
              && vp_team_user.my_pe >= 0 && vp_team_user.my_pe < vp_team_user.n_pes);
    vp_team_user.comm = 16; vp_team_user.group = 16;
}
static int vp_comm_live(int c)
{
    return c == 10 || c == 11 || c == VP_AM_COMM || c == VP_ACK_COMM || c == 16 || c == MPI_COMM_WORLD
        || (c >= VP_COMM0 && c < VP_COMM0 + vp.ncomm && !vp.comm[c - VP_COMM0].freed);
}
static int vp_comm_new(int parent, int kind, int color, int key)
{
    VP_ASSUME(vp.ncomm < VP_NCOMM);
    int i = vp.ncomm++;
    vp.comm[i].parent = parent; vp.comm[i].kind = kind; vp.comm[i].color = color; vp.comm[i].key = key; vp.comm[i].freed = 0;
    vp.comm[i].size = 0; vp.comm[i].rank = 0; vp.comm[i].group = 0;
    return VP_COMM0 + i;
}
static int vp_comm_size_of(int c)
{
    if (c == 11) return OSHMPI_global.team_shared_n_pes;
    if (c == 16) return vp_team_user.n_pes;
    if (c >= VP_COMM0 && c < VP_COMM0 + VP_NCOMM) return vp.comm[c - VP_COMM0].size;
    return vp.world_size ? vp.world_size : OSHMPI_global.team_world_n_pes;
}
static int vp_comm_rank_of(int c)
{
    if (c == 11) return OSHMPI_global.team_shared_my_pe;
    if (c == 16) return vp_team_user.my_pe;
    if (c >= VP_COMM0 && c < VP_COMM0 + VP_NCOMM) return vp.comm[c - VP_COMM0].rank;
    return vp.world_size ? vp.world_rank : OSHMPI_global.team_world_my_pe;
}
#define VP_COMM_USE(c) do { VP_ASSERT("communicator valid", vp_comm_live(c)); VP_ASSUME(vp_comm_live(c)); } while (0)
int MPI_Comm_size(MPI_Comm c, int *n) { VP_COMM_USE(c); *n = vp_comm_size_of(c); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { VP_COMM_USE(c); *r = vp_comm_rank_of(c); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out)
{
    VP_COMM_USE(c);
    int n = vp_comm_new(c, VP_CK_DUP, 0, 0);
    vp.comm[n - VP_COMM0].size = vp_comm_size_of(c); vp.comm[n - VP_COMM0].rank = vp_comm_rank_of(c);
    *out = n;
    vp.order++;
    return 0;
}
static void vp_comm_part(int n, int parent)
{
    int s, r, ps = vp_comm_size_of(parent);
    VP_IN_TO(int, s, "part_size"); VP_IN_TO(int, r, "part_rank");
    VP_ASSUME(s >= 1 && s <= ps && r >= 0 && r < s);
    vp.comm[n - VP_COMM0].size = s; vp.comm[n - VP_COMM0].rank = r;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out)
{
    VP_COMM_USE(c);
    VP_ASSERT("split color valid", color >= 0 || color == MPI_UNDEFINED);
    int n = vp_comm_new(c, VP_CK_SPLIT, color, key);
    vp_comm_part(n, c);
    vp.order++;
    *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : n;
    return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info info, MPI_Comm *out)
{
    VP_COMM_USE(c);
    int n = vp_comm_new(c, type == MPI_COMM_TYPE_SHARED ? VP_CK_SHARED : VP_CK_SPLIT, 0, key);
    vp_comm_part(n, c);
    vp.order++;
    *out = n;
    return 0;
}
int MPI_Comm_free(MPI_Comm *c)
{
    VP_ASSERT("communicator freed is live", vp_comm_live(*c) && *c != MPI_COMM_WORLD);
    VP_ASSUME(vp_comm_live(*c));
    if (*c >= VP_COMM0) vp.comm[*c - VP_COMM0].freed = 1;
    else if (*c < 32) { VP_ASSERT("communicator freed once", !(vp.comm_freed & (1u << *c))); vp.comm_freed |= 1u << *c; }
    *c = MPI_COMM_NULL;
    vp.order++;
    return 0;
}
/* groups */
static int vp_grp_live(int g) { return g == 10 || g == 11 || g == 16 || (g >= VP_GRP0 && g < VP_GRP0 + vp.ngrp && !vp.grp[g - VP_GRP0].freed); }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{
    VP_COMM_USE(c);
    VP_ASSUME(vp.ngrp < VP_NGRP);
    vp.grp[vp.ngrp].of_comm = c; vp.grp[vp.ngrp].size = vp_comm_size_of(c); vp.grp[vp.ngrp].freed = 0; vp.grp[vp.ngrp].parent = 0;
    *g = VP_GRP0 + vp.ngrp++;
    return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int ranks[], MPI_Group *out)
{
    VP_ASSERT("group valid", vp_grp_live(g));
    VP_ASSUME(vp.ngrp < VP_NGRP);
    VP_ASSERT("group size valid", n >= 0 && n <= vp_comm_size_of(g));
    VP_ASSUME(n >= 0 && n <= vp_comm_size_of(g));
    vp.grp[vp.ngrp].of_comm = 0; vp.grp[vp.ngrp].size = n; vp.grp[vp.ngrp].freed = 0; vp.grp[vp.ngrp].parent = g;
    vp.grp[vp.ngrp].member = vp.w_i < n ? ranks[vp.w_i] : -1;
    VP_ASSERT("group members exist", vp.w_i >= n || (ranks[vp.w_i] >= 0 && ranks[vp.w_i] < vp_comm_size_of(g)));
    *out = VP_GRP0 + vp.ngrp++;
    return 0;
}
int MPI_Group_free(MPI_Group *g)
{
    VP_ASSERT("group freed is live", vp_grp_live(*g));
    VP_ASSUME(vp_grp_live(*g));
    if (*g >= VP_GRP0) vp.grp[*g - VP_GRP0].freed = 1;
    else if (*g < 32) { VP_ASSERT("group freed once", !(vp.grp_freed & (1u << *g))); vp.grp_freed |= 1u << *g; }
    *g = MPI_GROUP_NULL;
    return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *out)
{
    VP_COMM_USE(c);
    VP_ASSERT("group valid", vp_grp_live(g) && g >= VP_GRP0);
    VP_ASSUME(vp_grp_live(g) && g >= VP_GRP0);
    VP_ASSERT("tag valid", tag >= 0);
    int n = vp_comm_new(c, VP_CK_GROUP, 0, 0);
    vp.comm[n - VP_COMM0].size = vp.grp[g - VP_GRP0].size;
    vp.comm[n - VP_COMM0].group = g;
    *out = n;
    return 0;
}
/* the communicator consists of exactly the PEs of the active set, in order (checked at index w_i) */
static int vp_comm_is_aset(int c, int start, int log, int size)
{
    if (c == 10) return start == 0 && size == OSHMPI_global.team_world_n_pes && (log == 0 || size == 1);
    if (c < VP_COMM0 || c >= VP_COMM0 + vp.ncomm || vp.comm[c - VP_COMM0].kind != VP_CK_GROUP || vp.comm[c - VP_COMM0].freed) return 0;
    int g = vp.comm[c - VP_COMM0].group - VP_GRP0;
    return vp.comm[c - VP_COMM0].parent == 10 && vp.grp[g].parent == 10 && vp.grp[g].size == size
        && (vp.w_i >= size || vp.grp[g].member == start + (int) ((unsigned) vp.w_i << log));
}
#endif
