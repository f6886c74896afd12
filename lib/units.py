"""The units of each property: harness, contract enforced, configuration, bounds."""
CONFS = {
    "default": ((), ()),
    "notrack": ((), ("OSHMPI_ENABLE_OP_TRACKING",)),
    "nocache": ((), ("OSHMPI_ENABLE_STRIDED_DTYPE_CACHE",)),
    "mt": (("OSHMPI_ENABLE_THREAD_MULTIPLE",), ("OSHMPI_ENABLE_THREAD_SERIALIZED",)),
}
PROPS = {}      # id -> dict(units, level, assume, explain)
FALLBACK = {}   # name -> list of units


def prop(pid, units, level="proof", assume=(), explain=""):
    PROPS[pid] = dict(units=units, level=level, assume=list(assume), explain=explain)


def U(name, src, defs=(), **kw):
    return dict(name=name, src=src, defs=list(defs), **kw)


def for_property(pid, tier):
    return [u for u in PROPS[pid]["units"] if tier == "thorough" or not u.get("thorough")]


def fallback(u):
    return FALLBACK[u["fallback"]]


def assumptions(pid):
    return PROPS[pid]["assume"]


def level(pid):
    return PROPS[pid]["level"]


def explain(pid):
    return PROPS[pid]["explain"]


A_MPI = "MPI behaves as the executable contracts in model/ state (window, datatype, request, collective and communicator semantics of MPI-3.1)"
A_MEM = "host memory is not exhausted (malloc succeeds)"
A_VALID = "the caller's arguments meet OpenSHMEM's preconditions (symmetric address range, PE in range, element count at most INT_MAX)"
A_SEQ = "one thread at a time is inside the library (thread interleavings are not explored)"
A_NSPACE = "at most two user spaces with one explicit context each exist besides the default heap and data segment"

RTYPES = ["float", "double", "longdouble", "char", "schar", "short", "int", "long", "longlong", "uchar", "ushort", "uint", "ulong",
          "ulonglong", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "size", "ptrdiff"]
SIZES = ["8", "16", "32", "64", "128"]
FAM = dict(put=1, put_nbi=2, get=3, get_nbi=4, iput=5, iget=6, p=7, g=8)


def rma_inline(fam):
    n = FAM[fam]
    tys = ["VP_T_" + t for t in RTYPES]
    if n <= 6:
        tys += ["VP_S_" + s for s in SIZES]
    if n <= 4:
        tys.append("VP_T_MEM")
    return [U("rma.%s.inline.%s" % (fam, t[3:]), "rma.c", ["VP_FAM=%d" % n, "VP_LEVEL=3", "VP_TY=" + t], cost=30, exact=True, timeout=200) for t in tys]


def rma_units(fam, prefix=""):
    n = FAM[fam]
    FALLBACK["rma." + fam] = rma_inline(fam)
    out = []
    if n <= 6:
        out.append(U("rma.%s.core" % fam, "rma.c", ["VP_FAM=%d" % n, "VP_LEVEL=1"], enforce="OSHMPI_ctx_%s/vp_c_core" % fam,
                     replace_calls=["OSHMPI_create_strided_dtype:vp_sdt_contract"] if n >= 5 else [],
                     fallback="rma." + fam, cost=200 if n >= 5 else 40, exact=n >= 5, funcs=["OSHMPI_ctx_" + fam]))
    names = (["shmem_[ctx_]{TYPE}_" + fam] if n > 6 else
             ["shmem_[ctx_]{TYPE}_" + fam, "shmem_[ctx_]%s{SIZE}%s" % (fam.replace("_nbi", ""), "_nbi" if "nbi" in fam else "")])
    out.append(U("rma.%s.api" % fam, "rma.c", ["VP_FAM=%d" % n, "VP_LEVEL=2"], enforce="vp_xfer", fallback="rma." + fam, cost=10, funcs=names))
    return out


STRIDED = [U("strided.create", "strided.c", [], enforce="OSHMPI_create_strided_dtype/vp_c_sdt", funcs=["OSHMPI_create_strided_dtype", "strided_find_dtype_cache", "strided_set_dtype_cache"]),
           U("strided.free", "strided.c", ["VP_FREE"], funcs=["OSHMPI_free_strided_dtype", "OSHMPI_strided_finalize"]),
           U("strided.create.nocache", "strided.c", [], conf="nocache", enforce="OSHMPI_create_strided_dtype/vp_c_sdt", funcs=[])]

prop("P01", rma_units("put") + rma_units("put_nbi") + rma_units("get") + rma_units("get_nbi") + rma_units("p") + rma_units("g"),
     assume=[A_MPI, A_MEM, A_VALID, A_SEQ, A_NSPACE])
prop("P02", rma_units("iput") + rma_units("iget") + STRIDED, assume=[A_MPI, A_MEM, A_VALID, A_SEQ, A_NSPACE,
     "the strided datatype cache holds at most two entries before the call"])

Q = ["OSHMPI_sobj_query_attr_ictx:vp_query_contract"]
REF = ["put", "put_nbi", "get", "get_nbi", "iput", "iget", "amo_cswap", "amo_fetch", "amo_post"]
ADDR = [U("addr.query", "addr.c", ["VP_M=1"], enforce="OSHMPI_sobj_query_attr_ictx/vp_c_query", fallback="addr.query", funcs=["OSHMPI_sobj_query_attr_ictx"]),
        U("addr.disp", "addr.c", ["VP_M=2"], enforce="OSHMPI_sobj_trans_vaddr_to_disp/vp_c_disp", fallback="addr.disp", funcs=["OSHMPI_sobj_trans_vaddr_to_disp"]),
        U("addr.translate", "addr.c", ["VP_M=3"], funcs=["OSHMPI_sobj_trans_disp_to_vaddr", "OSHMPI_sobj_query_attr_ictx", "OSHMPI_sobj_trans_vaddr_to_disp"]),
        U("addr.handle", "addr.c", ["VP_M=5"], funcs=["OSHMPI_sobj_set_handle"]),
        U("addr.queries", "addr.c", ["VP_M=6"], funcs=["shmem_pe_accessible", "shmem_addr_accessible", "shmem_ptr", "shmem_my_pe", "shmem_n_pes", "_my_pe", "_num_pes"])]
FALLBACK["addr.query"] = [U("addr.query.inline", "addr.c", ["VP_M=1"])]
FALLBACK["addr.disp"] = [U("addr.disp.inline", "addr.c", ["VP_M=2"])]
for i, n in enumerate(REF):
    FALLBACK["addr.refuse." + n] = [U("addr.refuse.%s.inline" % n, "addr.c", ["VP_M=4", "VP_MODE=%d" % i], unwind=4)]
    ADDR.append(U("addr.refuse." + n, "addr.c", ["VP_M=4", "VP_MODE=%d" % i], replace_calls=Q, unwind=4, fallback="addr.refuse." + n, funcs=["OSHMPI_" + ("ctx_" if i < 6 else "") + n]))
prop("P03", ADDR, assume=[A_MPI, A_MEM, A_SEQ, A_NSPACE])

A_NPES = "flush over the PEs of a set: at most 4 PEs (bounded; every PE of the set is covered by an arbitrary witness)"
ORD = dict(unwind=8, object_bits=11)
FLUSH = "OSHMPI_am_flush:vp_amflush_contract"
ACQ = "coll_acquire_comm:vp_acquire_contract"
AMFLUSH = U("order.amflush", "order.c", ["VP_M=2"], funcs=["OSHMPI_am_flush", "OSHMPI_am_flush_all", "OSHMPI_am_progress_mpi_waitall"], bounded="at most 4 PEs", **ORD)


def order_units(name, defs, rc, funcs):
    FALLBACK["order." + name] = [U("order.%s.inline" % name, "order.c", defs + ["VP_INLINE", "VP_NSPACE=1"], cost=60, bounded="at most 3 PEs, one space", **ORD)]
    return [U("order." + name, "order.c", defs, replace_calls=rc, fallback="order." + name, cost=20, funcs=funcs, **ORD)]


# ---- collectives
COLL = dict(unwind=8, object_bits=11)
FALLBACK["coll.acquire"] = [U("coll.acquire.small", "coll.c", ["VP_M=1", "VP_FAM=0", "VP_SMALL"], bounded="active sets of at most 4 PEs", cost=30, **COLL)]
ACQUIRE = [U("coll.acquire", "coll.c", ["VP_M=1", "VP_FAM=0"], loops=["aset_pe_list"], fallback="coll.acquire", cost=30,
             funcs=["coll_acquire_comm", "coll_find_comm_cache", "coll_set_comm_cache"], **COLL)]

A_CC = "the active-set communicator cache holds at most two entries before the call"
ORD_A = [A_MPI, A_MEM, A_SEQ, A_NSPACE, A_NPES]
prop("P07", order_units("quiet", ["VP_M=1"], [FLUSH], ["shmem_quiet", "shmem_ctx_quiet", "OSHMPI_ctx_quiet", "ctx_flush_impl"]) + [AMFLUSH], assume=ORD_A)
prop("P08", order_units("fence", ["VP_M=1", "VP_FENCE"], [FLUSH], ["shmem_fence", "shmem_ctx_fence", "OSHMPI_ctx_fence", "ctx_flush_impl"]) + [AMFLUSH], assume=ORD_A)
prop("P09", order_units("barrier_all", ["VP_M=3", "VP_FORM=0"], [FLUSH], ["shmem_barrier_all", "OSHMPI_barrier_all", "OSHMPI_am_progress_mpi_barrier"])
     + order_units("barrier", ["VP_M=3", "VP_FORM=1"], [FLUSH, ACQ], ["shmem_barrier", "OSHMPI_barrier"])
     + order_units("sync_all", ["VP_M=3", "VP_FORM=2"], [], ["shmem_sync_all", "OSHMPI_sync_all", "OSHMPI_mem_sync_all"])
     + order_units("sync", ["VP_M=3", "VP_FORM=3"], [ACQ], ["shmem_sync_aset", "OSHMPI_sync"])
     + order_units("team_sync", ["VP_M=3", "VP_FORM=4"], [], ["shmem_team_sync", "OSHMPI_sync_team"]) + [AMFLUSH] + ACQUIRE, assume=ORD_A + [A_CC])

CFAM = dict(broadcast=1, collect=2, fcollect=3, alltoall=4, alltoalls=5, reduce=6)
BITT = "uchar ushort uint ulong ulonglong int8 int16 int32 int64 uint8 uint16 uint32 uint64 size".split()
BITA = ["short", "int", "long", "longlong"]
ROPS = ["and", "or", "xor", "min", "max", "sum", "prod"]
ACQ = "coll_acquire_comm:vp_acquire_contract"


def coll_units(aset):
    out, A, tag = [], ["VP_ASET"] if aset else [], "aset" if aset else "team"
    for fam, n in CFAM.items():
        nm = "coll.%s.%s" % (tag, fam)
        d = ["VP_FAM=%d" % n] + A
        bd = "active sets of at most 3 PEs" if aset else ""
        if n == 5:
            bd += (", " if bd else "") + "at most 31 elements and strides"
        inl = dict(bounded=bd, **COLL) if bd else dict(COLL)
        ib = ["VP_INLINE", "VP_NSPACE=1"]
        FALLBACK[nm + ".core"] = [U(nm + ".core.inline", "coll.c", ["VP_M=4"] + d + ib, cost=60, **inl)]
        if n == 6:
            tys = [(t, r) for r in ROPS for t in ((BITA if aset else BITT) if r in ROPS[:3] else
                   (BITA + ["float", "double", "longdouble"] if aset else RTYPES) + (["complexf", "complexd"] if r in ROPS[5:] else []))]
        else:
            tys = [(t, "and") for t in (["32", "64"] if aset else RTYPES + ["mem"])]
        FALLBACK[nm + ".api"] = [U("%s.inline.%s%s" % (nm, t, "." + r if n == 6 else ""), "coll.c", ["VP_M=6", "VP_TY=VP_T_" + t, "VP_RO=VP_R_" + r] + d + ib, **inl) for t, r in tys]
        rc = ([ACQ] if aset else []) + (["OSHMPI_create_strided_dtype:vp_sdt_contract"] if n == 5 else [])
        core = "OSHMPI_%s%s" % (fam if n < 6 else "allreduce", "" if aset else "_team")
        out.append(U(nm + ".core", "coll.c", ["VP_M=4"] + d, replace_calls=rc, fallback=nm + ".core", cost=50 if n == 5 else 15, smt=n == 5, funcs=[core, "OSHMPI_am_progress_mpi_*"],
                     **(dict(COLL, bounded="at most 4 members") if n == 2 else COLL)))
        pub = (["shmem_%s32" % fam, "shmem_%s64" % fam] if aset else ["shmem_{TYPE}_" + fam, "shmem_%smem" % fam]) if n < 6 else ["shmem_{TYPE}_{OP}_" + ("to_all" if aset else "reduce")]
        out.append(U(nm + ".api", "coll.c", ["VP_M=5"] + d, fallback=nm + ".api", cost=5, funcs=pub, **COLL))
    return out


SDT = [u for u in STRIDED if u["name"] in ("strided.create", "strided.free")]
A_COLL = [A_MPI, A_MEM, A_SEQ, "the members' calls match (same routine, root, counts where OpenSHMEM requires it, active set or team)", "source and destination overlap only as OpenSHMEM allows"]
prop("P10", coll_units(False) + SDT, assume=A_COLL)
prop("P11", coll_units(True) + SDT + ACQUIRE, assume=A_COLL + [A_CC])
prop("P12", ACQUIRE + [U("coll.reuse", "coll.c", ["VP_M=2", "VP_FAM=0", "VP_SMALL"], bounded="active sets of at most 4 PEs", cost=40, funcs=[], **COLL),
                       U("coll.finalize", "coll.c", ["VP_M=3", "VP_FAM=0", "VP_SMALL"], cost=20, funcs=["OSHMPI_coll_finalize"], **COLL)], assume=[A_MPI, A_MEM, A_SEQ, A_CC])

# ---- atomics
AMO_STD = ["int", "long", "longlong", "uint", "ulong", "ulonglong", "int32", "int64", "uint32", "uint64", "size", "ptrdiff"]
AMO_GRP = {1: (AMO_STD, "compare_swap fetch_inc inc fetch_add add compare_swap_nbi fetch_inc_nbi fetch_add_nbi d_cswap d_finc d_inc d_fadd d_add".split()),
           2: (["float", "double"] + AMO_STD, "fetch set swap fetch_nbi swap_nbi d_fetch d_set d_swap".split()),
           3: (["uint", "ulong", "ulonglong", "int32", "int64", "uint32", "uint64"], "fetch_and and fetch_and_nbi fetch_or or fetch_or_nbi fetch_xor xor fetch_xor_nbi".split())}


def amo_units():
    out = []
    core = {"cswap": [], "fetch": [], "post": []}
    for g, (tys, ops) in AMO_GRP.items():
        for o in ops:
            FALLBACK["amo." + o] = [U("amo.%s.%s.inline" % (o, t), "amo.c", ["VP_LEVEL=3", "VP_GRP=%d" % g, "VP_TY=VP_T_" + t, "VP_OP=VP_O_" + o], cost=7) for t in tys]
            k = "cswap" if "swap" in o and g == 1 else "fetch" if ("fetch" in o or "swap" in o or o in ("d_finc", "d_fadd")) else "post"
            core[k] += FALLBACK["amo." + o]
            nm = o[2:] if o.startswith("d_") else "[ctx_]{TYPE}_atomic_" + o
            out.append(U("amo.api." + o, "amo.c", ["VP_LEVEL=2", "VP_GRP=%d" % g, "VP_OP=VP_O_" + o], fallback="amo." + o, cost=3, object_bits=12,
                         funcs=["shmem_" + (nm if not o.startswith("d_") else "{TYPE}_" + nm)]))
    for i, k in enumerate(["cswap", "fetch", "post"]):
        FALLBACK["amo.core." + k] = core[k]
        out.append(U("amo.core." + k, "amo.c", ["VP_LEVEL=1", "VP_K=%d" % (i + 1)], enforce="OSHMPI_amo_%s/vp_c_core" % k, fallback="amo.core." + k, cost=20, funcs=["OSHMPI_amo_" + k]))
    return out


prop("P05", amo_units(), assume=[A_MPI, A_MEM, A_VALID, A_SEQ, A_NSPACE])

# ---- active messages
AM = dict(object_bits=11, timeout=500, cost=60, patience=10)


def am_rma():
    out = []
    for fam in ["put", "get", "iput", "iget"]:
        d = ["VP_M=1", "VP_FAM=%d" % FAM[fam]]
        fs = ["OSHMPI_ctx_" + fam, "OSHMPI_rma_am_" + fam, "OSHMPI_rma_am_%s_pkt_cb" % fam, "OSHMPI_am_cb_progress", "OSHMPI_sobj_trans_disp_to_vaddr", "OSHMPI_create_strided_dtype"]
        out.append(U("am.%s" % fam, "am.c", d, funcs=fs, **AM))
        out.append(U("am.%s.late" % fam, "am.c", d + ["VP_LATE"], **AM))
        out.append(U("am.%s.pair" % fam, "am.c", d + ["VP_PAIR"] + (["VP_LATE"] if fam == "put" else []), thorough=fam[0] == "i", **AM))
    for fam in ["put_nbi", "get_nbi"]:
        out.append(U("am.%s" % fam, "am.c", ["VP_M=1", "VP_FAM=%d" % FAM[fam], "VP_LATE"], funcs=["OSHMPI_ctx_" + fam], **AM))
    return out


def am_amo():
    out = []
    for i, k in enumerate(["cswap", "fetch", "post"]):
        d = ["VP_M=2", "VP_K=%d" % (i + 1)]
        out.append(U("am.amo.%s" % k, "am.c", d, funcs=["OSHMPI_amo_" + k, "OSHMPI_amo_am_" + k, "OSHMPI_amo_am_%s_pkt_cb" % k], **AM))
        out.append(U("am.amo.%s.late" % k, "am.c", d + ["VP_LATE"], **AM))
        out.append(U("am.amo.%s.pair" % k, "am.c", d + ["VP_PAIR"] + (["VP_LATE"] if k == "post" else []), **AM))
    return out


def am_api():
    """the public routines on the message path: core calls by contract; in line up to the request that leaves otherwise"""
    rma, amo = [], []
    for fam in ["put", "put_nbi", "get", "get_nbi", "iput", "iget", "p", "g"]:
        FALLBACK["rma.am." + fam] = [dict(u, name=u["name"].replace("inline", "am"), defs=u["defs"] + ["VP_VIA_AM", "VP_NSPACE=1"], exact=False, object_bits=11) for u in rma_inline(fam)]
        rma += [dict(u, fallback="rma.am." + fam) for u in rma_units(fam) if u["name"].endswith(".api")]
    for u in amo_units():
        if u["name"].startswith("amo.api."):
            o = u["name"][8:]
            FALLBACK["amo.am." + o] = [dict(x, name=x["name"].replace("inline", "am"), defs=x["defs"] + ["VP_VIA_AM", "VP_NSPACE=1"], object_bits=11) for x in FALLBACK["amo." + o]]
            amo.append(dict(u, fallback="amo.am." + o))
    return rma, amo


AM_API = am_api()
AM_A = [A_MPI, A_MEM, A_VALID, A_SEQ, A_NSPACE, "the target PE executes waiting requests in the order received (MPI non-overtaking), at the initiator's first or second poll or after its return",
        "at most one earlier request to the same PE is unexecuted when an operation starts"]
prop("P04", am_rma() + AM_API[0], assume=AM_A)
prop("P06", am_amo() + AM_API[1], assume=AM_A)
PG = dict(object_bits=10)
WAIT = ["send", "recv", "waitall", "barrier", "bcast", "allgather", "allgatherv", "alltoall", "allreduce"]
prop("P22", [U("progress.once", "progress.c", ["VP_M=1"], funcs=["OSHMPI_am_cb_progress", "am_cb_manual_progress", "am_cb_handle_pkt", "OSHMPI_am_cb_regist"], **PG),
             U("progress.flush", "progress.c", ["VP_M=2"], funcs=["OSHMPI_am_flush_pkt_cb"], **PG),
             U("progress.tag", "progress.c", ["VP_M=3", "VP_UB=0"], funcs=["OSHMPI_am_get_pkt_ptag"], **PG),
             U("progress.init", "progress.c", ["VP_M=5"], funcs=["OSHMPI_am_initialize", "am_cb_progress_start"], **PG),
             U("progress.flags", "progress.c", ["VP_M=5", "VP_FLAGS"], unwind=20, bounded="at most 4 PEs", **PG),
             U("progress.end", "progress.c", ["VP_M=6"], funcs=["OSHMPI_am_finalize", "am_cb_progress_end"], **PG)]
     + [U("progress.tag.%d" % u, "progress.c", ["VP_M=3", "VP_UB=%d" % u], cost=60, thorough=u == 32767, bounded="largest tag %d" % u, **PG) for u in (32767, 268435455, 0x7fffffff)]
     + [U("progress.wait." + w, "progress.c", ["VP_M=4", "VP_W=%d" % i], funcs=["OSHMPI_am_progress_mpi_" + w], bounded="the request completes at the fourth poll at the latest", **PG) for i, w in enumerate(WAIT)],
     assume=[A_MPI, A_MEM, A_SEQ])

# ---- point-to-point synchronization
W_TYPES = ["short", "int", "long", "longlong", "ushort", "uint", "ulong", "ulonglong", "int32", "int64", "uint32", "uint64", "size", "ptrdiff"]
PROG = "OSHMPI_am_cb_progress:vp_progress_contract"
P2P = dict(object_bits=10, replace_calls=[PROG, "OSHMPI_progress_poll_mpi:vp_poll_contract"], cost=3)


def p2p_units():
    out = []
    for w in ["T_" + t for t in W_TYPES] + ["W_" + t for t in W_TYPES[:4]]:
        d = ["VP_TY=VP_" + w]
        nm = "%s.%s" % ("wait" if w[0] == "W" else "wait_until", w[2:])
        FALLBACK[nm] = [U(nm + ".inline", "p2p.c", ["VP_M=1"] + d, unwind=5, bounded="at most three reads of the variable", **P2P)]
        out.append(U(nm, "p2p.c", ["VP_M=1"] + d, loops=["wait_until"], fallback=nm, funcs=["shmem_%s_%s" % (w[2:], nm.split(".")[0]), "OSHMPI_WAIT_UNTIL", "OSHMPI_COMP"], **P2P))
        if w[0] == "T":
            out.append(U("test." + w[2:], "p2p.c", ["VP_M=2"] + d, funcs=["shmem_%s_test" % w[2:], "OSHMPI_TEST"], **P2P))
            out.append(U("wait_until.refuse." + w[2:], "p2p.c", ["VP_M=3"] + d, unwind=5, **P2P))
            out.append(U("test.refuse." + w[2:], "p2p.c", ["VP_M=3", "VP_TEST"] + d, **P2P))
    return out


prop("P13", p2p_units(), assume=[A_MPI, A_MEM, A_VALID, A_SEQ, A_NSPACE, "the vector, any, all and some forms, which the library does not implement (it aborts), are not covered"])

# ---- locks
LOCK = dict(object_bits=10, replace_calls=[PROG, "OSHMPI_am_flush:vp_amflush_contract"], cost=8)


def lock_units():
    out = []
    for m, n in ((1, "set"), (2, "test"), (3, "clear")):
        for o, sh in ((1, 0), (1, 4), (2, 4), (3, 3), (3, 4)):
            d = ["VP_M=%d" % m, "VP_NSPACE=1", "VP_OBJ=%d" % o, "VP_SHAPE0=%d" % sh]
            nm = "lock.%s.%d%d" % (n, o, sh)
            kw = dict(LOCK, funcs=["shmem_%s_lock" % n, "OSHMPI_%s_lock" % n, "OSHMPI_ctx_quiet"][:3 if m == 3 else 2])
            if m != 2:
                FALLBACK[nm] = [U(nm + ".inline", "lock.c", d, unwind=6, bounded="at most three reads while waiting", **kw)]
                out.append(U(nm, "lock.c", d, loops=["lock"], fallback=nm, **kw))
            else:
                out.append(U(nm, "lock.c", d, **kw))
    return out


prop("P14", lock_units(), assume=[A_MPI, A_MEM, A_SEQ, "the other PEs act on the lock through the same routines (each is proved to keep to the permissions the others rely on)",
                                  "PEs clear only locks they hold and do not claim a lock they hold", "the symmetric objects lie at fixed addresses in these units (addresses in general: P03)"])

# ---- symmetric heap
BAR = "OSHMPI_barrier_all:vp_barrier_contract"
MEMR = dict(MALLOC="malloc", HINTS="malloc_with_hints", CALLOC="calloc", ALIGN="align", REALLOC="realloc", FREE="free")
MEMOLD = dict(SHMALLOC="shmalloc", SHMEMALIGN="shmemalign", SHREALLOC="shrealloc", SHFREE="shfree")
MEMU = []
for k, v in list(MEMR.items()) + list(MEMOLD.items()):
    for a, b in [(0, 0), (4, 2), (3, 3)] + ([(1, 4), (2, 0), (4, 4)] if "FREE" in k else []):
        d = ["VP_R=R_" + k, "VP_SHAPE0=%d" % a, "VP_SHAPE1=%d" % b]
        nm = "mem.%s.%d%d" % (v, a, b)
        FALLBACK[nm] = [U(nm + ".inline", "mem.c", d, replace_calls=["OSHMPI_am_flush:vp_amflush_contract"], object_bits=10)]
        MEMU.append(U(nm, "mem.c", d, replace_calls=[BAR], fallback=nm, object_bits=10, cost=5,
                      funcs=["shmem_" + v, "OSHMPI_" + v] if k in MEMR else [v]))
A_DL = "dlmalloc's mspace routines hand out blocks of the memory they were given, below the footprint limit, large enough, aligned and (calloc) zeroed or refused (contract assumed; dlmalloc itself is not verified)"

# ---- space allocator
MP = []
for m, n in ((1, "alloc"), (2, "free"), (3, "init"), (4, "destroy")):
    FALLBACK["pool." + n] = [U("pool.%s.small" % n, "mempool.c", ["VP_M=%d" % m, "VP_NCH=8"], unwind=10, bounded="pools of at most 8 chunks", cost=3)]
    MP.append(U("pool." + n, "mempool.c", ["VP_M=%d" % m], loops=["mempool_alloc", "mempool_destroy"], quant=True, fallback="pool." + n, cost=90, funcs=["OSHMPIU_mempool_" + n]))
    MP += FALLBACK["pool." + n]

prop("P15", MEMU, assume=[A_MPI, A_SEQ, A_DL, A_NSPACE, "alignments are powers of two; pointers given to free and realloc came from the matching allocator"])
# ---- spaces
SPN = ["", "alloc", "release", "create", "destroy", "attach", "detach", "create_ctx", "ctx"]
SPF = ["", "", "OSHMPI_space_free", "OSHMPI_space_create", "OSHMPI_space_destroy", "OSHMPI_space_attach", "OSHMPI_space_detach", "OSHMPI_space_create_ctx", ""]
AMF = "OSHMPI_am_flush:vp_amflush_contract"


def sp(m, cases, rc=(), r=None, nc=None, funcs=None, tag="", **kw):
    out = []
    for s, a, b in cases:
        d = ["VP_M=%d" % m, "VP_S=%d" % s, "VP_SHAPE0=%d" % a, "VP_SHAPE1=%d" % b] + (["VP_R=%d" % r] if r else []) + (["VP_NC=%d" % nc] if nc is not None else [])
        nm = "space.%s%s%s.%d%d%d" % (SPN[m], "." + tag if tag else "", ".%dctx" % nc if nc is not None else "", s, a, b)
        k = dict(kw)
        if BAR in rc:
            FALLBACK[nm] = [U(nm + ".inline", "space.c", d, replace_calls=[AMF], object_bits=10)]
            k["fallback"] = nm
        out.append(U(nm, "space.c", d, replace_calls=list(rc), object_bits=10, cost=3, funcs=funcs or [SPF[m]], **k))
    return out


CASES = [(0, 1, 0), (0, 4, 2), (1, 3, 4)]
MP += sp(1, CASES, [BAR], 1, funcs=["shmemx_space_malloc", "OSHMPI_space_malloc"], tag="malloc")
MP += sp(1, CASES, [BAR], 2, funcs=["shmemx_space_calloc", "OSHMPI_space_calloc"], tag="calloc")
MP += sp(1, CASES, [BAR], 3, funcs=["shmemx_space_align", "OSHMPI_space_align"], tag="align")
MP += sp(2, CASES)
MP += sp(3, [(0, 0, 0), (0, 4, 3)], tag="p16")
SPACES = sp(3, [(0, 0, 0), (0, 1, 0), (0, 4, 0), (0, 3, 4), (0, 2, 1)], funcs=["shmemx_space_create", "OSHMPI_space_create"])
SPACES += sp(4, [(0, 1, 0), (0, 1, 4), (0, 2, 3), (1, 4, 1), (1, 3, 2)], funcs=["shmemx_space_destroy", "OSHMPI_space_destroy"])
for n in (0, 1, 2, 3):
    SPACES += sp(5, [(0, 1, 0), (0, 2, 4), (1, 4, 2), (1, 3, 1)], nc=n, bounded="at most 3 contexts" if n else "", funcs=["shmemx_space_attach", "OSHMPI_space_attach", "space_ictx_create"])
for n in (0, 1, 2):
    SPACES += sp(6, [(0, 3, 0), (0, 4, 2), (0, 4, 4), (1, 3, 4), (1, 1, 3)], nc=n, bounded="at most 2 contexts" if n else "", funcs=["shmemx_space_detach", "OSHMPI_space_detach", "space_ictx_destroy"])
CTXU = []
for n in (0, 1, 4):
    CTXU += sp(7, [(0, 3, 0), (0, 4, 2), (1, 3, 4)], nc=n, bounded="at most 4 contexts" if n else "", funcs=["shmemx_space_create_ctx", "OSHMPI_space_create_ctx"])
CTXU += sp(8, [(0, 4, 0), (0, 4, 4), (1, 3, 4)], [AMF], 1, funcs=["shmem_ctx_destroy", "OSHMPI_ctx_destroy", "OSHMPI_ctx_quiet"], tag="destroy")
CTXU += sp(8, [(0, 4, 4)], [AMF], 2, funcs=["shmem_ctx_create", "shmem_ctx_destroy", "shmem_team_create_ctx", "shmem_ctx_get_team"], tag="default")

prop("P16", MP, assume=[A_MEM, A_SEQ, A_NSPACE])
prop("P17", SPACES, assume=[A_MPI, A_MEM, A_SEQ, A_NSPACE, "all PEs attach spaces in the same order (the identity is the number of attachments so far), fewer than 2^29 of them",
                            "spaces in host memory (no CUDA or ZE support is built)", "a space is detached only when its contexts are destroyed and destroyed only when it is detached"])
prop("P18", CTXU, assume=[A_MPI, A_MEM, A_SEQ, A_NSPACE])

TEAM = []
TF = ["shmem_team_split_strided", "OSHMPI_team_split", "OSHMPI_team_create"]
T2 = ["shmem_team_split_2d", "OSHMPI_team_split", "OSHMPI_team_create"]
TSMALL = "at most 16 PEs where start, stride and size (2D: xrange) are all arbitrary; any number of PEs for the strides listed in the unit names"
for k, pn in enumerate(["world", "shared", "user"]):
    for c, cn in ((1, "members"), (2, "others"), (3, "invalid")):
        for st in ("1", "2", "3", "7", "-1", "-2", "1073741824", "-2147483647") if k == 0 or c == 1 else ("2", "-1"):
            if len(st) > 3 and c != 3:
                continue
            TEAM.append(U("team.strided.%s.%s.%s" % (cn, pn, st), "team.c", ["VP_M=1", "VP_PAR=%d" % k, "VP_CASE=%d" % c, "VP_STRIDE=(%s)" % st], object_bits=10, cost=8, funcs=TF))
        TEAM.append(U("team.strided.%s.%s.any" % (cn, pn), "team.c", ["VP_M=1", "VP_PAR=%d" % k, "VP_CASE=%d" % c], object_bits=10, cost=6, bounded=TSMALL, funcs=TF))
    for st in ("1", "2", "3", "8"):
        TEAM.append(U("team.2d.members.%s.%s" % (pn, st), "team.c", ["VP_M=2", "VP_PAR=%d" % k, "VP_CASE=1", "VP_STRIDE=(%s)" % st], object_bits=10, cost=8, funcs=T2))
    TEAM.append(U("team.2d.members.%s.any" % pn, "team.c", ["VP_M=2", "VP_PAR=%d" % k, "VP_CASE=1"], object_bits=10, cost=15, bounded=TSMALL, funcs=T2))
    TEAM.append(U("team.2d.invalid.%s" % pn, "team.c", ["VP_M=2", "VP_PAR=%d" % k, "VP_CASE=2"], object_bits=10, funcs=T2))
TEAM.append(U("team.query", "team.c", ["VP_M=3"], object_bits=10, funcs=["shmem_team_translate_pe", "shmem_team_my_pe", "shmem_team_n_pes", "shmem_team_get_config"]))
TEAM.append(U("team.destroy", "team.c", ["VP_M=4"], object_bits=10, funcs=["shmem_team_destroy", "OSHMPI_team_destroy"]))
prop("P19", TEAM, assume=[A_MPI, A_MEM, A_SEQ, "MPI_Comm_split puts exactly the processes of one color into one communicator, ordered by key and then by old rank",
                          "all members of the parent team call the split with the same arguments"])

NOT_APPLICABLE = {
    "P23": "liveness over infinite fair schedules of several PEs: function contracts state what holds when a call returns, not that it returns; no deductive verifier for temporal properties of C is installed",
    "P24": "interleavings of threads inside the library: cbmc's contract instrumentation is sequential, and no concurrent program logic for C is available here; the sequential contracts are proved for the multi-threaded build instead (conf mt), locks treated as no-ops",
}


def note(pid):
    u = PROPS[pid]
    b = [x["name"] for x in u["units"] if x.get("bounded")]
    s = u["explain"] or ("Every obligation generated from the current source is discharged for all inputs; callers are checked against the "
                         "contract of the callee where a unit says so and in line otherwise.")
    s += " Assumes: " + "; ".join(u["assume"]) + "."
    if b:
        s += " Bounded (not counted as proved): " + ", ".join(b) + "."
    return s
