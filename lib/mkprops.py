#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        anchors["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    anchors["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))


p("P01", "Contiguous put and get move exactly the requested bytes to the requested place",
  "Every contiguous put, get, p and g, in each typed, sized and memory form, blocking and nonblocking, on the default and on explicit contexts, moves each byte of the nelems elements exactly once between the local buffer and the symmetric address on the given PE, at the same byte offset, and touches no other memory. "
  "A transfer of zero elements moves nothing, and every object the call can address (symmetric heap, data segment, any attached space) is reached through the memory window that exposes it. "
  "When a blocking put, or any p, returns the source buffer may be reused; when a get or g returns the data has arrived; an update that is not yet complete is always remembered so that a later quiet completes it.",
  ["inputs", "configurations"], "all 24 standard types, 5 sizes and mem; every element count up to INT_MAX, address, PE, context; tracking on and off",
  "the tests use int and mem puts of a few hundred elements on the heap; type tables, sizes, other objects, offsets and tracking flags are never varied",
  ["src/internal/rma_impl.h", "src/shmem/rma_typed.c.tpl", "src/shmem/rma_sized.c.tpl", "src/shmem/rma.c", "maint"],
  [("object lookup and displacement", "src/include/oshmpi_impl.h:OSHMPI_sobj_query_attr_ictx"), ("direct transfer", "src/internal/rma_impl.h:OSHMPI_ctx_put"), ("completion flag", "src/internal/rma_impl.h:OSHMPI_SET_OUTSTANDING_OP")])
p("P02", "Strided put and get pair element k at the two strides, for every stride",
  "Every iput and iget, in each typed and sized form, transfers for each k below nelems exactly the element at index k times the local stride to or from index k times the remote stride, and nothing between the elements. "
  "This holds whatever strided transfers came before it: reusing an earlier description of a layout never changes which elements are moved, and a layout description is never released while it can still be used.",
  ["inputs", "histories"], "all types and sizes, every element count and both strides >= 1, every prior sequence of strided calls",
  "iput tests use one stride pair; reuse of cached layouts across types, counts and strides and eviction order is never exercised",
  ["src/internal/strided_impl.c", "src/internal/strided_impl.h", "src/internal/rma_impl.h"],
  [("strided layout creation and cache", "src/internal/strided_impl.c:OSHMPI_create_strided_dtype"), ("release", "src/internal/strided_impl.c:OSHMPI_free_strided_dtype")],
  [("strided datatype cache", "most recently used layouts", "src/internal/strided_impl.c")])
p("P03", "A symmetric address names the same element of the same object on every PE",
  "An address inside the symmetric heap, the data segment or an attached space is resolved to that object and to its offset within it, and the pair (object, offset) sent to any other PE resolves there to the same element, wherever that PE placed the object. "
  "A one-sided or atomic call on an address in none of these objects transfers nothing and ends the program with an error; the accessibility queries answer yes exactly for existing PEs and for addresses of those objects, and a direct pointer is only ever given for the calling PE itself.",
  ["inputs", "histories"], "every address, every layout of heap, data and up to two spaces on both PEs, every PE number including invalid ones",
  "tests only use addresses the allocator returned, on PEs of one host whose layouts coincide",
  ["src/include/oshmpi_impl.h", "src/shmem/setup.c"],
  [("lookup", "src/include/oshmpi_impl.h:OSHMPI_sobj_query_attr_ictx"), ("translation", "src/include/oshmpi_impl.h:OSHMPI_sobj_trans_disp_to_vaddr"), ("queries", "src/shmem/setup.c:shmem_addr_accessible")])
p("P04", "Put and get through active messages have the effect of the direct transfer",
  "When a put, get, iput or iget is carried out by messages that the target PE executes, the target writes or returns exactly the bytes the direct transfer would: the same elements of the same object, in element order, for every type and stride, and the initiator waits only for its own reply. "
  "Messages of different operations, even to and from the same PE at the same time, never mix their data.",
  ["inputs", "schedules"], "all element types, counts, strides, objects and PEs; the target handling the message at any time it makes progress",
  "the message path is off by default for host memory; no test runs it on anything but int",
  ["src/internal/rma_am_impl.c", "src/internal/rma_am_impl.h", "src/internal/am_impl.c", "src/internal/am_progress_impl.h"],
  [("request packet and data messages", "src/internal/rma_am_impl.h:OSHMPI_rma_am_put"), ("target handlers", "src/internal/rma_am_impl.c:OSHMPI_rma_am_put_pkt_cb"), ("per-operation tag", "src/internal/am_impl.c:OSHMPI_am_get_pkt_ptag")])
p("P05", "Each atomic operation updates the target once and returns the prior value",
  "Every atomic routine (compare-and-swap, swap, fetch, set, inc, add, and, or, xor, with and without fetch) in each of its types applies exactly its operation, exactly once and with element-wise atomic access of the type's size, to the addressed element on the addressed PE and to nothing else, with wrap-around integer arithmetic. "
  "The fetching forms return the value the element held before; compare-and-swap stores the new value only when the prior value equals the condition, and when a fetching form returns, its result is present.",
  ["inputs", "configurations"], "all operations, all standard, extended and bitwise types, all operand and prior values, every symmetric object, PE and context",
  "tests use int and fixed values; sign, width, wrap-around, operand order and the non-int types are never checked",
  ["src/internal/amo_impl.h", "src/shmem/amo_std_typed.c.tpl", "src/shmem/amo_ext_typed.c.tpl", "src/shmem/amo_bitws_typed.c.tpl"],
  [("direct atomics", "src/internal/amo_impl.h:OSHMPI_amo_fetch"), ("public routines", "src/shmem/amo_std_typed.c.tpl")])
p("P06", "Atomics carried by active messages equal the direct ones, in the order issued",
  "When atomics are executed by messages, each has at the target exactly the effect and reply of the direct operation, for every operation and type, and no request is lost, repeated or answered to the wrong caller. "
  "A non-fetching atomic is remembered as outstanding for its target until a fetching operation or a flush to that target has been answered, so that ordering and completion calls cover it.",
  ["inputs", "schedules"], "all operations and types, all values, all objects and PEs, the target progressing at any time",
  "the message path needs a debug setting no test uses beyond int; lost or doubled updates need particular interleavings",
  ["src/internal/amo_am_impl.c", "src/internal/amo_am_impl.h", "src/internal/am_impl.h"],
  [("request", "src/internal/amo_am_impl.h:OSHMPI_amo_am_fetch"), ("target handlers", "src/internal/amo_am_impl.c:OSHMPI_amo_am_fetch_pkt_cb"), ("outstanding flags", "src/internal/am_impl.h:OSHMPI_am_flush")])
p("P07", "Quiet completes every outstanding operation of its context",
  "When quiet on the default context returns, every put, atomic and nonblocking operation the calling PE issued earlier, on any symmetric object, any context and any PE, by direct access or by message, is complete and visible; quiet on an explicit context does the same for the operations of that context. "
  "It is valid at any point of a program: with no, created, attached or detached spaces and contexts, in every state, it returns without error.",
  ["histories", "configurations"], "every reachable library state: objects, spaces attached or not, contexts, outstanding operations in any of them; tracking on and off",
  "a lost completion shows only on a slow network; on one host every put is complete at once, so tests cannot see a missing flush",
  ["src/internal/order_impl.h", "src/shmem/order.c", "src/internal/am_impl.h"],
  [("flush of every context", "src/internal/order_impl.h:OSHMPI_ctx_quiet"), ("message flush", "src/internal/am_impl.h:OSHMPI_am_flush_all")],
  [("outstanding flags", "which contexts and PEs have unfinished operations", "src/include/oshmpi_impl.h:OSHMPI_ictx_t")])
p("P08", "Fence orders all earlier updates to each PE before later ones",
  "Every put and atomic issued before a fence, on any symmetric object and context the fence covers, by direct access or by message, is delivered to its target PE before any update to that PE issued after the fence. "
  "Like quiet it is valid in every library state.",
  ["histories", "schedules"], "every set of earlier updates over objects, contexts, PEs and both transports; every library state",
  "reordering never happens on the shared-memory transport of the tests",
  ["src/internal/order_impl.h", "src/shmem/order.c"],
  [("flush of every context", "src/internal/order_impl.h:OSHMPI_ctx_fence")])
p("P09", "Barrier completes earlier updates before any PE leaves it",
  "A barrier, over all PEs or an active set, first completes every update the caller issued on the default context to any symmetric object, makes the caller's own stores to symmetric memory visible, and then meets exactly the member PEs; sync, over all PEs, an active set or a team, does the same without completing remote updates. "
  "While a PE waits in it, messages from other PEs are still executed.",
  ["histories", "schedules"], "every set of outstanding updates over heap, data segment, spaces and both transports; every active set; every arrival order",
  "a missing completion inside the barrier is invisible on one host; attached spaces and message atomics are never combined with barriers in tests",
  ["src/internal/coll_impl.h", "src/internal/coll_activeset_impl.h", "src/shmem/coll.c", "src/shmem/coll_activeset.c"],
  [("barrier over all PEs", "src/internal/coll_impl.h:OSHMPI_barrier_all"), ("active set barrier", "src/internal/coll_activeset_impl.h:OSHMPI_barrier")])
p("P10", "Team collectives deliver every member's data to the specified place",
  "Team broadcast, collect, fcollect, alltoall, alltoalls and every reduction, in each typed and memory form, run over exactly the team's members and place each contribution where OpenSHMEM specifies: broadcast from the root's source to every other destination, collect and fcollect in team order without gaps, alltoall block by block, alltoalls at the two strides, reductions element by element with the named operation and type. "
  "They work for every count including zero, for different counts per PE in collect, and for in-place use where allowed.",
  ["inputs", "configurations"], "every type, operation, count, stride, root and team size and member",
  "no test calls a team collective",
  ["src/internal/coll_impl.h", "src/internal/coll_impl.c", "src/shmem/coll_typed.c.tpl", "src/shmem/reduce_sumprod_team_typed.c.tpl"],
  [("team collectives", "src/internal/coll_impl.c:OSHMPI_collect_team"), ("public routines", "src/shmem/coll_typed.c.tpl")])
p("P11", "Active-set collectives use exactly the set's PEs, its order and its root",
  "The active-set collectives (broadcast, collect, fcollect, alltoall, alltoalls, reductions) run over exactly the PEs start, start + 2^logstride, ... of the given size, numbered in that order, with the root given as an index into the set, and place data as the team forms do. "
  "A broadcast leaves the root's own destination unchanged.",
  ["inputs"], "every valid start, log-stride and size, every calling member, root, type and count",
  "the tests never use a proper subset of the PEs",
  ["src/internal/coll_activeset_impl.h", "src/shmem/coll_activeset.c", "src/shmem/reduce_sumprod_aset_typed.c.tpl"],
  [("active set communicator", "src/internal/coll_activeset_impl.h"), ("broadcast root", "src/internal/coll_activeset_impl.h:OSHMPI_broadcast")])
p("P12", "Cached active-set communicators always stand for the set that was asked for",
  "Whatever active sets were used before and in whatever order, a collective on an active set runs on a communicator of exactly that set, built once and reused; different sets never share one. "
  "At finalization every communicator and group created for them is released exactly once.",
  ["histories"], "every sequence of active sets (start, log-stride, size), in any order",
  "tests use one active set",
  ["src/internal/coll_activeset_impl.h", "src/internal/coll_impl.c"],
  [("cache lookup and insertion", "src/internal/coll_activeset_impl.h")],
  [("communicator cache", "sets seen so far", "src/internal/coll_impl.c")])
p("P13", "Point-to-point waits return only when the comparison holds, and keep progressing",
  "wait_until, and the older wait forms, return only after the watched variable, re-read from memory, satisfies the given comparison in its own type and signedness, and test answers whether it does at that moment. "
  "While waiting, other PEs' updates become visible and their messages are executed, so a value that arrives is always noticed; an unknown comparison is an error.",
  ["inputs", "schedules"], "all types, comparisons and values, any number and timing of remote updates",
  "tests wait for one value that is set once with one comparison",
  ["src/internal/p2p_impl.h", "src/shmem/p2p_typed.c.tpl", "src/shmem/p2p.c"],
  [("comparison", "src/internal/p2p_impl.h"), ("wait loop", "src/shmem/p2p_typed.c.tpl")])
p("P14", "A distributed lock has one holder, and clearing passes it on in order",
  "Of all PEs that contend for a lock at most one holds it at any time: setting returns, and testing reports success, only when the caller is the holder. "
  "Clearing a lock completes the holder's updates first, then hands it to the waiting PE next in line or leaves it free, and no PE that waits is forgotten.",
  ["schedules", "histories"], "any number of PEs, any interleaving of the atomic steps of set, test and clear",
  "mutual exclusion and lost hand-over need interleavings of atomics that tests do not control; no test uses locks",
  ["src/internal/lock_impl.h", "src/shmem/lock.c"],
  [("queue lock", "src/internal/lock_impl.h")])
p("P15", "Symmetric heap allocation stays in the heap, keeps alignment and synchronizes",
  "malloc, calloc, align and realloc return either null or memory that lies wholly inside the symmetric heap, aligned as requested, with calloc's memory zeroed and the product of its counts never wrapping, and every allocating, reallocating or freeing call meets all PEs at the point OpenSHMEM requires. "
  "Freeing returns memory to the object it came from.",
  ["inputs", "histories"], "every size, count and alignment, every heap size and state of the heap",
  "tests allocate a few small blocks; exhaustion and overflow are never reached",
  ["src/internal/mem_impl.c", "src/shmem/mem.c", "src/internal/setup_impl.c"],
  [("allocation", "src/internal/mem_impl.c:OSHMPI_malloc"), ("heap set-up", "src/internal/setup_impl.c:initialize_symm_heap")])
p("P16", "Space allocations never overlap, fit the pool and are reusable after free",
  "Memory handed out from a space lies wholly inside the space's pool, is at least as large as requested, never overlaps a live allocation, and satisfies the alignment and zeroing that was asked for; a request that cannot be met returns null. "
  "After a free exactly that block becomes available again and no other allocation changes.",
  ["inputs", "histories"], "every pool size, request size, count and alignment, every history of allocations and frees",
  "the tests allocate one or two blocks per space",
  ["src/internal/util/mem_pool.c", "src/internal/space_impl.c"],
  [("pool", "src/internal/util/mem_pool.c:OSHMPIU_mempool_alloc"), ("space allocation", "src/internal/space_impl.c")],
  [("chunk table", "length of the allocation starting at each chunk", "src/internal/util/mem_pool.c")])
p("P17", "Spaces come and go in any order without touching other objects",
  "Creating, attaching, detaching and destroying spaces in any valid order exposes exactly the attached spaces to remote access, gives every attached space an identity all PEs agree on and no other live space shares, and releases every window, context and buffer exactly once. "
  "Contexts can be created only from an attached space, and all other objects and spaces stay as they were.",
  ["histories"], "every valid sequence of create, attach, context creation, detach and destroy over several spaces",
  "the test creates and removes spaces in one fixed order",
  ["src/internal/space_impl.c", "src/internal/ctx_impl.c"],
  [("attach and detach", "src/internal/space_impl.c:OSHMPI_space_attach"), ("list", "src/include/oshmpi_impl.h:OSHMPI_space_list_t")])
p("P18", "Contexts handed out are distinct, complete on destroy and become reusable",
  "A context created from a space is one that no other live context shares; creation reports failure when none is left, and a destroyed context is quiesced and becomes available again. "
  "The default context creation, destruction and team query routines return what OpenSHMEM specifies and never disturb other contexts.",
  ["histories"], "every sequence of creations and destructions over all contexts of a space",
  "the test creates each context once",
  ["src/internal/ctx_impl.c", "src/shmem/context.c", "src/internal/space_impl.c"],
  [("context slots", "src/internal/space_impl.c:OSHMPI_space_create_ctx"), ("destroy", "src/internal/ctx_impl.c:OSHMPI_ctx_destroy")])
p("P19", "Team splits contain exactly the requested PEs in order and translate correctly",
  "A strided split of a team contains exactly the parent members start, start + stride, ... of the given size, in that order, and every other parent member gets the invalid team; a 2D split puts each PE in the row and the column OpenSHMEM specifies. "
  "PE numbers, sizes and translations between teams agree with the membership, answer -1 for PEs that are not members or do not exist and for invalid teams, and destroying a team releases it once and leaves the predefined teams alone.",
  ["inputs", "histories"], "every parent team, start, stride, size and range, every PE number including out of range ones",
  "the test checks one split on two PEs",
  ["src/internal/team_impl.c", "src/shmem/team.c", "src/internal/setup_impl.c"],
  [("strided split", "src/internal/team_impl.c:OSHMPI_team_split_strided"), ("2D split", "src/internal/team_impl.c:OSHMPI_team_split_2d"), ("translation", "src/internal/team_impl.c:OSHMPI_team_translate_pe")])
p("P20", "Initialization and finalization set up and release everything exactly once",
  "After initialization the PE numbers, teams, symmetric heap and data segment are ready for use by every PE and the thread level granted is the one the library and MPI both support; further initializations change nothing. "
  "Finalization first completes and executes everything outstanding on all PEs, then releases every window, communicator, group, request and buffer exactly once, in an order that never uses what was released, and shuts MPI down only if OpenSHMEM started it.",
  ["configurations", "histories"], "every requested and provided thread level, MPI initialized before or not, any outstanding operations at finalization",
  "tests pass through one path; double release, leaks and lost updates at exit are not observed",
  ["src/internal/setup_impl.c", "src/shmem/setup.c", "src/internal/am_impl.c"],
  [("initialization", "src/internal/setup_impl.c:OSHMPI_initialize_thread"), ("finalization", "src/internal/setup_impl.c:OSHMPI_finalize")])
p("P21", "Environment settings are parsed exactly; direct atomics only when safe",
  "Sizes with their K, M, G, T suffixes, switches and lists of names in environment variables are turned into exactly the value they denote, and an absent or malformed setting leaves the documented default or stops with an error. "
  "Atomics are executed directly by the MPI library only if every operation that can meet on the same word is declared to be supported together; in every other case all of them go through messages.",
  ["inputs", "configurations"], "every string a user can set; every combination of supported operations",
  "tests run with the default environment",
  ["src/internal/setup_impl.c", "src/internal/common.c", "src/include/oshmpi_util.h"],
  [("environment", "src/internal/setup_impl.c:initialize_env"), ("atomics choice", "src/internal/setup_impl.c:set_env_amo_ops")])
p("P22", "Every active message is executed exactly once, by its handler, while PEs wait",
  "Each message that arrives is handed once to the handler of its kind with its sender and contents, the next receive is posted before or right after so that no message is missed or read twice, and an unknown kind is an error. "
  "Every blocking call of the library keeps executing incoming messages, replies carry an identifier that no other operation in flight uses, and progress stops only on the termination message.",
  ["schedules", "histories"], "any number and kind of messages, arriving at any point of a wait",
  "needs messages to arrive at particular points; the tests have at most one in flight",
  ["src/internal/am_impl.c", "src/internal/am_impl.h", "src/internal/am_progress_impl.h"],
  [("progress", "src/internal/am_impl.c:OSHMPI_am_cb_progress"), ("identifiers", "src/internal/am_impl.c:OSHMPI_am_get_pkt_ptag"), ("waiting", "src/internal/am_progress_impl.h")])
p("P23", "Waiting PEs always make progress: no deadlock and no starvation",
  "Every blocking call returns once the events it waits for have happened: no combination of blocking calls that OpenSHMEM allows leaves PEs waiting for each other for ever.",
  ["schedules", "programs"], "all programs and fair schedules",
  "absence of deadlock is a statement about all infinite schedules",
  ["src/internal/am_progress_impl.h", "src/internal/lock_impl.h", "src/internal/p2p_impl.h"],
  [("progress while waiting", "src/internal/am_progress_impl.h")])
p("P24", "Threads may call the library concurrently without losing operations",
  "With the multiple thread level, concurrent calls from several threads of one PE behave as if they were made one after the other in some order, and no operation issued by a thread before its quiet is left incomplete by what another thread does.",
  ["schedules"], "every interleaving of the threads of a PE",
  "needs a thread switch between two particular instructions",
  ["src/internal/order_impl.h", "src/internal/util/thread.h", "src/internal/am_impl.h"],
  [("critical sections", "src/internal/util/thread.h")])

open(OUT, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
