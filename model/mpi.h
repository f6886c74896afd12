/* Contract view of the MPI interface used by OSHMPI.
 * Replaces the MPI installation's <mpi.h> while the real OSHMPI sources are compiled
 * by goto-cc (proof) or gcc (replay).  Every routine declared here is given an executable
 * contract over ghost state in model/vp_mpi.h. */
#ifndef VP_MPI_H
#define VP_MPI_H
#include <stddef.h>
#include <stdint.h>

typedef int MPI_Comm;
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Win;
typedef int MPI_Info;
typedef int MPI_Request;
typedef long MPI_Aint;
typedef long long MPI_Count;
typedef struct MPI_Status {
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
} MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_IN_PLACE ((void *) -1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_COMM_TYPE_SHARED 1
#define MPI_MAX_INFO_VAL 1024
#define MPI_MAX_INFO_KEY 255
#define MPI_MODE_NOCHECK 1024
#define MPI_LOCK_EXCLUSIVE 234
#define MPI_LOCK_SHARED 235
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_TAG_UB 7
#define MPI_WIN_BASE 8
#define MPI_WIN_SIZE 9
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };

#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_GROUP_NULL 0
#define MPI_GROUP_EMPTY 1
#define MPI_INFO_NULL 0
#define MPI_REQUEST_NULL 0
#define MPI_WIN_NULL 0
#define MPI_DATATYPE_NULL 0
#define MPI_OP_NULL 0

/* basic datatypes */
enum {
    MPI_CHAR = 1, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT,
    MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG,
    MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_C_COMPLEX, MPI_C_DOUBLE_COMPLEX,
    MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T,
    MPI_UINT8_T, MPI_UINT16_T, MPI_UINT32_T, MPI_UINT64_T,
    MPI_AINT, MPI_C_BOOL, MPI_C_LONG_DOUBLE_COMPLEX, VP_BASIC_MAX
};
#define MPI_C_FLOAT_COMPLEX MPI_C_COMPLEX
#define MPI_LONG_LONG_INT MPI_LONG_LONG

enum {
    MPI_MAX = 1, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR,
    MPI_BXOR, MPI_REPLACE, MPI_NO_OP, VP_OP_MAX
};

/* --- window --- */
int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Rput(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win,
             MPI_Request *);
int MPI_Rget(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op,
                   MPI_Win);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint,
                       int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_create_dynamic(MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_attach(MPI_Win, void *, MPI_Aint);
int MPI_Win_detach(MPI_Win, const void *);
int MPI_Win_free(MPI_Win *);
int MPI_Get_address(const void *, MPI_Aint *);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint);
MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);

/* --- point to point --- */
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request[], int *, MPI_Status[]);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request[], MPI_Status[]);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);

/* --- collectives --- */
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm,
                   MPI_Request *);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype,
                   MPI_Comm);
int MPI_Iallgatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype,
                    MPI_Comm, MPI_Request *);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Ialltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm,
                  MPI_Request *);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);

/* --- communicators, groups --- */
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Group_free(MPI_Group *);
int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_incl(MPI_Group, int, const int[], MPI_Group *);
int MPI_Group_range_incl(MPI_Group, int, int[][3], MPI_Group *);
int MPI_Group_translate_ranks(MPI_Group, int, const int[], MPI_Group, int[]);

/* --- datatypes --- */
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);

/* --- environment --- */
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Query_thread(int *);
int MPI_Abort(MPI_Comm, int);
int MPI_Info_create(MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_free(MPI_Info *);

typedef int MPI_T_cvar_handle;
#define MPI_T_ERR_INVALID_NAME 73
#define MPI_T_ERR_INVALID_INDEX 74
int MPI_T_init_thread(int, int *);
int MPI_T_finalize(void);
int MPI_T_cvar_get_index(const char *, int *);
int MPI_T_cvar_handle_alloc(int, void *, MPI_T_cvar_handle *, int *);
int MPI_T_cvar_handle_free(MPI_T_cvar_handle *);
int MPI_T_cvar_read(MPI_T_cvar_handle, void *);
int MPI_T_cvar_write(MPI_T_cvar_handle, const void *);
#endif
