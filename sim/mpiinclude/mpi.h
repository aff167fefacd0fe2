// Simulated MPI: declarations. Every rank is a simulated process of the simulator (mpi_rt.cc).
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

#define SIM_MPI 1
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;

typedef struct MPI_Status {
  int MPI_SOURCE;
  int MPI_TAG;
  int MPI_ERROR;
  int sim_cancelled;
  size_t sim_bytes;
} MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16

#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)1)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)2)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)

#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_IN_PLACE ((void *)(intptr_t)-1)
#define MPI_BOTTOM ((void *)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 64
#define MPI_TAG_UB 0x64400001

#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

enum {
  SIM_T_NULL = 0,
  SIM_T_CHAR, SIM_T_BYTE, SIM_T_I8, SIM_T_U8, SIM_T_I16, SIM_T_U16, SIM_T_I32, SIM_T_U32, SIM_T_I64,
  SIM_T_U64, SIM_T_FLOAT, SIM_T_DOUBLE, SIM_T_LDOUBLE, SIM_T_BOOL, SIM_T_CBOOL, SIM_T_FLOAT_INT,
  SIM_T_DOUBLE_INT, SIM_T_LONG_INT, SIM_T_LDOUBLE_INT, SIM_T_2INT, SIM_T_SHORT_INT,
  SIM_T_FIRST_DERIVED = 64
};
#define MPI_CHAR SIM_T_CHAR
#define MPI_BYTE SIM_T_BYTE
#define MPI_SIGNED_CHAR SIM_T_I8
#define MPI_UNSIGNED_CHAR SIM_T_U8
#define MPI_SHORT SIM_T_I16
#define MPI_UNSIGNED_SHORT SIM_T_U16
#define MPI_INT SIM_T_I32
#define MPI_UNSIGNED SIM_T_U32
#define MPI_UINT SIM_T_U32
#define MPI_LONG SIM_T_I64
#define MPI_UNSIGNED_LONG SIM_T_U64
#define MPI_LONG_LONG SIM_T_I64
#define MPI_LONG_LONG_INT SIM_T_I64
#define MPI_UNSIGNED_LONG_LONG SIM_T_U64
#define MPI_INT8_T SIM_T_I8
#define MPI_UINT8_T SIM_T_U8
#define MPI_INT16_T SIM_T_I16
#define MPI_UINT16_T SIM_T_U16
#define MPI_INT32_T SIM_T_I32
#define MPI_UINT32_T SIM_T_U32
#define MPI_INT64_T SIM_T_I64
#define MPI_UINT64_T SIM_T_U64
#define MPI_FLOAT SIM_T_FLOAT
#define MPI_DOUBLE SIM_T_DOUBLE
#define MPI_LONG_DOUBLE SIM_T_LDOUBLE
#define MPI_CXX_BOOL SIM_T_BOOL
#define MPI_C_BOOL SIM_T_CBOOL
#define MPI_FLOAT_INT SIM_T_FLOAT_INT
#define MPI_DOUBLE_INT SIM_T_DOUBLE_INT
#define MPI_LONG_INT SIM_T_LONG_INT
#define MPI_LONG_DOUBLE_INT SIM_T_LDOUBLE_INT
#define MPI_2INT SIM_T_2INT
#define MPI_SHORT_INT SIM_T_SHORT_INT

enum {
  SIM_OP_NULL = 0, SIM_OP_SUM, SIM_OP_MAX, SIM_OP_MIN, SIM_OP_PROD, SIM_OP_LAND, SIM_OP_LOR, SIM_OP_LXOR,
  SIM_OP_BAND, SIM_OP_BOR, SIM_OP_BXOR, SIM_OP_MINLOC, SIM_OP_MAXLOC
};
#define MPI_OP_NULL SIM_OP_NULL
#define MPI_SUM SIM_OP_SUM
#define MPI_MAX SIM_OP_MAX
#define MPI_MIN SIM_OP_MIN
#define MPI_PROD SIM_OP_PROD
#define MPI_LAND SIM_OP_LAND
#define MPI_LOR SIM_OP_LOR
#define MPI_LXOR SIM_OP_LXOR
#define MPI_BAND SIM_OP_BAND
#define MPI_BOR SIM_OP_BOR
#define MPI_BXOR SIM_OP_BXOR
#define MPI_MINLOC SIM_OP_MINLOC
#define MPI_MAXLOC SIM_OP_MAXLOC

int MPI_Init(int *argc, char ***argv);
int MPI_Init_thread(int *argc, char ***argv, int required, int *provided);
int MPI_Initialized(int *flag);
int MPI_Finalized(int *flag);
int MPI_Finalize(void);
int MPI_Query_thread(int *provided);
int MPI_Is_thread_main(int *flag);
int MPI_Abort(MPI_Comm comm, int code);
double MPI_Wtime(void);
int MPI_Get_processor_name(char *name, int *len);
int MPI_Comm_set_errhandler(MPI_Comm comm, MPI_Errhandler e);

int MPI_Comm_size(MPI_Comm comm, int *size);
int MPI_Comm_rank(MPI_Comm comm, int *rank);
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out);
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out);
int MPI_Comm_free(MPI_Comm *comm);
typedef int MPI_Comm_copy_attr_function(MPI_Comm, int, void *, void *, void *, int *);
typedef int MPI_Comm_delete_attr_function(MPI_Comm, int, void *, void *);
#define MPI_COMM_NULL_COPY_FN ((MPI_Comm_copy_attr_function *)0)
#define MPI_COMM_NULL_DELETE_FN ((MPI_Comm_delete_attr_function *)0)
#define MPI_KEYVAL_INVALID (-1)
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *copy, MPI_Comm_delete_attr_function *del, int *keyval,
                           void *extra);
int MPI_Comm_free_keyval(int *keyval);
int MPI_Comm_set_attr(MPI_Comm comm, int keyval, void *value);
int MPI_Comm_get_attr(MPI_Comm comm, int keyval, void *value, int *flag);
int MPI_Comm_delete_attr(MPI_Comm comm, int keyval);

int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype *out);
int MPI_Type_commit(MPI_Datatype *type);
int MPI_Type_free(MPI_Datatype *type);
int MPI_Type_size(MPI_Datatype type, int *size);

int MPI_Barrier(MPI_Comm comm);
int MPI_Bcast(void *buf, int count, MPI_Datatype type, int root, MPI_Comm comm);
int MPI_Reduce(const void *sb, void *rb, int count, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm);
int MPI_Allreduce(const void *sb, void *rb, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Reduce_scatter(const void *sb, void *rb, const int counts[], MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Reduce_scatter_block(const void *sb, void *rb, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Scan(const void *sb, void *rb, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Exscan(const void *sb, void *rb, int count, MPI_Datatype type, MPI_Op op, MPI_Comm comm);
int MPI_Gather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm comm);
int MPI_Gatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int rc[], const int rd[], MPI_Datatype rt,
                int root, MPI_Comm comm);
int MPI_Scatter(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm comm);
int MPI_Scatterv(const void *sb, const int sc[], const int sd[], MPI_Datatype st, void *rb, int rc, MPI_Datatype rt,
                 int root, MPI_Comm comm);
int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm comm);
int MPI_Allgatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int rc[], const int rd[],
                   MPI_Datatype rt, MPI_Comm comm);
int MPI_Alltoall(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm comm);
int MPI_Alltoallv(const void *sb, const int sc[], const int sd[], MPI_Datatype st, void *rb, const int rc[],
                  const int rd[], MPI_Datatype rt, MPI_Comm comm);

int MPI_Send(const void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm);
int MPI_Ssend(const void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm);
int MPI_Isend(const void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request *req);
int MPI_Issend(const void *buf, int count, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request *req);
int MPI_Recv(void *buf, int count, MPI_Datatype type, int src, int tag, MPI_Comm comm, MPI_Status *st);
int MPI_Irecv(void *buf, int count, MPI_Datatype type, int src, int tag, MPI_Comm comm, MPI_Request *req);
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype st, int dest, int stag, void *rb, int rc, MPI_Datatype rt,
                 int src, int rtag, MPI_Comm comm, MPI_Status *status);
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status *st);
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int *flag, MPI_Status *st);
int MPI_Get_count(const MPI_Status *st, MPI_Datatype type, int *count);
int MPI_Wait(MPI_Request *req, MPI_Status *st);
int MPI_Waitall(int n, MPI_Request *reqs, MPI_Status *sts);
int MPI_Test(MPI_Request *req, int *flag, MPI_Status *st);
int MPI_Testall(int n, MPI_Request *reqs, int *flag, MPI_Status *sts);

#ifdef __cplusplus
}
#endif
