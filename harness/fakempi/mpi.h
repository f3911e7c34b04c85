/* Stand-in for MPI: the ranks are threads of one process, scheduled one at a time. */
#ifndef FAKE_MPI_H
#define FAKE_MPI_H
#include <stddef.h>
#include <stdint.h>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Info;
typedef long MPI_Aint;
typedef long long MPI_Count;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes; int cancelled; } MPI_Status;
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERR_TRUNCATE 16
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_COMM_NULL 0
#define MPI_INFO_NULL 0
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL (-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)1)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
enum { MPI_DATATYPE_NULL, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_PACKED, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED,
  MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_INT8_T, MPI_UINT8_T, MPI_INT16_T, MPI_UINT16_T,
  MPI_INT32_T, MPI_UINT32_T, MPI_INT64_T, MPI_UINT64_T, MPI_C_BOOL, MPI_AINT, MPI_2INT };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_OP_NULL, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_LOR, MPI_LXOR, MPI_BAND, MPI_BOR, MPI_BXOR };
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(void); int MPI_Initialized(int *); int MPI_Finalized(int *);
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
int MPI_Abort(MPI_Comm, int); double MPI_Wtime(void); int MPI_Type_size(MPI_Datatype, int *);
int MPI_Get_processor_name(char *, int *); int MPI_Error_string(int, char *, int *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *); int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *); int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
#endif
