// One-rank message passing: reductions and broadcasts return what they are given.
#pragma once
#include <cstring>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
#define MPI_COMM_WORLD 0
#define MPI_COMM_SELF 1
#define MPI_COMM_NULL -1
#define MPI_DOUBLE 8
#define MPI_INT 4
#define MPI_LONG 9
#define MPI_LONG_LONG 10
#define MPI_CHAR 1
#define MPI_BYTE 1
#define MPI_FLOAT 5
#define MPI_C_BOOL 2
#define MPI_CXX_BOOL 2
#define MPI_UNSIGNED_LONG 11
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_LOR 4
#define MPI_LAND 5
#define MPI_SUCCESS 0
#define MPI_THREAD_FUNNELED 1
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
inline int vf_mpi_size(MPI_Datatype t) { return t == 8 || t == 9 || t == 10 || t == 11 ? 8 : t == 4 || t == 5 ? 4 : 1; }
// what the other ranks contribute is arbitrary: the hook combines the local value with it
inline void (*vf_mpi_reduce)(const void*, void*, int, MPI_Datatype, MPI_Op) = nullptr;
inline int MPI_Init(int*, char***) { return 0; } inline int MPI_Finalize() { return 0; } inline int MPI_Initialized(int* f) { *f = 1; return 0; } inline int MPI_Finalized(int* f) { *f = 0; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; } inline int MPI_Comm_size(MPI_Comm, int* r) { *r = 1; return 0; } inline int MPI_Barrier(MPI_Comm) { return 0; } inline double MPI_Wtime() { return 0.0; } inline int MPI_Abort(MPI_Comm, int) { return 0; }
inline int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm) { if (vf_mpi_reduce) { vf_mpi_reduce(s == MPI_IN_PLACE ? r : s, r, n, t, o); return 0; } if (s != MPI_IN_PLACE) memcpy(r, s, (size_t)n * vf_mpi_size(t)); return 0; }
inline int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int, MPI_Comm c) { return MPI_Allreduce(s, r, n, t, o, c); }
inline int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
inline int MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, int, MPI_Comm) { memcpy(r, s, (size_t)n * vf_mpi_size(t)); return 0; }
inline int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int, MPI_Datatype, MPI_Comm) { memcpy(r, s, (size_t)n * vf_mpi_size(t)); return 0; }
inline int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int*, const int*, MPI_Datatype, int, MPI_Comm) { memcpy(r, s, (size_t)n * vf_mpi_size(t)); return 0; }
inline int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int*, const int*, MPI_Datatype, MPI_Comm) { memcpy(r, s, (size_t)n * vf_mpi_size(t)); return 0; }
inline int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm) { return 0; }
inline int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { memcpy(r, s, (size_t)n * vf_mpi_size(t)); return 0; }
typedef int MPI_Info;
#define MPI_INFO_NULL 0
#define MPI_COMM_TYPE_SHARED 1
inline int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm* c) { *c = 0; return 0; } inline int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm* c) { *c = 0; return 0; } inline int MPI_Comm_free(MPI_Comm*) { return 0; }
