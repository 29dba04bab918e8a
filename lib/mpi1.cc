// One-process MPI for harnesses that explore sequential code: reductions and
// gathers are copies, point-to-point calls are an error.
#include <mpi.h>
#include <cstdlib>
#include <cstring>
static size_t sz(MPI_Datatype t) {
  switch(t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG_INT: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_2INT: return 8;
    case MPI_LONG_DOUBLE: case MPI_DOUBLE_INT: return 16;
    default: abort();
  }
}
static int cp(const void * s, void * r, int n, MPI_Datatype t) { if(s != MPI_IN_PLACE && n) memmove(r, s, n * sz(t)); return 0; }
extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int, int * p) { if(p) *p = 3; return 0; }
int MPI_Initialized(int * f) { *f = 1; return 0; }
int MPI_Finalized(int * f) { *f = 0; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int e) { exit(e ? e : 1); }
double MPI_Wtime() { return 0; }
int MPI_Comm_rank(MPI_Comm, int * r) { *r = 0; return 0; }
int MPI_Comm_size(MPI_Comm, int * s) { *s = 1; return 0; }
int MPI_Type_size(MPI_Datatype t, int * s) { *s = sz(t); return 0; }
int MPI_Barrier(MPI_Comm) { return 0; }
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm) { return 0; }
int MPI_Reduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op, int, MPI_Comm) { return cp(s, r, n, t); }
int MPI_Allreduce(const void * s, void * r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { return cp(s, r, n, t); }
int MPI_Scan(const void * s, void * r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { return cp(s, r, n, t); }
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm) { return 0; }
int MPI_Gather(const void * s, int n, MPI_Datatype t, void * r, int, MPI_Datatype, int, MPI_Comm) { return cp(s, r, n, t); }
int MPI_Allgather(const void * s, int n, MPI_Datatype t, void * r, int, MPI_Datatype, MPI_Comm) { return cp(s, r, n, t); }
int MPI_Alltoall(const void * s, int n, MPI_Datatype t, void * r, int, MPI_Datatype, MPI_Comm) { return cp(s, r, n, t); }
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm) { abort(); }
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) { abort(); }
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *) { abort(); }
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *) { abort(); }
int MPI_Test(MPI_Request *, int *, MPI_Status *) { abort(); }
int MPI_Wait(MPI_Request *, MPI_Status *) { abort(); }
int MPI_Waitall(int n, MPI_Request *, MPI_Status *) { if(n) abort(); return 0; }
int MPI_Probe(int, int, MPI_Comm, MPI_Status *) { abort(); }
int MPI_Iprobe(int, int, MPI_Comm, int * f, MPI_Status *) { *f = 0; return 0; }
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *) { abort(); }
}
