// Stand-in MPI interface for the MPI configuration: declarations of what a library can use here.
#pragma once
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef long MPI_Aint;
#define MPI_COMM_WORLD 91
#define MPI_COMM_SELF 92
#define MPI_COMM_NULL 0
#define MPI_SUCCESS 0
#define MPI_CHAR 1
#define MPI_BYTE 2
#define MPI_INT 3
#define MPI_FLOAT 4
#define MPI_DOUBLE 5
#define MPI_PACKED 6
#define MPI_LONG 7
#define MPI_UNSIGNED_LONG_LONG 8
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_IN_PLACE ((void *)-1)
extern "C" {
int MPI_Init(int *, char ***); int MPI_Finalize(); int MPI_Initialized(int *); int MPI_Finalized(int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_free(MPI_Comm *); int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int *);
int MPI_Pack(const void *, int, MPI_Datatype, void *, int, int *, MPI_Comm);
int MPI_Unpack(const void *, int, int *, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Barrier(MPI_Comm);
}
