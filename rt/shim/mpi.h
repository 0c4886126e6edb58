#pragma once
#include <stddef.h>
struct SimComm; typedef SimComm *MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
SimComm *sim_world();
#define MPI_COMM_WORLD (sim_world())
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_IN_PLACE ((void *)1)
enum { MPI_INT = 1, MPI_DOUBLE, MPI_CHAR, MPI_BYTE, MPI_LONG, MPI_FLOAT };
enum { MPI_SUM = 1, MPI_PROD, MPI_MIN, MPI_MAX };
#define MPI_SUCCESS 0
extern "C" {
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, int, int, MPI_Comm); int MPI_Allreduce(const void *, void *, int, int, int, MPI_Comm);
int MPI_Alltoall(const void *, int, int, void *, int, int, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, int, void *, const int *, const int *, int, MPI_Comm);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *); int MPI_Comm_free(MPI_Comm *);
double MPI_Wtime(void); int MPI_Init(int *, char ***); int MPI_Finalize(void); int MPI_Initialized(int *); int MPI_Abort(MPI_Comm, int);
}
