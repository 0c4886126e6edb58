#pragma once
#include "mpi.h"
enum { C_INT = 1001, C_LONG, C_FLOAT, C_DBL, C_DCPL, C_CHAR, C_LONGLONG, C_SCPL };
extern "C" {
void GA_Initialize(void); void GA_Terminate(void); int GA_Initialized(void); void GA_Initialize_comm(MPI_Comm); MPI_Comm GA_MPI_Comm(void);
int GA_Nodeid(void); int GA_Nnodes(void); int GA_Pgroup_get_world(void); int GA_Pgroup_get_default(void); void GA_Pgroup_set_default(int);
int GA_Pgroup_create(int *, int); int GA_Pgroup_destroy(int); int GA_Pgroup_nodeid(int); int GA_Pgroup_nnodes(int); void GA_Pgroup_sync(int); void NGA_Pgroup_sync(int); void GA_Sync(void);
void GA_Pgroup_igop(int, int *, int, char *); void GA_Pgroup_lgop(int, long *, int, char *); void GA_Pgroup_fgop(int, float *, int, char *); void GA_Pgroup_dgop(int, double *, int, char *); void GA_Igop(int *, int, char *); void GA_Dgop(double *, int, char *);
int GA_Create_handle(void); void GA_Set_data(int, int, int[], int); void GA_Set_chunk(int, int *); void GA_Set_array_name(int, char *); void GA_Set_pgroup(int, int); void GA_Set_irreg_distr(int, int[], int[]); int GA_Allocate(int); void GA_Destroy(int); void GA_Zero(int);
void NGA_Put(int, int[], int[], void *, int[]); void NGA_Get(int, int[], int[], void *, int[]); void NGA_Scatter(int, void *, int *[], int); void NGA_Gather(int, void *, int *[], int); void NGA_Scatter_acc(int, void *, int *[], int, void *);
long NGA_Read_inc(int, int[], long); void NGA_Distribution(int, int, int[], int[]); void NGA_Access(int, int[], int[], void *, int[]); void NGA_Release(int, int *, int *); void NGA_Release_update(int, int *, int *);
int NGA_Register_type(size_t); int NGA_Deregister_type(int); void GA_Error(char *, int); void GA_Fill(int, void *);
}
#define NGA_Create_handle GA_Create_handle
#define NGA_Set_data GA_Set_data
#define NGA_Set_chunk GA_Set_chunk
#define NGA_Set_pgroup GA_Set_pgroup
#define NGA_Set_irreg_distr GA_Set_irreg_distr
#define NGA_Allocate GA_Allocate
#define NGA_Destroy GA_Destroy
#define NGA_Zero GA_Zero
