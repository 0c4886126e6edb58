// Environment model of ParMETIS: any assignment of nodes to parts is a possible result.
#pragma once
#include "mpi.h"
#include <iostream>
typedef int idx_t;
typedef float real_t;
enum { METIS_OK = 1, METIS_ERROR = -4 };
extern "C" int ParMETIS_V3_PartKway(idx_t *vtxdist, idx_t *xadj, idx_t *adjncy, idx_t *vwgt, idx_t *adjwgt, idx_t *wgtflag, idx_t *numflag, idx_t *ncon, idx_t *nparts, real_t *tpwgts, real_t *ubvec, idx_t *options, idx_t *edgecut, idx_t *part, MPI_Comm *comm);
