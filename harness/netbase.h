// Networks distributed over simulated processes: components with symbolic payloads,
// placement and partition chosen symbolically, ghost/ownership bookkeeping.
#pragma once
#include "sim.h"
#include "parmetis.h"
#include "gridpack/network/base_network.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/configuration/no_print.hpp"
using namespace gridpack;
#ifndef NB_CUSTOM
struct TBus : component::BaseBusComponent { int id; double v; TBus() : id(-1), v(0) {} void setXCBufSize_(int s) { p_XCBufSize = s; } void *xc() { return p_XCBuf; }
  template <class A> void serialize(A &a, const unsigned) { a & boost::serialization::base_object<component::BaseBusComponent>(*this) & id & v; } };
struct TBranch : component::BaseBranchComponent { int id; double v; TBranch() : id(-1), v(0) {} void setXCBufSize_(int s) { p_XCBufSize = s; } void *xc() { return p_XCBuf; }
  template <class A> void serialize(A &a, const unsigned) { a & boost::serialization::base_object<component::BaseBranchComponent>(*this) & id & v; } };
#endif
enum { MAXB = 6, MAXP = 10 };
#ifndef NB_GLOBALS
static int e1_[MAXB], e2_[MAXB];
#endif
static int nProc, nBus, nBr, orig_[MAXB] = {23, 4, 17, 8, 30, 2}, place_[MAXB], bplace_[MAXB], part_[MAXB], own_[MAXB], bown_[MAXB]; static double bv_[MAXB], brv_[MAXB];
// graph: par=1 allows parallel branches, flip=1 chooses the orientation, iso=1 allows isolated buses
static void net_graph() {
  nProc = (int)gp_param("np", 2); nBus = (int)gp_param("nb", 3); nBr = (int)gp_param("br", 2); int prev = -1, par = (int)gp_param("par", 0), top = (int)gp_param("top", -1);
  for (int b = 0; b < nBr; b++) {
    int np = nBus * (nBus - 1) / 2, k = top >= 0 ? (top + b) % np : gp_choose("pair", prev + (par ? (prev < 0) : 1), np - (par ? 1 : nBr - b)), c = 0; prev = k;
    for (int i = 0; i < nBus; i++) for (int j = i + 1; j < nBus; j++) if (c++ == k) { e1_[b] = i; e2_[b] = j; }
    if (gp_param("flip", 0) ? gp_choose("flip", 0, 1) : b & 1) { int t = e1_[b]; e1_[b] = e2_[b]; e2_[b] = t; } }
  if (!gp_param("iso", 1)) { for (int i = 0; i < nBus; i++) { int d = 0; for (int b = 0; b < nBr; b++) d += e1_[b] == i || e2_[b] == i; if (!d) gp_end_path("isolated bus"); } }
  for (int i = 0; i < nBus; i++) { bv_[i] = gp_real("bus"); part_[i] = -1; } for (int b = 0; b < nBr; b++) brv_[b] = gp_real("branch");
}
static void net_place() { int pl = (int)gp_param("place", 0); // 0: all on process 0, 1: chosen, 2: round robin
  for (int i = 0; i < nBus; i++) place_[i] = pl == 0 ? 0 : pl == 1 ? gp_choose("place", 0, nProc - 1) : i % nProc;
  for (int b = 0; b < nBr; b++) bplace_[b] = pl == 0 ? 0 : pl == 1 ? (gp_param("bpl", 1) ? gp_choose("bplace", 0, nProc - 1) : place_[e1_[b]]) : (b + 1) % nProc; }
// choose owners directly (distribution already made)
static void net_owners() { for (int i = 0; i < nBus; i++) own_[i] = gp_choose("owner", 0, nProc - 1); for (int b = 0; b < nBr; b++) { int m = e1_[b] < e2_[b] ? e1_[b] : e2_[b]; bown_[b] = own_[m]; } }
extern "C" int ParMETIS_V3_PartKway(idx_t *vtxdist, idx_t *xadj, idx_t *adjncy, idx_t *vwgt, idx_t *adjwgt, idx_t *wgtflag, idx_t *numflag, idx_t *ncon, idx_t *nparts, real_t *tpwgts, real_t *ubvec, idx_t *options, idx_t *edgecut, idx_t *part, MPI_Comm *comm) {
  static int deg[MAXB], adj[MAXB][MAXB]; int me = sim_crank(*comm), np = (int)(*comm)->wr.size(), n = vtxdist[me + 1] - vtxdist[me];
  gp_check(vtxdist[0] == 0 && vtxdist[np] == nBus && n >= 0, "node distribution given to the partitioner"); gp_check(*nparts == np && *ncon == 1 && *numflag == 0, "partitioner parameters"); gp_check(xadj[0] == 0, "adjacency does not start at 0");
  for (int i = 0; i < n; i++) { int k = vtxdist[me] + i; deg[k] = xadj[i + 1] - xadj[i]; gp_check(deg[k] >= 0 && deg[k] < MAXB, "degree"); for (int j = 0; j < deg[k]; j++) { int a = adjncy[xadj[i] + j]; gp_check(a >= 0 && a < nBus && a != k, "neighbour given to the partitioner out of range"); adj[k][j] = a; } }
  sim_barrier(*comm, 900);
  if (me == 0) { int tot = 0, ex = 0; for (int k = 0; k < nBus; k++) { tot += deg[k]; for (int j = 0; j < deg[k]; j++) { int c = 0, d = 0; for (int l = 0; l < deg[adj[k][j]]; l++) c += adj[adj[k][j]][l] == k; for (int l = 0; l < deg[k]; l++) d += adj[k][l] == adj[k][j]; gp_check(c == d, "adjacency given to the partitioner is not symmetric"); } }
    for (int b = 0; b < nBr; b++) { bool dup = false; for (int c = 0; c < b; c++) dup |= (e1_[c] == e1_[b] && e2_[c] == e2_[b]) || (e1_[c] == e2_[b] && e2_[c] == e1_[b]); if (!dup) ex += 2; } gp_check(tot >= ex && tot <= 2 * nBr, "adjacency given to the partitioner does not match the branches"); }
  sim_barrier(*comm, 901);
  for (int i = 0; i < n; i++) { int k = vtxdist[me] + i; part_[k] = gp_choose("part", 0, np - 1); part[i] = part_[k]; }
  *edgecut = 0; return METIS_OK; }
template <class N> void net_fill(N &n, int r) {
  for (int i = 0; i < nBus; i++) if (place_[i] == r) { n.addBus(orig_[i]); int l = n.numBuses() - 1; n.setGlobalBusIndex(l, i); n.getBus(l)->id = i; n.getBus(l)->v = bv_[i]; n.getBusData(l)->addValue("BUS_NUMBER", orig_[i]); n.getBusData(l)->addValue("V", bv_[i]); }
  for (int b = 0; b < nBr; b++) if (bplace_[b] == r) { n.addBranch(orig_[e1_[b]], orig_[e2_[b]]); int l = n.numBranches() - 1; n.setGlobalBranchIndex(l, b); n.setGlobalBusIndex1(l, e1_[b]); n.setGlobalBusIndex2(l, e2_[b]); n.getBranch(l)->id = b; n.getBranch(l)->v = brv_[b]; n.getBranchData(l)->addValue("X", brv_[b]); }
}
// what a process holds when the owners are own_/bown_, ghosts in arbitrary order after the owned ones
template <class N> void net_build(N &n, int r, bool ghosts) {
  int loc[MAXB]; for (int i = 0; i < nBus; i++) loc[i] = -1;
  for (int pass = 0; pass < 2; pass++) for (int i = 0; i < nBus; i++) { bool need = own_[i] == r; if (pass) { if (need || !ghosts) continue; for (int b = 0; b < nBr; b++) if ((e1_[b] == i && own_[e2_[b]] == r) || (e2_[b] == i && own_[e1_[b]] == r)) need = true; } if (!need) continue;
    n.addBus(orig_[i]); int l = n.numBuses() - 1; loc[i] = l; n.setGlobalBusIndex(l, i); n.setActiveBus(l, pass == 0); n.getBus(l)->id = i; n.getBus(l)->v = bv_[i]; n.getBusData(l)->addValue("BUS_NUMBER", orig_[i]); n.getBusData(l)->addValue("V", bv_[i]); }
  for (int pass = 0; pass < 2; pass++) for (int b = 0; b < nBr; b++) { bool mine = bown_[b] == r; if (pass ? mine || !ghosts || (own_[e1_[b]] != r && own_[e2_[b]] != r) : !mine) continue;
    n.addBranch(orig_[e1_[b]], orig_[e2_[b]]); int l = n.numBranches() - 1; n.setGlobalBranchIndex(l, b); n.setGlobalBusIndex1(l, e1_[b]); n.setGlobalBusIndex2(l, e2_[b]); n.setLocalBusIndex1(l, loc[e1_[b]]); n.setLocalBusIndex2(l, loc[e2_[b]]); n.addBranchNeighbor(loc[e1_[b]], l); n.addBranchNeighbor(loc[e2_[b]], l); n.setActiveBranch(l, pass == 0);
    n.getBranch(l)->id = b; n.getBranch(l)->v = brv_[b]; n.getBranchData(l)->addValue("X", brv_[b]); }
  n.setMap(); }
// everything the network reports locally, against the graph; held[i]/bheld[b]: 0 absent, 1 ghost, 2 active
struct Held { int bus[MAXB], br[MAXB]; };
template <class N> void net_local(N &n, Held &h, bool reidx = false) {
  int nb = n.numBuses(), nr = n.numBranches(); int of[16], bof[16]; memset(&h, 0, sizeof h);
  gp_check(nb <= 16 && nr <= 16, "number of local elements");
  for (int l = 0; l < nb; l++) { int id = n.getBus(l)->id; bool ok = id >= 0 && id < nBus; gp_check(ok, "bus that was never added"); if (!ok) gp_end_path("x"); gp_check(h.bus[id] == 0, "process holds a bus twice"); h.bus[id] = n.getActiveBus(l) ? 2 : 1; of[l] = id;
    gp_check_eqi(n.getOriginalBusIndex(l), orig_[id], "original index of a bus"); if (!reidx) gp_check_eqi(n.getGlobalBusIndex(l), id, "global index of a bus"); gp_check_eq(n.getBus(l)->v, bv_[id], "bus contents changed");
    int o = 0; double v = 0; gp_check(n.getBusData(l)->getValue("BUS_NUMBER", &o) && o == orig_[id] && n.getBusData(l)->getValue("V", &v), "bus data lost"); gp_check_eq(v, bv_[id], "bus data changed"); }
  for (int l = 0; l < nr; l++) { int id = n.getBranch(l)->id; bool ok = id >= 0 && id < nBr; gp_check(ok, "branch that was never added"); if (!ok) gp_end_path("x"); gp_check(h.br[id] == 0, "process holds a branch twice"); h.br[id] = n.getActiveBranch(l) ? 2 : 1; bof[l] = id;
    if (!reidx) gp_check_eqi(n.getGlobalBranchIndex(l), id, "global index of a branch"); gp_check_eq(n.getBranch(l)->v, brv_[id], "branch contents changed"); double v = 0; gp_check(n.getBranchData(l)->getValue("X", &v), "branch data lost"); gp_check_eq(v, brv_[id], "branch data changed");
    int a = -1, b = -1; n.getOriginalBranchEndpoints(l, &a, &b); gp_check(a == orig_[e1_[id]] && b == orig_[e2_[id]], "original indices of the ends of a branch"); a = b = -9; n.getBranchEndpoints(l, &a, &b);
    for (int s = 0; s < 2; s++) { int x = s ? b : a, e = s ? e2_[id] : e1_[id]; bool here = false; for (int k = 0; k < nb; k++) here |= of[k] == e; if (here) { gp_check(x >= 0 && x < nb && of[x] == e, "end of a branch is the wrong bus"); } else gp_check(x < 0, "branch end refers to a bus that is not there"); } }
  for (int l = 0; l < nb; l++) { std::vector<int> cb = n.getConnectedBranches(l), cn; int want = 0; for (int k = 0; k < nr; k++) { bool inc = e1_[bof[k]] == of[l] || e2_[bof[k]] == of[l]; int c = 0; for (size_t j = 0; j < cb.size(); j++) c += cb[j] == k; gp_check(c == (inc ? 1 : 0), "branches of a bus"); want += inc; } gp_check((int)cb.size() == want, "number of branches of a bus");
    bool far = true; for (int k = 0; k < nr; k++) if (e1_[bof[k]] == of[l] || e2_[bof[k]] == of[l]) { int x, y; n.getBranchEndpoints(k, &x, &y); far &= x >= 0 && y >= 0; }
    if (far) { cn = n.getConnectedBuses(l); for (int k = 0; k < nb; k++) { int c = 0, w = 0; for (size_t j = 0; j < cn.size(); j++) c += cn[j] == k; for (int m = 0; m < nr; m++) w += (e1_[bof[m]] == of[l] && e2_[bof[m]] == of[k]) || (e2_[bof[m]] == of[l] && e1_[bof[m]] == of[k]); gp_check(w ? c >= 1 && c <= w : c == 0, "neighbour buses"); } }
    std::vector<int> li = n.getLocalBusIndices(orig_[of[l]]); gp_check(li.size() == 1 && li[0] == l, "local index of a bus"); }
  for (int i = 0; i < nBus; i++) if (!h.bus[i]) gp_check(n.getLocalBusIndices(orig_[i]).empty(), "local index of a bus that is not there"); gp_check(n.getLocalBusIndices(999).empty(), "local index of an unknown bus");
  for (int k = 0; k < nr; k++) { int m = 0, mr = 0; for (int j = 0; j < nr; j++) { m += e1_[bof[j]] == e1_[bof[k]] && e2_[bof[j]] == e2_[bof[k]]; mr += e1_[bof[j]] == e2_[bof[k]] && e2_[bof[j]] == e1_[bof[k]]; } std::vector<int> li = n.getLocalBranchIndices(orig_[e1_[bof[k]]], orig_[e2_[bof[k]]]); int c = 0; for (size_t j = 0; j < li.size(); j++) c += li[j] == k; gp_check((int)li.size() == m && c == 1, "local index of a branch"); if (!mr) { li = n.getLocalBranchIndices(orig_[e2_[bof[k]]], orig_[e1_[bof[k]]]); c = 0; for (size_t j = 0; j < li.size(); j++) c += li[j] == k; gp_check((int)li.size() == m && c == 1, "local index of a branch given by its ends in reverse"); } }
}
static Held held_[MAXP];
// ownership and ghosts over all processes; call on one process after a barrier. The owner of a branch must own one of its ends.
static void net_global(bool ghosts) {
  for (int i = 0; i < nBus; i++) { int c = 0; for (int r = 0; r < nProc; r++) if (held_[r].bus[i] == 2) { c++; own_[i] = r; } gp_check(c == 1, "bus not owned by exactly one process"); }
  for (int b = 0; b < nBr; b++) { int c = 0; for (int r = 0; r < nProc; r++) if (held_[r].br[b] == 2) { c++; bown_[b] = r; } gp_check(c == 1, "branch not owned by exactly one process"); }
  for (int r = 0; r < nProc; r++) { int na = 0;
    for (int i = 0; i < nBus; i++) { bool need = false; for (int b = 0; b < nBr; b++) if ((e1_[b] == i && own_[e2_[b]] == r) || (e2_[b] == i && own_[e1_[b]] == r)) need = true; na += own_[i] == r; if (own_[i] == r) continue; if (need && ghosts) gp_cover("ghost"); gp_check(held_[r].bus[i] == (need && ghosts ? 1 : 0), need ? "ghost of a neighbouring bus missing" : "ghost of a bus that is not a neighbour"); }
    for (int b = 0; b < nBr; b++) { bool need = own_[e1_[b]] == r || own_[e2_[b]] == r; if (bown_[b] == r) { if (ghosts) gp_check(need, "branch owned by a process that owns neither end"); continue; } gp_check(held_[r].br[b] == (need && ghosts ? 1 : 0), need ? "ghost of a branch of an owned bus missing" : "ghost of a branch of no owned bus"); }
    if (!na) gp_cover("process without buses"); }
}
