// Network queries after building, cleaning, cloning and renumbering networks.
#include "netbase.h"
typedef network::BaseNetwork<TBus, TBranch> Net;
struct CBus : component::BaseBusComponent { int id; double v; CBus() : id(-1), v(0) {} }; struct CBranch : component::BaseBranchComponent { int id; double v; CBranch() : id(-1), v(0) {} };
typedef network::BaseNetwork<CBus, CBranch> Net2;
static int mode, ref, flag, actB[MAXB], actR[MAXB]; static std::vector<int> gb_[MAXP], gr_[MAXP];
template <class N> static void setters(N &n) { int bad[3] = {-1, n.numBuses(), 1000}, rb[3] = {-1, n.numBranches(), 1000};
  for (int k = 0; k < 3; k++) { gp_check(!n.setOriginalBusIndex(bad[k], 5) && !n.setGlobalBusIndex(bad[k], 5) && !n.setActiveBus(bad[k], true) && !n.clearBranchNeighbors(bad[k]) && !n.addBranchNeighbor(bad[k], 0), "change of a bus that does not exist is accepted"); gp_check(!n.setGlobalBranchIndex(rb[k], 5) && !n.setOriginalBusIndex1(rb[k], 5) && !n.setOriginalBusIndex2(rb[k], 5) && !n.setGlobalBusIndex1(rb[k], 5) && !n.setGlobalBusIndex2(rb[k], 5) && !n.setLocalBusIndex1(rb[k], 5) && !n.setLocalBusIndex2(rb[k], 5) && !n.setActiveBranch(rb[k], true), "change of a branch that does not exist is accepted"); } }
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<Net> n(new Net(w));
  if (mode == 3) { // arbitrary active flags, one process at a time
    for (int i = 0; i < nBus; i++) own_[i] = 0; for (int b = 0; b < nBr; b++) bown_[b] = 0; net_build(*n, 0, true); for (int i = 0; i < nBus; i++) n->setActiveBus(i, actB[i]); for (int b = 0; b < nBr; b++) n->setActiveBranch(b, actR[b]); int want = -1; if (ref >= 0) { n->setReferenceBus(ref); gp_check(n->getReferenceBus() == ref, "reference bus"); want = actB[ref] ? ref : -1; }
    n->clean(); net_local(*n, held_[0]); for (int i = 0; i < nBus; i++) gp_check(held_[0].bus[i] == (actB[i] ? 2 : 0), "cleaning keeps exactly the owned buses"); for (int b = 0; b < nBr; b++) gp_check(held_[0].br[b] == (actR[b] ? 2 : 0), "cleaning keeps exactly the owned branches");
    int g = n->getReferenceBus(); if (want < 0) gp_check(g == -1, "reference bus after its removal"); else { gp_check(g >= 0 && g < n->numBuses() && n->getBus(g)->id == want, "reference bus after cleaning"); gp_cover("reference kept"); } gp_cover("clean");
    n->clear(); gp_check(n->numBuses() == 0 && n->numBranches() == 0 && n->getReferenceBus() == -1 && n->getLocalBusIndices(orig_[0]).empty() && n->getLocalBranchIndices(orig_[e1_[0]], orig_[e2_[0]]).empty(), "network not empty after clear"); return; }
  net_build(*n, r, true); int lref = -1; if (ref >= 0) for (int l = 0; l < n->numBuses(); l++) if (n->getBus(l)->id == ref && n->getActiveBus(l)) { n->setReferenceBus(l); lref = l; }
  setters(*n); net_local(*n, held_[r]); gp_check(n->getReferenceBus() == lref, "reference bus"); w.barrier(); if (r == 0) net_global(true); w.barrier();
  if (mode == 0) { gp_check(n->totalBuses() == nBus && n->totalBranches() == nBr, "total numbers of buses and branches");
    n->clean(); net_local(*n, held_[r]); w.barrier(); if (r == 0) net_global(false); w.barrier(); int g = n->getReferenceBus(); if (lref < 0) gp_check(g == -1, "reference bus on a process without it"); else gp_check(g >= 0 && g < n->numBuses() && n->getBus(g)->id == ref, "reference bus after cleaning"); gp_check(n->totalBuses() == nBus && n->totalBranches() == nBr, "total numbers after cleaning"); gp_cover("clean"); if (lref >= 0) gp_cover("reference kept"); }
  if (mode == 1) { boost::shared_ptr<Net2> m(new Net2(w)); if (gp_param("dirty", 1)) { m->addBus(77); m->addBus(78); m->addBranch(77, 78); m->setReferenceBus(1); } int val = 5; n->getNetworkData()->addValue("CASE", 7); n->clone(m);
    gp_check(m->numBuses() == n->numBuses() && m->numBranches() == n->numBranches(), "number of elements of the copy"); for (int l = 0; l < m->numBuses() && l < n->numBuses(); l++) { m->getBus(l)->id = n->getBus(l)->id; m->getBus(l)->v = bv_[m->getBus(l)->id]; } for (int l = 0; l < m->numBranches() && l < n->numBranches(); l++) { m->getBranch(l)->id = n->getBranch(l)->id; m->getBranch(l)->v = brv_[m->getBranch(l)->id]; }
    Held h = held_[r]; net_local(*m, held_[r]); gp_check(memcmp(&h, &held_[r], sizeof h) == 0, "ownership in the copy"); gp_check(m->getReferenceBus() == lref, "reference bus of the copy"); gp_check(m->getNetworkData()->getValue("CASE", &val) && val == 7, "network data of the copy");
    if (n->numBuses()) { n->getBusData(0)->setValue("V", 3.5); double v = 0; m->getBusData(0)->getValue("V", &v); gp_check_eq(v, bv_[m->getBus(0)->id], "copy shares data with the original"); } m->clean(); gp_cover("clone"); w.barrier(); }
  if (mode == 2) { if (!flag) { /* owners already have consistent indices; ghosts lose theirs */ } for (int l = 0; l < n->numBuses(); l++) if (flag || !n->getActiveBus(l)) n->setGlobalBusIndex(l, -5); for (int l = 0; l < n->numBranches(); l++) if (flag || !n->getActiveBranch(l)) n->setGlobalBranchIndex(l, -5);
    n->resetGlobalIndices(flag); net_local(*n, held_[r], true); gb_[r].assign(nBus, -1); gr_[r].assign(nBr, -1); for (int l = 0; l < n->numBuses(); l++) gb_[r][n->getBus(l)->id] = n->getGlobalBusIndex(l); for (int l = 0; l < n->numBranches(); l++) gr_[r][n->getBranch(l)->id] = n->getGlobalBranchIndex(l); w.barrier();
    if (r == 0) { std::vector<int> ub(nBus, 0), ur(nBr, 0); for (int i = 0; i < nBus; i++) { int g = gb_[own_[i]][i]; bool ok = g >= 0 && g < nBus; gp_check(ok, "global bus index out of range"); if (ok) gp_check(ub[g]++ == 0, "global bus index used twice"); if (!flag) gp_check(g == i, "given global bus index changed"); for (int p = 0; p < nProc; p++) if (held_[p].bus[i]) gp_check(gb_[p][i] == g, "ghost and owner of a bus have different global indices"); }
      for (int b = 0; b < nBr; b++) { int g = gr_[bown_[b]][b]; bool ok = g >= 0 && g < nBr; gp_check(ok, "global branch index out of range"); if (ok) gp_check(ur[g]++ == 0, "global branch index used twice"); if (!flag) gp_check(g == b, "given global branch index changed"); for (int p = 0; p < nProc; p++) if (held_[p].br[b]) gp_check(gr_[p][b] == g, "ghost and owner of a branch have different global indices"); } gp_cover("renumber"); } w.barrier(); }
}
void gp_main() { mode = (int)gp_param("mode", 0); net_graph(); flag = (int)gp_param("flag", 1); ref = gp_param("ref", 1) ? gp_choose("ref", -1, nBus - 1) : -1;
  if (mode == 3) { for (int i = 0; i < nBus; i++) actB[i] = gp_choose("active bus", 0, 1); for (int b = 0; b < nBr; b++) actR[b] = gp_choose("active branch", 0, 1); } else net_owners();
  sim_order((int)gp_param("rev", 0)); sim_run(nProc, body); }
