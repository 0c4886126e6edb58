// Component wiring by the factory.
#include "netbase.h"
typedef network::BaseNetwork<TBus, TBranch> Net; typedef component::BaseComponent BC;
static int ref, fl_[MAXP], mv_[MAXB][MAXP], twice; static std::vector<int> act_[MAXP];
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<Net> n(new Net(w)); net_build(*n, r, true); int nb = n->numBuses(), nr = n->numBranches(); if (ref >= 0) for (int l = 0; l < nb; l++) if (n->getBus(l)->id == ref) n->setReferenceBus(l);
  factory::BaseFactory<Net> f(n); f.setComponents(); if (twice) f.setComponents();
  int lo = 99, hi = -1, na = 0;
  for (int l = 0; l < nb; l++) { boost::shared_ptr<TBus> b = n->getBus(l); gp_check_eqi(b->getOriginalIndex(), orig_[b->id], "original index of a bus component"); gp_check_eqi(b->getGlobalIndex(), b->id, "global index of a bus component"); gp_check(b->getReferenceBus() == (b->id == ref), "reference flag of a bus component");
    int m = -1; b->getMatVecIndex(&m); bool ok = m >= 0 && m < nBus; gp_check(ok, "matrix index of a bus out of range"); mv_[b->id][r] = m; if (n->getActiveBus(l)) { na++; if (m < lo) lo = m; if (m > hi) hi = m; }
    std::vector<boost::shared_ptr<BC> > nbr, nbs; b->getNeighborBranches(nbr); b->getNeighborBuses(nbs); int deg = 0; std::vector<int> cb = n->getConnectedBuses(l); gp_check(cb.size() == nbs.size(), "number of neighbour buses");
    for (int k = 0; k < nr; k++) { int id = n->getBranch(k)->id; bool inc = e1_[id] == b->id || e2_[id] == b->id; deg += inc; int c = 0; for (size_t j = 0; j < nbr.size(); j++) c += nbr[j].get() == n->getBranch(k).get(); gp_check(c == (inc ? 1 : 0), "branch components of a bus"); } gp_check((int)nbr.size() == deg, "number of branch components of a bus");
    for (int k = 0; k < nb; k++) { int id = n->getBus(k)->id, ww = 0, c = 0; for (int j = 0; j < nr; j++) { int q = n->getBranch(j)->id; ww += (e1_[q] == b->id && e2_[q] == id) || (e2_[q] == b->id && e1_[q] == id); } for (size_t j = 0; j < nbs.size(); j++) c += nbs[j].get() == n->getBus(k).get(); gp_check(ww ? c >= 1 && c <= ww : c == 0, "neighbour bus components"); } }
  if (na) gp_check(hi - lo + 1 == na, "matrix indices of the buses of a process are not consecutive");
  for (int k = 0; k < nr; k++) { boost::shared_ptr<TBranch> b = n->getBranch(k); TBus *b1 = dynamic_cast<TBus *>(b->getBus1().get()), *b2 = dynamic_cast<TBus *>(b->getBus2().get()); gp_check(b1 && b2 && b1->id == e1_[b->id] && b2->id == e2_[b->id], "end buses of a branch component"); gp_check(b->getBus1OriginalIndex() == orig_[e1_[b->id]] && b->getBus2OriginalIndex() == orig_[e2_[b->id]] && b->getBus1GlobalIndex() == e1_[b->id] && b->getBus2GlobalIndex() == e2_[b->id], "bus indices of a branch component"); gp_check_eqi(b->getGlobalIndex(), b->id, "global index of a branch component");
    int i1 = -1, i2 = -1; b->getMatVecIndices(&i1, &i2); gp_check(i1 == mv_[e1_[b->id]][r] && i2 == mv_[e2_[b->id]][r], "matrix indices of a branch are not those of its buses"); }
  for (int l = 0; l < nb; l++) if (n->getActiveBus(l)) act_[r].push_back(n->getBus(l)->id);
  net_local(*n, held_[r]); w.barrier();
  if (r == 0) { std::vector<int> u(nBus, 0); for (int i = 0; i < nBus; i++) { int m = mv_[i][own_[i]]; gp_check(m >= 0 && m < nBus && u[m]++ == 0, "matrix index of a bus used twice"); for (int p = 0; p < nProc; p++) if (held_[p].bus[i] == 1) { gp_check(mv_[i][p] == m, "ghost and owner of a bus have different matrix indices"); gp_cover("ghost"); } } gp_cover("wired"); }
  bool all = true, some = false; for (int p = 0; p < nProc; p++) { all &= (fl_[p] & 1) != 0; some |= (fl_[p] & 1) != 0; } gp_check(f.checkTrue(fl_[r] & 1) == all, "conjunction over the processes"); gp_check(f.checkTrueSomewhere(fl_[r] & 1) == some, "disjunction over the processes");
}
void gp_main() { net_graph(); net_owners(); twice = (int)gp_param("twice", 0); ref = gp_param("ref", 1) ? gp_choose("ref", -1, nBus - 1) : -1; for (int p = 0; p < nProc; p++) fl_[p] = gp_param("fl", 0) ? gp_choose("flag", 0, 1) : p & 1; sim_order((int)gp_param("rev", 0)); sim_run(nProc, body); }
