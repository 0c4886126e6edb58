// Partitioning: any initial placement, any graph, any assignment returned by the graph partitioner.
#include "netbase.h"
typedef network::BaseNetwork<TBus, TBranch> Net;
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<Net> n(new Net(w)); net_fill(*n, r); int rounds = (int)gp_param("rounds", 1);
  for (int k = 0; k < rounds; k++) {
    if (k) { n->clean(); net_local(*n, held_[r]); w.barrier(); if (r == 0) net_global(false); w.barrier(); gp_cover("cleaned"); }
    n->partition(); net_local(*n, held_[r]); w.barrier();
    if (r == 0) { net_global(true); for (int p = 0; p < nProc; p++) { int a = 0, b = 0; for (int i = 0; i < nBus; i++) { a += own_[i] == p; b += part_[i] == p; } gp_check(a == b, "processes do not own what the partitioner assigned to them"); } gp_cover("partitioned"); }
    gp_check_eqi(n->totalBuses(), nBus, "total number of buses"); gp_check_eqi(n->totalBranches(), nBr, "total number of branches");
    w.barrier(); }
}
void gp_main() { net_graph(); net_place(); sim_order((int)gp_param("rev", 0)); sim_run(nProc, body); gp_check(sim_blocked_end() == 0, "messages left undelivered"); }
