// Ghost exchange: every ghost buffer equals its owner's after an update.
#include "netbase.h"
typedef network::BaseNetwork<TBus, TBranch> Net;
static int mode, X, rounds, W; static double v_[3][MAXB][3], w_[3][MAXB][3];
static std::vector<double *> ext_[MAXP], rext_[MAXP];
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<Net> n(new Net(w)); net_build(*n, r, true); int nb = n->numBuses(), nr = n->numBranches(), ext = (int)gp_param("ext", 0), S = W * 8, RS = (int)gp_param("rw", W) * 8;
  factory::BaseFactory<Net> f(n); f.setComponents();
  if (ext) { n->allocXCBusPointers(S); n->allocXCBranchPointers(RS); for (int l = 0; l < nb; l++) { ext_[r].push_back((double *)malloc(S)); n->setXCBusBuffer(l, ext_[r][l]); } for (int l = 0; l < nr; l++) { rext_[r].push_back((double *)malloc(RS)); n->setXCBranchBuffer(l, rext_[r][l]); } }
  else if (gp_param("comp", 0)) { for (int l = 0; l < nb; l++) n->getBus(l)->setXCBufSize_(S); for (int l = 0; l < nr; l++) n->getBranch(l)->setXCBufSize_(RS); f.setExchange(true); for (int l = 0; l < nb; l++) { if (S) gp_check(n->getBus(l)->xc() == n->getXCBusBuffer(l), "component buffer is not the network's"); } for (int l = 0; l < nr; l++) { if (RS) gp_check(n->getBranch(l)->xc() == n->getXCBranchBuffer(l), "component buffer is not the network's"); } gp_cover("component buffers"); }
  else { n->allocXCBus(S); n->allocXCBranch(RS); }
  for (int k = 0; k < rounds; k++) {
    if (k == 0 || gp_param("reinit", 0)) { n->initBusUpdate(); n->initBranchUpdate(); }
    if (k == 0 && X > 0) sim_explore(X);
    for (int l = 0; l < nb; l++) { double *b = S ? (double *)n->getXCBusBuffer(l) : 0; int id = n->getBus(l)->id; for (int j = 0; j < W; j++) b[j] = n->getActiveBus(l) ? v_[k][id][j] : -1.0 - j; }
    if (S && nb) gp_cover("buses"); if (S) n->updateBuses();
    for (int l = 0; l < nb; l++) { double *b = S ? (double *)n->getXCBusBuffer(l) : 0; int id = n->getBus(l)->id; for (int j = 0; j < W; j++) gp_check_eq(b[j], v_[k][id][j], n->getActiveBus(l) ? "exchange changed an owned bus" : "ghost bus differs from its owner"); if (!n->getActiveBus(l)) gp_cover("ghost bus"); }
    for (int l = 0; l < nr; l++) { double *b = RS ? (double *)n->getXCBranchBuffer(l) : 0; int id = n->getBranch(l)->id; for (int j = 0; j < RS / 8; j++) b[j] = n->getActiveBranch(l) ? w_[k][id][j] : -1.0 - j; }
    if (RS) n->updateBranches();
    for (int l = 0; l < nr; l++) { double *b = RS ? (double *)n->getXCBranchBuffer(l) : 0; int id = n->getBranch(l)->id; for (int j = 0; j < RS / 8; j++) gp_check_eq(b[j], w_[k][id][j], n->getActiveBranch(l) ? "exchange changed an owned branch" : "ghost branch differs from its owner"); if (!n->getActiveBranch(l)) gp_cover("ghost branch"); }
    for (int l = 0; l < nb; l++) { double *b = S ? (double *)n->getXCBusBuffer(l) : 0; int id = n->getBus(l)->id; for (int j = 0; j < W; j++) gp_check_eq(b[j], v_[k][id][j], "branch exchange changed a bus"); }
  }
}
void gp_main() { mode = (int)gp_param("mode", 0); X = (int)gp_param("X", 0); rounds = (int)gp_param("rounds", 2); W = (int)gp_param("w", 2); net_graph(); net_owners(); for (int k = 0; k < rounds; k++) { for (int i = 0; i < nBus; i++) for (int j = 0; j < W; j++) v_[k][i][j] = gp_real("bus"); for (int b = 0; b < nBr; b++) for (int j = 0; j < 3; j++) w_[k][b][j] = gp_real("branch"); }
  sim_order((int)gp_param("rev", 0)); sim_run(nProc, body); }
