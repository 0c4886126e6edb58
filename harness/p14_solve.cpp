// Power-flow solution driver: the linear (or library nonlinear) solver is arbitrary, its
// input must be the mismatch and Jacobian of the current state, its result the next state.
#define PFAPP_SOLVE
#include "pfapp.h"
#include "gridpack/configuration/configuration.hpp"
static double ang_[MAXB], dv_[MAXB], pq0_[MAXB][2]; static int off_[MAXB], sz_[MAXB], tot_, calls_[MAXP], normc_[MAXP], nnorm_, maxit_, qlim_; static double norm_[64], tol_, xs_[2 * MAXB], nlx_[2 * MAXB], qcalc_[MAXB]; static PFNetwork *net_[MAXP]; static bool conv_[MAXB], lastnorm_; static double last_; static PFAppModule *app_;
utility::Configuration::CursorPtr utility::Configuration::getCursor(utility::Configuration::KeyType) { return utility::Configuration::CursorPtr((utility::Configuration *)&tot_, [](utility::Configuration *) {}); }
bool utility::Configuration::get(utility::Configuration::KeyType, bool d) { return gp_param("newton", 0) ? true : d; }
static PFBus *busOf(int i, int r) { PFNetwork &n = *net_[r]; for (int l = 0; l < n.numBuses(); l++) if (n.getGlobalBusIndex(l) == i) return n.getBus(l).get(); return 0; }
static void layout() { tot_ = 0; for (int p = 0; p < nProc; p++) for (int i = 0; i < nBus; i++) if (own_[i] == p) { PFBus *b = busOf(i, p); off_[i] = tot_; sz_[i] = pb_[i].type == 3 || b->isIsolated() ? 0 : b->isPV() ? 1 : 2; tot_ += sz_[i]; conv_[i] = pb_[i].type == 2 && !b->isPV(); } }
static double norm(const math::RealVector &v, int kind) { int r = v.me, k = normc_[r]++; v.comm.barrier(); if (r == 0) layout(); v.comm.barrier(); gp_check(v.size() == tot_, "size of the vector whose norm is taken"); if (k >= nnorm_) { norm_[nnorm_++] = gp_real_in("norm", 0.0, 1e6); } v.comm.barrier(); last_ = norm_[k]; return norm_[k]; }
static double wrap(double d) { const double t = 2.0 * (4.0 * atan(1.0)); for (int k = 0; k < 3; k++) d = gp_branch(d > 3.0) ? d - t : gp_branch(d < -3.0) ? d + t : d; return d; }
static void state(int r, const char *w) { PFNetwork &n = *net_[r]; for (int l = 0; l < n.numBuses(); l++) { int i = n.getGlobalBusIndex(l); PFBus &b = *n.getBus(l); gp_check_eq(b.getVoltage(), dv_[i], w); double d = b.getPhase() - ang_[i]; gp_check_eq(gp_param("wide", 0) ? wrap(d) : d, 0.0, w); if (!n.getActiveBus(l)) { gp_cover("ghost"); gp_check(b.isPV() == busOf(i, own_[i])->isPV(), "a ghost bus has the type of the bus"); } } }
// mismatch of an owned bus in the current state
static void mism(int i, int r, double *f) { PFNetwork &n = *net_[r]; PFBus &b = *busOf(i, r); double P = 0, Q = 0; ComplexType y = b.getYBus(); double v = b.getVoltage(), t = b.getPhase(); P = v * v * real(y); Q = -v * v * imag(y);
  for (int l = 0; l < n.numBranches(); l++) { int k = n.getGlobalBranchIndex(l); if (e1_[k] != i && e2_[k] != i) continue; int j = e1_[k] == i ? e2_[k] : e1_[k]; PFBranch &br = *n.getBranch(l); PFBus &o = *busOf(j, r); y = e1_[k] == i ? br.getForwardYBus() : br.getReverseYBus(); double d = e1_[k] == i ? t - o.getPhase() : -(o.getPhase() - t), c = cos(d), s = sin(d); P += v * o.getVoltage() * (real(y) * c + imag(y) * s); Q += v * o.getVoltage() * (real(y) * s - imag(y) * c); }
  qcalc_[i] = Q; f[0] = P - pq0_[i][0]; f[1] = Q - pq0_[i][1]; }
static void checkrhs(int r, const math::RealVector &b) { gp_check(b.size() == tot_, "number of equations given to the solver"); for (int i = 0; i < nBus; i++) if (own_[i] == r && sz_[i]) { double f[2]; mism(i, r, f); if (conv_[i]) { double ql = 0, up = 0, lo = 0; for (int g = 0; g < pb_[i].ng; g++) if (pb_[i].g[g].st) { up += pb_[i].g[g].qmax; lo += pb_[i].g[g].qmin; } for (int g = 0; g < pb_[i].nl; g++) if (pb_[i].l[g].st) ql += pb_[i].l[g].ql; f[1] = 0; double q = qcalc_[i] - b.get(off_[i] + 1, 0); double a = q - (up - ql) / sbase_, c = q - (lo - ql) / sbase_; gp_check((a < 1e-6 && a > -1e-6) || (c < 1e-6 && c > -1e-6), "reactive mismatch of a bus held at its limit"); gp_cover("held at limit"); }
    gp_check_eq(b.get(off_[i], 0), f[0], "real mismatch given to the solver"); if (sz_[i] > 1 && !conv_[i]) gp_check_eq(b.get(off_[i] + 1, 0), f[1], "reactive mismatch given to the solver"); } }
static void checkblock(const math::RealMatrix &A, int ri, int ci, const double *v, int a, int b) { gp_check(a == sz_[ri] && b == sz_[ci], "size of a Jacobian block"); for (int k = 0; k < b; k++) for (int e = 0; e < a; e++) gp_check_eq(A.get(off_[ri] + e, off_[ci] + k), v[k * a + e], "Jacobian given to the solver"); }
static void checkjac(int r, math::RealMatrix &A) { PFNetwork &n = *net_[r]; if (gp_param("dbg",0)) printf("rank %d rows %d cols %d tot %d\n", r, A.rows(), A.cols(), tot_); gp_check(A.rows() == tot_ && A.cols() == tot_, "size of the Jacobian given to the solver"); double v[4]; int a, b;
  for (int l = 0; l < n.numBuses(); l++) if (n.getActiveBus(l)) { int i = n.getGlobalBusIndex(l); PFBus &c = *n.getBus(l); c.setMode(powerflow::Jacobian); if (sz_[i] && c.matrixDiagSize(&a, &b) && c.matrixDiagValues(v)) checkblock(A, i, i, v, a, b); }
  for (int l = 0; l < n.numBranches(); l++) { int k = n.getGlobalBranchIndex(l); PFBranch &c = *n.getBranch(l); c.setMode(powerflow::Jacobian); if (!sz_[e1_[k]] || !sz_[e2_[k]]) continue; if (own_[e1_[k]] == r && c.matrixForwardSize(&a, &b) && c.matrixForwardValues(v)) { checkblock(A, e1_[k], e2_[k], v, a, b); gp_cover("off-diagonal"); } if (own_[e2_[k]] == r && c.matrixReverseSize(&a, &b) && c.matrixReverseValues(v)) checkblock(A, e2_[k], e1_[k], v, a, b); } }
// the linear solver: arbitrary correction
void math::gm_solve(math::RealMatrix &A, const math::RealVector &b, math::RealVector &x) { int r = b.me; b.comm.barrier();
  if (r == 0) layout(); b.comm.barrier(); state(r, "voltages when the equations are solved"); checkrhs(r, b); checkjac(r, A); gp_check(x.size() == tot_, "size of the solution vector"); int it = calls_[r]++; if (it) gp_cover("iteration"); b.comm.barrier();
  for (int k = 0; k < tot_; k++) if (r == 0) xs_[k] = gp_real_in("x", gp_param("wide", 0) ? -3.0 : -0.15, gp_param("wide", 0) ? 3.0 : 0.15); b.comm.barrier();
  int lo, hi; x.localIndexRange(lo, hi); for (int k = lo; k < hi; k++) x.setElement(k, xs_[k]); x.ready();
  for (int i = 0; i < nBus; i++) if (own_[i] == r && sz_[i]) { ang_[i] -= xs_[off_[i]]; if (sz_[i] > 1) dv_[i] -= xs_[off_[i] + 1]; } b.comm.barrier(); }
// the nonlinear solver: evaluates the functions at arbitrary estimates, returns the last
void math::gm_nlsolve(math::RealNonlinearSolver &s, math::RealVector &x) { int r = x.me; if (r == 0) layout(); x.comm.barrier(); if (gp_param("newton", 0)) gp_check(s.tol_ == tol_ && s.mx_ == maxit_, "tolerance and iteration limit given to the solver"); 
  boost::shared_ptr<math::RealVector> f(x.clone()); 
  for (int k = 0; k <= maxit_; k++) { if (k) { if (r == 0) for (int j = 0; j < tot_; j++) xs_[j] = gp_real_in("x", -0.4, 0.4); x.comm.barrier(); int lo, hi; x.localIndexRange(lo, hi); for (int j = lo; j < hi; j++) x.addElement(j, xs_[j]); x.ready(); for (int i = 0; i < nBus; i++) if (own_[i] == r && sz_[i]) { ang_[i] += xs_[off_[i]]; if (sz_[i] > 1) dv_[i] += xs_[off_[i] + 1]; } x.comm.barrier(); }
    if (k == maxit_) break; f->zero(); s.fb(x, *f); state(r, "voltages when the mismatch is evaluated"); checkrhs(r, *f); s.jb(x, s.A); checkjac(r, s.A); calls_[r]++; } gp_cover("library solver"); }
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<PFNetwork> n(new PFNetwork(w)); net_[r] = n.get(); pf_build(*n, r); PFAppModule app; app.*rob(RNet()) = n; app.*rob(RNoPrint()) = true; app.*rob(RTol()) = tol_; app.*rob(RMax()) = maxit_; app.*rob(RQlim()) = qlim_; app.*rob(RCfg()) = (utility::Configuration *)&tot_;
  app.initialize(); if (gp_param("lone", 0)) (app.*rob(RFac()))->checkLoneBus(); w.barrier(); if (r == 0) layout(); w.barrier();
  for (int round = 0; round < (int)gp_param("rounds", 1); round++) {
    calls_[r] = 0; bool ok = gp_param("nl", 0) ? app.nl_solve() : app.solve(); w.barrier();
    state(r, "voltages after the solution"); gp_check(calls_[r] >= 1, "the equations are solved");
    if (!gp_param("nl", 0)) { if (!qlim_) gp_check(calls_[r] <= maxit_ + 1, "number of iterations"); if (ok) { gp_check(last_ <= tol_, "success reported with a mismatch above the tolerance"); gp_cover("converged"); } else gp_cover("not converged");
      if (ok && qlim_) for (int i = 0; i < nBus; i++) if (own_[i] == r && busOf(i, r)->isPV()) { gp_check(!busOf(i, r)->chkQlim(), "a voltage-controlled bus beyond its reactive limits after success"); gp_cover("within limits"); } }
    w.barrier(); }
}
void gp_main() {
  net_graph(); net_owners(); pf_default(); maxit_ = (int)gp_param("it", 2); qlim_ = (int)gp_param("qlim", 0); int nl = (int)gp_param("nl", 0); tol_ = nl ? 1e-6 : gp_real_in("tolerance", 0.0, 1.0); math::gm_norm<RealType>() = norm; int nt = (int)gp_param("types", 2);
  for (int b = 0; b < nBr; b++) { pr_[b].e[0].r = 0.25; }
  for (int i = 0; i < nBus; i++) { PBus &b = pb_[i]; if (i && nt == 2) b.type = gp_choose("pv", 1, 2); else if (i && nt == 3) b.type = i == 1 ? 2 : 1; if (gp_param("lone", 0) && i == nBus - 1) for (int k = 0; k < nBr; k++) if (e1_[k] == i || e2_[k] == i) pr_[k].e[0].st = 0;
    b.ng = b.type >= 2 ? 1 : 0; b.nl = 1; if (b.ng) { PGen &g = b.g[0]; g.pg = gp_real("pg"); g.qg = 0.0; g.pmax = 2; g.pmin = 0.5; g.qmax = gp_real_in("qmax", 0.0, 1e4); g.qmin = gp_real_in("qmin", -1e4, 0.0); g.st = 1; pq0_[i][0] += g.pg / sbase_; pq0_[i][1] += g.qg / sbase_; }
    b.l[0].pl = gp_real("pl"); b.l[0].ql = gp_real("ql"); b.l[0].st = 1; pq0_[i][0] -= b.l[0].pl / sbase_; pq0_[i][1] -= b.l[0].ql / sbase_; ang_[i] = 0; dv_[i] = b.v; }
  sim_order((int)gp_param("rev", 0)); sim_run(nProc, body);
}
