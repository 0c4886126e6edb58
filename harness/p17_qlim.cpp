// Reactive limits: PV to PQ conversion of exactly the violated buses, generation fixed at the limit, reversible.
#include "gp.h"
#include <cmath>
#include <vector>
#include <string>
#include "gridpack/component/base_component.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/applications/components/pf_matrix/pf_components.hpp"
using namespace gridpack::component; using gridpack::ComplexType; using gridpack::powerflow::PFBus; using gridpack::powerflow::PFBranch;
static const int M = 4;
static int ng, nl, type, gs[M], gs0[M], ls[M]; static double pg[M], qg[M], qmax[M], qmin[M], pl[M], ql[M], sbase, v0, v1, t0, t1, gy, by, gd, bd;
static boost::shared_ptr<PFBus> b0, b1; static boost::shared_ptr<PFBranch> br; static double buf[2][4];
static bool pvflag() { return *(bool *)&buf[0][2]; }
static std::string gid(int g) { char c[3] = {(char)('A' + g), ' ', 0}; return c; }
static double flowP() { return v0 * v0 * gd + v0 * v1 * (gy * cos(t0 - t1) + by * sin(t0 - t1)); }
static double flowQ() { return -v0 * v0 * bd + v0 * v1 * (gy * sin(t0 - t1) - by * cos(t0 - t1)); }
// mismatch of bus 0 with the generators' reactive output given
static void rhs(bool pv, const double *q, const char *when) {
  b0->setYBus(); b0->setSBus(); b0->setMode(gridpack::powerflow::RHS); int n = 0; double f[2] = {0, 0};
  gp_check(b0->vectorSize(&n) && n == (pv ? 1 : 2), "number of mismatch equations"); gp_check(b0->vectorValues(f), "mismatch returned");
  double P = 0, Q = 0; for (int g = 0; g < ng; g++) if (gs[g]) { P += pg[g]; Q += q[g]; } for (int l = 0; l < nl; l++) if (ls[l]) { P -= pl[l]; Q -= ql[l]; }
  gp_check_eq(f[0], flowP() - P / sbase, when); if (!pv) gp_check_eq(f[1], flowQ() - Q / sbase, when);
}
static void same(bool pv, const char *when) { gp_check(b0->isPV() == pv, when); gp_check(pvflag() == pv, "exchanged type flag of the bus"); for (int g = 0; g < ng; g++) gp_check(b0->getGenStatus(gid(g)) == (gs[g] != 0), "generator status"); }
static void round_(bool pv, int outOrder, int outGen) {
  double hi = 0, lo = 0, l = 0; for (int g = 0; g < ng; g++) if (gs[g]) { hi += qmax[g]; lo += qmin[g]; } for (int i = 0; i < nl; i++) if (ls[i]) l += ql[i];
  double lim[M], need; rhs(pv, qg, "mismatch before enforcement");
  need = flowQ() * sbase + l; bool up = pv && gp_branch(need > hi), dn = pv && gp_branch(need < lo); for (int g = 0; g < ng; g++) lim[g] = up ? qmax[g] : dn ? qmin[g] : qg[g];
  bool r = b0->chkQlim(); gp_check(r == (up || dn), "violation reported exactly when the required output is outside the limits");
  bool now = pv && !(up || dn); same(now, "bus type after enforcement"); rhs(now, lim, "mismatch after enforcement"); if (up) gp_cover("upper"); if (dn) gp_cover("lower"); if (pv && !up && !dn) gp_cover("within"); if (!pv) gp_cover("not pv");
  if (!now) { gp_check(!b0->chkQlim(), "a load bus violates no limit"); same(now, "bus type after a second enforcement"); rhs(now, lim, "mismatch after a second enforcement"); }
  if (outOrder == 2) { b0->setGenStatus(gid(outGen), true); gs[outGen] = 1; }
  b0->clearQlim(); same(pv, "bus type after clearing the limits");
  if (pv) { b0->setIsPV(0); rhs(false, qg, "generation after clearing the limits"); b0->setIsPV(1); } rhs(pv, qg, "mismatch after clearing the limits");
}
extern "C" void gp_main() {
  gp_set_tol(1e-6); ng = gp_param("ng", 2); nl = gp_param("nl", 2); int out = gp_param("out", 0); if (gp_param("var", 0)) { ng = gp_choose("ngen", 1, ng); nl = gp_choose("nload", 0, nl); }
  v0 = gp_real_in("v0", 0.2, 2.0); v1 = gp_real_in("v1", 0.2, 2.0); t0 = gp_real_in("t0", -1.5, 1.5); t1 = gp_real_in("t1", -1.5, 1.5); sbase = gp_real_in("sbase", 0.5, 200.0); type = gp_choose("type", 1, 2);
  b0.reset(new PFBus); b1.reset(new PFBus); br.reset(new PFBranch); boost::shared_ptr<DataCollection> d0(new DataCollection), d1(new DataCollection), db(new DataCollection); char id[3] = "A ";
  boost::shared_ptr<DataCollection> d[2] = {d0, d1};
  for (int i = 0; i < 2; i++) { d[i]->addValue(CASE_SBASE, sbase); d[i]->addValue(BUS_TYPE, i ? 3 : type); d[i]->addValue(BUS_VOLTAGE_MAG, i ? v1 : v0); d[i]->addValue(BUS_VOLTAGE_ANG, 0.0); }
  bool pv = false; d0->addValue(GENERATOR_NUMBER, ng); if (nl) d0->addValue(LOAD_NUMBER, nl);
  for (int g = 0; g < ng; g++) { pg[g] = gp_real("pg"); qg[g] = gp_real("qg"); qmax[g] = gp_real("qmax"); qmin[g] = gp_real("qmin"); gp_assume(qmin[g] <= qmax[g]); gs[g] = gp_choose("gs", 0, 1); if (gs[g] && type == 2) pv = true; id[0] = 'A' + g;
    d0->addValue(GENERATOR_PG, pg[g], g); d0->addValue(GENERATOR_QG, qg[g], g); d0->addValue(GENERATOR_VS, v0, g); d0->addValue(GENERATOR_STAT, gs[g], g); d0->addValue(GENERATOR_QMAX, qmax[g], g); d0->addValue(GENERATOR_QMIN, qmin[g], g); d0->addValue(GENERATOR_PMAX, 100.0 + g, g); d0->addValue(GENERATOR_PMIN, 0.0, g); d0->addValue(GENERATOR_ID, (char *)id, g); }
  for (int l = 0; l < nl; l++) { pl[l] = gp_real("pl"); ql[l] = gp_real("ql"); ls[l] = gp_choose("ls", 0, 1); id[0] = 'A' + l;
    d0->addValue(LOAD_PL, pl[l], l); d0->addValue(LOAD_QL, ql[l], l); d0->addValue(LOAD_IP, 0.0, l); d0->addValue(LOAD_IQ, 0.0, l); d0->addValue(LOAD_YP, 0.0, l); d0->addValue(LOAD_YQ, 0.0, l); d0->addValue(LOAD_STATUS, ls[l], l); d0->addValue(LOAD_ID, (char *)id, l); }
  double r = gp_real("r"), x = gp_real("x"); gp_assume(r * r + x * x != 0.0); db->addValue(BRANCH_NUM_ELEMENTS, 1); db->addValue(CASE_SBASE, sbase);
  db->addValue(BRANCH_X, x, 0); db->addValue(BRANCH_R, r, 0); db->addValue(BRANCH_B, gp_real("b"), 0); db->addValue(BRANCH_TAP, 0.0, 0); db->addValue(BRANCH_SHIFT, 0.0, 0); db->addValue(BRANCH_CKT, "A ", 0); db->addValue(BRANCH_STATUS, 1, 0); db->addValue(BRANCH_RATING_A, 1.0, 0); db->addValue(BRANCH_RATING_B, 1.0, 0); db->addValue(BRANCH_RATING_C, 1.0, 0);
  br->setBus1(b0); br->setBus2(b1); b0->addBranch(br); b1->addBranch(br); br->load(db); b0->load(d0); b1->load(d1); b0->setXCBuf(buf[0]); b1->setXCBuf(buf[1]); buf[0][0] = t0; buf[1][0] = t1;
  br->setYBus(); b1->setYBus(); b0->setYBus(); ComplexType y = br->getForwardYBus(); gy = real(y); by = imag(y); y = b0->getYBus(); gd = real(y); bd = imag(y);
  same(pv, "bus type after load");
  if (!out) { round_(pv, 0, 0); if (gp_param("rounds", 1) > 1) round_(pv, 0, 0); return; }
  int g = gp_choose("outgen", 0, ng - 1); if (!gs[g]) gp_end_path("already out"); gp_cover("outage");
  b0->setGenStatus(gid(g), false); gs[g] = 0; round_(pv, out, g); if (out == 1) { b0->setGenStatus(gid(g), true); gs[g] = 1; } round_(pv, 0, 0);
}
