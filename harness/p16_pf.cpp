// Power-flow mismatch against the flow equations; Jacobian blocks against its exact derivatives.
#include "gp.h"
#include <cmath>
#include <vector>
#include <string>
#include "gridpack/component/base_component.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/applications/components/pf_matrix/pf_components.hpp"
using namespace gridpack::component; using gridpack::ComplexType; using gridpack::RealType; using gridpack::powerflow::PFBus; using gridpack::powerflow::PFBranch;
struct Br { int f, t; bool on, act; boost::shared_ptr<PFBranch> c; boost::shared_ptr<DataCollection> d; };
struct Bu { int type; bool pv, ref, iso; double buf[4]; std::vector<double> pg, qg, pl, ql; std::vector<int> gs, ls; double sbase; boost::shared_ptr<PFBus> c; boost::shared_ptr<DataCollection> d; };
static std::vector<Bu> bus; static std::vector<Br> br; static int nb;
static bool cplx;
static double th(int i) { return bus[i].buf[0]; }
static double vm(int i) { return bus[i].buf[1]; }
// set the whole state: x = theta_0.. , v_0..
static void state(const double *x) {
  for (int i = 0; i < nb; i++) { bus[i].d->setValue(BUS_VOLTAGE_MAG, x[nb + i]); for (size_t g = 0; g < bus[i].pg.size(); g++) bus[i].d->setValue(GENERATOR_VS, x[nb + i], g); bus[i].c->load(bus[i].d); bus[i].buf[0] = x[i]; bus[i].c->setYBus(); bus[i].c->setSBus(); }
  for (int i = 0; i < nb; i++) gp_check_eq(bus[i].c->getVoltage(), x[nb + i], "voltage magnitude of a bus");
}
static int mismatch(int i, double *f) { // as mapped by the bus-vector mapper
  int n = 0; bus[i].c->setMode(gridpack::powerflow::RHS); bool s = bus[i].c->vectorSize(&n);
  if (!s) { double r[2]; ComplexType z[2]; gp_check(!(cplx ? bus[i].c->vectorValues(z) : bus[i].c->vectorValues(r)), "a bus without mismatch block returns values"); return 0; }
  if (cplx) { ComplexType z[2]; gp_check(bus[i].c->vectorValues(z), "mismatch returned"); for (int k = 0; k < n; k++) { f[k] = real(z[k]); gp_check_eq(imag(z[k]), 0.0, "mismatch is real"); } }
  else gp_check(bus[i].c->vectorValues(f), "mismatch returned");
  return n;
}
static bool block(int kind, int i, int *r, int *c, double *v) { // 0 diag of bus i, 1 forward, 2 reverse of branch i
  ComplexType z[4]; bool s, ok;
  if (kind == 0) { bus[i].c->setMode(gridpack::powerflow::Jacobian); s = bus[i].c->matrixDiagSize(r, c); ok = cplx ? bus[i].c->matrixDiagValues(z) : bus[i].c->matrixDiagValues(v); }
  else { PFBranch &b = *br[i].c; b.setMode(gridpack::powerflow::Jacobian); if (kind == 1) { s = b.matrixForwardSize(r, c); ok = cplx ? b.matrixForwardValues(z) : b.matrixForwardValues(v); } else { s = b.matrixReverseSize(r, c); ok = cplx ? b.matrixReverseValues(z) : b.matrixReverseValues(v); } }
  gp_check(s == ok, "block size and values are reported consistently");
  if (s && cplx) for (int k = 0; k < *r * *c; k++) { v[k] = real(z[k]); gp_check_eq(imag(z[k]), 0.0, "Jacobian is real"); }
  return s;
}
static void checkall(std::vector<double> &x) {
  for (auto &b : br) b.c->setYBus();
  state(&x[0]);
  std::vector<std::vector<double>> G(nb, std::vector<double>(nb, 0.0)), B = G, J(2 * nb, std::vector<double>(2 * nb, 0.0)); std::vector<int> nf(nb);
  for (int i = 0; i < nb; i++) { ComplexType y = bus[i].c->getYBus(); G[i][i] = real(y); B[i][i] = imag(y); }
  for (auto &b : br) { ComplexType y = b.c->YMBranch::getForwardYBus(); G[b.f][b.t] += real(y); B[b.f][b.t] += imag(y); y = b.c->YMBranch::getReverseYBus(); G[b.t][b.f] += real(y); B[b.t][b.f] += imag(y); }
  for (int i = 0; i < nb; i++) {
    double f[2]; nf[i] = mismatch(i, f); Bu &b = bus[i]; gp_check(nf[i] == (b.ref || b.iso ? 0 : b.pv ? 1 : 2), "number of mismatch equations of a bus"); gp_check(b.c->isPV() == b.pv, "voltage-controlled bus");
    if (b.ref) gp_cover("reference"); if (b.pv) gp_cover("pv"); if (b.iso) gp_cover("isolated");
    double P = 0, Q = 0, P0 = 0, Q0 = 0;
    for (int j = 0; j < nb; j++) { if (j != i && bus[j].iso) continue; double c = cos(th(i) - th(j)), s = sin(th(i) - th(j)); P += vm(i) * vm(j) * (G[i][j] * c + B[i][j] * s); Q += vm(i) * vm(j) * (G[i][j] * s - B[i][j] * c); }
    for (size_t g = 0; g < b.pg.size(); g++) if (b.gs[g]) { P0 += b.pg[g]; Q0 += b.qg[g]; }
    for (size_t g = 0; g < b.pl.size(); g++) if (b.ls[g]) { P0 -= b.pl[g]; Q0 -= b.ql[g]; }
    if (nf[i] > 0) gp_check_eq(f[0], P - P0 / b.sbase, "real power mismatch"); if (nf[i] > 1) { gp_check_eq(f[1], Q - Q0 / b.sbase, "reactive power mismatch"); gp_cover("load bus"); }
  }
  auto place = [&](int ri, int ci, int r, int c, double *v) { gp_check(r == nf[ri] && c == nf[ci], "size of a Jacobian block"); for (int a = 0; a < c; a++) for (int e = 0; e < r; e++) J[2 * ri + e][2 * ci + a] += v[a * r + e]; };
  double v[4]; int r, c;
  for (int i = 0; i < nb; i++) { bool s = block(0, i, &r, &c, v); gp_check(s == (nf[i] > 0), "diagonal block present"); if (s) place(i, i, r, c, v); }
  for (size_t k = 0; k < br.size(); k++) { if (block(1, k, &r, &c, v)) { place(br[k].f, br[k].t, r, c, v); gp_cover("off-diagonal"); } if (block(2, k, &r, &c, v)) place(br[k].t, br[k].f, r, c, v); }
  for (int j = 0; j < nb; j++) for (int a = 0; a < nf[j]; a++) {
    auto ev = [&](const double *y, double *f) { state(y); for (int i = 0; i < nb; i++) { double g[2] = {0, 0}; mismatch(i, g); f[2 * i] = g[0]; f[2 * i + 1] = g[1]; } };
    std::vector<double> D = gp_partial(ev, x, a == 0 ? j : nb + j, 2 * nb);
    for (int i = 0; i < nb; i++) for (int e = 0; e < nf[i]; e++) gp_check_near(J[2 * i + e][2 * j + a], D[2 * i + e], 1e-5, a == 0 ? "derivative with respect to an angle" : "derivative with respect to a magnitude");
  }
}
extern "C" void gp_main() {
  gp_set_tol(1e-6); nb = gp_param("nb", 2); int E = gp_param("E", 1), nbr = gp_param("br", 1), ng = gp_param("ng", 1), nl = gp_param("nl", 1), t4 = gp_param("iso", 0); cplx = gp_param("cplx", 0);
  static const int ends[3][2] = {{0, 1}, {2, 0}, {1, 2}}; char id[3] = "A ";
  std::vector<double> x(2 * nb); bus.resize(nb);
  for (int i = 0; i < nb; i++) { x[i] = gp_real_in("theta", -3.0, 3.0); x[nb + i] = gp_real_in("v", 0.2, 2.0); }
  for (int i = 0; i < nb; i++) {
    Bu &b = bus[i]; b.c.reset(new PFBus); b.d.reset(new DataCollection); b.type = gp_choose("type", 1, t4 ? 4 : 3); b.ref = b.type == 3; b.iso = b.type == 4; b.pv = false; b.sbase = gp_real_in("sbase", 0.5, 200.0);
    b.d->addValue(CASE_SBASE, b.sbase); b.d->addValue(BUS_TYPE, b.type); b.d->addValue(BUS_VOLTAGE_MAG, x[nb + i]); b.d->addValue(BUS_VOLTAGE_ANG, 0.0);
    b.d->addValue(BUS_SHUNT_GL, gp_real("gl"), 0); b.d->addValue(BUS_SHUNT_BL, gp_real("bl"), 0); 
    int n = gp_param("var", 1) && i == 0 ? gp_choose("ngen", 0, ng) : ng;
    if (n > 0) b.d->addValue(GENERATOR_NUMBER, n);
    for (int g = 0; g < n; g++) { double pg = gp_real("pg"), qg = gp_real("qg"); int s = gp_choose("gs", 0, 1); b.gs.push_back(s); b.pg.push_back(pg); b.qg.push_back(qg); if (s && b.type == 2) b.pv = true; id[0] = 'A' + g;
      b.d->addValue(GENERATOR_PG, pg, g); b.d->addValue(GENERATOR_QG, qg, g); b.d->addValue(GENERATOR_VS, x[nb + i], g); b.d->addValue(GENERATOR_STAT, s, g); b.d->addValue(GENERATOR_QMAX, 50.0, g); b.d->addValue(GENERATOR_QMIN, -50.0, g); b.d->addValue(GENERATOR_PMAX, 100.0 + g, g); b.d->addValue(GENERATOR_PMIN, 0.0, g); b.d->addValue(GENERATOR_ID, (char *)id, g); }
    int m = i == 0 ? nl : 1; b.d->addValue(LOAD_NUMBER, m);
    for (int g = 0; g < m; g++) { double pl = gp_real("pl"), ql = gp_real("ql"), ip = gp_real("ip"), yp = gp_real("yp"); int s = i == 0 ? gp_choose("ls", 0, 1) : 1; b.ls.push_back(s); b.pl.push_back(pl + ip + yp); b.ql.push_back(ql); id[0] = 'A' + g;
      b.d->addValue(LOAD_PL, pl, g); b.d->addValue(LOAD_QL, ql, g); b.d->addValue(LOAD_IP, ip, g); b.d->addValue(LOAD_IQ, 0.0, g); b.d->addValue(LOAD_YP, yp, g); b.d->addValue(LOAD_YQ, 0.0, g); b.d->addValue(LOAD_STATUS, s, g); b.d->addValue(LOAD_ID, (char *)id, g); }
  }
  for (int i = 0; i < nbr; i++) {
    Br b; b.f = ends[i][0]; b.t = ends[i][1]; b.c.reset(new PFBranch); b.d.reset(new DataCollection); b.d->addValue(BRANCH_NUM_ELEMENTS, E); b.d->addValue(CASE_SBASE, 100.0); b.on = false;
    for (int k = 0; k < E; k++) {
      double r = gp_real("r"), xx = gp_real("x"); gp_assume(r * r + xx * xx != 0.0); id[0] = 'A' + k; int xf = gp_param("xf", 1) && i == 0 && k == 0, s = (bus[b.f].iso || bus[b.t].iso) ? 0 : gp_param("stat", 1) ? gp_choose("on", 0, 1) : 1; if (s) b.on = true; double tap = 0.0, sh = 0.0; if (xf) { tap = gp_real("tap"); gp_assume(tap != 0.0); sh = gp_real("shift"); }
      b.d->addValue(BRANCH_X, xx, k); b.d->addValue(BRANCH_R, r, k); b.d->addValue(BRANCH_B, gp_real("b"), k); b.d->addValue(BRANCH_TAP, tap, k); b.d->addValue(BRANCH_SHIFT, sh, k); b.d->addValue(BRANCH_CKT, (char *)id, k); b.d->addValue(BRANCH_STATUS, s, k);
      b.d->addValue(BRANCH_RATING_A, 1.0, k); b.d->addValue(BRANCH_RATING_B, 1.0, k); b.d->addValue(BRANCH_RATING_C, 1.0, k);
    }
    br.push_back(b);
  }
  for (auto &b : br) { b.c->setBus1(bus[b.f].c); b.c->setBus2(bus[b.t].c); bus[b.f].c->addBranch(b.c); bus[b.t].c->addBranch(b.c); b.c->load(b.d); }
  for (auto &b : bus) { b.c->load(b.d); b.c->setXCBuf(b.buf); }
  checkall(x);
  if (gp_param("flip", 0)) { std::string t = "A "; bool o = br[0].c->getBranchStatus(t); br[0].c->setBranchStatus(t, !o); gp_check(br[0].c->getBranchStatus(t) == !o, "branch status is set"); gp_cover("flip"); checkall(x); }
}
