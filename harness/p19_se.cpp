// State estimation: residuals against the measured quantities, Jacobian against their exact derivatives, weights, sizes and indices.
#include "gp.h"
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
#include "gridpack/component/base_component.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/applications/components/se_matrix/se_components.hpp"
using namespace gridpack::component; using namespace gridpack::state_estimation; using gridpack::ComplexType;
struct El { double r, x, b, tap, sh; bool on; std::string ck; };
struct Br { int f, t; std::vector<El> e; std::vector<Measurement> m; boost::shared_ptr<SEBranch> c; boost::shared_ptr<DataCollection> d; };
struct Bu { int type; bool ref, iso; double buf[2]; std::vector<Measurement> m; boost::shared_ptr<SEBus> c; boost::shared_ptr<DataCollection> d; };
static std::vector<Bu> bus; static std::vector<Br> br; static int nb; static double pi_;
static void state(const double *x) { for (int i = 0; i < nb; i++) { bus[i].buf[0] = x[i]; bus[i].buf[1] = x[nb + i]; } }
static double th(int i) { return bus[i].buf[0]; }
static double vm(int i) { return bus[i].buf[1]; }
static void mode(int m) { for (auto &b : bus) b.c->setMode(m); for (auto &b : br) b.c->setMode(m); }
// the measured quantity, from the admittances of the network model
static double flow(Br &b, const char *ck, bool rev, bool q, bool cur) {
  double p = 0, s = 0; int i = rev ? b.t : b.f, j = rev ? b.f : b.t;
  for (auto &e : b.e) if (e.ck == ck && e.on) {
    ComplexType yii, yij; if (rev) b.c->getRvrsLineElements(ck, &yii, &yij); else b.c->getLineElements(ck, &yii, &yij);
    double c = cos(th(i) - th(j)), d = sin(th(i) - th(j)), v = vm(i), w = vm(j);
    p = v * v * real(yii) + v * w * (real(yij) * c + imag(yij) * d); s = -v * v * imag(yii) + v * w * (real(yij) * d - imag(yij) * c);
  }
  return cur ? sqrt(p * p + s * s) / vm(i) : q ? s : p;
}
static double inj(int i, bool q) {
  ComplexType y = bus[i].c->getYBus(); double v = vm(i), r = q ? -v * v * imag(y) : v * v * real(y);
  for (auto &b : br) if ((b.f == i || b.t == i) && !bus[b.f].iso && !bus[b.t].iso) { int j = b.f == i ? b.t : b.f; y = b.f == i ? b.c->getForwardYBus() : b.c->getReverseYBus(); double c = cos(th(i) - th(j)), d = sin(th(i) - th(j)); r += v * vm(j) * (q ? real(y) * d - imag(y) * c : real(y) * c + imag(y) * d); }
  return r;
}
static double measured(int comp, const Measurement &m) {
  std::string t = m.p_type;
  if (comp < nb) { if (t == "VM") return vm(comp); if (t == "VA") return th(comp); return inj(comp, t == "QI"); }
  bool rev = t[1] == 'J'; return flow(br[comp - nb], m.p_ckt, rev, t[0] == 'Q', t[0] == 'I');
}
static std::vector<Measurement> &meas(int k) { return k < nb ? bus[k].m : br[k - nb].m; }
static bool out(int k) { return k < nb ? bus[k].iso : bus[br[k - nb].f].iso || bus[br[k - nb].t].iso; }
template <class F> static void on(int k, F f) { if (k < nb) f(*bus[k].c); else f(*br[k - nb].c); }
enum { RB = 1000, CB = 2000, VB = 3000, QB = 4000, FILL = -77 };
static int nm(int k) { return out(k) ? 0 : (int)meas(k).size(); }
static std::vector<double> residuals(const double *x) {
  state(x); std::vector<double> r; mode(Jacobian_H);
  for (int k = 0; k < nb + (int)br.size(); k++) { int n = 0; on(k, [&](auto &c) { n = c.vectorNumElements(); }); gp_check(n == nm(k), "one residual for every measurement of a component in service");
    std::vector<ComplexType> z(n + 2, ComplexType(FILL, 0)); std::vector<int> ix(n + 2, FILL); on(k, [&](auto &c) { c.vectorGetElementValues(&z[0], &ix[0]); });
    for (int i = 0; i < n; i++) { gp_check(ix[i] == VB + 10 * k + i, "index of a residual"); gp_check_eq(imag(z[i]), 0.0, "residuals are real"); r.push_back(real(z[i])); }
    for (int i = n; i < n + 2; i++) gp_check(ix[i] == FILL, "residuals written past the end"); }
  return r;
}
static double num(const char *n, double dflt, bool sym, double lo, double hi) { return sym ? gp_real_in(n, lo, hi) : dflt; }
static void add(std::vector<Measurement> &v, const char *t, const char *ck) { Measurement m; memset(&m, 0, sizeof m); strcpy(m.p_type, t); strcpy(m.p_ckt, ck); m.p_value = gp_real("value"); m.p_deviation = gp_real("dev"); gp_assume(m.p_deviation > 0.0); v.push_back(m); }
extern "C" void gp_main() {
  gp_set_tol(1e-6); pi_ = 4.0 * atan(1.0); nb = gp_param("nb", 2); int E = gp_param("E", 1), nbr = gp_param("br", 1), bm = gp_param("bm", 0), bt = gp_param("bt", 0), t4 = gp_param("iso", 0), sym = gp_param("sym", 1);
  static const int ends[3][2] = {{0, 1}, {2, 0}, {1, 2}}; const char *bty[4], *rty[6]; bty[0] = "VM"; bty[1] = "VA"; bty[2] = "PI"; bty[3] = "QI"; rty[0] = "PIJ"; rty[1] = "QIJ"; rty[2] = "PJI"; rty[3] = "QJI"; rty[4] = "IIJ"; rty[5] = "IJI";
  std::vector<double> x(2 * nb); bus.resize(nb);
  for (int i = 0; i < nb; i++) { x[i] = gp_real_in("theta", -3.0, 3.0); x[nb + i] = gp_real_in("v", 0.2, 2.0); }
  for (int i = 0; i < nb; i++) { Bu &b = bus[i]; b.c.reset(new SEBus); b.d.reset(new DataCollection); int t = gp_choose("type", 0, t4 ? 2 : 1); b.type = t == 0 ? 1 : t == 1 ? 3 : 4; b.ref = t == 1; b.iso = t == 2;
    b.d->addValue(CASE_SBASE, 100.0); b.d->addValue(BUS_TYPE, b.type); b.d->addValue(BUS_VOLTAGE_MAG, 1.0); b.d->addValue(BUS_VOLTAGE_ANG, 0.0); if (i < gp_param("shunt", 0)) { b.d->addValue(BUS_SHUNT_GL, gp_real("gl"), 0); b.d->addValue(BUS_SHUNT_BL, gp_real("bl"), 0); }
    if (i < bm) for (int k = 0; k < 4; k++) add(b.m, bty[k], ""); }
  for (int i = 0; i < nbr; i++) { Br b; b.f = ends[i][0]; b.t = ends[i][1]; b.c.reset(new SEBranch); b.d.reset(new DataCollection); b.d->addValue(BRANCH_NUM_ELEMENTS, E); b.d->addValue(CASE_SBASE, 100.0);
    for (int k = 0; k < E; k++) { El e; e.r = num("r", k ? 0.25 : 0.5, sym, 0.01, 2.0); e.x = num("x", k ? 0.25 : 0.5, sym, 0.01, 2.0); e.b = num("b", 0.125, sym, -1.0, 1.0); int xf = gp_param("xf", 2) == 2 ? gp_choose("xf", 0, 1) : gp_param("xf", 2); e.tap = xf ? num("tap", 0.5, sym, 0.5, 2.0) : 0.0; e.sh = xf && sym ? gp_real("shift") : 0.0; e.on = gp_param("stat", 0) ? gp_choose("on", 0, 1) : 1; e.ck = k ? "B " : "A "; b.e.push_back(e);
      b.d->addValue(BRANCH_X, e.x, k); b.d->addValue(BRANCH_R, e.r, k); b.d->addValue(BRANCH_B, e.b, k); b.d->addValue(BRANCH_TAP, e.tap, k); b.d->addValue(BRANCH_SHIFT, e.sh, k); b.d->addValue(BRANCH_CKT, e.ck.c_str(), k); b.d->addValue(BRANCH_STATUS, (int)e.on, k);
      for (int j = 0; j < 6; j++) if (bt >> j & 1) add(b.m, rty[j], e.ck.c_str()); }
    br.push_back(b); }
  for (auto &b : br) { b.c->setBus1(bus[b.f].c); b.c->setBus2(bus[b.t].c); bus[b.f].c->addBranch(b.c); bus[b.t].c->addBranch(b.c); bus[b.f].c->addBus(bus[b.t].c); bus[b.t].c->addBus(bus[b.f].c); }
  for (auto &b : bus) { b.c->load(b.d); b.c->setXCBuf(b.buf); for (auto &m : b.m) b.c->addMeasurement(m); }
  for (auto &b : br) { b.c->load(b.d); for (auto &m : b.m) b.c->addMeasurement(m); }
  state(&x[0]); for (auto &b : bus) b.c->setYBus(); for (auto &b : br) b.c->setYBus(); for (auto &b : bus) b.c->configureSE(); for (auto &b : br) b.c->configureSE();
  int nc = nb + (int)br.size(), rounds = gp_param("again", 0) ? 2 : 1;
  std::vector<int> ncol(nb), row0(nc); int rows = 0;
  for (int k = 0; k < nc; k++) { row0[k] = rows; rows += nm(k); }
  for (int q = 0; q < rounds; q++) {
    mode(Jacobian_H);
    for (int k = 0; k < nc; k++) { int nr = 0, cc = 0; on(k, [&](auto &c) { nr = c.matrixNumRows(); cc = c.matrixNumCols(); for (int i = 0; i < nr; i++) { c.matrixSetRowIndex(i, RB + 10 * k + i); c.vectorSetElementIndex(i, VB + 10 * k + i); } for (int i = 0; i < cc; i++) c.matrixSetColIndex(i, CB + 10 * k + i); });
      gp_check(nr == nm(k), "one row for every measurement of a component in service");
      if (k < nb) { ncol[k] = cc; int n = -1; gp_check(cc == 0 || cc == (bus[k].iso ? 0 : bus[k].ref ? 1 : 2), "columns of a bus"); bus[k].c->setMode(Voltage); bool s = bus[k].c->vectorSize(&n); gp_check(s == !bus[k].iso && (!s || cc == 0 || n == cc), "size of the correction of a bus"); bus[k].c->setMode(Jacobian_H); } else gp_check(cc == 0, "columns of a branch"); }
    // Jacobian as assembled by the general mapper
    std::vector<std::vector<double> > J(rows, std::vector<double>(2 * nb, 0.0)); state(&x[0]);
    for (int k = 0; k < nc; k++) { int n = 0; on(k, [&](auto &c) { n = c.matrixNumValues(); }); std::vector<ComplexType> z(n + 4, ComplexType(FILL, 0)); std::vector<int> ri(n + 4, FILL), ci(n + 4, FILL); on(k, [&](auto &c) { c.matrixGetValues(&z[0], &ri[0], &ci[0]); });
      for (int i = n; i < n + 4; i++) gp_check(ri[i] == FILL && ci[i] == FILL, "more Jacobian entries than announced");
      for (int i = 0; i < n; i++) { int a = ri[i] - RB - 10 * k, b = (ci[i] - CB) / 10, e = (ci[i] - CB) % 10; gp_check(ri[i] != FILL && a >= 0 && a < nm(k), "row of a Jacobian entry"); gp_check(ci[i] >= CB && b < nb && e < ncol[b], "column of a Jacobian entry"); gp_check_eq(imag(z[i]), 0.0, "Jacobian is real"); J[row0[k] + a][bus[b].ref ? nb + b : e == 0 ? b : nb + b] += real(z[i]); } }
    std::vector<double> r = residuals(&x[0]); state(&x[0]);
    for (int k = 0; k < nc; k++) for (int i = 0; i < nm(k); i++) { Measurement &m = meas(k)[i]; std::string t = m.p_type, s = t + (t[0] == 'V' ? " residual" : t.size() == 2 ? " residual: injection of the network model" : " residual: flow of the network model"); double h = measured(k, m); if (t[0] == 'I') gp_assume(h > 0.01); gp_check_eq(r[row0[k] + i], m.p_value - h, s.c_str()); gp_cover(t.c_str()); }
    for (int b = 0; b < nb; b++) { if (bus[b].iso) { gp_cover("isolated"); continue; } if (bus[b].ref) gp_cover("reference"); for (int e = bus[b].ref ? 1 : 0; e < 2; e++) { int j = e * nb + b; auto ev = [&](const double *y, double *f) { std::vector<double> g = residuals(y); for (int i = 0; i < rows; i++) f[i] = g[i]; };
      std::vector<double> D = gp_partial(ev, x, j, rows); for (int k = 0; k < nc; k++) for (int i = 0; i < nm(k); i++) { std::string s = std::string(meas(k)[i].p_type) + (e ? " derivative with respect to a magnitude" : " derivative with respect to an angle"); gp_check_near(J[row0[k] + i][j], -D[row0[k] + i], 1e-5, s.c_str()); } } }
    state(&x[0]); mode(R_inv);
    for (int k = 0; k < nc; k++) { int n = 0; on(k, [&](auto &c) { int nr = c.matrixNumRows(), cc = c.matrixNumCols(); n = c.matrixNumValues(); gp_check(nr == nm(k) && cc == nm(k) && n == nm(k), "size of the weights of a component"); for (int i = 0; i < nr; i++) { c.matrixSetRowIndex(i, QB + 10 * k + i); c.matrixSetColIndex(i, QB + 500 + 10 * k + i); } });
      std::vector<ComplexType> z(n + 1); std::vector<int> ri(n + 1, FILL), ci(n + 1, FILL); on(k, [&](auto &c) { c.matrixGetValues(&z[0], &ri[0], &ci[0]); });
      for (int i = 0; i < n; i++) { gp_check(ri[i] == QB + 10 * k + i && ci[i] == QB + 500 + 10 * k + i, "weights are diagonal"); double d = meas(k)[i].p_deviation; gp_check_eq(real(z[i]) * d * d, 1.0, "weight of a measurement is the inverse square of its deviation"); } gp_check(ri[n] == FILL, "more weights than announced"); }
    // the correction is applied to the variables of the columns
    mode(Voltage); std::vector<double> y(x);
    for (int b = 0; b < nb; b++) { ComplexType z[2] = {ComplexType(0, 0), ComplexType(0, 0)}; int n = 0; double da = gp_real("da"), dv = gp_real_in("dv", 0.0, 0.25); if (bus[b].ref) { z[0] = dv; y[nb + b] += dv; } else { z[0] = da; z[1] = dv; if (!bus[b].iso) { y[b] += da; y[nb + b] += dv; } } bus[b].c->setValues(z); gp_check_eq(bus[b].buf[0], y[b], "corrected angle"); gp_check_eq(bus[b].buf[1], y[nb + b], "corrected magnitude"); (void)n; }
    x = y;
  }
}
