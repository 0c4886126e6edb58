// Bus and branch admittances against the pi-circuit with off-nominal tap and phase shift.
#include "gp.h"
#include <cmath>
#include <vector>
#include <string>
#include "gridpack/component/base_component.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/applications/components/y_matrix/ymatrix_components.hpp"
using namespace gridpack::component; using gridpack::ymatrix::YMBus; using gridpack::ymatrix::YMBranch; using gridpack::ComplexType;
struct C { double re, im; };
static C operator+(C a, C b) { return {a.re + b.re, a.im + b.im}; }
static C neg(C a) { return {-a.re, -a.im}; }
static C mul(C a, C b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static void eq(ComplexType a, C b, const char *m) { gp_check_eq(real(a), b.re, m); gp_check_eq(imag(a), b.im, m); }
struct Elem { double r, x, b, tap, shift, g1, b1, g2, b2; bool on, xf, sh, sw; char ck[3]; };
static C series(const Elem &e) { double d = e.r * e.r + e.x * e.x; return {e.r / d, -e.x / d}; }
static double ang(const Elem &e) { return e.shift * (4.0 * atan(1.0)) / 180.0; }
// transfer admittances; the tap (with angle) sits at bus 1, or at bus 2 when switched
static C y12(const Elem &e) { C y = neg(series(e)); if (!e.xf) return y; double c = cos(ang(e)), s = sin(ang(e)); if (e.sw) s = -s; return mul(y, {c / e.tap, s / e.tap}); }   // -y/conj(a)
static C y21(const Elem &e) { C y = neg(series(e)); if (!e.xf) return y; double c = cos(ang(e)), s = sin(ang(e)); if (e.sw) s = -s; return mul(y, {c / e.tap, -s / e.tap}); }  // -y/a
static C self(const Elem &e, int side, bool withshunt) { // contribution to the diagonal of the bus on side 1 or 2
  C y = series(e); bool chg = e.xf || e.sh || !withshunt; if (chg) y.im += 0.5 * e.b;
  if (e.xf && (side == 1) != e.sw) { y.re /= e.tap * e.tap; y.im /= e.tap * e.tap; }
  if (withshunt && e.sh) { y.re += side == 1 ? e.g1 : e.g2; y.im += side == 1 ? e.b1 : e.b2; }
  return y;
}
static Elem mk(int i) {
  Elem e; e.r = gp_real("r"); e.x = gp_real("x"); gp_assume(e.r * e.r + e.x * e.x != 0.0); e.b = gp_real("b"); e.shift = gp_real("shift"); e.tap = 0.0; e.sw = false;
  e.xf = gp_param("xf", -1) >= 0 ? gp_param("xf", 0) : gp_choose("xf", 0, 1); if (e.xf) { e.tap = gp_real("tap"); gp_assume(e.tap != 0.0); e.sw = gp_choose("sw", 0, 1); }
  e.on = gp_bool("on"); e.sh = gp_param("sh", 0) == 2 ? gp_choose("sh", 0, 1) : gp_param("sh", 0);
  e.g1 = gp_real("g1"); e.b1 = gp_real("b1"); e.g2 = gp_real("g2"); e.b2 = gp_real("b2"); e.ck[0] = 'A' + i; e.ck[1] = ' '; e.ck[2] = 0; return e;
}
static void put(DataCollection &d, const Elem &e, int i) {
  d.addValue(BRANCH_X, e.x, i); d.addValue(BRANCH_R, e.r, i); d.addValue(BRANCH_SHIFT, e.shift, i); d.addValue(BRANCH_TAP, e.tap, i); d.addValue(BRANCH_CKT, (char *)e.ck, i); d.addValue(BRANCH_STATUS, (int)e.on, i); d.addValue(BRANCH_B, e.b, i);
  if (e.sw || gp_param("swset", 1)) d.addValue(BRANCH_SWITCHED, (bool)e.sw, i);
  if (e.sh) { d.addValue(BRANCH_SHUNT_ADMTTNC_G1, e.g1, i); d.addValue(BRANCH_SHUNT_ADMTTNC_B1, e.b1, i); d.addValue(BRANCH_SHUNT_ADMTTNC_G2, e.g2, i); d.addValue(BRANCH_SHUNT_ADMTTNC_B2, e.b2, i); }
}
struct Br { int f, t; std::vector<Elem> e; boost::shared_ptr<YMBranch> c; boost::shared_ptr<DataCollection> d; };
struct Bu { double gl, bl, sbase, bin; bool gls, bls, bins; int type; boost::shared_ptr<YMBus> c; boost::shared_ptr<DataCollection> d; };
static std::vector<Bu> bus; static std::vector<Br> br;
static void checkall() {
  for (auto &b : br) b.c->setYBus();
  for (auto &b : bus) b.c->setYBus();
  for (auto &b : br) {
    C f = {0, 0}, r = {0, 0}; bool any = false;
    for (auto &e : b.e) if (e.on) { f = f + y12(e); r = r + y21(e); any = true; }
    eq(b.c->getForwardYBus(), f, "from-to admittance of a branch"); eq(b.c->getReverseYBus(), r, "to-from admittance of a branch");
    bool iso = bus[b.f].type == 4 || bus[b.t].type == 4; int n = -1, m = -1; ComplexType v, w;
    bool fs = b.c->matrixForwardSize(&n, &m), fv = b.c->matrixForwardValues(&v), rs = b.c->matrixReverseSize(&n, &m), rv = b.c->matrixReverseValues(&w);
    gp_check(fs == fv && rs == rv && fs == rs, "forward and reverse blocks are reported consistently");
    if (iso) gp_check(!fs, "a branch to an isolated bus contributes");
    else if (any) { gp_check(fs, "a branch with an element in service does not contribute"); gp_cover("branch"); } else gp_cover("branch out");
    if (fs) { gp_check(n == 1 && m == 1, "block size"); eq(v, f, "matrix element of a branch"); eq(w, r, "matrix element of a branch, reverse"); }
    for (auto &e : b.e) {
      ComplexType yii, yij; b.c->getLineElements(e.ck, &yii, &yij); eq(yij, y12(e), "transfer admittance of an element"); eq(yii, self(e, 1, false), "self admittance of an element at bus 1");
      b.c->getRvrsLineElements(e.ck, &yii, &yij); eq(yij, y21(e), "transfer admittance of an element, reverse"); eq(yii, self(e, 2, false), "self admittance of an element at bus 2");
      gp_check(b.c->getLineStatus(e.ck) == e.on, "service state of an element"); gp_check_eq(b.c->getSusceptance(e.ck), e.b, "charging of an element"); if (e.xf) gp_cover("transformer"); if (e.sw) gp_cover("switched");
    }
    gp_check(!b.c->getLineStatus("ZZ") && !b.c->setLineStatus("ZZ", true), "unknown element");
  }
  for (int i = 0; i < (int)bus.size(); i++) {
    Bu &b = bus[i]; C y = {0, 0}; bool isonb = false;
    for (auto &x : br) { if (x.f != i && x.t != i) continue; if (bus[x.f].type == 4 || bus[x.t].type == 4) isonb = true; for (auto &e : x.e) if (e.on) y = y + self(e, x.f == i ? 1 : 2, true); }
    if (b.bins || (b.gls && b.bls)) { if (b.gls) y.re += b.gl / b.sbase; y.im += (b.bins ? b.bin : b.bl) / b.sbase; gp_cover("shunt"); }
    int n = -1, m = -1; ComplexType v; bool s = b.c->matrixDiagSize(&n, &m), k = b.c->matrixDiagValues(&v);
    gp_check(s == k && s == (b.type != 4), "an isolated bus contributes, or another does not"); gp_check(b.c->getReferenceBus() == (b.type == 3), "reference bus"); gp_check(b.c->isIsolated() == (b.type == 4), "isolated bus");
    if (b.type == 4) { gp_cover("isolated"); continue; }
    gp_check(n == 1 && m == 1, "block size"); if (isonb) continue;
    eq(v, y, "diagonal admittance of a bus"); eq(b.c->getYBus(), y, "diagonal admittance of a bus");
  }
}
extern "C" void gp_main() {
  gp_set_tol(1e-7);
  int nb = gp_param("nb", 2), E = gp_param("E", 1); static const int ends[3][2] = {{0, 1}, {2, 0}, {1, 2}};
  for (int i = 0; i < nb; i++) {
    Bu b; b.c.reset(new YMBus); b.d.reset(new DataCollection); b.sbase = gp_real("sbase"); gp_assume(b.sbase > 0); b.type = gp_param("iso", 0) ? gp_choose("type", 1, 4) : 1;
    b.gl = gp_real("gl"); b.bl = gp_real("bl"); b.bin = gp_real("binit"); b.gls = b.bls = gp_param("bs", 0) > 0 && i == 0; b.bins = false; if (gp_param("bs", 0) == 2 && i == 0) { b.gls = gp_choose("gls", 0, 1); b.bls = gp_choose("bls", 0, 1); b.bins = gp_choose("bins", 0, 1); }
    b.d->addValue(CASE_SBASE, b.sbase); b.d->addValue(BUS_TYPE, b.type); if (b.gls) b.d->addValue(BUS_SHUNT_GL, b.gl, 0); if (b.bls) b.d->addValue(BUS_SHUNT_BL, b.bl, 0); if (b.bins) b.d->addValue(SHUNT_BINIT, b.bin); bus.push_back(b);
  }
  for (int i = 0; i < gp_param("br", 1); i++) { Br b; b.f = ends[i][0]; b.t = ends[i][1]; b.c.reset(new YMBranch); b.d.reset(new DataCollection); for (int k = 0; k < E; k++) { b.e.push_back(mk(k)); put(*b.d, b.e[k], k); } b.d->addValue(BRANCH_NUM_ELEMENTS, E); br.push_back(b); }
  for (auto &b : br) { b.c->setBus1(bus[b.f].c); b.c->setBus2(bus[b.t].c); bus[b.f].c->addBranch(b.c); bus[b.t].c->addBranch(b.c); }
  int loads = gp_param("reload", 0) ? 2 : 1;
  for (int k = 0; k < loads; k++) { for (auto &b : bus) b.c->load(b.d); for (auto &b : br) b.c->load(b.d); }
  for (auto &b : bus) b.c->setMode(gridpack::ymatrix::YBus);
  for (auto &b : br) b.c->setMode(gridpack::ymatrix::YBus);
  checkall();
  if (gp_param("flip", 0)) { Elem &e = br[0].e[E - 1]; e.on = !e.on; gp_check(br[0].c->setLineStatus(e.ck, e.on), "service state of a known element is set"); checkall(); gp_cover("flip"); }
}
