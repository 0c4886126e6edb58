// Serialization: an object and its copy (as if sent to another process) answer every query
// alike, before and after the same further operations.
#include "gp.h"
#include <cmath>
#include <vector>
#include <string>
#include <boost/serialization/serialization.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "gridpack/component/base_component.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/applications/components/pf_matrix/pf_components.hpp"
#include "gridpack/applications/components/se_matrix/se_components.hpp"
using namespace gridpack::component; using gridpack::ComplexType; using gridpack::RealType; using gridpack::powerflow::PFBus; using gridpack::powerflow::PFBranch; using gridpack::state_estimation::SEBus; using gridpack::state_estimation::SEBranch; using gridpack::ymatrix::YMBus; using gridpack::ymatrix::YMBranch;
struct Snap { std::vector<double> v; std::vector<std::string> s; std::vector<long> n; void add(int x) { n.push_back(x); } void add(bool x) { n.push_back(x); } void add(double x) { v.push_back(x); } void add(const std::string &x) { s.push_back(x); } void add(ComplexType z) { v.push_back(real(z)); v.push_back(imag(z)); } };
static const char *lab(const char *w, char k, int i) { static char b[200]; if (!gp_param("dbg", 0)) return w; int n = 0; while (w[n]) { b[n] = w[n]; n++; } b[n++] = ' '; b[n++] = k; b[n++] = '0' + i / 100; b[n++] = '0' + i / 10 % 10; b[n++] = '0' + i % 10; b[n] = 0; return b; }
static void same(const Snap &a, const Snap &b, const char *w) { gp_check(a.v.size() == b.v.size() && a.s.size() == b.s.size() && a.n.size() == b.n.size(), lab(w, 'z', 0)); for (size_t i = 0; i < a.n.size() && i < b.n.size(); i++) gp_check(a.n[i] == b.n[i], lab(w, 'n', i)); for (size_t i = 0; i < a.v.size() && i < b.v.size(); i++) { if (gp_param("dbg", 0) == (int)i + 2) { gp_dump_r("a", a.v[i]); gp_dump_r("b", b.v[i]); gp_dump_r("d", a.v[i] - b.v[i]); } } for (size_t i = 0; i < a.v.size() && i < b.v.size(); i++) gp_check_eq(a.v[i], b.v[i], lab(w, 'v', i)); for (size_t i = 0; i < a.s.size() && i < b.s.size(); i++) gp_check(a.s[i] == b.s[i], lab(w, 's', i)); }
static int E, G, L, type0; static boost::shared_ptr<DataCollection> bd[2], dd;
static std::string tagOf(int k) { char c[3] = {(char)('A' + k), k & 1 ? '1' : ' ', 0}; return c; }
template <class B, class R> struct Net { boost::shared_ptr<B> b[2]; boost::shared_ptr<R> r; double buf[2][4];
  void wire() { r->setBus1(b[0]); r->setBus2(b[1]); for (int i = 0; i < 2; i++) b[i]->addBranch(r); b[0]->addBus(b[1]); b[1]->addBus(b[0]); }
  void fresh() { for (int i = 0; i < 2; i++) b[i].reset(new B); r.reset(new R); }
  void from(Net &o) { fresh(); for (int i = 0; i < 2; i++) gpar::transfer(*o.b[i], *b[i]); gpar::transfer(*o.r, *r); wire(); }
  void indices(bool set) { if (!set) return; for (int i = 0; i < 2; i++) { b[i]->setOriginalIndex(gp_int("original index")); b[i]->setGlobalIndex(gp_int("global index")); b[i]->setMatVecIndex(gp_int("matrix index")); } b[1]->setReferenceBus(true); r->setBus1OriginalIndex(gp_int("end")); r->setBus2OriginalIndex(gp_int("end")); r->setBus1GlobalIndex(gp_int("end")); r->setBus2GlobalIndex(gp_int("end")); r->setGlobalIndex(gp_int("global index")); r->setMatVecIndices(gp_int("row"), gp_int("column")); }
  void base(Snap &s) { int i, j; for (int k = 0; k < 2; k++) { s.add(b[k]->getOriginalIndex()); s.add(b[k]->getGlobalIndex()); b[k]->getMatVecIndex(&i); s.add(i); s.add(b[k]->getReferenceBus()); } s.add(r->getBus1OriginalIndex()); s.add(r->getBus2OriginalIndex()); s.add(r->getBus1GlobalIndex()); s.add(r->getBus2GlobalIndex()); s.add(r->getGlobalIndex()); r->getMatVecIndices(&i, &j); s.add(i); s.add(j); }
  void ym(Snap &s) { for (int k = 0; k < 2; k++) { s.add(b[k]->YMBus::isIsolated()); double x = 0, y = 0; b[k]->YMBus::getShuntValues(&x, &y); s.add(x); s.add(y); }
    std::vector<std::string> t = r->getLineTags(); for (auto &q : t) { s.add(q); s.add(r->getLineStatus(q)); s.add(r->YMBranch::getSusceptance(q)); ComplexType y11, y12, y21, y22, yii, yij; r->getLineElements(q, &yii, &yij); s.add(yii); s.add(yij); r->getRvrsLineElements(q, &yii, &yij); s.add(yii); s.add(yij); } std::vector<bool> ls = r->getLineStatus(); for (size_t k = 0; k < ls.size(); k++) s.add(ls[k]);
    s.add(r->YMBranch::getForwardYBus()); s.add(r->YMBranch::getReverseYBus()); s.add(r->YMBranch::getAdmittance()); for (int k = 0; k < 2; k++) { s.add(r->YMBranch::getTransformer(b[k].get())); s.add(r->YMBranch::getShunt(b[k].get())); s.add(b[k]->YMBus::getYBus()); }
    int i = 0, j = 0; ComplexType z[4]; for (int k = 0; k < 2; k++) if (b[k]->YMBus::matrixDiagSize(&i, &j) && b[k]->YMBus::matrixDiagValues(z)) s.add(z[0]); if (r->YMBranch::matrixForwardSize(&i, &j) && r->YMBranch::matrixForwardValues(z)) s.add(z[0]); if (r->YMBranch::matrixReverseSize(&i, &j) && r->YMBranch::matrixReverseValues(z)) s.add(z[0]); }
};
static double num(const char *n, double lo, double hi) { static int k = 0; k++; return gp_param("sym", 0) ? gp_real_in(n, lo, hi) : lo + (hi - lo) * (k % 7 + 1) / 8.5; }
typedef Net<PFBus, PFBranch> PN; typedef Net<SEBus, SEBranch> SN; typedef Net<YMBus, YMBranch> YN;
static void data(bool se) { int nm = gp_param("num", 1); char id[3] = "A "; int hasA = gp_param("shunt", 1);
  for (int i = 0; i < 2; i++) { bd[i].reset(new DataCollection); DataCollection &d = *bd[i]; d.addValue(BUS_NUMBER, i + 1); d.addValue(CASE_SBASE, 100.0); d.addValue(BUS_TYPE, i ? 3 : type0); d.addValue(BUS_VOLTAGE_MAG, num("v", 0.5, 1.5)); d.addValue(BUS_VOLTAGE_ANG, num("angle", -1.0, 1.0)); d.addValue(BUS_AREA, gp_int("area")); d.addValue(BUS_ZONE, gp_int("zone")); if (hasA) { d.addValue(BUS_SHUNT_GL, num("gl", 0.1, 2.0), 0); d.addValue(BUS_SHUNT_BL, num("bl", 0.1, 2.0), 0); }
    int n = i ? 1 : G; if (n) d.addValue(GENERATOR_NUMBER, n); for (int g = 0; g < n; g++) { std::string t = tagOf(g); d.addValue(GENERATOR_PG, gp_real("pg"), g); d.addValue(GENERATOR_QG, gp_real("qg"), g); double v; d.getValue(BUS_VOLTAGE_MAG, &v); d.addValue(GENERATOR_VS, v, g); d.addValue(GENERATOR_STAT, i ? 1 : gp_choose("gst", 0, 1), g); d.addValue(GENERATOR_QMAX, gp_real("qmax"), g); d.addValue(GENERATOR_QMIN, gp_real("qmin"), g); d.addValue(GENERATOR_PMAX, 90.0 + 7 * g, g); d.addValue(GENERATOR_PMIN, 1.0 + g, g); d.addValue(GENERATOR_ID, (char *)t.c_str(), g); }
    n = i ? 0 : L; if (n) d.addValue(LOAD_NUMBER, n); for (int g = 0; g < n; g++) { std::string t = tagOf(g); d.addValue(LOAD_PL, gp_real("pl"), g); d.addValue(LOAD_QL, gp_real("ql"), g); d.addValue(LOAD_IP, gp_real("ip"), g); d.addValue(LOAD_IQ, gp_real("iq"), g); d.addValue(LOAD_YP, gp_real("yp"), g); d.addValue(LOAD_YQ, gp_real("yq"), g); d.addValue(LOAD_STATUS, gp_choose("lst", 0, 1), g); d.addValue(LOAD_ID, (char *)t.c_str(), g); } }
  dd.reset(new DataCollection); DataCollection &d = *dd; d.addValue(BRANCH_NUM_ELEMENTS, E); d.addValue(CASE_SBASE, 100.0);
  for (int k = 0; k < E; k++) { std::string t = tagOf(k); int xf = gp_param("xf", 1) && k == 0; double x = num("x", 0.1, 2.0), r = num("r", 0.01, 0.5); d.addValue(BRANCH_X, x, k); d.addValue(BRANCH_R, r, k); d.addValue(BRANCH_B, num("b", 0.1, 0.9), k); d.addValue(BRANCH_TAP, xf ? num("tap", 0.5, 1.5) : 0.0, k); d.addValue(BRANCH_SHIFT, xf ? num("shift", -0.3, 0.3) : 0.0, k); d.addValue(BRANCH_CKT, (char *)t.c_str(), k); d.addValue(BRANCH_STATUS, gp_choose("on", 0, 1), k); d.addValue(BRANCH_RATING_A, gp_real("ra"), k); d.addValue(BRANCH_RATING_B, gp_real("rb"), k); d.addValue(BRANCH_RATING_C, gp_real("rc"), k); if (hasA) { d.addValue(BRANCH_SHUNT_ADMTTNC_G1, num("g1", 0.1, 2.0), k); d.addValue(BRANCH_SHUNT_ADMTTNC_B1, num("b1", 0.1, 2.0), k); d.addValue(BRANCH_SHUNT_ADMTTNC_G2, num("g2", 0.1, 2.0), k); d.addValue(BRANCH_SHUNT_ADMTTNC_B2, num("b2", 0.1, 2.0), k); } } }
template <class N> void load(N &n) { n.fresh(); n.wire(); n.r->load(dd); for (int i = 0; i < 2; i++) n.b[i]->load(bd[i]); }
template <class N> void ybus(N &n) { n.r->setYBus(); for (int i = 0; i < 2; i++) n.b[i]->setYBus(); }
template <class N> void xc(N &n) { for (int i = 0; i < 2; i++) n.b[i]->setXCBuf(n.buf[i]); }
// ---- power flow
static void rhs(PFBus &b, Snap &s) { b.setMode(gridpack::powerflow::RHS); int n = 0, m = 0; double z[4]; bool ok = b.vectorSize(&n); s.add(ok ? n : 0); if (ok && b.vectorValues(z)) for (int k = 0; k < n; k++) s.add(z[k]); b.setMode(gridpack::powerflow::Jacobian); ok = b.matrixDiagSize(&n, &m); s.add(ok ? n * 10 + m : 0); if (ok && b.matrixDiagValues(z)) for (int k = 0; k < n * m; k++) s.add(z[k]); }
static void pfobs(PN &n, Snap &s) {
  for (int i = 0; i < 2; i++) { PFBus &b = *n.b[i]; s.add(b.getVoltage()); s.add(b.getPhase()); s.add(b.isPV()); s.add(b.isIsolated()); s.add(b.getArea()); s.add(b.getZone()); s.add(b.getIgnore()); s.add(b.checkVoltageViolation());
    std::vector<std::string> t = b.getGenerators(); for (auto &q : t) { s.add(q); s.add(b.getGenStatus(q)); } t = b.getLoads(); for (auto &q : t) s.add(q);
    std::vector<double> a, c, d; std::vector<int> st; t.clear(); b.getGeneratorMargins(t, a, c, d, st); for (size_t k = 0; k < t.size(); k++) { s.add(t[k]); s.add(a[k]); s.add(c[k]); s.add(d[k]); s.add(st[k]); } t.clear(); a.clear(); c.clear(); st.clear(); b.getLoadPower(t, a, c, st); for (size_t k = 0; k < t.size(); k++) { s.add(t[k]); s.add(a[k]); s.add(c[k]); s.add(st[k]); }
    std::string nm = GENERATOR_PG; for (int g = 0; g < G; g++) { double x = -1; b.getParam(nm, &x, g); s.add(x); } nm = GENERATOR_QG; for (int g = 0; g < G; g++) { double x = -1; b.getParam(nm, &x, g); s.add(x); } std::vector<double> pf = b.getGeneratorParticipation(); for (auto x : pf) s.add(x); }
  std::vector<std::string> t = n.r->getLineIDs(); for (auto &q : t) { s.add(q); s.add(n.r->getBranchStatus(q)); s.add(n.r->getBranchRatingA(q)); s.add(n.r->getBranchRatingB(q)); s.add(n.r->getBranchRatingC(q)); s.add(n.r->getIgnore(q)); s.add(n.r->getComplexPower(q)); }
  for (int i = 0; i < 2; i++) rhs(*n.b[i], s); PFBranch &r = *n.r; r.setMode(gridpack::powerflow::Jacobian); int a, b; double z[4]; bool ok = r.matrixForwardSize(&a, &b); s.add(ok); if (ok && r.matrixForwardValues(z)) for (int k = 0; k < a * b; k++) s.add(z[k]); ok = r.matrixReverseSize(&a, &b); s.add(ok); if (ok && r.matrixReverseValues(z)) for (int k = 0; k < a * b; k++) s.add(z[k]); }
static void hist(PN &n, int op) { PFBus &b = *n.b[0]; std::string t = tagOf(0); switch (op) { case 1: if (G) b.setGenStatus(t, false); break; case 2: n.r->setBranchStatus(t, false); break; case 3: b.setIgnore(true); n.r->setIgnore(t, true); b.setVoltageLimits(0.9, 1.1); break; case 4: if (G) { b.setSource(true); b.setScale(1.5); b.scaleGeneratorRealPower(t, 2.0); } break; case 5: if (L) { b.setSink(true); b.setScale(0.5); b.scaleLoadPower(t, 2.0); } break; case 6: b.setSBus(); { Snap x; rhs(b, x); } b.chkQlim(); break; case 7: b.YMBus::setIsolated(true); break; case 8: b.setIsPV(0); break; } }
static void undo(PN &n, int op) { PFBus &b = *n.b[0]; switch (op) { case 1: if (G) b.setGenStatus(tagOf(0), true); break; case 2: n.r->setBranchStatus(tagOf(0), true); break; case 4: case 5: b.resetPower(); break; case 6: b.clearQlim(); break; case 7: b.YMBus::setIsolated(false); break; case 8: b.resetIsPV(); break; } }
static void pf() { data(false); PN a, c; load(a); for (int i = 0; i < 2; i++) a.b[i]->setVoltageLimits(0.95, 1.05); a.indices(true); xc(a); ybus(a); for (int i = 0; i < 2; i++) a.b[i]->setSBus(); int op = gp_param("op", -1) >= 0 ? (int)gp_param("op", 0) : gp_choose("history", 0, 8), op2 = 0; hist(a, op); if (gp_param("two", 0)) { op2 = gp_choose("second", 1, 8); hist(a, op2); }
  c.from(a); xc(c); Snap s, u; a.base(s); c.base(u); same(s, u, "indices of a transferred component"); Snap s1, u1; a.ym(s1); c.ym(u1); pfobs(a, s1); pfobs(c, u1); same(s1, u1, "a transferred power-flow component");
  ybus(a); ybus(c); for (int i = 0; i < 2; i++) { a.b[i]->setSBus(); c.b[i]->setSBus(); } Snap s2, u2; a.ym(s2); c.ym(u2); pfobs(a, s2); pfobs(c, u2); same(s2, u2, "a transferred power-flow component after setting it up again");
  undo(a, op2); undo(c, op2); undo(a, op); undo(c, op); ybus(a); ybus(c); for (int i = 0; i < 2; i++) { a.b[i]->setSBus(); c.b[i]->setSBus(); } Snap s3, u3; a.ym(s3); c.ym(u3); pfobs(a, s3); pfobs(c, u3); same(s3, u3, "a transferred power-flow component after undoing its history"); 
  for (int i = 0; i < 2; i++) { a.b[i]->resetVoltage(); c.b[i]->resetVoltage(); a.b[i]->resetIsPV(); c.b[i]->resetIsPV(); } Snap s4, u4; pfobs(a, s4); pfobs(c, u4); same(s4, u4, "a transferred power-flow component after a reset"); gp_cover("power flow"); if (op == 6) gp_cover("limits"); if (G && E > 1) gp_cover("lists"); }
// ---- state estimation
static void se() { data(true); SN a, c; load(a); a.indices(true); xc(a); ybus(a); c.from(a); xc(c);
  for (int round = 0; round < 2; round++) { if (round) { ybus(a); ybus(c); } Snap s, u; SN *n[2] = {&a, &c}; Snap *q[2] = {&s, &u}; for (int k = 0; k < 2; k++) { n[k]->base(*q[k]); n[k]->ym(*q[k]); for (int i = 0; i < 2; i++) { SEBus &b = *n[k]->b[i]; q[k]->add(b.getVoltage()); q[k]->add(b.getPhase()); q[k]->add(b.isPV()); q[k]->add(b.isIsolated()); q[k]->add(b.getYBus()); double x = 0, y = 0; b.getShuntGsBs(&x, &y); q[k]->add(x); q[k]->add(y); q[k]->add(b.vectorNumElements()); q[k]->add(b.matrixNumRows()); double p, w; n[k]->r->getPQ(&b, &p, &w); q[k]->add(p); q[k]->add(w); q[k]->add(n[k]->r->SEBranch::getTransformer(&b)); q[k]->add(n[k]->r->SEBranch::getShunt(&b)); }
      SEBranch &r = *n[k]->r; q[k]->add(r.SEBranch::getAdmittance()); std::vector<std::string> t = r.getLineTags(); for (auto &g : t) { q[k]->add(r.getComplexPower(g)); q[k]->add(r.getRvrsComplexPower(g)); } } same(s, u, "a transferred state-estimation component"); } gp_cover("state estimation"); }
static void ymx() { data(false); YN a, c; load(a); a.indices(true); ybus(a); int w = gp_choose("history", 0, 2); if (w == 1) a.b[0]->setIsolated(true); if (w == 2) a.r->setLineStatus(tagOf(0), false); c.from(a); for (int round = 0; round < 2; round++) { if (round) { ybus(a); ybus(c); } Snap s, u; a.base(s); c.base(u); a.ym(s); c.ym(u); same(s, u, "a transferred admittance component"); } gp_cover("admittance"); }
// ---- data collections
static void coll() { int n = (int)gp_param("N", 2); DataCollection a; int idx[4] = {0, 1, 10, -1}; int iv[4]; long lv[4]; bool bv[4]; double dv[4]; float fv[4]; double cr[4], ci[4]; std::string sv[4]; int m = gp_choose("elements", 0, n);
  for (int k = 0; k < m; k++) { iv[k] = gp_int("i"); lv[k] = gp_i64("l"); bv[k] = gp_bool("b"); dv[k] = gp_real("d"); fv[k] = (float)gp_real("f"); cr[k] = gp_real("cr"); ci[k] = gp_real("ci"); char t[4] = {gp_char("c"), gp_char("c"), 0, 0}; gp_assume((t[0] != 0) & (t[1] != 0)); sv[k] = t; a.addValue("I", iv[k], idx[k]); a.addValue("L", lv[k], idx[k]); a.addValue("B", bv[k], idx[k]); a.addValue("D", dv[k], idx[k]); a.addValue("F", fv[k], idx[k]); a.addValue("C", ComplexType(cr[k], ci[k]), idx[k]); a.addValue("S", sv[k].c_str(), idx[k]); }
  a.addValue("P", (int)4); a.addValue("Q", "text"); DataCollection c; if (gp_choose("used", 0, 1)) { c.addValue("I", (int)1, 0); c.addValue("OLD", (int)3); } gpar::transfer(a, c); int x = 0; std::string s; gp_check(!c.getValue("OLD", &x), "elements of the receiving collection are replaced");
  for (int k = 0; k < 4; k++) { bool in = k < m; int i = 0; long l = 0; bool b = false; double d = 0; float f = 0; ComplexType z; std::string t; gp_check(c.getValue("I", &i, idx[k]) == in && (!in || i == iv[k]), "int of a transferred collection"); gp_check(c.getValue("L", &l, idx[k]) == in && (!in || l == lv[k]), "long of a transferred collection"); gp_check(c.getValue("B", &b, idx[k]) == in && (!in || b == bv[k]), "bool of a transferred collection"); gp_check(c.getValue("D", &d, idx[k]) == in, "double of a transferred collection"); if (in) gp_check_eq(d, dv[k], "double of a transferred collection"); gp_check(c.getValue("F", &f, idx[k]) == in, "float of a transferred collection"); if (in) gp_check_eq(f, fv[k], "float of a transferred collection"); gp_check(c.getValue("C", &z, idx[k]) == in, "complex of a transferred collection"); if (in) { gp_check_eq(real(z), cr[k], "complex of a transferred collection"); gp_check_eq(imag(z), ci[k], "complex of a transferred collection"); } gp_check(c.getValue("S", &t, idx[k]) == in && (!in || t == sv[k]), "string of a transferred collection"); }
  gp_check(c.getValue("P", &x) && x == 4 && c.getValue("Q", &s) && s == "text" && !c.getValue("I", &x), "plain names of a transferred collection"); gp_cover("collection"); }
extern "C" void gp_main() { gp_set_tol(1e-6); E = gp_param("E", 1); G = gp_param("G", 1); L = gp_param("L", 1); int m = gp_param("mode", 0); if (m == 0) coll(); else { type0 = gp_param("type", 0) ? (int)gp_param("type", 0) : gp_choose("type", 1, 4); if (m == 1) pf(); else if (m == 2) se(); else ymx(); } }
