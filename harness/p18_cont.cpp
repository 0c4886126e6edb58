// Contingencies: applied and undone through the application module; isolated buses (P28).
#include "pfapp.h"
static int kind, nel, eb_[4], ek_[4], rev_[4]; 
struct Snap { std::vector<double> v; void add(double x) { v.push_back(x); } void cmp(const Snap &o, const char *w) { gp_check(v.size() == o.v.size(), w); for (size_t i = 0; i < v.size() && i < o.v.size(); i++) gp_check_eq(v[i], o.v[i], w); } };
static void take(PFNetwork &n, PFFactoryModule &f, Snap &st, Snap &num) { f.setYBus(); f.setSBus();
  for (int l = 0; l < n.numBuses(); l++) { PFBus &b = *n.getBus(l); int i = n.getGlobalBusIndex(l); st.add(b.isIsolated()); st.add(b.isPV()); for (int g = 0; g < pb_[i].ng; g++) st.add(b.getGenStatus(tagOf(g))); ComplexType y = b.getYBus(); num.add(real(y)); num.add(imag(y));
    double z[4] = {0, 0, 0, 0}; int s = 0, t = 0; b.setMode(powerflow::RHS); bool ok = b.vectorSize(&s); num.add(ok ? s : 0); if (ok) { b.vectorValues(z); for (int k = 0; k < s; k++) num.add(z[k]); } b.setMode(powerflow::Jacobian); ok = b.matrixDiagSize(&s, &t); num.add(ok ? s * 10 + t : 0); if (ok) { b.matrixDiagValues(z); for (int k = 0; k < s * t; k++) num.add(z[k]); } }
  for (int l = 0; l < n.numBranches(); l++) { PFBranch &b = *n.getBranch(l); int i = n.getGlobalBranchIndex(l), s = 0, t = 0; double z[4] = {0, 0, 0, 0}; for (int k = 0; k < pr_[i].ne; k++) { st.add(b.getBranchStatus(tagOf(k))); st.add(b.getLineStatus(tagOf(k))); } ComplexType y = b.getForwardYBus(); num.add(real(y)); num.add(imag(y)); y = b.getReverseYBus(); num.add(real(y)); num.add(imag(y));
    b.setMode(powerflow::Jacobian); bool ok = b.matrixForwardSize(&s, &t); num.add(ok ? s * 10 + t : 0); if (ok) { b.matrixForwardValues(z); for (int k = 0; k < s * t; k++) num.add(z[k]); } ok = b.matrixReverseSize(&s, &t); num.add(ok ? s * 10 + t : 0); if (ok) { b.matrixReverseValues(z); for (int k = 0; k < s * t; k++) num.add(z[k]); } } }
static bool out_(int b, int k) { if (kind != powerflow::Branch) return false; for (int j = 0; j < nel; j++) if (eb_[j] == b && ek_[j] == k) return true; return false; }
static bool gout_(int i, int g) { if (kind != powerflow::Generator) return false; for (int j = 0; j < nel; j++) if (eb_[j] == i && ek_[j] == g) return true; return false; }
static bool lone_(int i, bool cont) { for (int b = 0; b < nBr; b++) if (e1_[b] == i || e2_[b] == i) for (int k = 0; k < pr_[b].ne; k++) if (pr_[b].e[k].st && !(cont && out_(b, k))) return false; return true; }
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<PFNetwork> n(new PFNetwork(w)); pf_build(*n, r); PFAppModule app; app.*rob(RNet()) = n; app.*rob(RNoPrint()) = true; app.initialize(); PFFactoryModule &f = *(app.*rob(RFac()));
  Snap s0, n0, s1, n1; take(*n, f, s0, n0);
  for (int round = 0; round < (int)gp_param("rounds", 1); round++) {
    powerflow::Contingency ev; ev.p_type = kind; ev.p_name = "E"; bool here = true;
    for (int j = 0; j < nel; j++) if (kind == powerflow::Branch) { int b = eb_[j]; ev.p_from.push_back(orig_[rev_[j] ? e2_[b] : e1_[b]]); ev.p_to.push_back(orig_[rev_[j] ? e1_[b] : e2_[b]]); ev.p_ckt.push_back(tagOf(ek_[j])); ev.p_saveLineStatus.push_back(true); here &= own_[e1_[b]] == r || own_[e2_[b]] == r; } else { ev.p_busid.push_back(orig_[eb_[j]]); ev.p_genid.push_back(tagOf(ek_[j])); ev.p_saveGenStatus.push_back(true); here &= !n->getLocalBusIndices(orig_[eb_[j]]).empty(); }
    bool ok = app.setContingency(ev); gp_check(ok == here, "contingency found"); f.setYBus();
    for (int l = 0; l < n->numBranches(); l++) { int i = n->getGlobalBranchIndex(l); PFBranch &b = *n->getBranch(l); std::vector<bool> ls = b.getLineStatus(); for (int k = 0; k < pr_[i].ne; k++) { bool want = pr_[i].e[k].st && !out_(i, k); gp_check(b.getBranchStatus(tagOf(k)) == want && b.getLineStatus(tagOf(k)) == want && ls[k] == want, "elements out of service during a contingency"); } }
    for (int l = 0; l < n->numBuses(); l++) { int i = n->getGlobalBusIndex(l); PFBus &b = *n->getBus(l); for (int g = 0; g < pb_[i].ng; g++) gp_check(b.getGenStatus(tagOf(g)) == (pb_[i].g[g].st && !gout_(i, g)), "generators out of service during a contingency"); bool lone = lone_(i, true); if (n->getActiveBus(l)) { gp_check(b.isIsolated() == (lone || pb_[i].type == 4), lone ? "bus without in-service connection is not isolated" : "connected bus is isolated"); if (lone && !lone_(i, false)) gp_cover("cut off"); } }
    // admittances equal those of a network with the elements removed
    { PBr sv[MAXB]; memcpy(sv, pr_, sizeof sv); for (int l = 0; l < n->numBranches(); l++) { int i = n->getGlobalBranchIndex(l); boost::shared_ptr<component::DataCollection> d(new component::DataCollection); PBr q = pr_[i]; int c = 0; double fr = 0, fi = 0; for (int k = 0; k < q.ne; k++) if (q.e[k].st && !out_(i, k)) { double den = q.e[k].r * q.e[k].r + q.e[k].x * q.e[k].x; fr -= q.e[k].r / den; fi += q.e[k].x / den; c++; } ComplexType y = n->getBranch(l)->getForwardYBus(); gp_check_eq(real(y), fr, "admittance of a branch during a contingency"); gp_check_eq(imag(y), fi, "admittance of a branch during a contingency"); if (!c && !pr_[i].e[0].st) gp_cover("all out"); } }
    gp_check(app.unSetContingency(ev) == here, "contingency found when undone"); Snap s2, n2; take(*n, f, s2, n2); s2.cmp(s0, "service states and bus types after a contingency is undone"); n2.cmp(n0, "admittance, mismatch or Jacobian after a contingency is undone"); gp_cover(kind == powerflow::Branch ? "branch" : "generator"); if (nel > 1 && eb_[0] == eb_[1] && ek_[0] == ek_[1]) gp_cover("listed twice"); w.barrier(); }
}
// isolated buses alone (P28): every service pattern, with isolated buses of the input
static void body28(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<PFNetwork> n(new PFNetwork(w)); pf_build(*n, r); PFFactoryModule f(n); f.load(); f.setComponents(); f.setExchange(); n->initBusUpdate();
  bool any = false; for (int i = 0; i < nBus; i++) any |= lone_(i, false);
  for (int round = 0; round < (int)gp_param("rounds", 1); round++) { gp_check(f.checkLoneBus() == !any, "presence of isolated buses in the network");
    for (int l = 0; l < n->numBuses(); l++) { int i = n->getGlobalBusIndex(l); bool lone = lone_(i, false); if (n->getActiveBus(l)) { gp_check(n->getBus(l)->isIsolated() == (lone || pb_[i].type == 4), lone ? "bus without in-service connection is not isolated" : "connected bus is isolated"); gp_cover(lone ? "lone" : "connected"); int d = 0; for (int b = 0; b < nBr; b++) d += e1_[b] == i || e2_[b] == i; if (!d) gp_cover("no branches"); } }
    f.clearLoneBus(); for (int l = 0; l < n->numBuses(); l++) gp_check(n->getBus(l)->isIsolated() == (pb_[n->getGlobalBusIndex(l)].type == 4), "isolated marks after clearing"); }
  w.barrier();
}
void gp_main() {
  net_graph(); net_owners(); pf_default(); int E = (int)gp_param("E", 1), p28 = (int)gp_param("p28", 0); nel = (int)gp_param("nel", 1);
  for (int b = 0; b < nBr; b++) { pr_[b].ne = E; for (int k = 0; k < E; k++) { PEl &e = pr_[b].e[k]; e.st = gp_param("allon", 0) ? 1 : gp_choose("st", 0, 1); if (!p28) { e.x = gp_real_in("x", 0.1, 2.0); e.r = 0.0; } } }
  for (int i = 0; i < nBus; i++) { if (gp_param("t4", 0)) pb_[i].type = gp_choose("t4", 0, 1) ? 4 : pb_[i].type; }
  if (p28) { sim_order((int)gp_param("rev", 0)); sim_run(nProc, body28); return; }
  for (int i = 0; i < nBus; i++) { pb_[i].ng = i == 1 ? 2 : i == 0; pb_[i].nl = 1; if (pb_[i].type == 1) pb_[i].type = i == 1 ? 2 : 1; for (int g = 0; g < pb_[i].ng; g++) { PGen &p = pb_[i].g[g]; p.pg = gp_real("pg"); p.qg = gp_real("qg"); p.pmax = 2 + g; p.pmin = 0.5; p.qmax = gp_real("qmax"); p.qmin = gp_real("qmin"); p.st = i == 0 ? 1 : gp_choose("gst", 0, 1); } pb_[i].l[0].pl = gp_real("pl"); pb_[i].l[0].ql = gp_real("ql"); pb_[i].l[0].st = 1; }
  kind = gp_param("kind", 0) ? powerflow::Generator : powerflow::Branch;
  for (int j = 0; j < nel; j++) { rev_[j] = 0; if (kind == powerflow::Branch) { eb_[j] = gp_choose("line", 0, nBr - 1); ek_[j] = E > 1 ? gp_choose("element", 0, E - 1) : 0; rev_[j] = gp_param("orient", 0) ? gp_choose("reverse", 0, 1) : 0; } else { int k = gp_choose("gen", 0, 2); eb_[j] = k == 0 ? 0 : 1; ek_[j] = k == 0 ? 0 : k - 1; } }
  sim_order((int)gp_param("rev", 0)); sim_run(nProc, body);
}
