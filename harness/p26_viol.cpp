// Violation checks and regional totals of the power-flow factory on a distributed network.
#include "pfnet.h"
static int mode, useB, area, zone; static double vmin, vmax; static std::vector<int> *lb1, *lb2; static std::vector<std::string> *ltag; static bool vio_[MAXB], lvio_[MAXB][MAXE]; static int near_;
static double absf(int b, int k) { double p, q; pf_flow(b, k, &p, &q); return std::sqrt(p * p + q * q); }
static bool over(int b, int k) { PEl &e = pr_[b].e[k]; double rate; if (useB && e.hasB) rate = e.rb; else if (e.hasA) rate = e.ra; else return false; if (!gp_branch(rate > 0)) return false; double f = absf(b, k); gp_assume((rate - f > 1e-6) | (f - rate > 1e-6)); return e.st && gp_branch(f > rate); }
// every violation reported once, on every process
static void listed(PFFactoryModule &f, const bool *bv, bool (*lv)[MAXE], const char *when) { std::vector<PFFactoryModule::Violation> v = f.getViolations(); int n = 0;
  for (int i = 0; i < nBus; i++) { int c = 0; for (size_t k = 0; k < v.size(); k++) c += v[k].bus_violation && !v[k].line_violation && v[k].bus1 == orig_[i]; gp_check(c == (bv && bv[i] ? 1 : 0), when); n += c; }
  for (int b = 0; b < nBr; b++) for (int k = 0; k < pr_[b].ne; k++) { int c = 0; for (size_t j = 0; j < v.size(); j++) c += v[j].line_violation && !v[j].bus_violation && v[j].bus1 == orig_[e1_[b]] && v[j].bus2 == orig_[e2_[b]] && tagOf(k) == v[j].tag; gp_check(c == (lv && lv[b][k] ? 1 : 0), when); n += c; }
  gp_check_eqi((int)v.size(), n, when); if (n) gp_cover("listed"); }
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<PFNetwork> n(new PFNetwork(w)); pf_build(*n, r);
  PFFactoryModule f(n); f.load(); f.setComponents(); f.setExchange(); n->initBusUpdate(); f.setYBus(); n->updateBuses(); bool none[MAXB] = {}; 
  if (mode == 0) { f.setVoltageLimits(vmin, vmax); bool any = false, anya = false, va[MAXB]; for (int i = 0; i < nBus; i++) { any |= vio_[i]; va[i] = vio_[i] && pb_[i].area == area; anya |= va[i]; }
    gp_check(f.checkVoltageViolations() == !any, "voltage violations of the network"); listed(f, vio_, 0, "list of voltage violations"); f.clearViolations(); listed(f, none, 0, "list after clearing");
    gp_check(f.checkVoltageViolations(area) == !anya, "voltage violations of an area"); listed(f, va, 0, "list of the violations of an area"); f.clearViolations();
    f.ignoreVoltageViolations(); gp_check(f.checkVoltageViolations() && f.checkVoltageViolations(area), "ignored voltage violations are reported"); listed(f, none, 0, "list of ignored violations"); f.clearVoltageViolations(); gp_check(f.checkVoltageViolations() == !any, "voltage violations after the ignore marks are cleared"); listed(f, vio_, 0, "list after the ignore marks are cleared"); if (any) gp_cover("voltage"); else gp_cover("no violation"); }
  if (mode == 1) { f.useRateB(useB); bool any = false, anya = false, va[MAXB][MAXE] = {}; static bool no[MAXB][MAXE];
    for (int b = 0; b < nBr; b++) for (int k = 0; k < pr_[b].ne; k++) { any |= lvio_[b][k]; va[b][k] = lvio_[b][k] && (pb_[e1_[b]].area == area || pb_[e2_[b]].area == area); anya |= va[b][k]; }
    gp_check(f.checkLineOverloadViolations() == !any, "overloads of the network"); listed(f, 0, lvio_, "list of overloads"); f.clearViolations(); listed(f, 0, no, "list after clearing");
    gp_check(f.checkLineOverloadViolations(area) == !anya, "overloads of an area"); listed(f, 0, va, "list of the overloads of an area"); f.clearViolations();
    std::vector<bool> res; bool ok = f.checkLineOverloadViolations(*lb1, *lb2, *ltag, res), want = true; gp_check(res.size() == lb1->size(), "number of results for the listed lines");
    for (size_t j = 0; j < res.size(); j++) { bool x = false; for (int b = 0; b < nBr; b++) for (int k = 0; k < pr_[b].ne; k++) if ((*lb1)[j] == orig_[e1_[b]] && (*lb2)[j] == orig_[e2_[b]] && (*ltag)[j] == tagOf(k)) x |= lvio_[b][k]; gp_check(res[j] == !x, "result for a listed line"); want &= !x; } gp_check(ok == want, "result for all listed lines");
    f.ignoreLineOverloadViolations(); gp_check(f.checkLineOverloadViolations(), "ignored overloads are reported"); gp_check(f.checkLineOverloadViolations(area), "ignored overloads of an area are reported"); gp_check(f.checkLineOverloadViolations(*lb1, *lb2, *ltag, res), "ignored overloads of the listed lines are reported"); listed(f, 0, no, "list of ignored overloads"); f.clearLineOverloadViolations(); gp_check(f.checkLineOverloadViolations() == !any, "overloads after the ignore marks are cleared"); listed(f, 0, lvio_, "list after the ignore marks are cleared"); if (any) gp_cover("overload"); }
  if (mode == 2) { double want = 0, wp = 0, lo = 0, hi = 0, t, mn, mx; for (int i = 0; i < nBus; i++) if (pb_[i].area == area && (zone < 1 || pb_[i].zone == zone)) { for (int g = 0; g < pb_[i].nl; g++) if (pb_[i].l[g].st) want += pb_[i].l[g].pl; for (int g = 0; g < pb_[i].ng; g++) if (pb_[i].g[g].st) { wp += pb_[i].g[g].pg; lo += pb_[i].g[g].pmin; hi += pb_[i].g[g].pmax; } }
    gp_check_eq(f.getTotalLoadRealPower(area, zone), want, "total load of a region"); f.getGeneratorMargins(area, zone, &t, &mn, &mx); gp_check_eq(t, wp, "total generation of a region"); gp_check_eq(mn, lo, "minimum generation of a region"); gp_check_eq(mx, hi, "maximum generation of a region");
    if (gp_param("scale", 0)) { double sc = 1.25; f.setSBus(); f.setMode(powerflow::RHS); std::vector<double> base(2 * 16), now(2 * 16); int nb = n->numBuses(); auto rhs = [&](std::vector<double> &v) { f.setSBus(); for (int l = 0; l < nb; l++) { double z[2] = {0, 0}; int s = 0; if (n->getBus(l)->vectorSize(&s)) n->getBus(l)->vectorValues(z); v[2 * l] = z[0]; v[2 * l + 1] = s > 1 ? z[1] : 0; } };
      rhs(base); f.scaleLoadPower(sc, area, zone); rhs(now); for (int l = 0; l < nb; l++) if (n->getActiveBus(l)) { int i = n->getGlobalBusIndex(l); if (pb_[i].type == 3) continue; double dp = 0, dq = 0; if (pb_[i].area == area && (zone < 1 || pb_[i].zone == zone)) for (int g = 0; g < pb_[i].nl; g++) if (pb_[i].l[g].st) { dp += (sc - 1) * pb_[i].l[g].pl; dq += (sc - 1) * pb_[i].l[g].ql; } gp_check_eq(now[2 * l] - base[2 * l], dp / sbase_, "real power after scaling the loads of a region"); if (!n->getBus(l)->isPV()) gp_check_eq(now[2 * l + 1] - base[2 * l + 1], dq / sbase_, "reactive power after scaling the loads of a region"); }
      f.scaleGeneratorRealPower(0.5, area, zone); rhs(base); for (int l = 0; l < nb; l++) if (n->getActiveBus(l)) { int i = n->getGlobalBusIndex(l); if (pb_[i].type == 3) continue; double dp = 0; if (pb_[i].area == area && (zone < 1 || pb_[i].zone == zone)) for (int g = 0; g < pb_[i].ng; g++) if (pb_[i].g[g].st) dp -= 0.5 * (pb_[i].g[g].pmax - pb_[i].g[g].pg); gp_check_eq(base[2 * l] - now[2 * l], dp / sbase_, "real power after scaling the generators of a region"); }
      rhs(base); f.resetPower(); rhs(now); f.scaleLoadPower(1.0, area, zone); rhs(base); for (int l = 0; l < 2 * nb; l++) gp_check_eq(now[l], base[l], "scaling by one"); f.scaleLoadPower(sc, area, zone); f.scaleGeneratorRealPower(-0.25, area, zone); f.resetPower(); rhs(base); for (int l = 0; l < 2 * nb; l++) gp_check_eq(now[l], base[l], "power after reset"); gp_cover("scaled"); }
    gp_cover("totals"); }
  w.barrier();
}
void gp_main() {
  net_graph(); net_owners(); mode = (int)gp_param("mode", 0); pf_default(); area = 2; zone = mode == 2 ? gp_choose("zone", 0, 2) : 0;
  for (int i = 0; i < nBus; i++) { pb_[i].area = gp_choose("area", 1, 2); if (mode == 2) pb_[i].zone = gp_param("zn", 1) ? gp_choose("bzone", 1, 2) : 1; }
  if (mode == 0) { vmin = gp_real("vmin"); vmax = gp_real("vmax"); gp_assume(vmin < vmax); for (int i = 0; i < nBus; i++) { pb_[i].v = gp_real_in("v", 0.1, 3.0); vio_[i] = gp_branch(pb_[i].v > vmax) || gp_branch(pb_[i].v < vmin); } }
  if (mode == 1) { int E = (int)gp_param("E", 1); useB = gp_choose("useB", 0, 1); for (int b = 0; b < nBr; b++) { pr_[b].ne = b == 0 ? E : 1; for (int k = 0; k < pr_[b].ne; k++) { PEl &e = pr_[b].e[k]; bool rich = b == 0; e.st = rich ? gp_choose("st", 0, 1) : 1; int h = rich ? gp_choose("has", 0, 3) : 3; e.hasA = h & 1; e.hasB = h & 2; e.ra = gp_real("rateA"); e.rb = gp_real("rateB"); lvio_[b][k] = over(b, k); } }
    lb1 = new std::vector<int>; lb2 = new std::vector<int>; ltag = new std::vector<std::string>; for (int b = 0; b < nBr; b++) for (int k = 0; k < pr_[b].ne; k++) { lb1->push_back(orig_[e1_[b]]); lb2->push_back(orig_[e2_[b]]); ltag->push_back(tagOf(k)); } lb1->push_back(orig_[0]); lb2->push_back(777); ltag->push_back("A "); lb1->push_back(orig_[e1_[0]]); lb2->push_back(orig_[e2_[0]]); ltag->push_back("Z "); }
  if (mode == 2) { int G = (int)gp_param("G", 1); for (int i = 0; i < nBus; i++) { pb_[i].ng = i == 1 ? G : 1; pb_[i].nl = i == 1 ? G : 1; if (i == 2) pb_[i].type = 2; for (int g = 0; g < pb_[i].ng; g++) { PGen &p = pb_[i].g[g]; p.pg = gp_real("pg"); p.pmax = gp_real("pmax"); p.pmin = gp_real("pmin"); gp_assume((p.pmin <= p.pg) & (p.pg <= p.pmax)); p.qmax = 1; p.qmin = -1; p.st = i == 0 ? 1 : gp_choose("gst", 0, 1); } for (int g = 0; g < pb_[i].nl; g++) { PLoad &p = pb_[i].l[g]; p.pl = gp_real("pl"); p.ql = gp_real("ql"); p.st = i == 2 ? 1 : gp_choose("lst", 0, 1); } } }
  sim_order((int)gp_param("rev", 0)); sim_run(nProc, body);
}
