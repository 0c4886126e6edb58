// A distributed power-flow network with real power-flow components, for harnesses on the
// power-flow factory and application module.
#pragma once
#define NB_CUSTOM
#include "netbase.h"
#include <cmath>
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/applications/components/pf_matrix/pf_components.hpp"
#include "gridpack/applications/modules/powerflow/pf_factory_module.hpp"
using powerflow::PFBus; using powerflow::PFBranch; using powerflow::PFNetwork; using powerflow::PFFactoryModule;
enum { MAXE = 3, MAXG = 2 };
struct PGen { double pg, qg, qmax, qmin, pmax, pmin; int st; }; struct PLoad { double pl, ql; int st; };
struct PBus { int type, area, zone, ng, nl; double v, ang; PGen g[MAXG]; PLoad l[MAXG]; double gl, bl; };
struct PEl { double r, x, b, tap, shift, ra, rb; bool hasA, hasB; int st; };
struct PBr { int ne; PEl e[MAXE]; };
static PBus pb_[MAXB]; static PBr pr_[MAXB]; static double sbase_ = 100.0;
static std::string tagOf(int k) { char c[3] = {(char)('A' + k), k & 1 ? '1' : ' ', 0}; return c; }
// concrete, all different, everything in service
static void pf_default() {
  for (int i = 0; i < nBus; i++) { PBus &b = pb_[i]; memset(&b, 0, sizeof b); b.type = i == 0 ? 3 : 1; b.area = 1; b.zone = 1; b.v = 1.0 + 0.03125 * i; b.ang = 0; b.gl = 0; b.bl = 0; }
  for (int b = 0; b < nBr; b++) { PBr &r = pr_[b]; memset(&r, 0, sizeof r); r.ne = 1; for (int k = 0; k < MAXE; k++) { PEl &e = r.e[k]; e.r = 0.0; e.x = 0.25 * (1 + b) + 0.125 * k; e.b = 0.0625 * (k + 1); e.tap = 0; e.shift = 0; e.hasA = e.hasB = true; e.ra = e.rb = 1e6; e.st = 1; } }
}
static void pf_busdata(component::DataCollection &d, int i) { PBus &b = pb_[i];
  d.addValue(BUS_NUMBER, orig_[i]); d.addValue(CASE_SBASE, sbase_); d.addValue(BUS_TYPE, b.type); d.addValue(BUS_VOLTAGE_MAG, b.v); d.addValue(BUS_VOLTAGE_ANG, b.ang); d.addValue(BUS_AREA, b.area); d.addValue(BUS_ZONE, b.zone); d.addValue(BUS_SHUNT_GL, b.gl, 0); d.addValue(BUS_SHUNT_BL, b.bl, 0);
  if (b.ng) d.addValue(GENERATOR_NUMBER, b.ng); for (int g = 0; g < b.ng; g++) { PGen &p = b.g[g]; std::string t = tagOf(g); d.addValue(GENERATOR_PG, p.pg, g); d.addValue(GENERATOR_QG, p.qg, g); d.addValue(GENERATOR_VS, b.v, g); d.addValue(GENERATOR_STAT, p.st, g); d.addValue(GENERATOR_QMAX, p.qmax, g); d.addValue(GENERATOR_QMIN, p.qmin, g); d.addValue(GENERATOR_PMAX, p.pmax, g); d.addValue(GENERATOR_PMIN, p.pmin, g); d.addValue(GENERATOR_ID, (char *)t.c_str(), g); }
  if (b.nl) d.addValue(LOAD_NUMBER, b.nl); for (int g = 0; g < b.nl; g++) { PLoad &p = b.l[g]; std::string t = tagOf(g); d.addValue(LOAD_PL, p.pl, g); d.addValue(LOAD_QL, p.ql, g); d.addValue(LOAD_IP, 0.0, g); d.addValue(LOAD_IQ, 0.0, g); d.addValue(LOAD_YP, 0.0, g); d.addValue(LOAD_YQ, 0.0, g); d.addValue(LOAD_STATUS, p.st, g); d.addValue(LOAD_ID, (char *)t.c_str(), g); } }
static void pf_brdata(component::DataCollection &d, int b) { PBr &r = pr_[b]; d.addValue(BRANCH_NUM_ELEMENTS, r.ne); d.addValue(CASE_SBASE, sbase_);
  for (int k = 0; k < r.ne; k++) { PEl &e = r.e[k]; std::string t = tagOf(k); d.addValue(BRANCH_X, e.x, k); d.addValue(BRANCH_R, e.r, k); d.addValue(BRANCH_B, e.b, k); d.addValue(BRANCH_TAP, e.tap, k); d.addValue(BRANCH_SHIFT, e.shift, k); d.addValue(BRANCH_CKT, (char *)t.c_str(), k); d.addValue(BRANCH_STATUS, e.st, k); if (e.hasA) d.addValue(BRANCH_RATING_A, e.ra, k); if (e.hasB) d.addValue(BRANCH_RATING_B, e.rb, k); } }
// what process r holds: own buses, then ghosts
template <class N> void pf_build(N &n, int r) { int loc[MAXB]; for (int i = 0; i < nBus; i++) loc[i] = -1;
  for (int pass = 0; pass < 2; pass++) for (int i = 0; i < nBus; i++) { bool need = own_[i] == r; if (pass) { if (need) continue; for (int b = 0; b < nBr; b++) if ((e1_[b] == i && own_[e2_[b]] == r) || (e2_[b] == i && own_[e1_[b]] == r)) need = true; } if (!need) continue;
    n.addBus(orig_[i]); int l = n.numBuses() - 1; loc[i] = l; n.setGlobalBusIndex(l, i); n.setActiveBus(l, pass == 0); pf_busdata(*n.getBusData(l), i); }
  for (int pass = 0; pass < 2; pass++) for (int b = 0; b < nBr; b++) { bool mine = bown_[b] == r; if (pass ? mine || (own_[e1_[b]] != r && own_[e2_[b]] != r) : !mine) continue;
    n.addBranch(orig_[e1_[b]], orig_[e2_[b]]); int l = n.numBranches() - 1; n.setGlobalBranchIndex(l, b); n.setGlobalBusIndex1(l, e1_[b]); n.setGlobalBusIndex2(l, e2_[b]); n.setLocalBusIndex1(l, loc[e1_[b]]); n.setLocalBusIndex2(l, loc[e2_[b]]); n.addBranchNeighbor(loc[e1_[b]], l); n.addBranchNeighbor(loc[e2_[b]], l); n.setActiveBranch(l, pass == 0); pf_brdata(*n.getBranchData(l), b); }
  n.setMap(); }
// complex flow into element k of branch b at its from end, all angles zero and no tap: s = v1 conj(i)
static void pf_flow(int b, int k, double *p, double *q) { PEl &e = pr_[b].e[k]; double v1 = pb_[e1_[b]].v, v2 = pb_[e2_[b]].v, d = e.r * e.r + e.x * e.x, g = e.r / d, s = -e.x / d; *p = v1 * (v1 - v2) * g * sbase_; *q = -(v1 * (v1 - v2) * s + v1 * v1 * e.b / 2) * sbase_; }
