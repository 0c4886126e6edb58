// GlobalStore / GlobalVector: put on some processes, read on all.
#include "sim.h"
#include "gridpack/parallel/global_store.hpp"
#include "gridpack/parallel/global_vector.hpp"
using namespace gridpack::parallel;
struct Rec { double a; int b; char c; };
static bool same(const Rec &x, const Rec &y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
static bool same(double x, double y) { return x == y; } static bool same(int x, int y) { return x == y; }
static Rec mk(Rec *) { Rec r; memset((void *)&r, 0, sizeof r); r.a = gp_real("a"); r.b = gp_int("b"); r.c = gp_char("c"); return r; } static double mk(double *) { return gp_real("v"); } static int mk(int *) { return gp_int("v"); }
static int NP, K, L, mode, owner[16], len[16], neu[16]; static bool any_;
template <class T> struct Run {
  static T val[16][8], val2[16][8];
  static void store(int r) {
    Communicator w; Communicator c = gp_param("sub", 0) ? w.split(r == NP - 1 ? 1 : 0) : w; int np = c.size(); if (gp_param("sub", 0) && r == NP - 1) return;
    GlobalStore<T> g(c); int hi = -1;
    for (int j = 0; j < K; j++) { int i = gp_param("back", 0) ? K - 1 - j : j; if (owner[i] == r) g.addVector(i, std::vector<T>(&val[i][0], &val[i][0] + len[i])); }
    for (int i = 0; i < K; i++) if (owner[i] >= 0 && owner[i] < np) hi = i;
    g.upload(); sim_explore(0);
    int tot = 0; for (int i = 0; i < K; i++) if (owner[i] >= 0) tot += len[i]; if (hi < 0) return;
    for (int rep = 0; rep < 2; rep++) for (int i = 0; i <= hi; i++) { std::vector<T> v(1); g.getVector(i, v); int n = owner[i] >= 0 ? len[i] : 0; gp_check_eqi((int64_t)v.size(), n, "length of the returned vector"); for (int j = 0; j < n && j < (int)v.size(); j++) gp_check(same(v[j], val[i][j]), "returned vector element differs from the stored one"); if (n == 0) gp_cover("empty"); else gp_cover("store"); }
  }
  static void vec(int r) {
    Communicator w; GlobalVector<T> g(w); std::vector<int> ix; std::vector<T> v; for (int i = 0; i < K; i++) if (owner[i] == r) { ix.push_back(i); v.push_back(val[i][0]); }
    if (ix.size() > 1 && gp_param("back", 0)) { g.addElements(std::vector<int>(ix.begin() + 1, ix.end()), std::vector<T>(v.begin() + 1, v.end())); g.addElements(std::vector<int>(1, ix[0]), std::vector<T>(1, v[0])); } else g.addElements(ix, v);
    g.upload(); std::vector<int> q; for (int i = 0; i < K; i++) q.push_back((i + r) % K); std::vector<T> o(3); g.getData(q, o); gp_check_eqi((int64_t)o.size(), K, "number of returned elements"); for (int i = 0; i < K && i < (int)o.size(); i++) gp_check(same(o[i], val[(i + r) % K][0]), "returned element differs from the stored one");
    std::vector<T> all; g.getAllData(all); gp_check_eqi((int64_t)all.size(), K, "number of all elements"); for (int i = 0; i < K && i < (int)all.size(); i++) gp_check(same(all[i], val[i][0]), "returned element differs from the stored one"); gp_cover("vector");
    w.barrier(); ix.clear(); v.clear(); for (int i = 0; i < K; i++) if (neu[i] == r) { ix.push_back(i); v.push_back(val2[i][0]); } g.resetElements(ix, v); g.reload();
    g.getData(q, o); for (int i = 0; i < K && i < (int)o.size(); i++) { int k = (i + r) % K; gp_check(same(o[i], neu[k] >= 0 ? val2[k][0] : val[k][0]), "element after reload"); } g.getAllData(all); for (int i = 0; i < K && i < (int)all.size(); i++) gp_check(same(all[i], neu[i] >= 0 ? val2[i][0] : val[i][0]), "element after reload"); gp_cover("reload");
  }
  static void go() { for (int i = 0; i < K; i++) for (int j = 0; j < L; j++) { val[i][j] = mk((T *)0); val2[i][j] = mk((T *)0); } sim_run(NP, mode ? vec : store); }
};
template <class T> T Run<T>::val[16][8]; template <class T> T Run<T>::val2[16][8];
void gp_main() {
  NP = (int)gp_param("np", 2); K = (int)gp_param("K", 3); L = (int)gp_param("L", 2); mode = (int)gp_param("mode", 0); int lim = gp_param("sub", 0) ? NP - 2 : NP - 1;
  for (int i = 0; i < K; i++) { owner[i] = gp_choose("owner", mode ? 0 : -1, lim); len[i] = mode ? 1 : owner[i] >= 0 ? gp_choose("len", 0, L) : 0; neu[i] = mode ? gp_choose("new", -1, NP - 1) : 0; }
  sim_order((int)gp_param("rev", 0)); sim_explore((int)gp_param("X", 0));
  int t = (int)gp_param("t", 0); if (t == 0) Run<double>::go(); else if (t == 1) Run<int>::go(); else Run<Rec>::go();
}
