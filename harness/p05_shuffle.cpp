// Shuffler: arbitrary destinations of items with variable-length contents.
#include "sim.h"
#include "gridpack/parallel/shuffler.hpp"
using namespace gridpack::parallel;
struct Thing { int id; double v; std::vector<int> l; Thing() : id(0), v(0) {} template <class A> void serialize(A &a, const unsigned) { a & id & v & l; } };
static int NP, K, cnt[8], dest[8][8], len[8][8], tv[8][8]; static double dv[8][8]; static std::vector<Thing> res[8]; static int rounds;
static void body(int r) {
  Communicator w; std::vector<Thing> v; std::vector<int> d;
  for (int i = 0; i < cnt[r]; i++) { Thing t; t.id = r * 10 + i; t.v = dv[r][i]; for (int j = 0; j < len[r][i]; j++) t.l.push_back(tv[r][i] + j); v.push_back(t); d.push_back(dest[r][i]); }
  Shuffler<Thing> s(w); s(v, d);
  for (size_t i = 0; i < v.size(); i++) { int p = v[i].id / 10, k = v[i].id % 10; bool ok = p >= 0 && p < NP && k >= 0 && k < cnt[p]; gp_check(ok, "item that was never sent"); if (!ok) return; gp_check_eqi(dest[p][k], r, "item delivered to the wrong process"); for (size_t j = 0; j < i; j++) gp_check(v[j].id != v[i].id, "item delivered twice");
    gp_check_eq(v[i].v, dv[p][k], "item value changed"); gp_check_eqi((int64_t)v[i].l.size(), len[p][k], "item list length changed"); for (size_t j = 0; j < v[i].l.size(); j++) gp_check_eqi(v[i].l[j], tv[p][k] + (int)j, "item list changed"); if (p != r) gp_cover("moved"); else gp_cover("kept"); }
  int n = 0; for (int p = 0; p < NP; p++) for (int k = 0; k < cnt[p]; k++) n += dest[p][k] == r; gp_check_eqi((int64_t)v.size(), n, "number of items received"); if (n == 0) gp_cover("nothing");
  if (rounds > 1) { std::vector<int> back; for (size_t i = 0; i < v.size(); i++) back.push_back(v[i].id / 10); s(v, back); gp_check_eqi((int64_t)v.size(), cnt[r], "items sent back"); for (size_t i = 0; i < v.size(); i++) gp_check_eqi(v[i].id / 10, r, "item sent back to its origin"); gp_cover("back"); }
}
void gp_main() {
  NP = (int)gp_param("np", 2); K = (int)gp_param("K", 2); rounds = (int)gp_param("rounds", 2);
  for (int p = 0; p < NP; p++) { cnt[p] = gp_choose("count", 0, K); for (int i = 0; i < cnt[p]; i++) { dest[p][i] = gp_range("dest", 0, NP - 1); dv[p][i] = gp_real("v"); len[p][i] = (p + i) % 3; tv[p][i] = gp_int("l"); } }
  sim_order((int)gp_param("rev", 0)); sim_run(NP, body); gp_check(sim_blocked_end() == 0, "messages left undelivered");
}
