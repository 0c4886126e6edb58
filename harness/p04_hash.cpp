// GlobalIndexHashMap: arbitrary keys and values, arbitrary placement.
#include "sim.h"
#include "gridpack/parallel/index_hash.hpp"
using namespace gridpack::parallel; using namespace gridpack::hash_map;
static int NP, N, Q, mode, ka[8], kb[8], va[8], own[8], qa[8], qb[8], qown[8], lo, hi, seen;
static void body(int r) {
  Communicator w; GlobalIndexHashMap h(w);
  std::vector<std::pair<int, int> > p; std::vector<std::pair<std::pair<int, int>, int> > pp;
  for (int i = 0; i < N; i++) if (own[i] == r) { p.push_back(std::pair<int, int>(ka[i], va[i])); pp.push_back(std::make_pair(std::make_pair(ka[i], kb[i]), va[i])); }
  if (mode == 0) h.addPairs(p); else h.addPairs(pp);
  for (int rep = 0; rep < (int)gp_param("reps", 1); rep++) {
    std::vector<int> k, v; std::vector<std::pair<int, int> > kk; v.push_back(99); int nq = 0, exp = 0; bool used[16] = {0};
    for (int i = 0; i < Q; i++) if (qown[i] == r) { k.push_back(qa[i]); kk.push_back(std::make_pair(qa[i], qb[i])); nq++; for (int j = 0; j < N; j++) if (ka[j] == qa[i] && (mode == 0 || kb[j] == qb[i])) exp++; }
    if (mode == 0) h.getValues(k, v); else h.getValues(kk, v);
    size_t nk = mode == 0 ? k.size() : kk.size(); gp_check_eqi((int64_t)nk, exp, "number of returned keys"); gp_check_eqi((int64_t)v.size(), exp, "number of returned values");
    if (exp == 0) gp_cover("not found"); else gp_cover("found"); if (exp > nq) gp_cover("several values");
    // every expected (key,value) occurrence appears, counted with multiplicity
    for (int i = 0; i < Q; i++) if (qown[i] == r) for (int j = 0; j < N; j++) if (ka[j] == qa[i] && (mode == 0 || kb[j] == qb[i])) {
      int want = 0, have = 0; for (int a = 0; a < Q; a++) if (qown[a] == r) for (int b = 0; b < N; b++) want += (ka[b] == qa[a]) & (mode == 0 || kb[b] == qb[a]) & (ka[b] == ka[j]) & (mode == 0 || kb[b] == kb[j]) & (va[b] == va[j]);
      for (size_t x = 0; x < nk && x < v.size(); x++) have += ((mode == 0 ? k[x] : kk[x].first) == ka[j]) & (mode == 0 || kk[x].second == kb[j]) & (v[x] == va[j]);
      gp_check_eqi(have, want, "stored value is returned once per request of its key"); }
  }
}
void gp_main() {
  NP = (int)gp_param("np", 2); N = (int)gp_param("N", 2); Q = (int)gp_param("Q", 2); mode = (int)gp_param("mode", 0);
  for (int i = 0; i < N; i++) { own[i] = gp_choose("own", 0, NP - 1); ka[i] = gp_int("key"); kb[i] = mode ? gp_int("key2") : 0; va[i] = gp_int("value"); }
  for (int i = 0; i < Q; i++) { qown[i] = gp_choose("asker", -1, NP - 1); qa[i] = gp_int("ask"); qb[i] = mode ? gp_int("ask2") : 0; }
  sim_order((int)gp_param("rev", 0)); sim_explore((int)gp_param("X", 0)); sim_run(NP, body);
}
