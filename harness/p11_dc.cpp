// DataCollection: histories of add/set calls on every value type against a reference dictionary.
#include "gp.h"
#include <map>
#include <string>
#include <cstdio>
#include "gridpack/component/data_collection.hpp"
using gridpack::component::DataCollection; using gridpack::ComplexType;
struct Ref { std::map<std::string, long> i[3]; std::map<std::string, std::string> s; std::map<std::string, double> d[3]; std::map<std::string, double> im; };
// the ways an element can be addressed: plain name, name with an index
struct Key { const char *n; bool indexed; int idx; std::string str() const { if (!indexed) return n; char b[32]; snprintf(b, sizeof b, "%s:%d", n, idx); return b; } };
static const int IDX[] = {0, 1, 2, 9, 10, 11, 99, 100, 1234567, 12345678, 2147483647, -1, -10, -1234567, -2147483647 - 1};
static double rv() { return gp_real("x"); }
static bool op(DataCollection &c, Ref &r, int t, bool add, const Key &k) {
  std::string ks = k.str(); bool got = true, want;
#define DO(expr_add, expr_addi, expr_set, expr_seti) if (add) { if (k.indexed) expr_addi; else expr_add; } else got = k.indexed ? expr_seti : expr_set;
  switch (t) {
  case 0: { int v = gp_int("i"); DO(c.addValue(k.n, v), c.addValue(k.n, v, k.idx), c.setValue(k.n, v), c.setValue(k.n, v, k.idx)); want = r.i[0].count(ks); if (add != want) r.i[0][ks] = v; break; }
  case 1: { long v = gp_i64("l"); DO(c.addValue(k.n, v), c.addValue(k.n, v, k.idx), c.setValue(k.n, v), c.setValue(k.n, v, k.idx)); want = r.i[1].count(ks); if (add != want) r.i[1][ks] = v; break; }
  case 2: { bool v = gp_bool("b"); DO(c.addValue(k.n, v), c.addValue(k.n, v, k.idx), c.setValue(k.n, v), c.setValue(k.n, v, k.idx)); want = r.i[2].count(ks); if (add != want) r.i[2][ks] = v; break; }
  case 3: { char v[3] = {gp_char("c"), gp_char("c"), 0}; gp_assume((v[0] != 0) & (v[1] != 0)); DO(c.addValue(k.n, v), c.addValue(k.n, v, k.idx), c.setValue(k.n, v), c.setValue(k.n, v, k.idx)); want = r.s.count(ks); if (add != want) r.s[ks] = std::string(v); break; }
  case 4: { float v = (float)rv(); DO(c.addValue(k.n, v), c.addValue(k.n, v, k.idx), c.setValue(k.n, v), c.setValue(k.n, v, k.idx)); want = r.d[0].count(ks); if (add != want) r.d[0][ks] = v; break; }
  case 5: { double v = rv(); DO(c.addValue(k.n, v), c.addValue(k.n, v, k.idx), c.setValue(k.n, v), c.setValue(k.n, v, k.idx)); want = r.d[1].count(ks); if (add != want) r.d[1][ks] = v; break; }
  default: { ComplexType v(rv(), rv()); DO(c.addValue(k.n, v), c.addValue(k.n, v, k.idx), c.setValue(k.n, v), c.setValue(k.n, v, k.idx)); want = r.d[2].count(ks); if (add != want) { r.d[2][ks] = real(v); r.im[ks] = imag(v); } break; }
  }
  gp_check(add || got == want, "set succeeds exactly when an element of that name and type exists");
  return want;
}
static void probe(DataCollection &c, Ref &r, const Key &k) {
  std::string ks = k.str();
#define GET(T, init) T v = init; bool ok = k.indexed ? c.getValue(k.n, &v, k.idx) : c.getValue(k.n, &v);
  { GET(int, 77) gp_check(ok == (r.i[0].count(ks) > 0), "int found"); gp_check(v == (ok ? (int)r.i[0][ks] : 77), "int value"); }
  { GET(long, 77) gp_check(ok == (r.i[1].count(ks) > 0), "long found"); gp_check(v == (ok ? r.i[1][ks] : 77), "long value"); }
  { GET(bool, true) gp_check(ok == (r.i[2].count(ks) > 0), "bool found"); gp_check(v == (ok ? (bool)r.i[2][ks] : true), "bool value"); }
  { GET(std::string, "zz") gp_check(ok == (r.s.count(ks) > 0), "string found"); gp_check(v == (ok ? r.s[ks] : std::string("zz")), "string value"); }
  { GET(float, 5.0f) gp_check(ok == (r.d[0].count(ks) > 0), "float found"); gp_check_eq(v, ok ? r.d[0][ks] : 5.0, "float value"); }
  { GET(double, 5.0) gp_check(ok == (r.d[1].count(ks) > 0), "double found"); gp_check_eq(v, ok ? r.d[1][ks] : 5.0, "double value"); }
  { GET(ComplexType, ComplexType(5.0, 6.0)) gp_check(ok == (r.d[2].count(ks) > 0), "complex found"); gp_check_eq(real(v), ok ? r.d[2][ks] : 5.0, "complex re"); gp_check_eq(imag(v), ok ? r.im[ks] : 6.0, "complex im"); }
}
extern "C" void gp_main() {
  int K = (int)gp_param("K", 2), t0 = (int)gp_param("t", 0), mode = (int)gp_param("mode", 0);
  DataCollection c; Ref r;
  if (mode == 1) { // any index value
    int a = gp_choose("idx", 0, 14), b = gp_choose("idx2", 0, 14); Key k = {"GENERATOR_PG", true, IDX[a]}, k2 = {"GENERATOR_PG", true, IDX[b]}, k3 = {"GENERATOR_PG", false, 0};
    op(c, r, t0, true, k); op(c, r, t0, true, k2); op(c, r, t0, false, k); probe(c, r, k); probe(c, r, k2); probe(c, r, k3); gp_cover("index range"); return;
  }
  Key keys[4] = {{"BUS_A", false, 0}, {"BUS_B", false, 0}, {"BUS_A", true, 0}, {"BUS_A", true, 1}};
  for (int i = 0; i < K; i++) {
    int w = gp_choose("op", 0, 7), tt = gp_choose("type", 0, 1); if (op(c, r, (t0 + tt * (int)gp_param("dt", 1)) % 7, w & 1, keys[w >> 1]) && (w & 1)) gp_cover("re-add");
  }
  for (int k = 0; k < 4; k++) probe(c, r, keys[k]);
  DataCollection d; d = c; for (int k = 0; k < 4; k++) probe(d, r, keys[k]);
  Ref r2 = r; op(d, r2, t0, false, keys[0]); op(d, r2, t0, true, keys[1]);
  for (int k = 0; k < 4; k++) { probe(c, r, keys[k]); probe(d, r2, keys[k]); }
  gp_cover("copied");
}
