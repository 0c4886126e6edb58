// Statistics tables: columns written by arbitrary processes, reports compared
// with the statistics of the stored samples.
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <fstream>
#include <sstream>
#include "sim.h"
// The report file is replaced by a text buffer per file name.
struct GpFile { std::string name, text; bool closed; GpFile() : closed(true) {} };
static GpFile gp_file[8]; static int gp_nfile = 0;
namespace std {
struct gp_ofstream {
  int f;
  gp_ofstream() : f(-1) {}
  gp_ofstream(const char *n) : f(-1) { open(n); } gp_ofstream(const std::string &n) : f(-1) { open(n.c_str()); }
  void open(const std::string &n) { open(n.c_str()); }
  void open(const char *n) { for (f = 0; f < gp_nfile; f++) if (gp_file[f].name == n) break; if (f == gp_nfile) { if (f == 8) gp_fail_path("too many files"); gp_nfile++; } gp_file[f].name = n; gp_file[f].text.clear(); gp_file[f].closed = false; }
  bool is_open() const { return f >= 0; } operator bool() const { return f >= 0; } bool good() const { return f >= 0; }
  void close() { if (f >= 0) gp_file[f].closed = true; f = -1; }
  void flush() {}
  ~gp_ofstream() { close(); }
  gp_ofstream &put(const char *s) { if (f >= 0) gp_file[f].text += s; return *this; }
  gp_ofstream &operator<<(const char *s) { return put(s); } gp_ofstream &operator<<(const std::string &s) { return put(s.c_str()); }
  gp_ofstream &operator<<(char c) { char b[2] = {c, 0}; return put(b); }
  gp_ofstream &operator<<(int v) { char b[40]; sprintf(b, "%d", v); return put(b); }
  gp_ofstream &operator<<(size_t v) { char b[40]; sprintf(b, "%d", (int)v); return put(b); }
  gp_ofstream &operator<<(double v) { char b[80]; sprintf(b, "%.8e", v); return put(b); }
  gp_ofstream &operator<<(std::ostream &(*)(std::ostream &)) { return put("\n"); }
};
}
#define ofstream gp_ofstream
#include "gridpack/analysis/stat_block.cpp"
#undef ofstream
using namespace gridpack::parallel;
using gridpack::analysis::StatBlock;
static int NP, NR, NC, kind, br, bnd, hot, wr2, fl; static double V[256][8]; static int M[256][8], mval, own[8], own2; static double V2[256]; static int M2[256]; static std::vector<int> i1, i2; static std::vector<std::string> tg; static double lo_[256], hi_[256];
static int maskconc;
static std::vector<std::vector<std::string> > lines(const char *n) {
  std::vector<std::vector<std::string> > r; int f; for (f = 0; f < gp_nfile; f++) if (gp_file[f].name == n) break; gp_check(f < gp_nfile, "report written"); if (f == gp_nfile) return r; gp_check(gp_file[f].closed, "report closed");
  const std::string &t = gp_file[f].text; std::vector<std::string> l; std::string w; for (size_t i = 0; i < t.size(); i++) { char c = t[i]; if (c == ' ' || c == '\n') { if (!w.empty()) l.push_back(w); w.clear(); if (c == '\n') { r.push_back(l); l.clear(); } } else w += c; }
  gp_check(w.empty() && l.empty(), "report ends with a complete line"); return r; }
static void eqv(const std::string &s, double want, const char *m) { double g = strtod(s.c_str(), 0); if (gp_is_symbolic_r(want) || gp_is_symbolic_r(g)) gp_check_eq(g, want, m); else gp_check_near(g, want, 1e-6 * (1 + fabs(want)), m); }
static void eqs(const std::string &s, int want, const char *m) { gp_check_eqi(strtol(s.c_str(), 0, 10), want, m); }
// labels; returns the position of the first number
static size_t label(const std::vector<std::string> &l, int i, bool tags) {
  size_t k = 0, need = 2 + (br ? 1 : 0) + (tags ? 1 : 0); gp_check(l.size() > need, "line has its labels and values"); if (l.size() <= need) return 0;
  eqs(l[k++], i + 1, "row number"); eqs(l[k++], i1[i], "row index"); if (br) eqs(l[k++], i2[i], "second row index");
  if (tags) { gp_check(l[k] == tg[i], "row tag"); k++; } return k; }
static bool look(int i) { return NR < 20 || i < hot || i == 99 || i == 100 || i == NR - 1; }
static void check_mean(const char *fn, bool tags) {
  std::vector<std::vector<std::string> > L = lines(fn); gp_check_eqi((int64_t)L.size(), NR, "one line per row"); if ((int)L.size() != NR) return;
  for (int i = 0; i < NR; i++) { if (!look(i)) continue; size_t k = label(L[i], i, tags); if (!k) continue; gp_check_eqi((int64_t)L[i].size(), (int64_t)k + 3, "values per line"); if (L[i].size() != k + 3) continue;
    int n = 0; double s = 0; for (int j = 0; j < NC; j++) if (M[i][j] >= mval) { n++; s += V[i][j]; }
    double avg = n ? s / n : 0.0; eqv(L[i][k], avg, "mean of the valid samples");
    double dev = strtod(L[i][k + 1].c_str(), 0), rms = strtod(L[i][k + 2].c_str(), 0);
    if (n < 2) { gp_check_eq(dev, 0.0, "deviation of fewer than two samples"); gp_check_eq(rms, 0.0, "deviation from the base case of fewer than two samples"); gp_cover("few samples"); continue; }
    double q = 0, d = 0; for (int j = 0; j < NC; j++) if (M[i][j] >= mval) { q += (V[i][j] - avg) * (V[i][j] - avg); d += (V[i][j] - V[i][0]) * (V[i][j] - V[i][0]); }
    q /= n - 1; d /= n - 1; gp_check_near(dev * dev, q, gp_engine() ? 1e-9 : 1e-5 * (1 + q), "squared deviation from the mean"); gp_check(dev >= 0, "deviation not negative");
    if (M[i][0] >= mval) { gp_check_near(rms * rms, d, gp_engine() ? 1e-9 : 1e-5 * (1 + d), "squared deviation from the base case"); gp_check(rms >= 0, "deviation from the base case not negative"); gp_cover("base case"); }
    if (n < NC) gp_cover("masked sample"); gp_cover("mean"); } }
static void check_minmax(const char *fn, bool tags) {
  std::vector<std::vector<std::string> > L = lines(fn); gp_check_eqi((int64_t)L.size(), NR, "one line per row"); if ((int)L.size() != NR) return;
  for (int i = 0; i < NR; i++) { if (!look(i)) continue; size_t k = label(L[i], i, tags); if (!k) continue; size_t nv = 5 + (bnd & 1) + (bnd >> 1 & 1) + 2; gp_check_eqi((int64_t)L[i].size(), (int64_t)(k + nv), "values per line"); if (L[i].size() != k + nv) continue;
    const std::vector<std::string> &l = L[i]; double base = strtod(l[k].c_str(), 0), mn = strtod(l[k + 1].c_str(), 0), mx = strtod(l[k + 2].c_str(), 0);
    eqv(l[k], V[i][0], "base case value"); eqv(l[k + 3], mn - V[i][0], "smallest deviation from the base case"); eqv(l[k + 4], mx - V[i][0], "largest deviation from the base case"); (void)base;
    size_t z = k + 5; if (bnd & 1) eqv(l[z++], lo_[i], "lower bound of the row"); if (bnd & 2) eqv(l[z++], hi_[i], "upper bound of the row");
    int jm = (int)strtol(l[z].c_str(), 0, 10), jx = (int)strtol(l[z + 1].c_str(), 0, 10); gp_check(jm >= 0 && jm < NC && jx >= 0 && jx < NC, "sample number within range"); if (jm < 0 || jm >= NC || jx < 0 || jx >= NC) continue;
    gp_check(jm == 0 || M[i][jm] >= mval, "smallest value is a valid sample"); gp_check(jx == 0 || M[i][jx] >= mval, "largest value is a valid sample");
    eqv(l[k + 1], V[i][jm], "smallest value is that of its sample"); eqv(l[k + 2], V[i][jx], "largest value is that of its sample");
    for (int j = 0; j < NC; j++) if (j == 0 || M[i][j] >= mval) { gp_check(mn <= V[i][j] + 1e-6, "no valid sample below the smallest value"); gp_check(mx >= V[i][j] - 1e-6, "no valid sample above the largest value"); } else gp_cover("masked extreme");
    gp_cover(jm || jx ? "extreme outside the base case" : "base case extreme"); } }
static void check_count(const char *fn, bool tags) {
  std::vector<std::vector<std::string> > L = lines(fn); gp_check_eqi((int64_t)L.size(), NR, "one line per row"); if ((int)L.size() != NR) return;
  for (int i = 0; i < NR; i++) { if (!look(i)) continue; size_t k = label(L[i], i, tags); if (!k) continue; gp_check_eqi((int64_t)L[i].size(), (int64_t)k + 1, "values per line"); if (L[i].size() != k + 1) continue;
    int n = 0; for (int j = 0; j < NC; j++) if (M[i][j] == mval) n++; eqs(L[i][k], n, "number of samples with the mask value"); gp_cover("count"); if (n && n < NC) gp_cover("some counted"); } }
static void check_sum(const char *fn) {
  std::vector<std::vector<std::string> > L = lines(fn); gp_check_eqi((int64_t)L.size(), NC, "one line per column"); if ((int)L.size() != NC) return;
  for (int j = 0; j < NC; j++) { gp_check_eqi((int64_t)L[j].size(), 3, "values per line"); if (L[j].size() != 3) continue; eqs(L[j][0], j, "column number"); double s = 0; for (int i = 0; i < NR; i++) if (M[i][j] >= mval) s += V[i][j]; eqv(L[j][1], s, "sum over the valid rows"); eqv(L[j][2], s / NR, "sum per row"); gp_cover("column sum"); } }
static void report(StatBlock &s, int r, const char *fn) {
  bool tags = fl != 0; Communicator w;
  if (kind == 0) s.writeMeanAndRMS(fn, mval, tags); else if (kind == 1) s.writeMinAndMax(fn, mval, tags); else if (kind == 2) s.writeMaskValueCount(fn, mval, tags); else s.sumColumnValues(fn, mval);
  if (r == 0) { if (kind == 0) check_mean(fn, tags); else if (kind == 1) check_minmax(fn, tags); else if (kind == 2) check_count(fn, tags); else check_sum(fn); }
  w.sync(); }
static void add(StatBlock &s, int j) { std::vector<double> v; std::vector<int> m; for (int i = 0; i < NR; i++) { v.push_back(V[i][j]); m.push_back(M[i][j]); } s.addColumnValues(j, v, m); }
static void body(int r) {
  Communicator w; StatBlock s(w, NR, NC);
  if (r == 0) { if (br) s.addRowLabels(i1, i2, tg); else s.addRowLabels(i1, tg);
    if (bnd & 1) s.addRowMinValue(std::vector<double>(lo_, lo_ + NR)); if (bnd & 2) s.addRowMaxValue(std::vector<double>(hi_, hi_ + NR)); }
  for (int j = 0; j < NC; j++) if (own[j] == r) { add(s, j); if (r) gp_cover("written elsewhere"); }
  report(s, r, "report1");
  if (wr2 >= 0) { if (r == 0) { for (int i = 0; i < NR; i++) { V[i][wr2] = V2[i]; M[i][wr2] = M2[i]; } } w.sync(); if (own2 == r) add(s, wr2); report(s, r, "report2"); if (r == 0) gp_cover("second report"); }
}
void gp_main() {
  NP = (int)gp_param("np", 1); NR = (int)gp_param("nr", 1); NC = (int)gp_param("nc", 3); kind = (int)gp_param("kind", 0); br = (int)gp_param("br", 0); bnd = (int)gp_param("bnd", 0); hot = (int)gp_param("hot", 2); wr2 = (int)gp_param("again", -1); fl = (int)gp_param("tags", 1); maskconc = (int)gp_param("cmask", 0);
  gp_set_tol(1e-5); gp_nfile = 0; for (int i = 0; i < 8; i++) gp_file[i] = GpFile();
  const char *T[4] = {"A1", "7", "XY", "B"}; mval = maskconc ? 1 : gp_range("mval", -2, 2);
  i1.clear(); i2.clear(); tg.clear();
  for (int i = 0; i < NR; i++) { bool h = NR < 20 || i < hot || (i >= 99 && i <= 100) || i == NR - 1; i1.push_back(10 * i + 3); i2.push_back(1000 - i); tg.push_back(T[i % 4]);
    for (int j = 0; j < NC; j++) { V[i][j] = h ? gp_real("v") : 0.25 * (i % 7) - j; M[i][j] = h && maskconc < 2 ? gp_int("mask") : (i + j) % 3; } lo_[i] = h ? gp_real("lo") : -1.0 - i; hi_[i] = h ? gp_real("hi") : 2.0 + i; V2[i] = h && wr2 >= 0 ? gp_real("w") : 1.0; M2[i] = h && wr2 >= 0 ? gp_int("mask2") : 1; }
  for (int j = 0; j < NC; j++) own[j] = gp_choose("writer", 0, NP - 1); own2 = wr2 >= 0 ? gp_choose("writer2", 0, NP - 1) : 0;
  sim_order((int)gp_param("rev", 0)); sim_explore((int)gp_param("X", 0)); sim_run(NP, body);
}
