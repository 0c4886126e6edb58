// Raw files: every field of every record under its documented name on its element.
#include "netbase.h"
#include "gridpack/parser/PTI33_parser.hpp"
#include "gridpack/parser/PTI34_parser.hpp"
#include "gridpack/parser/PTI35_parser.hpp"
using gridpack::component::DataCollection;
typedef network::BaseNetwork<TBus, TBranch> Net; typedef boost::shared_ptr<DataCollection> DC;
static int ver, kind, NR, full, sep, cuts, NPr;
static std::vector<std::string> file; static std::vector<double> busV;
// ---- expected contents: a list of (owner, name, index, type, value)
struct Want { DC *dc; int el; std::string name; int idx; char t; int i; double d; std::string s; };
static std::vector<Want> wb, wr, wn; // on buses, branches, the network
static Want mk(int el, const char *n, int idx, char t) { Want w; w.el = el; w.name = n; w.idx = idx; w.t = t; w.i = 0; w.d = 0; w.dc = 0; return w; }
static void wi(std::vector<Want> &l, int el, const char *n, int idx, int v) { Want w = mk(el, n, idx, 'i'); w.i = v; l.push_back(w); }
static void wb_(std::vector<Want> &l, int el, const char *n, int idx, bool v) { Want w = mk(el, n, idx, 'b'); w.i = v; l.push_back(w); }
static void wd(std::vector<Want> &l, int el, const char *n, int idx, double v) { Want w = mk(el, n, idx, 'd'); w.d = v; l.push_back(w); }
static void wsx(std::vector<Want> &l, int el, const char *n, int idx, const std::string &v) { Want w = mk(el, n, idx, 's'); w.s = v; l.push_back(w); }
static void wno(std::vector<Want> &l, int el, const char *n, int idx, char t) { Want w = mk(el, n, idx, t == 'i' ? 'I' : t == 'd' ? 'D' : 'S'); l.push_back(w); }
static void verify(DataCollection *d, const Want &w) {
  const char *n = w.name.c_str(); std::string L; auto lab = [&](const char *t) { L = w.name + t; return L.c_str(); }; int i; double r; std::string s; bool ok;
  switch (w.t) {
  case 'i': ok = w.idx < 0 ? d->getValue(n, &i) : d->getValue(n, &i, w.idx); gp_check(ok, lab(": stored")); if (ok) { gp_check_eqi(i, w.i, lab(": value")); } break;
  case 'b': { bool b; ok = d->getValue(n, &b, w.idx); gp_check(ok, lab(": stored")); if (ok) gp_check(b == (w.i != 0), lab(": value")); break; }
  case 'd': ok = w.idx < 0 ? d->getValue(n, &r) : d->getValue(n, &r, w.idx); gp_check(ok, lab(": stored")); if (ok) gp_check_eq(r, w.d, lab(": value")); break;
  case 's': ok = w.idx < 0 ? d->getValue(n, &s) : d->getValue(n, &s, w.idx); gp_check(ok, lab(": stored")); if (ok) gp_check(s == w.s, lab(": value")); break;
  case 'I': ok = w.idx < 0 ? d->getValue(n, &i) : d->getValue(n, &i, w.idx); gp_check(!ok, lab(": never given")); break;
  case 'D': ok = w.idx < 0 ? d->getValue(n, &r) : d->getValue(n, &r, w.idx); gp_check(!ok, lab(": never given")); break;
  case 'S': ok = w.idx < 0 ? d->getValue(n, &s) : d->getValue(n, &s, w.idx); gp_check(!ok, lab(": never given")); break;
  } }
// ---- record fields: tokens with symbolic values
struct Tok { std::string text; int i; double d; };
static double pos = 0;
static Tok ti() { Tok t; char c = gp_char("digit"); gp_assume((c >= '1') & (c <= '9')); char e = gp_char("digit"); gp_assume((e >= '0') & (e <= '9')); t.text = std::string(1, c) + e; t.i = (c - '0') * 10 + (e - '0'); t.d = 0; return t; }
static Tok tn(int v) { Tok t; char b[16]; snprintf(b, sizeof b, "%d", v); t.text = b; t.i = v; t.d = v; return t; }
static Tok td() { Tok t; t.d = gp_real("field"); t.i = 0; char b[48]; snprintf(b, sizeof b, "%.17g", t.d); t.text = b; return t; }
static Tok tdv(double v) { Tok t; t.d = v; t.i = 0; char b[48]; snprintf(b, sizeof b, "%.17g", v); t.text = b; return t; }
static Tok ts(const char *s) { Tok t; t.text = s; t.i = 0; t.d = 0; return t; }
static std::string line(const std::vector<Tok> &f, size_t n, const char *tail = "") { std::string s; for (size_t k = 0; k < n && k < f.size(); k++) { if (k) s += sep == 0 ? "," : sep == 1 ? ", " : "  "; s += f[k].text; } return s + tail; }
struct Fld { char t; const char *name; }; // t: i integer, d real, x ignored, u real kept nowhere
static std::vector<Tok> fields(const std::vector<Fld> &f) { std::vector<Tok> r; for (size_t k = 0; k < f.size(); k++) r.push_back(f[k].t == 'i' ? ti() : f[k].t == 'd' ? td() : ts("7")); return r; }
static void want(std::vector<Want> &l, int el, int idx, const std::vector<Fld> &f, const std::vector<Tok> &t, size_t first, size_t n) {
  for (size_t k = first; k < f.size(); k++) if (f[k].name) { if (k < n) { if (f[k].t == 'i') wi(l, el, f[k].name, idx, t[k].i); else wd(l, el, f[k].name, idx, t[k].d); } else wno(l, el, f[k].name, idx, f[k].t); } }
static void comment() { if (cuts & 2) { file.push_back("@! a comment line"); file.push_back("//7,8,9"); } }
static const char *tail() { return cuts & 4 ? " / trailing remark, 5" : ""; }
static size_t length(size_t lo, size_t hi) { if (!(cuts & 1)) return hi; size_t n = (size_t)gp_choose("length", (int)lo, (int)hi); if (n < hi) gp_cover("short record"); return n; }
static const char *idT[4] = {"'1 '", "'A2'", "3", "\"B\""}; static const char *idW[4] = {"1 ", "A2", "3 ", "B "};
static std::vector<Fld> F(const char *spec) { // "tNAME ..." separated by blanks; '-' = ignored
  std::vector<Fld> r; const char *p = spec; while (*p) { while (*p == ' ') p++; if (!*p) break; const char *q = p; while (*q && *q != ' ') q++; Fld f; if (*p == '-') { f.t = 'x'; f.name = 0; } else { f.t = *p; std::string *s = new std::string(p + 1, (size_t)(q - p - 1)); f.name = s->c_str(); } r.push_back(f); p = q; } return r; }
static const int B[3] = {23, 4, 17}; static const char *BN[3] = {"'NORTH   '", "'MID/1'", "SOUTH"}; static const char *BW[3] = {"NORTH", "MID/1", "SOUTH"};
static const char *loadF = "-BUS -ID iLOAD_STATUS iLOAD_AREA iLOAD_ZONE dLOAD_PL dLOAD_QL dLOAD_IP dLOAD_IQ dLOAD_YP dLOAD_YQ";
static const char *shF = "-BUS -ID iSHUNT_STATUS dBUS_SHUNT_GL dBUS_SHUNT_BL";
static const char *gen33 = "-BUS -ID dGENERATOR_PG dGENERATOR_QG dGENERATOR_QMAX dGENERATOR_QMIN dGENERATOR_VS iGENERATOR_IREG dGENERATOR_MBASE d d d d dGENERATOR_GTAP iGENERATOR_STAT dGENERATOR_RMPCT dGENERATOR_PMAX dGENERATOR_PMIN iGENERATOR_OWNER1 dGENERATOR_OFRAC1 iGENERATOR_OWNER2 dGENERATOR_OFRAC2 iGENERATOR_OWNER3 dGENERATOR_OFRAC3 iGENERATOR_OWNER4 dGENERATOR_OFRAC4 iGENERATOR_WMOD dGENERATOR_WPF";
static const char *gen34 = "-BUS -ID dGENERATOR_PG dGENERATOR_QG dGENERATOR_QMAX dGENERATOR_QMIN dGENERATOR_VS iGENERATOR_IREG dGENERATOR_MBASE d d d d dGENERATOR_GTAP iGENERATOR_STAT dGENERATOR_RMPCT dGENERATOR_PMAX dGENERATOR_PMIN iGENERATOR_OWNER1 dGENERATOR_OFRAC1 iGENERATOR_OWNER2 dGENERATOR_OFRAC2 iGENERATOR_OWNER3 dGENERATOR_OFRAC3 iGENERATOR_OWNER4 dGENERATOR_OFRAC4 iGENERATOR_WMOD dGENERATOR_WPF iGENERATOR_NREG";
static const char *gen35 = "-BUS -ID dGENERATOR_PG dGENERATOR_QG dGENERATOR_QMAX dGENERATOR_QMIN dGENERATOR_VS iGENERATOR_IREG iGENERATOR_NREG dGENERATOR_MBASE d d d d dGENERATOR_GTAP iGENERATOR_STAT dGENERATOR_RMPCT dGENERATOR_PMAX dGENERATOR_PMIN iGENERATOR_BASLOD iGENERATOR_OWNER1 dGENERATOR_OFRAC1 iGENERATOR_OWNER2 dGENERATOR_OFRAC2 iGENERATOR_OWNER3 dGENERATOR_OFRAC3 iGENERATOR_OWNER4 dGENERATOR_OFRAC4 iGENERATOR_WMOD dGENERATOR_WPF";
#define OWN "iBRANCH_O1 dBRANCH_F1 iBRANCH_O2 dBRANCH_F2 iBRANCH_O3 dBRANCH_F3 iBRANCH_O4 dBRANCH_F4"
#define RATES "dBRANCH_RATE1 dBRANCH_RATE2 dBRANCH_RATE3 dBRANCH_RATE4 dBRANCH_RATE5 dBRANCH_RATE6 dBRANCH_RATE7 dBRANCH_RATE8 dBRANCH_RATE9 dBRANCH_RATE10 dBRANCH_RATE11 dBRANCH_RATE12"
#define ENDS "dBRANCH_SHUNT_ADMTTNC_G1 dBRANCH_SHUNT_ADMTTNC_B1 dBRANCH_SHUNT_ADMTTNC_G2 dBRANCH_SHUNT_ADMTTNC_B2 iBRANCH_STATUS iBRANCH_METER dBRANCH_LENGTH " OWN
static const char *br33 = "-I -J -ID dBRANCH_R dBRANCH_X dBRANCH_B dBRANCH_RATING_A dBRANCH_RATING_B dBRANCH_RATING_C " ENDS;
static const char *br34 = "-I -J -ID dBRANCH_R dBRANCH_X dBRANCH_B -NAME " RATES " " ENDS;
static const char *sw33 = "-I iSHUNT_MODSW iSHUNT_ADJM iSHUNT_SWCH_STAT dSHUNT_VSWHI dSHUNT_VSWLO iSHUNT_SWREM dSHUNT_RMPCT -RMIDNT dSHUNT_BINIT iSHUNT_N1 dSHUNT_B1 iSHUNT_N2 dSHUNT_B2 iSHUNT_N3 dSHUNT_B3 iSHUNT_N4 dSHUNT_B4 iSHUNT_N5 dSHUNT_B5 iSHUNT_N6 dSHUNT_B6 iSHUNT_N7 dSHUNT_B7 iSHUNT_N8 dSHUNT_B8";
static const char *sw34 = "-I iSHUNT_MODSW iSHUNT_ADJM iSHUNT_SWCH_STAT dSHUNT_VSWHI dSHUNT_VSWLO iSHUNT_SWREG dSHUNT_RMPCT -RMIDNT dSHUNT_BINIT iSHUNT_N1 dSHUNT_B1 iSHUNT_N2 dSHUNT_B2 iSHUNT_N3 dSHUNT_B3 iSHUNT_N4 dSHUNT_B4 iSHUNT_N5 dSHUNT_B5 iSHUNT_N6 dSHUNT_B6 iSHUNT_N7 dSHUNT_B7 iSHUNT_N8 dSHUNT_B8 iSHUNT_NREG";
static const char *sw35 = "-I -ID iSHUNT_MODSW iSHUNT_ADJM iSHUNT_SWCH_STAT dSHUNT_VSWHI dSHUNT_VSWLO iSHUNT_SWREG iSHUNT_NREG dSHUNT_RMPCT -RMIDNT dSHUNT_BINIT iSHUNT_S1 iSHUNT_N1 dSHUNT_B1 iSHUNT_S2 iSHUNT_N2 dSHUNT_B2 iSHUNT_S3 iSHUNT_N3 dSHUNT_B3 iSHUNT_S4 iSHUNT_N4 dSHUNT_B4 iSHUNT_S5 iSHUNT_N5 dSHUNT_B5 iSHUNT_S6 iSHUNT_N6 dSHUNT_B6 iSHUNT_S7 iSHUNT_N7 dSHUNT_B7 iSHUNT_S8 iSHUNT_N8 dSHUNT_B8";
static void endblock(const char *n) { file.push_back(std::string(cuts & 8 ? " 0 / END OF " : "0 /END OF ") + n); }
static double sbase; static int caseid;
// ---- branches known so far: orientation of the first record decides the branch
struct Br { int a, b, n; }; static std::vector<Br> brs;
static int branch_of(int a, int b, bool *sw) { for (size_t k = 0; k < brs.size(); k++) { if (brs[k].a == a && brs[k].b == b) { *sw = false; return (int)k; } if (brs[k].a == b && brs[k].b == a) { *sw = true; return (int)k; } } Br r; r.a = a; r.b = b; r.n = 0; brs.push_back(r); *sw = false; return (int)brs.size() - 1; }
static std::string busref(int k) { if (cuts & 16) { return BN[k][0] == '\'' ? std::string(BN[k]) : "'" + std::string(BN[k]) + "'"; } char b[16]; snprintf(b, sizeof b, "%d", B[k]); return b; }
static void buses() {
  std::vector<Fld> f = F("-I -NAME dBUS_BASEKV iBUS_TYPE iBUS_AREA iBUS_ZONE iBUS_OWNER dBUS_VOLTAGE_MAG dBUS_VOLTAGE_ANG dBUS_VOLTAGE_MAX dBUS_VOLTAGE_MIN");
  busV.clear(); for (int k = 0; k < 3; k++) { comment(); std::vector<Tok> t = fields(f); t[0] = tn(B[k]); t[1] = ts(BN[k]); if (kind) { t[8] = tdv(0.25 * k); t[7] = tdv(1.0); t[4] = tn(11 + k); t[6] = tn(21 + k); } size_t n = kind == 0 ? length(3, f.size()) : f.size(); file.push_back(line(t, n, tail())); want(wb, k, -1, f, t, 2, n); wi(wb, k, "BUS_NUMBER", -1, B[k]); if (sep < 2 || BN[k][0] == '\'') wsx(wb, k, "BUS_NAME", -1, BW[k]); wi(wb, k, "CASE_ID", -1, caseid); wd(wb, k, "CASE_SBASE", -1, sbase); gp_cover("bus"); } }
static void devices(const char *spec, const char *num, const char *bus, const char *id, int minlen) { // loads, shunts, generators
  std::vector<Fld> f = F(spec); int cnt[3] = {0, 0, 0}; bool gen = spec == gen33 || spec == gen34 || spec == gen35; size_t z = spec == gen35 ? 10 : 9; std::vector<Fld> g = f; if (gen) for (int k = 0; k < 4; k++) g[z + k].name = 0;
  for (int r = 0; r < NR; r++) { int b = gp_choose("bus", 0, cuts & 16 ? 2 : 3); comment(); std::vector<Tok> t = fields(f); t[0] = b == 3 ? tn(98) : ts(""); if (b < 3) t[0].text = busref(b); t[1] = ts(idT[r % 4]); size_t n = length(minlen, f.size()); file.push_back(line(t, n, tail()));
    if (b == 3) { gp_cover("unknown bus"); continue; } int idx = cnt[b]++; want(wb, b, idx, g, t, 2, n); wi(wb, b, bus, idx, B[b]); wsx(wb, b, id, idx, idW[r % 4]);
    if (!gen && idx == 0) { if (spec == loadF) { if (n > 5) wd(wb, b, "LOAD_PL", -1, t[5].d); if (n > 6) wd(wb, b, "LOAD_QL", -1, t[6].d); } else { if (n > 3) wd(wb, b, "BUS_SHUNT_GL", -1, t[3].d); if (n > 4) wd(wb, b, "BUS_SHUNT_BL", -1, t[4].d); } }
    if (gen) for (int k = 0; k < 4; k++) { size_t f0 = (spec == gen35 ? 20 : 18) + 2 * k; if (n == f0 + 1) { for (size_t q = wb.size(); q-- > 0;) if (wb[q].idx == idx && wb[q].el == b && wb[q].t == 'D' && wb[q].name == g[f0 + 1].name) { wb[q].t = 'd'; wb[q].d = k ? 0.0 : 1.0; break; } gp_cover("owner without fraction"); } } // an owner alone: fraction 1 for the first, 0 for the others
    if (gen) for (int c = 0; c < 2; c++) { Want w = mk(b, c ? "GENERATOR_XTRAN" : "GENERATOR_ZSOURCE", idx, n > z + 1 + 2 * c ? 'c' : 'C'); w.d = t[z + 2 * c].d; w.s = ""; w.i = 0; Want v = w; v.t = n > z + 1 + 2 * c ? 'm' : 'C'; v.d = t[z + 1 + 2 * c].d; wb.push_back(w); wb.push_back(v); }
    gp_cover("device"); if (idx) gp_cover("repeated device"); }
  for (int k = 0; k < 3; k++) { if (cnt[k]) wi(wb, k, num, -1, cnt[k]); else wno(wb, k, num, -1, 'i'); wno(wb, k, bus, cnt[k], 'i'); } }
static void pair(int *i, int *j) { int p = gp_choose("pair", 0, 5); *i = p % 3; *j = (p / 3 + 1 + *i) % 3; }
static void lines() {
  std::vector<Fld> f = F(ver == 33 ? br33 : br34);
  for (int r = 0; r < NR; r++) { int i, j; pair(&i, &j); comment(); std::vector<Tok> t = fields(f); t[0] = ts(""); t[0].text = busref(i); t[1] = ts(""); t[1].text = busref(j); t[2] = ts(idT[r % 4]); if (ver > 33) t[6] = ts("'L 1'"); size_t n = length(6, f.size()); file.push_back(line(t, n, tail()));
    bool sw; int l = branch_of(B[i], B[j], &sw); int idx = brs[l].n++; want(wr, l, idx, f, t, 3, n); wsx(wr, l, "BRANCH_CKT", idx, idW[r % 4]); wb_(wr, l, "BRANCH_SWITCHED", idx, sw); wd(wr, l, "BRANCH_TAP", idx, 0.0); wd(wr, l, "BRANCH_SHIFT", idx, 0.0);
    if (ver > 33) { if (n > 6) wsx(wr, l, "BRANCH_NAME", idx, "L 1"); const char *ra[3] = {"BRANCH_RATING_A", "BRANCH_RATING_B", "BRANCH_RATING_C"}; for (int k = 0; k < 3; k++) if (n > (size_t)(7 + k)) wd(wr, l, ra[k], idx, t[7 + k].d); }
    gp_cover("line"); if (idx) gp_cover("parallel branch"); if (sw) gp_cover("reversed record"); } }
static void transformer2(int r, bool shortrec) {
  int i, j; pair(&i, &j); comment(); int cw = gp_choose("cw", 1, 2), same = gp_choose("base", 0, 2), cz = gp_choose("cz", 1, 2);
  std::vector<Fld> f1 = F("-I -J -K -ID -CW -CZ iTRANSFORMER_CM dTRANSFORMER_MAG1 dTRANSFORMER_MAG2 iTRANSFORMER_NMETR -NAME iBRANCH_STATUS " OWN), f3 = F(ver == 33 ? "-W -N dBRANCH_SHIFT dBRANCH_RATING_A dBRANCH_RATING_B dBRANCH_RATING_C iTRANSFORMER_CODE1 -CONT dTRANSFORMER_RMA dTRANSFORMER_RMI dTRANSFORMER_VMA dTRANSFORMER_VMI iTRANSFORMER_NTP iTRANSFORMER_TAB dTRANSFORMER_CR dTRANSFORMER_CX dTRANSFORMER_CNXA" : ver == 34 ? "-W -N dBRANCH_SHIFT " RATES " iTRANSFORMER_CODE1 -CONT dTRANSFORMER_RMA dTRANSFORMER_RMI dTRANSFORMER_VMA dTRANSFORMER_VMI" : "-W -N dBRANCH_SHIFT " RATES " iTRANSFORMER_CODE1 -CONT -NODE dTRANSFORMER_RMA dTRANSFORMER_RMI dTRANSFORMER_VMA dTRANSFORMER_VMI iTRANSFORMER_NTP iTRANSFORMER_TAB dTRANSFORMER_CR dTRANSFORMER_CX dTRANSFORMER_CNXA");
  std::vector<Tok> t1 = fields(f1), t2, t3 = fields(f3), t4; t1[0] = ts(""); t1[0].text = busref(i); t1[1] = ts(""); t1[1].text = busref(j); t1[2] = tn(0); t1[3] = ts(idT[r % 4]); t1[4] = tn(cw); t1[5] = tn(cz); t1[10] = ts("'T 1'"); size_t n1 = shortrec ? length(12, f1.size()) : f1.size(), n3 = f3.size();
  t2.push_back(td()); t2.push_back(td()); double sb = same == 0 ? sbase : same == 1 ? 0.0 : gp_real("sbase12"); if (same == 2) gp_assume((sb > 0.5) & (sb < 5000)); t2.push_back(same == 0 ? tdv(sbase) : same == 1 ? tn(0) : tdv(sb));
  double w1 = gp_real("windv1"), w2 = gp_real("windv2"), n1v = gp_real("nomv1"), n2v = gp_real("nomv2"); gp_assume((w1 > 0.1) & (w1 < 500) & (w2 > 0.1) & (w2 < 500) & (n1v > 0.1) & (n1v < 500) & (n2v > 0.1) & (n2v < 500));
  t3[0] = tdv(w1); t3[1] = tdv(n1v); t4.push_back(tdv(w2)); t4.push_back(tdv(n2v));
  file.push_back(line(t1, n1, tail())); file.push_back(line(t2, 3)); file.push_back(line(t3, n3)); file.push_back(line(t4, 2));
  bool sw; int l = branch_of(B[i], B[j], &sw); int idx = brs[l].n++; if (cw == 2) { w1 = w1 / n1v; w2 = w2 / n2v; }
  want(wr, l, idx, f1, t1, 4, n1); want(wr, l, idx, f3, t3, 2, n3); wsx(wr, l, "BRANCH_CKT", idx, idW[r % 4]); wb_(wr, l, "BRANCH_SWITCHED", idx, sw); wi(wr, l, "TRANSFORMER_CW", idx, cw); wi(wr, l, "TRANSFORMER_CZ", idx, cz); wd(wr, l, "BRANCH_B", idx, t1[8].d);
  wd(wr, l, "BRANCH_TAP", idx, w1 / w2); wd(wr, l, "TRANSFORMER_WINDV1", idx, w1); wd(wr, l, "TRANSFORMER_WINDV2", idx, w2); wd(wr, l, "TRANSFORMER_ANG1", idx, t3[2].d); wd(wr, l, "TRANSFORMER_R1_2", idx, t2[0].d); wd(wr, l, "TRANSFORMER_X1_2", idx, t2[1].d); wd(wr, l, "TRANSFORMER_SBASE1_2", idx, sb);
  double sc = w2 * w2; if (same == 2 && cz == 2) sc = sc * sbase / sb; wd(wr, l, "BRANCH_R", idx, t2[0].d * sc); wd(wr, l, "BRANCH_X", idx, t2[1].d * sc);
  if (ver > 33) { wd(wr, l, "BRANCH_RATING_A", idx, t3[3].d); wd(wr, l, "BRANCH_RATING_B", idx, t3[4].d); wd(wr, l, "BRANCH_RATING_C", idx, t3[5].d); }
  gp_cover("transformer"); if (idx) gp_cover("parallel branch"); if (sw) gp_cover("reversed record"); if (cw == 2) gp_cover("winding voltage in kV"); if (same == 2) gp_cover("own base"); }
static int nDummy;
static void transformer3(int r) {
  int st = gp_choose("status", 0, 4), cz = gp_choose("cz", 1, 2), same = cz == 2 ? gp_choose("base", 0, 2) : 2; comment();
  std::vector<Tok> t1, t2; for (int k = 0; k < 3; k++) { Tok t = ts(""); t.text = busref((r + k) % 3); t1.push_back(t); } t1.push_back(ts(idT[r % 4])); t1.push_back(tn(1)); t1.push_back(tn(cz)); t1.push_back(tn(1)); t1.push_back(td()); t1.push_back(td()); t1.push_back(tn(2)); t1.push_back(ts("'T 3'")); t1.push_back(tn(st));
  double rr[3], xx[3], sb[3]; for (int k = 0; k < 3; k++) { Tok a = td(), b = td(); rr[k] = a.d; xx[k] = b.d; sb[k] = same == 0 ? sbase : same == 1 ? 0.0 : gp_real("sbase"); if (same == 2) gp_assume((sb[k] > 0.5) & (sb[k] < 5000)); t2.push_back(a); t2.push_back(b); t2.push_back(same == 0 ? tdv(sbase) : same == 1 ? tn(0) : tdv(sb[k])); if (cz == 2 && same == 2) { rr[k] = rr[k] * sbase / sb[k]; xx[k] = xx[k] * sbase / sb[k]; } }
  file.push_back(line(t1, t1.size(), tail())); file.push_back(line(t2, t2.size())); int nr = ver == 33 ? 3 : 12; std::vector<std::vector<Tok> > w(3);
  for (int k = 0; k < 3; k++) { w[k].push_back(td()); w[k].push_back(tn(0)); w[k].push_back(td()); for (int q = 0; q < nr; q++) w[k].push_back(td()); file.push_back(line(w[k], w[k].size())); }
  if (st == 0) { gp_cover("transformer out of service"); return; }
  int dummy = B[0] + 1 + nDummy; int db = 3 + nDummy; nDummy++; // new bus above the largest number
  wi(wb, db, "BUS_NUMBER", -1, dummy); wi(wb, db, "BUS_TYPE", -1, 1); wd(wb, db, "BUS_VOLTAGE_MAG", -1, 1.0); wd(wb, db, "BUS_VOLTAGE_ANG", -1, 0.0); wi(wb, db, "BUS_AREA", -1, 11 + r % 3); wi(wb, db, "BUS_OWNER", -1, 21 + r % 3);
  for (int k = 0; k < 3; k++) { bool sw; int l = branch_of(B[(r + k) % 3], dummy, &sw); brs[l].n++; int a = k, b = (k + 1) % 3, c = (k + 2) % 3; // pairs 12, 23, 31: winding k is in pairs k and k+2
    (void)b; wd(wr, l, "BRANCH_R", 0, 0.5 * (rr[a] + rr[c] - rr[b])); wd(wr, l, "BRANCH_X", 0, 0.5 * (xx[a] + xx[c] - xx[b])); wd(wr, l, "BRANCH_B", 0, 0.0); wsx(wr, l, "BRANCH_CKT", 0, idW[r % 4]); wd(wr, l, "BRANCH_TAP", 0, w[k][0].d); wd(wr, l, "BRANCH_SHIFT", 0, w[k][2].d); wb_(wr, l, "BRANCH_SWITCHED", 0, false);
    const char *ra[3] = {"BRANCH_RATING_A", "BRANCH_RATING_B", "BRANCH_RATING_C"}; for (int q = 0; q < 3; q++) wd(wr, l, ra[q], 0, w[k][3 + q].d); if (ver > 33) { char nm[24]; for (int q = 0; q < 12; q++) { snprintf(nm, sizeof nm, "BRANCH_RATE%d", q + 1); wd(wr, l, nm, 0, w[k][3 + q].d); } }
    wd(wr, l, "BRANCH_SHUNT_ADMTTNC_G1", 0, k == 0 ? t1[7].d : 0.0); wd(wr, l, "BRANCH_SHUNT_ADMTTNC_B1", 0, k == 0 ? t1[8].d : 0.0);
    static const int out[3] = {4, 2, 3}; wi(wr, l, "BRANCH_STATUS", 0, st != out[k]); }
  gp_cover("three windings"); if (st > 1) gp_cover("winding out of service"); if (same == 2 && cz == 2) gp_cover("own base"); }
static void switched() {
  std::vector<Fld> f = F(ver == 33 ? sw33 : ver == 34 ? sw34 : sw35); size_t low = ver == 35 ? 12 : 10, rm = ver == 35 ? 10 : 8; bool used[3] = {false, false, false};
  for (int r = 0; r < NR; r++) { int b = gp_choose("bus", 0, 3); if (b < 3 && used[b]) gp_end_path("one switched shunt per bus"); comment(); std::vector<Tok> t = fields(f); t[0] = tn(b < 3 ? B[b] : 98); t[rm] = ts("'RM'"); if (ver == 35) t[1] = ts("'1 '"); size_t n = length(low, f.size()); file.push_back(line(t, n, tail())); if (b == 3) { gp_cover("unknown bus"); continue; }
    used[b] = true; wi(wb, b, "SWSHUNT_BUSNUMBER", -1, B[b]); want(wb, b, -1, f, t, 1, n); gp_cover("switched shunt"); } 
  for (int b = 0; b < 3; b++) if (!used[b]) { wno(wb, b, "SWSHUNT_BUSNUMBER", -1, 'i'); wno(wb, b, "SHUNT_MODSW", -1, 'i'); wno(wb, b, "SHUNT_BINIT", -1, 'd'); } }
static void areas() { for (int r = 0; r < NR; r++) { comment(); std::vector<Tok> t; t.push_back(tn(r + 5)); t.push_back(ti()); t.push_back(td()); t.push_back(td()); t.push_back(ts(r & 1 ? "AR" : "'AREA ONE'")); file.push_back(line(t, 5, tail())); wi(wn, 0, "AREAINTG_NUMBER", r, r + 5); wi(wn, 0, "AREAINTG_ISW", r, t[1].i); wd(wn, 0, "AREAINTG_PDES", r, t[2].d); wd(wn, 0, "AREAINTG_PTOL", r, t[3].d); gp_cover("area"); } wi(wn, 0, "AREA_TOTAL", -1, NR); }
struct Tab { int id; std::vector<double> t, s; }; static std::vector<Tab> tabs;
static void tables() { for (int r = 0; r < NR; r++) { comment(); int n = gp_choose("points", r == 0 ? 0 : 1, ver == 33 ? 3 : 5); Tab tb; tb.id = 31 + r; std::vector<Tok> t; t.push_back(tn(tb.id)); std::vector<std::string> out;
    for (int k = 0; k < n; k++) { Tok a = td(), b = td(); if (ver > 33) gp_assume((a.d > 0.25) & (b.d > 0.25)); t.push_back(a); t.push_back(b); if (ver > 33) t.push_back(td()); tb.t.push_back(a.d); tb.s.push_back(b.d); if (ver > 33 && k == 2) { out.push_back(line(t, t.size())); t.clear(); } }
    if (!t.empty()) out.push_back(line(t, t.size(), tail())); for (size_t k = 0; k < out.size(); k++) file.push_back(out[k]); if (ver > 33) file.push_back("  0.0, 0.0, 0.0"); tabs.push_back(tb); gp_cover("correction table"); if (!n) gp_cover("empty table"); } }
static void sections() { for (int r = 0; r < NR; r++) { int i, j; pair(&i, &j); int n = gp_choose("dummies", 0, 9); bool known = false; int l = -1; for (size_t k = 0; k < brs.size(); k++) if ((brs[k].a == B[i] && brs[k].b == B[j]) || (brs[k].a == B[j] && brs[k].b == B[i])) { known = true; l = (int)k; }
    comment(); std::vector<Tok> t; t.push_back(tn(B[i])); t.push_back(tn(B[j])); t.push_back(ts("'&2'")); t.push_back(ti()); for (int k = 0; k < n; k++) t.push_back(ti()); file.push_back(line(t, t.size(), tail()));
    if (!known) { gp_cover("unknown branch"); continue; } wsx(wr, l, "MULTI_SEC_LINE_ID", -1, "&2"); wi(wr, l, "MULTI_SEC_LINE_MET", -1, t[3].i); for (int k = 0; k < 9; k++) { char nm[32]; snprintf(nm, sizeof nm, "MULTI_SEC_LINE_DUM%d", k + 1); if (k < n) wi(wr, l, nm, -1, t[4 + k].i); else wno(wr, l, nm, -1, 'i'); } gp_cover("multi-section line"); } }
static void build() {
  file.clear(); wb.clear(); wr.clear(); wn.clear(); brs.clear(); tabs.clear(); nDummy = 0; caseid = gp_range("case", 0, 1); sbase = gp_param("symbase", 0) ? gp_real("base") : 100.0; if (gp_param("symbase", 0)) gp_assume((sbase > 1) & (sbase < 2000));
  comment(); { char b[80], s[48]; snprintf(s, sizeof s, "%.17g", sbase); snprintf(b, sizeof b, "%c, %s, 33, 0, 1, 60.0", (char)('0' + (int)gp_concrete(caseid)), s); file.push_back(b); } file.push_back("title 1"); file.push_back("0 title 2"); caseid = (int)gp_concrete(caseid);
  if (ver > 33) { file.push_back("GENERAL, THRSHZ=0.0001"); endblock("SYSTEM"); }
  int keep = sep; buses(); endblock("BUS");
  if (kind == 1) devices(loadF, "LOAD_NUMBER", "LOAD_BUSNUMBER", "LOAD_ID", 5); else if (kind == 9) { file.push_back(" 4, '1', 1, 1, 1, 0.5, 0.25"); wd(wb, 1, "LOAD_PL", 0, 0.5); } endblock("LOAD");
  if (kind == 2) devices(shF, "SHUNT_NUMBER", "SHUNT_BUSNUMBER", "SHUNT_ID", 3); endblock("SHUNT");
  if (kind == 3) devices(ver == 35 ? gen35 : ver == 34 ? gen34 : gen33, "GENERATOR_NUMBER", "GENERATOR_BUSNUMBER", "GENERATOR_ID", 5); endblock("GENERATOR");
  if (kind == 4 || kind == 10) lines(); else if (kind == 5 && full) { int t = NR; NR = 1; lines(); NR = t; } endblock("BRANCH");
  if (ver > 33) endblock("SYSTEM SWITCHING");
  if (kind == 5) for (int r = 0; r < NR; r++) transformer2(r, true); if (kind == 6) { for (int r = 0; r < NR; r++) transformer3(r); if (full) transformer2(2, false); } endblock("TRANSFORMER");
  if (kind == 8) areas(); else wi(wn, 0, "AREA_TOTAL", -1, 0); endblock("AREA"); endblock("TWO-TERMINAL"); endblock("VSC");
  if (kind == 9) tables(); endblock("CORRECTION"); endblock("MULTI-TERMINAL"); if (kind == 10) { int t = NR; NR = 1; sections(); NR = t; } endblock("MULTI-SECTION"); endblock("ZONE"); endblock("INTER-AREA"); endblock("OWNER"); endblock("FACTS");
  if (kind == 7) switched(); endblock("SWITCHED SHUNT"); sep = keep; wd(wn, 0, "CASE_SBASE", -1, sbase); wi(wn, 0, "CASE_ID", -1, caseid);
  for (size_t k = 0; k < brs.size(); k++) { wi(wr, (int)k, "BRANCH_NUM_ELEMENTS", -1, brs[k].n); wi(wr, (int)k, "BRANCH_FROMBUS", -1, brs[k].a); wi(wr, (int)k, "BRANCH_TOBUS", -1, brs[k].b); wi(wr, (int)k, "BRANCH_INDEX", -1, (int)k); wno(wr, (int)k, "BRANCH_CKT", brs[k].n, 's'); }
}
static void check_complex(DataCollection *d, const Want &w) { gridpack::ComplexType z; bool ok = d->getValue(w.name.c_str(), &z, w.idx); if (w.t == 'C') gp_check(!ok, "complex field that was never given"); else { gp_check(ok, "complex field stored"); if (ok) gp_check_eq(w.t == 'c' ? real(z) : imag(z), w.d, w.t == 'c' ? "resistance field" : "reactance field"); } }
static std::string path_;
#ifdef GP_NATIVE
#include <unistd.h>
static char dir_[32]; static void save() { strcpy(dir_, "rawXXXXXX"); if (!mkdtemp(dir_)) abort(); path_ = std::string(dir_) + "/c.raw"; FILE *f = fopen(path_.c_str(), "w"); for (size_t k = 0; k < file.size(); k++) fprintf(f, "%s\n", file[k].c_str()); fclose(f); if (getenv("GP_SHOW")) for (size_t k = 0; k < file.size(); k++) printf("%s\n", file[k].c_str()); }
static void drop() { unlink(path_.c_str()); rmdir(dir_); }
#else
static void save() { path_ = "c.raw"; std::string t; for (size_t k = 0; k < file.size(); k++) { t += file[k]; t += '\n'; } gp_names.clear(); gp_texts.clear(); gp_names.push_back(path_); gp_texts.push_back(t); }
static void drop() {}
#endif
template <class P> static void run(int r, boost::shared_ptr<Net> net) {
  P parser(net); parser.parse(path_);
  if (r != 0) { gp_check_eqi(net->numBuses(), 0, "buses on a process that read nothing"); gp_check_eqi(net->numBranches(), 0, "branches on a process that read nothing"); }
  DataCollection *nd = net->getNetworkData().get(); for (size_t k = 0; k < wn.size(); k++) verify(nd, wn[k]);
  if (r == 0) { gp_check_eqi(net->numBuses(), 3 + nDummy, "number of buses"); gp_check_eqi(net->numBranches(), (int64_t)brs.size(), "number of branches"); if (net->numBuses() != 3 + nDummy || net->numBranches() != (int)brs.size()) return;
    for (int k = 0; k < 3; k++) gp_check_eqi(net->getOriginalBusIndex(k), B[k], "bus of the network"); for (size_t k = 0; k < brs.size(); k++) { int a, b; net->getOriginalBranchEndpoints((int)k, &a, &b); gp_check_eqi(a, brs[k].a, "from bus of the branch"); gp_check_eqi(b, brs[k].b, "to bus of the branch"); }
    for (size_t k = 0; k < wb.size(); k++) { DataCollection *d = net->getBusData(wb[k].el).get(); if (wb[k].t == 'c' || wb[k].t == 'C' || wb[k].t == 'm') check_complex(d, wb[k]); else verify(d, wb[k]); }
    for (size_t k = 0; k < wr.size(); k++) verify(net->getBranchData(wr[k].el).get(), wr[k]);
    for (size_t k = 0; k < tabs.size(); k++) { std::vector<double> a, b; parser.getImpedenceTable(tabs[k].id, a, b); gp_check_eqi((int64_t)a.size(), (int64_t)tabs[k].t.size(), "points of the correction table"); gp_check_eqi((int64_t)b.size(), (int64_t)tabs[k].t.size(), "factors of the correction table"); for (size_t q = 0; q < a.size() && q < b.size() && q < tabs[k].t.size(); q++) { gp_check_eq(a[q], tabs[k].t[q], "tap or angle of the correction table"); gp_check_eq(b[q], tabs[k].s[q], "factor of the correction table"); } } } }
static void body(int r) { parallel::Communicator w; boost::shared_ptr<Net> net(new Net(w)); if (ver == 33) run<parser::PTI33_parser<Net> >(r, net); else if (ver == 34) run<parser::PTI34_parser<Net> >(r, net); else run<parser::PTI35_parser<Net> >(r, net); }
void gp_main() { ver = (int)gp_param("ver", 33); kind = (int)gp_param("kind", 0); NR = (int)gp_param("n", 2); sep = (int)gp_param("sep", 0); cuts = (int)gp_param("cuts", 0); full = (int)gp_param("full", 0); NPr = (int)gp_param("np", 1); gp_set_tol(1e-9); build(); save(); sim_run(NPr, body); drop(); }
