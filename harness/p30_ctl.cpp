// Governors and exciters: started at an operating point they stay there, away from it they follow their block diagram.
// The reference diagrams are composed from the linear blocks whose behaviour P23 decides.
#include "gp.h"
#include <cmath>
#include <vector>
#include <string>
#include "boost/smart_ptr/shared_ptr.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/base_classes/base_governor_model.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/base_classes/base_exciter_model.hpp"
#define M "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/tgov1.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/gast.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/hygov.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/sexs.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/ieeet1.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.hpp"
using namespace gridpack::dynamic_simulation; using gridpack::component::DataCollection;
typedef boost::shared_ptr<DataCollection> DC;
static const double BIG = 1e5;
static double mn(double a, double b) { return gp_branch(b < a) ? b : a; }
static double mx(double a, double b) { return gp_branch(a < b) ? b : a; }
static double cl(double v, double lo, double hi) { return mx(lo, mn(v, hi)); }
static DC dc; static int IDX;
// a parameter: read from the data, or left out so that the model has to use its default
static double par(const char *n, double v) { dc->addValue(n, v, IDX); return v; }
static double dflt(const char *n, double v, double d) { return gp_param("dflt", 0) ? d : par(n, v); }
struct In { double w, vt, vs, ifd, ir, ii; }; // inputs of a model
static double fc() { bool hi = gp_param("lr", 0); return gp_param("model", 0) == 14 ? gp_real_in("field current", gp_param("lo", 0), gp_param("hi", 6)) : hi ? gp_real_in("field current", 3.015625, 8) : gp_real_in("field current", 0, 3); }
static In rd(int flat) { In i; i.w = i.vs = i.ifd = i.ir = i.ii = 0; i.vt = 1; bool gov = gp_param("model", 0) < 10; if (gov) i.w = gp_real_in("speed", -1, 1); else i.vt = gp_param("model", 0) == 14 ? (gp_choose("voltage", 0, 1) ? 1 : 0.25) : flat ? (gp_choose("voltage", 0, 1) ? 1.125 : 0.75) : gp_real_in("voltage", 0.25, 2); return i; }
struct Ref { // a reference diagram: start at output y, one stage with new inputs
  virtual void start(double y, const In &i) = 0; virtual double stage(const In &i, double dt, IntegrationStage s) = 0; virtual bool ok(double y, const In &i) { return true; } };
static double lag(Filter &f, double u, double dt, IntegrationStage s) { return f.getoutput(u, dt, s, true); }
struct RTgov1 : Ref { double R, Dt, ref, lo, hi; Filter g; LeadLag t;
  RTgov1() { R = dflt(GOVERNOR_R, 0.25, 0.05); double T1 = dflt(GOVERNOR_T1, 0.125, 0.5), T2 = dflt(GOVERNOR_T2, 1, 3), T3 = dflt(GOVERNOR_T3, 2, 10); hi = dflt(GOVERNOR_VMAX, 1.25, 1); lo = dflt(GOVERNOR_VMIN, 0.125, 0); Dt = dflt(GOVERNOR_DT, 0.5, 0); g.setparams(1, T1, lo, hi, -BIG, BIG); t.setparams(T2, T3); }
  void start(double y, const In &i) { double v = y + Dt * i.w; gp_assume((v >= lo) & (v <= hi)); t.init_given_y(v); g.init_given_y(v); ref = R * v + i.w; }
  double stage(const In &i, double dt, IntegrationStage s) { double v = g.getoutput((ref - i.w) / R, dt, s, true); return t.getoutput(v, dt, s, true) - Dt * i.w; } };
struct RGast : Ref { double R, Dt, ref, lo, hi, AT, KT, te; Filter v, f, x;
  RGast() { R = dflt(GOVERNOR_R, 0.25, 0.05); double T1 = dflt(GOVERNOR_T1, 0.5, 0.5), T2 = dflt(GOVERNOR_T2, 0.25, 3), T3 = dflt(GOVERNOR_T3, 2, 10); AT = par(GOVERNOR_AT, 1); KT = par(GOVERNOR_KT, 2); hi = dflt(GOVERNOR_VMAX, 1.25, 1); lo = dflt(GOVERNOR_VMIN, -0.125, 0); Dt = dflt(GOVERNOR_DT, 0.5, 0); v.setparams(1, T1, lo, hi, -BIG, BIG); f.setparams(1, T2); x.setparams(1, T3); }
  void start(double y, const In &i) { double q = y + Dt * i.w; gp_assume((q >= lo) & (q <= hi) & (q <= AT + KT * (AT - q))); v.init_given_y(q); f.init_given_y(q); x.init_given_u(q); te = q; ref = q + i.w / R; }
  double stage(const In &i, double dt, IntegrationStage s) { double u = mn(AT + KT * (AT - te), ref - i.w / R), q = f.getoutput(v.getoutput(u, dt, s, true), dt, s, true); te = x.getoutput(q, dt, s, true); return q - Dt * i.w; } };
struct RHygov : Ref { double R, Dt, ref, lo, hi, At, qn, q, g; Filter f, o; PIControl c; Integrator t;
  RHygov() { R = dflt(GOVERNOR_R, 0.0625, 0.05); double r = dflt(GOVERNOR_r, 0.5, 0.05), Tr = dflt(GOVERNOR_TR, 4, 0.5), Tf = dflt(GOVERNOR_TF, 0.0625, 3), Tg = dflt(GOVERNOR_TG, 0.5, 10), Tw = dflt(GOVERNOR_TW, 1, 10); At = dflt(GOVERNOR_AT, 1.25, 1); qn = dflt(GOVERNOR_QNL, 0.125, 0); hi = dflt(GOVERNOR_GMAX, 1.5, 1); lo = dflt(GOVERNOR_GMIN, 0.0625, 0); Dt = dflt(GOVERNOR_DT, 0.5, 0); f.setparams(1, Tf); c.setparams(1 / r, 1 / (r * Tr), lo, hi, -BIG, BIG); o.setparams(1, Tg); t.setparams(Tw); }
  void start(double y, const In &i) { if (gp_param("flat", 0)) gp_assume(i.w == 0); q = y / At + qn; gp_assume((q >= lo) & (q <= hi) & (q > 0.01)); t.init_given_y(q); o.init_given_y(q); c.init_given_y(q); f.init_given_y(0); g = q; ref = R * q + i.w; }
  double stage(const In &i, double dt, IntegrationStage s) { double e = f.getoutput(ref - (i.w + R * g), dt, s, true); g = c.getoutput(e, dt, s, true); double G = o.getoutput(g, dt, s, true), h = G / q; h = h * h; q = t.getoutput(1 - h, dt, s, true); return At * (q - qn) * h - G * Dt * i.w; } };
struct RWsieg1 : Ref { double K, T3, Uo, Uc, hi, lo, gv, gv0, k[4]; int var; LeadLag l; Integrator p; Filter f[4]; bool ll, t[4];
  RWsieg1() { var = gp_param("var", 0); double T1 = par(GOVERNOR_T1, var == 1 ? 0 : 0.5), T2 = par(GOVERNOR_T2, var == 1 ? 0 : 0.25); K = par(GOVERNOR_K, 16); T3 = par(GOVERNOR_T3, 0.5); Uo = par(GOVERNOR_UO, 8); Uc = par(GOVERNOR_UC, -7); hi = par(GOVERNOR_PMAX, 1); lo = par(GOVERNOR_PMIN, 0.125); static const char *tn[4], *kn[4]; tn[0] = GOVERNOR_T4; tn[1] = GOVERNOR_T5; tn[2] = GOVERNOR_T6; tn[3] = GOVERNOR_T7; kn[0] = GOVERNOR_K1; kn[1] = GOVERNOR_K3; kn[2] = GOVERNOR_K5; kn[3] = GOVERNOR_K7; double tv[4] = {0.25, 4, 0.5, 1}, kv[4] = {0.25, 0.25, 0.375, 0.125};
    for (int j = 0; j < 4; j++) { double T = par(tn[j], var == 1 && j % 2 ? 0 : var == 2 && j != 1 ? 0 : tv[j]); t[j] = T != 0; if (t[j]) f[j].setparams(1, T); k[j] = par(kn[j], kv[j]); } ll = T1 != 0; if (ll) l.setparams(T2, T1); }
  void start(double y, const In &i) { if (gp_param("flat", 0)) gp_assume(i.w == 0); gv = gv0 = y / (k[0] + k[1] + k[2] + k[3]); for (int j = 0; j < 4; j++) if (t[j]) f[j].init_given_y(gv); if (gp_branch(gv > hi)) hi = gv + 0.1; else if (gp_branch(gv < lo)) lo = gv - 0.1; p.setparams(1, lo, hi); p.init_given_y(gv); if (ll) l.init_given_y(0); }
  double stage(const In &i, double dt, IntegrationStage s) { double e = K * i.w; if (ll) e = l.getoutput(e, dt, s, true); gv = p.getoutput(cl((gv0 - e - gv) / T3, Uc, Uo), dt, s, true); double u = gv, y = 0; for (int j = 0; j < 4; j++) { if (t[j]) u = f[j].getoutput(u, dt, s, true); y += k[j] * u; } return y; } };
struct RSexs : Ref { double K, hi, lo, ref; bool z; LeadLag l; Filter f;
  RSexs() { double r = par(EXCITER_TA_OVER_TB, 0.25), Tb = par(EXCITER_TB, 8), Te = par(EXCITER_TE, gp_param("var", 0) ? 0 : 0.5); K = par(EXCITER_K, 16); hi = par(EXCITER_EMAX, 4); lo = par(EXCITER_EMIN, -2); z = Te == 0; l.setparams(r * Tb, Tb); if (!z) f.setparams(K, Te, lo, hi, -BIG, BIG); }
  void start(double y, const In &i) { gp_assume((y >= lo) & (y <= hi)); double u = l.init_given_y(y / K); if (!z) f.init_given_y(y); ref = i.vt + u; }
  double stage(const In &i, double dt, IntegrationStage s) { double v = l.getoutput(ref - i.vt, dt, s, true); return z ? cl(K * v, lo, hi) : f.getoutput(v, dt, s, true); } };
struct RDc : Ref { // EXDC1 (with lead-lag) and IEEET1
  double KA, KE, hi, lo, ref, A, B, E; bool zr, za, sat, ll; Filter m, r; LeadLag l; Cblock fb; Integrator o;
  RDc(bool dc1) { int v = gp_param("var", 0); double TR = par(EXCITER_TR, v & 1 ? 0 : 0.0625), TA = par(EXCITER_TA, v & 2 ? 0 : 0.125), TE = par(EXCITER_TE, 0.5), KF = par(EXCITER_KF, 0.125), TF = par(EXCITER_TF1, 1); KA = par(EXCITER_KA, 16); KE = par(EXCITER_KE, 1); hi = par(EXCITER_VRMAX, 8); lo = par(EXCITER_VRMIN, -4); sat = !(v & 4); zr = TR == 0; za = TA == 0; ll = dc1 && !(v & 8);
    // saturation B (E-A)^2 / E through (5/2, 9/32) and (4, 45/64): A = 1, B = 5/16
    double E1 = par(EXCITER_E1, 2.5), S1 = par(EXCITER_SE1, sat ? 0.28125 : 0), E2 = par(EXCITER_E2, 4), S2 = par(EXCITER_SE2, 0.703125); A = 1; B = 0.3125; (void)E1; (void)S1; (void)E2; (void)S2;
    if (dc1) { double TB = par(EXCITER_TB, ll ? 2 : 0), TC = par(EXCITER_TC, ll ? 0.25 : 0); if (ll) l.setparams(TC, TB); }
    if (!zr) m.setparams(1, TR); if (!za) r.setparams(KA, TA, lo, hi, -BIG, BIG); double a[2] = {TF, 1}, b[2] = {KF, 0}; fb.setcoeffs(a, b); o.setparams(TE); }
  double S(double e) { double s = KE * e; if (sat && gp_branch(!(e < A))) s = s + B * (e - A) * (e - A); return s; }
  void start(double y, const In &i) { E = y; fb.init_given_u(y); o.init_given_y(y); double vr = S(y); gp_assume((vr >= lo) & (vr <= hi)); double u = vr / KA; if (!za) r.init_given_y(vr); if (ll) l.init_given_y(u); if (!zr) m.init_given_u(i.vt); ref = u + i.vt - i.vs; }
  double stage(const In &i, double dt, IntegrationStage s) { double vm = zr ? i.vt : m.getoutput(i.vt, dt, s, true), e = ref - vm + i.vs - fb.getoutput(E, dt, s, true); if (ll) e = l.getoutput(e, dt, s, true); double vr = za ? cl(KA * e, lo, hi) : r.getoutput(e, dt, s, true); E = o.getoutput(vr - S(E), dt, s, true); return E; } };
struct RSt1a : Ref { double KA, KC, KLR, ILR, Vimx, Vimn, Vamx, Vamn, Vrmx, Vrmn, ref, E, oel; bool zr, za, zb, zb1; Filter m, r; LeadLag l, l1; Cblock fb;
  RSt1a() { int v = gp_param("var", 0); double TR = par(EXCITER_TR, v & 1 ? 0 : 0.0625), TC = par(EXCITER_TC, 0.5), TB = par(EXCITER_TB, v & 4 ? 0 : 2), TC1 = par(EXCITER_TC1, 0.25), TB1 = par(EXCITER_TB1, v & 4 ? 0 : 0.125), TA = par(EXCITER_TA, v & 2 ? 0 : 0.125), KF = par(EXCITER_KF, 0.125), TF = par(EXCITER_TF, 1); KA = par(EXCITER_KA, 16); Vimx = par(EXCITER_VIMAX, 0.5); Vimn = par(EXCITER_VIMIN, -0.25); Vamx = par(EXCITER_VAMAX, 4); Vamn = par(EXCITER_VAMIN, -4); Vrmx = par(EXCITER_VRMAX, 6); Vrmn = par(EXCITER_VRMIN, -5); KC = par(EXCITER_KC, 0.125); KLR = par(EXCITER_KLR, 2); ILR = par(EXCITER_ILR, 3); oel = 1000; zr = TR == 0; za = TA == 0; zb = zb1 = v & 4;
    if (!zr) m.setparams(1, TR); if (!zb) l.setparams(TC, TB); if (!zb1) l1.setparams(TC1, TB1); double a[2] = {TF, 1}, b[2] = {KF, 0}; fb.setcoeffs(a, b); TAv = TA; }
  double TAv; double lr(const In &i) { double d = (i.ifd - ILR) * KLR; return gp_branch(d > 0) ? d : 0; }
  void start(double y, const In &i) { E = y; fb.init_given_u(y); if (!gp_param("flat", 0)) { double va = lr(i) + y; gp_assume((y <= i.vt * Vrmx - KC * i.ifd) & (y >= i.vt * Vrmn) & (va <= Vamx) & (va >= Vamn)); } if (gp_branch(y > i.vt * Vrmx - KC * i.ifd)) Vrmx = (y + KC * i.ifd) / i.vt + 0.21; if (gp_branch(y < i.vt * Vrmn)) Vrmn = y / i.vt - 0.1; double va = lr(i) + y; if (gp_branch(va > Vamx)) Vamx = va + 0.1; else if (gp_branch(va < Vamn)) Vamn = va - 0.1; double u = va / KA; if (!za) { r.setparams(KA, TAv, Vamn, Vamx, -BIG, BIG); r.init_given_y(va); } if (!zb1) l1.init_given_y(u); if (!zb) l.init_given_y(u); if (gp_branch(u > Vimx)) Vimx = u + 0.1; else if (gp_branch(u < Vimn)) Vimn = u - 0.1; if (!zr) m.init_given_u(i.vt); ref = u + i.vt; }
  double stage(const In &i, double dt, IntegrationStage s) { double vm = zr ? i.vt : m.getoutput(i.vt, dt, s, true), e = cl(ref - vm - fb.getoutput(E, dt, s, true), Vimn, Vimx); if (!zb) e = l.getoutput(e, dt, s, true); if (!zb1) e = l1.getoutput(e, dt, s, true); double va = za ? cl(KA * e, Vamn, Vamx) : r.getoutput(e, dt, s, true); double u = mn(va - lr(i), oel), top = i.vt * Vrmx - KC * i.ifd, bot = i.vt * Vrmn; E = gp_branch(u > top) ? top : gp_branch(u < bot) ? bot : u; return E; } };
struct RSt4b : Ref { double Kpr, Kir, Kpm, Kim, KG, KP, th, XL, KI, KC, vbx, Vrmx, Vrmn, Vmmx, Vmmn, ref, E; bool zr, za; Filter m, a; PIControl p, q;
  RSt4b() { int v = gp_param("var", 0); double TR = par(EXCITER_TR, v & 1 ? 0 : 0.0625), TA = par(EXCITER_TA, v & 2 ? 0 : 0.125); Kpr = par(EXCITER_KPR, 2); Kir = par(EXCITER_KIR, v & 4 ? 0 : 4); Vrmx = par(EXCITER_VRMAX, 1); Vrmn = par(EXCITER_VRMIN, -0.75); Kpm = par(EXCITER_KPM, 1); Kim = par(EXCITER_KIM, v & 8 ? 0 : 0.5); Vmmx = par(EXCITER_VMMAX, 1.25); Vmmn = par(EXCITER_VMMIN, -1); KG = par(EXCITER_KG, 0.125); KP = par(EXCITER_KP, 4); KI = par(EXCITER_KI, v & 16 ? 1 : 0); vbx = par(EXCITER_VBMAX, v & 32 ? 4 : 16); KC = par(EXCITER_KC, 0.25); XL = par(EXCITER_XL, v & 16 ? 0 : 0.25); th = par(EXCITER_THETAP, 0); zr = TR == 0; za = TA == 0; if (!zr) m.setparams(1, TR); if (!za) a.setparams(1, TA); }
  double fex(double x) { if (gp_branch(x <= 0)) return 1; if (gp_branch(x <= 0.433)) return 1 - 0.577 * x; if (gp_branch(x < 0.75)) return sqrt(0.75 - x * x); if (gp_branch(x <= 1)) return 1.732 * (1 - x); return 0; }
  double vb(const In &i) { double kr = KP * cos(th * (4.0 * atan(1.0)) / 180.0), ki = KP * sin(th * (4.0 * atan(1.0)) / 180.0), zr_ = -ki * XL, zi = kr * XL + KI, re = kr * i.vt + zr_ * i.ir - zi * i.ii, im = ki * i.vt + zr_ * i.ii + zi * i.ir, ve = sqrt(re * re + im * im), v = ve * fex(KC * i.ifd / ve); return gp_branch(v > vbx) ? vbx : v; }
  void start(double y, const In &i) { E = y; double B = vb(i), u = y / B, w; if (Kim != 0) { if (gp_branch(u > Vmmx)) Vmmx = u + 0.1; else if (gp_branch(u < Vmmn)) Vmmn = u - 0.1; q.setparams(Kpm, Kim, Vmmn, Vmmx, -BIG, BIG); q.init_given_y(u); w = 0; } else w = u / Kpm; w = w + KG * y; if (!za) a.init_given_y(w); double e; if (Kir != 0) { if (gp_branch(w > Vrmx)) Vrmx = w + 0.1; else if (gp_branch(w < Vrmn)) Vrmn = w - 0.1; p.setparams(Kpr, Kir, Vrmn, Vrmx, -BIG, BIG); p.init_given_y(w); e = 0; } else e = w / Kpr; if (!zr) m.init_given_u(i.vt); ref = e + i.vt; }
  double stage(const In &i, double dt, IntegrationStage s) { double vm = zr ? i.vt : m.getoutput(i.vt, dt, s, true), e = ref - vm; e = Kir != 0 ? p.getoutput(e, dt, s, true) : Kpr * e; if (!za) e = a.getoutput(e, dt, s, true); e = e - KG * E; e = Kim != 0 ? q.getoutput(e, dt, s, true) : Kpm * e; E = mn(e, 1000) * vb(i); return E; } };
static BaseGovernorModel *gov; static BaseExciterModel *exc;
static void feed(const In &i) { if (gov) gov->setRotorSpeedDeviation(i.w); else { exc->setVterminal(i.vt); exc->setVcomp(i.vt); exc->setFieldCurrent(i.ifd); exc->setVstab(i.vs); exc->setOmega(i.w); } }
static double out() { return gov ? gov->getMechanicalPower() : exc->getFieldVoltage(); }
extern "C" void gp_main() {
  gp_set_tol(1e-6); dc.reset(new DataCollection); IDX = gp_param("idx", 1); int model = gp_param("model", 0), K = gp_param("K", 1), flat = gp_param("flat", 0); Ref *r = 0;
  for (int j = 0; j < IDX; j++) { dc->addValue(GOVERNOR_R, 0.5, j); dc->addValue(GOVERNOR_T1, 0.75, j); dc->addValue(EXCITER_K, 3.0, j); dc->addValue(EXCITER_KA, 3.0, j); dc->addValue(EXCITER_TR, 3.0, j); }
  switch (model) { case 0: gov = new Tgov1Model; r = new RTgov1; break; case 1: gov = new GastModel; r = new RGast; break; case 2: gov = new HygovModel; r = new RHygov; break; case 3: gov = new Wsieg1Model; r = new RWsieg1; break; case 10: exc = new SexsModel; r = new RSexs; break; case 11: exc = new Exdc1Model; r = new RDc(true); break; case 12: exc = new Ieeet1Model; r = new RDc(false); break; case 13: exc = new Esst1aModel; r = new RSt1a; break; case 14: exc = new Esst4bModel; r = new RSt4b; break; }
  double dt = 0.0078125, y = gp_real_in("operating point", -6, 6); In in = rd(model == 13 || flat); if (model >= 13) in.ifd = fc(); if (model == 14) { in.ir = 4; in.ii = 1; exc->setIri(4, 1); gp_assume(0.25 * in.ifd <= (in.vt == 1 ? 4.5 : 3.5)); } if (model == 11 || model == 12) in.vs = gp_real_in("stabiliser", -0.25, 0.25);
  if (gov) gov->load(dc, IDX); else exc->load(dc, IDX);
  if (gov) { gov->setMechanicalPower(y); feed(in); gov->init(in.vt, 0, dt); } else { feed(in); exc->setFieldVoltage(y); exc->init(in.vt, 0, dt); }
  gp_check_eq(out(), y, "output at the start");
  r->start(y, in);
  for (int k = 0; k < K; k++) for (int s = 0; s < 2; s++) { IntegrationStage st = s ? CORRECTOR : PREDICTOR;
    if (!flat) { In n = rd(0); n.ifd = in.ifd; n.vs = in.vs; if (model >= 13 && s) n.ifd = fc(); n.ir = in.ir; n.ii = in.ii; if (model == 11 || model == 12) n.vs = gp_real_in("stabiliser", -0.25, 0.25); in = n; feed(in); }
    if (gov) { if (s) gov->corrector(dt, true); else gov->predictor(dt, true); } else { if (s) exc->corrector(dt, true); else exc->predictor(dt, true); }
    if (flat) gp_check_eq(out(), y, "stays at the operating point"); else gp_check_eq(out(), r->stage(in, dt, st), "output away from the operating point"); }
  gp_cover(flat ? "flat" : "response"); }
