// Control blocks of the dynamic simulation: transfer function, integration step, limits, start.
#include "gp.h"
#include <cmath>
#include <vector>
#include <stdexcept>
#include "gridpack/applications/modules/dynamic_simulation_full_y/cblock.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/dblock.hpp"
#ifdef GP_DAE
#include "gridpack/applications/modules/dynamic_simulation_dae/model_classes/BackLashClass.hpp"
#include "gridpack/applications/modules/dynamic_simulation_dae/model_classes/DBIntClass.hpp"
#else
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.hpp"
using gridpack::dynamic_simulation::BackLashClass; using gridpack::dynamic_simulation::DBIntClass;
#endif
static double mn(double a, double b) { return gp_branch(b < a) ? b : a; }
static double mx(double a, double b) { return gp_branch(a < b) ? b : a; }
static double cl(double v, double lo, double hi) { return mx(lo, mn(v, hi)); }
static const double W = 1000.0;
// time constants and steps: symbolic (sym=1), or one of a few values so that the limit logic stays linear
static double tc(const char *n, double lo, double hi) { if (gp_param("sym", 0)) return gp_real_in(n, lo, hi); static const double v[3] = {0.5, 2.0, 0.0625}; int m = gp_param("tset", 3); return v[gp_choose(n, 0, m - 1)]; }
static double kc(const char *n) { if (gp_param("sym", 0)) return gp_real(n); static const double v[3] = {2.0, -0.5, 0.25}; return v[gp_choose(n, 0, gp_param("kset", 2) - 1)]; }
static double stp() { if (gp_param("sym", 0)) return gp_real_in("dt", 1e-4, 1.0); return 0.0078125; }
static double inr(double v) { if (gp_param("sym", 0)) gp_assume((v > -W) & (v < W)); return v; }
// ---- linear blocks
static void lin() {
  int kind = gp_param("kind", 0), ov = gp_param("lim", 0), how = gp_param("start", 0), call = gp_param("call", 0), K = gp_param("K", 1);
  Cblock cb; PIControl pi; Filter fi; LeadLag ll; Integrator in; Cblock *c = &cb;
  double a[2] = {1, 0}, b[2] = {0, 1}, xl = -W, xh = W, dl = -W, dh = W, yl = -W, yh = W;
  if (ov >= 1) { xl = gp_real("xmin"); xh = gp_real("xmax"); gp_assume(xl <= xh); if (kind != 4) { yl = gp_real("ymin"); yh = gp_real("ymax"); gp_assume(yl <= yh); } }
  if (ov == 2) { dl = gp_real("dxmin"); dh = gp_real("dxmax"); gp_assume(dl <= dh); }
  if (kind == 0) { for (int i = 0; i < 2; i++) { a[i] = i || gp_param("sym", 0) ? gp_real("a") : tc("a0", 0, 0) * (gp_choose("sign", 0, 1) ? -1 : 1); b[i] = kc("b"); } gp_assume(a[0] != 0); if (!gp_param("sym", 0)) { int w = gp_choose("a1", 0, 2); a[1] = w == 0 ? 0.0 : w == 1 ? 1.0 : -0.25; } if (how) gp_assume((a[1] * a[1] >= 1e-6) & (a[0] * a[0] <= 1e6) & (b[1] != 0)); c = &cb; cb.setcoeffs(a, b); if (ov >= 1) { cb.setxlimits(xl, xh); cb.setylimits(yl, yh); } if (ov == 2) cb.setdxlimits(dl, dh); }
  if (kind == 1) { double kp = kc("kp"), ki = kc("ki"); b[0] = kp; b[1] = ki; c = &pi; if (ov == 0) pi.setparams(kp, ki); else if (ov == 1) pi.setparams(kp, ki, xl, xh, yl, yh); else pi.setparams(kp, ki, xl, xh, dl, dh, yl, yh); }
  if (kind == 2) { double k = kc("k"), T = tc("t", 1e-4, 1000); if (how) gp_assume(k != 0); a[0] = T; a[1] = 1; b[1] = k; c = &fi; if (ov == 0) fi.setparams(k, T); else if (ov == 1) fi.setparams(k, T, xl, xh, yl, yh); else fi.setparams(k, T, xl, xh, dl, dh, yl, yh); }
  if (kind == 3) { double ta = tc("ta", 0, 1000), tb = tc("tb", 1e-4, 1000); a[0] = tb; a[1] = 1; b[0] = ta; c = &ll; if (ov == 0) ll.setparams(ta, tb); else if (ov == 1) ll.setparams(ta, tb, xl, xh, yl, yh); else ll.setparams(ta, tb, xl, xh, dl, dh, yl, yh); }
  if (kind == 4) { double T = tc("t", 1e-4, 1000); a[0] = T; c = &in; if (ov == 0) in.setparams(T); else in.setparams(T, xl, xh); }
  double A = -a[1] / a[0], B = b[1] / a[0] - a[1] * b[0] / (a[0] * a[0]), d = b[0] / a[0], x, u = gp_real("u"), dt = stp();
  bool integ = kind == 1 || kind == 4;
  if (how == 0) { x = gp_real("x"); c->x[0] = x; }
  else { // every way to start leaves the block at rest at the requested point
    double y; if (how == 1) { gp_assume(!integ); gp_assume((B == 0) | (B * B >= 1e-18)); y = c->init_given_u(u); } else if (how == 2) { y = gp_real("y"); u = c->init_given_y(y); } else { y = gp_real("y"); if (integ) u = 0; else u = y * a[1] / b[1]; c->init(u, y); }
    x = c->x[0]; gp_check_eq(x + d * u, y, "output after initialisation"); gp_check_eq(b[1] * u, a[1] * y, "steady state after initialisation");
    gp_assume((x >= xl) & (x <= xh) & (y >= yl) & (y <= yh) & (dl <= 0) & (dh >= 0)); double x0 = x;
    for (int k = 0; k < 2; k++) { IntegrationStage s = k ? CORRECTOR : PREDICTOR; gp_check_eq(c->getoutput(u, dt, s, true), y, "block starts at rest"); gp_check_eq(c->getstate(s), x0, "state stays at rest"); }
    gp_cover("start"); return; }
  double qxl = xl, qxh = xh, qdl = dl, qdh = dh, qyl = yl, qyh = yh;
  if (call >= 1) { qxl = gp_real("cxmin"); qxh = gp_real("cxmax"); qyl = gp_real("cymin"); qyh = gp_real("cymax"); gp_assume((qxl <= qxh) & (qyl <= qyh)); } if (call == 2) { qdl = gp_real("cdxmin"); qdh = gp_real("cdxmax"); gp_assume(qdl <= qdh); }
  double hat = 0;
  for (int k = 0; k < K; k++) {
    double up = k ? gp_real("u") : u, dx = 0;
    for (int s = 0; s < 2; s++) { IntegrationStage st = s ? CORRECTOR : PREDICTOR; double us = s ? gp_real("uc") : up, xs = s ? hat : x; bool look = gp_param("look", 0);
      inr(xs + d * us); double want = cl(xs + d * us, qyl, qyh), y;
      for (int q = look ? 0 : 1; q < 2; q++) { y = call == 0 ? c->getoutput(us, dt, st, q) : call == 1 ? c->getoutput(us, dt, qxl, qxh, qyl, qyh, st, q) : c->getoutput(us, dt, qxl, qxh, qdl, qdh, qyl, qyh, st, q); gp_check_eq(y, want, "output of a linear block"); }
      double f = A * xs + B * us; gp_check_eq(f, (b[1] * us - a[1] * (xs + d * us)) / a[0], "derivative"); inr(f); if (s) inr(0.5 * (dx + f)); inr(x + dt * (s ? 0.5 * (dx + f) : f));
      if (!s) { dx = cl(f, qdl, qdh); hat = cl(x + dt * dx, qxl, qxh); gp_check_eq(c->getstate(PREDICTOR), hat, "predicted state"); gp_check_eq(c->x[0], x, "state during prediction"); }
      else { double nx = cl(x + dt * cl(0.5 * (dx + f), qdl, qdh), qxl, qxh); gp_check_eq(c->getstate(CORRECTOR), nx, "corrected state"); x = nx; } } }
  gp_cover("step"); }
static void bad() { Cblock c; double a[2] = {0, gp_real("a")}, b[2] = {gp_real("b"), gp_real("b")}; bool th = false; try { c.setcoeffs(a, b); } catch (std::runtime_error &) { th = true; } gp_check(th, "a block without dynamics is rejected"); gp_cover("rejected"); }
// ---- gain, limiter, gates, deadband, slope
static void gain() { GainLimiter g; double k = gp_real("k"), lo = gp_real("ymin"), hi = gp_real("ymax"); gp_assume(lo <= hi); double u = gp_real("u"); int w = gp_choose("use", 0, 2);
  if (w == 0) { g.setparams(k, lo, hi); gp_check_eq(g.getoutput(u), cl(k * u, lo, hi), "limited gain"); u = gp_real("u"); gp_check_eq(g.getoutput(u), cl(k * u, lo, hi), "limited gain"); }
  else if (w == 1) { g.setparams(k, lo, hi); double l2 = gp_real("ymin"), h2 = gp_real("ymax"); gp_assume(l2 <= h2); gp_check_eq(g.getoutput(u, l2, h2), cl(k * u, l2, h2), "gain with moving limits"); }
  else { double dl = gp_real_in("dymin", -10, 10), dh = gp_real_in("dymax", 0, 10); double adl = gp_branch(dl < 0) ? -dl : dl; gp_assume((lo > -1000) & (hi < 1000)); g.setparams(k, lo, hi, dl, dh); double prev = 0; int K = gp_param("K", 2);
    for (int i = 0; i < K; i++) { double dt = gp_real_in("dt", 0, 1); u = gp_real("u"); bool up = i == 0 || gp_choose("update", 0, 1); double y = g.getoutput(u, dt, up), w1 = cl(k * u, lo, hi), w2 = i ? cl(w1, prev - adl * dt, prev + dh * dt) : w1; gp_check_eq(y, w2, "rate-limited gain"); gp_check((y >= lo) & (y <= hi), "rate-limited gain within its limits"); if (up) prev = y; } gp_cover("rate"); }
  gp_cover("gain"); }
static void gates() { LVGate l; HVGate h; double r = gp_real("r"), u = gp_real("u"); l.setparams(r); h.setparams(r); gp_check_eq(l.getoutput(u), mn(u, r), "low value gate"); gp_check_eq(h.getoutput(u), mx(u, r), "high value gate");
  Deadband d; double u1 = gp_real("u1"), u2 = gp_real("u2"); gp_assume(u1 < u2); d.setparams(u1, u2); if (gp_branch((u <= u1) | (u >= u2))) gp_check_eq(d.getoutput(u), u, "outside the dead band"); else if (gp_branch((u > u1 + 2e-6) & (u < u2 - 2e-6))) gp_check_eq(d.getoutput(u), 0, "inside the dead band");
  Slope s; double uu[2] = {gp_real("u0"), gp_real("u1")}, yy[2] = {gp_real("y0"), gp_real("y1")}, ya = gp_real("ya"), yb = gp_real("yb"); gp_assume(uu[1] > uu[0] + 1e-4); s.setparams(uu, yy, ya, yb); double o = s.getoutput(u); if (gp_branch(u <= uu[0])) gp_check_eq(o, ya, "left of a slope"); else if (gp_branch(u >= uu[1])) gp_check_eq(o, yb, "right of a slope"); else if (gp_branch((u > uu[0] + 2e-5) & (u < uu[1] - 2e-5))) gp_check_eq(o, yy[0] + (yy[1] - yy[0]) / (uu[1] - uu[0]) * (u - uu[0]), "on a slope"); gp_cover("gates"); }
// ---- piecewise function of n points, in increasing or decreasing order of the input
static void pw() { int n = gp_param("n", 3), dec = gp_param("dec", 0), pad = gp_param("pad", 0); double u[8], y[8]; for (int i = 0; i < n; i++) { u[i] = gp_real("u"); y[i] = gp_real("y"); if (i) gp_assume(dec ? u[i] < u[i - 1] - 1e-3 : u[i] > u[i - 1] + 1e-3); } for (int i = n; i < n + pad; i++) u[i] = y[i] = 0; if (pad) gp_assume(dec ? u[n - 1] < -1e-3 : u[n - 1] > 1e-3);
  PiecewiseSlope p; p.setparams(n + pad, u, y); if (gp_param("again", 0)) p.setparams(n + pad, u, y);
  int lo = dec ? n - 1 : 0, hi = dec ? 0 : n - 1; double x = gp_real("x"), o = p.getoutput(x);
  if (gp_branch(x <= u[lo])) gp_check_eq(o, y[lo], "below the first point"); else if (gp_branch(x >= u[hi])) gp_check_eq(o, y[hi], "above the last point");
  else for (int i = 0; i + 1 < n; i++) { int l = dec ? i + 1 : i, h = dec ? i : i + 1; if (gp_branch((x > u[l] + 2e-5) & (x < u[h] - 2e-5))) gp_check_eq(o, y[l] + (y[h] - y[l]) / (u[h] - u[l]) * (x - u[l]), "between two points"); else if (gp_branch(x == u[h])) gp_check_eq(o, y[h], "at a point"); }
  gp_cover("piecewise"); }
static void pwinv() { int n = gp_param("n", 3), dec = gp_param("dec", 0), rev = gp_param("rev", 0); double u[8], y[8]; for (int i = 0; i < n; i++) { u[i] = gp_real("u"); y[i] = gp_real("y"); if (i) { gp_assume(dec ? u[i] < u[i - 1] - 1e-3 : u[i] > u[i - 1] + 1e-3); gp_assume(rev ? y[i] < y[i - 1] - 1e-3 : y[i] > y[i - 1] + 1e-3); } } PiecewiseSlope p; p.setparams(n, u, y); double t = gp_real("t"), x = p.init_given_y(t); int lo = rev ? n - 1 : 0, hi = rev ? 0 : n - 1;
  if (gp_branch(t <= y[lo])) gp_check_eq(x, u[lo], "start below the lowest output"); else if (gp_branch(t >= y[hi])) gp_check_eq(x, u[hi], "start above the highest output"); else for (int i = 0; i + 1 < n; i++) { int l = rev ? i + 1 : i, h = rev ? i : i + 1; if (gp_branch((t >= y[l]) & (t <= y[h]))) gp_check_eq((x - u[l]) * (y[h] - y[l]), (t - y[l]) * (u[h] - u[l]), "start between two points"); } gp_cover("inverse"); }
// ---- backlash and intentional dead band with hysteresis
static void back() { BackLashClass b; double h = gp_real_in("half width", 0, 10), y = gp_real("y"); b.Initialize(h, y); int K = gp_param("K", 2); for (int k = 0; k < K; k++) { double u = gp_real("u"), o = b.Output(u), w = gp_branch(u > y + h) ? u - h : gp_branch(u < y - h) ? u + h : y; gp_check_eq(o, w, "backlash"); y = w; } gp_cover("backlash"); }
static void db() { DBIntClass d; int mode = gp_choose("hysteresis", 0, 2); double w = gp_real_in("width", 0.001, 10), e = mode == 0 ? 0 : mode == 1 ? w : gp_real_in("eps", 0.0005, 10), c = gp_real("centre"); if (mode == 2) gp_assume(e < w); bool neg = gp_choose("sign", 0, 1); d.Initialize(neg ? -w : w, neg ? -e : e, c); int st = 0; int K = gp_param("K", 2);
  for (int k = 0; k < K; k++) { double u = gp_real("u"), r; double o = d.Output(u + c);
    if (gp_branch(u >= w)) { r = mode == 0 ? u - w : u - w + e; if (mode && gp_branch(u > w)) st = 1; else if (mode) { if (st == 0) r = 0; else st = 1; } } else if (gp_branch(u <= -w)) { r = mode == 0 ? u + w : u + w - e; if (mode && gp_branch(u < -w)) st = 2; else if (mode) { if (st == 0) r = 0; else st = 2; } }
    else if (st == 1 && gp_branch(u > w - e)) r = u - w + e; else if (st == 2 && gp_branch(u < -(w - e))) r = u + w - e; else { r = 0; st = 0; }
    gp_check_eq(o - c, r, "intentional dead band"); } gp_cover("dead band"); }
extern "C" void gp_main() { gp_set_tol(1e-6); switch (gp_param("mode", 0)) { case 0: lin(); break; case 1: bad(); break; case 2: gain(); break; case 3: gates(); break; case 4: pw(); break; case 5: pwinv(); break; case 6: back(); break; case 7: db(); break; } }
