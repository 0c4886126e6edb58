// Harness interface, common to symbolic execution (gpse) and native replay.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t gp_sym_bits(const char *name, int bits);   // fresh symbolic value, zero-extended
double gp_real(const char *name);                   // fresh symbolic real
void gp_assume(int c);
void gp_check(int c, const char *msg);
void gp_check_eqr_(double a, double b, const char *msg);
void gp_check_nearr_(double a, double b, double tol, const char *msg);
void gp_cover(const char *what);
void gp_note(const char *what);
void gp_dump_i(const char *n, int64_t v);
void gp_dump_r(const char *n, double v);
void gp_fail_path(const char *why);
void gp_end_path(const char *why);
int64_t gp_concrete(int64_t v);
int gp_is_symbolic_r(double v);
int gp_engine(void);
int64_t gp_param(const char *name, int64_t def);     // run parameter (bound), -p name=v / GP_PARAMS
void gp_allow_exit(int on);
double gp_diff_(double f, double x);
int gp_real_id(double v);
double gp_real_by_id(int id);
int gp_fmt_double(char *buf, size_t n, const char *fmt, double v);
double gp_parse_double(const char *s);
int gp_spawn(void (*fn)(void *), void *arg);
void gp_switch(int id);
int gp_self(void);
int gp_done(int id);
void gp_set_tol(double rel);                        // native comparison tolerance
void gp_main(void);
#ifdef __cplusplus
}
#include <vector>
static inline int gp_int(const char *n) { return (int)gp_sym_bits(n, 32); }
static inline int64_t gp_i64(const char *n) { return (int64_t)gp_sym_bits(n, 64); }
static inline bool gp_bool(const char *n) { return gp_sym_bits(n, 1) & 1; }
static inline int gp_range(const char *n, int lo, int hi) { int x = gp_int(n); gp_assume((x >= lo) & (x <= hi)); return x; }
static inline int gp_choose(const char *n, int lo, int hi) { return (int)gp_concrete(gp_range(n, lo, hi)); } // forks
static inline bool gp_branch(bool c) { volatile bool r = false; if (c) r = true; return r; } // forks on a condition over reals
static inline char gp_char(const char *n) { return (char)gp_sym_bits(n, 8); }
static inline double gp_real_in(const char *n, double lo, double hi) { double x = gp_real(n); gp_assume((x >= lo) & (x <= hi)); return x; }
static inline void gp_check_eq(double a, double b, const char *m) { gp_check_eqr_(a, b, m); }
static inline void gp_check_near(double a, double b, double t, const char *m) { gp_check_nearr_(a, b, t, m); }
static inline void gp_check_eqi(int64_t a, int64_t b, const char *m) { gp_check(a == b, m); }
// partial derivative of outputs of ev(x[],f[]) with respect to x[j]: exact
// (symbolic differentiation of the executed code) in the engine, central
// differences in native replay.
template <class EV> std::vector<double> gp_partial(EV ev, const std::vector<double> &x, int j, int nf) {
  std::vector<double> r(nf), f(nf);
  if (gp_engine()) { ev(&x[0], &f[0]); for (int i = 0; i < nf; i++) r[i] = gp_diff_(f[i], x[j]); return r; }
  double h = 1e-5; std::vector<double> y(x), g(nf);
  y[j] = x[j] + h; ev(&y[0], &f[0]); y[j] = x[j] - h; ev(&y[0], &g[0]);
  for (int i = 0; i < nf; i++) r[i] = (f[i] - g[i]) / (2 * h);
  return r;
}
#endif
