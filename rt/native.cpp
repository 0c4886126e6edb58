// Native side of the harness interface: replays one assignment.
#include "gp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <ucontext.h>
#include <new>
static std::map<std::string, std::string> vals; static std::map<std::string, int> cnt; static bool loaded = false; static double tol = 1e-7;
static unsigned long long rng = 0; static double jitter = 0;
static void load() {
  if (loaded) return; loaded = true;
  if (const char *s = getenv("GP_JITTER")) { rng = strtoull(s, 0, 10) * 2654435761ull + 12345; jitter = 1; }
  const char *f = getenv("GP_VALUES"); if (!f) return; FILE *fp = fopen(f, "r"); if (!fp) return; char a[8192];
  while (fgets(a, sizeof a, fp)) { std::string l(a); while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); size_t p = l.rfind(' '); if (p != std::string::npos) vals[l.substr(0, p)] = l.substr(p + 1); } fclose(fp);
}
static double rnd() { rng = rng * 6364136223846793005ull + 1442695040888963407ull; return (double)((rng >> 33) & 0xffffff) / 0x1000000; }
static std::string full(const char *n) { return std::string(n) + "#" + std::to_string(cnt[n]++); }
extern "C" {
uint64_t gp_sym_bits(const char *n, int bits) { load(); std::string k = full(n); auto it = vals.find(k); uint64_t v = 0; if (it != vals.end()) v = it->second[0] == '-' ? (uint64_t)strtoll(it->second.c_str(), 0, 10) : strtoull(it->second.c_str(), 0, 10); if (bits < 64) v &= (1ull << bits) - 1; return v; }
double gp_real(const char *n) { load(); std::string k = full(n); auto it = vals.find(k); double v = it == vals.end() ? 0 : atof(it->second.c_str());
  if (jitter > 0) { double u = rnd(); int mode = (int)(rng >> 20) & 3; if (mode == 0) v = v + (u - 0.5) * 0.1 * (1 + fabs(v)); else if (mode == 1) v = (u - 0.5) * 4; else if (mode == 2) v = u * 2; } return v; }
void gp_assume(int c) { if (!c) { fflush(0); _exit(77); } }
void gp_check(int c, const char *m) { if (!c) { fprintf(stderr, "GP-FAIL check: %s\n", m); fflush(0); _exit(42); } }
void gp_check_eqr_(double a, double b, const char *m) { if (!(a == b || fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)))) { fprintf(stderr, "GP-FAIL check: %s (%.17g != %.17g)\n", m, a, b); fflush(0); _exit(42); } }
void gp_check_nearr_(double a, double b, double t, const char *m) { if (!(fabs(a - b) <= t + tol * (1 + fabs(a) + fabs(b)))) { fprintf(stderr, "GP-FAIL check: %s (%.17g != %.17g)\n", m, a, b); fflush(0); _exit(42); } }
int64_t gp_param(const char *n, int64_t def) { const char *e = getenv("GP_PARAMS"); if (!e) return def; std::string s(e), k = std::string(n) + "="; size_t p = 0; while (p < s.size()) { size_t q = s.find(' ', p); if (q == std::string::npos) q = s.size(); if (s.compare(p, k.size(), k) == 0) return atoll(s.c_str() + p + k.size()); p = q + 1; } return def; }
void gp_cover(const char *) {} void gp_note(const char *) {}
void gp_dump_i(const char *n, int64_t v) { fprintf(stderr, "%s = %lld\n", n, (long long)v); }
void gp_dump_r(const char *n, double v) { fprintf(stderr, "%s = %.17g\n", n, v); }
void gp_fail_path(const char *w) { fprintf(stderr, "fail_path %s\n", w); _exit(78); }
void gp_end_path(const char *) { fflush(0); _exit(0); }
int64_t gp_concrete(int64_t v) { return v; }
int gp_is_symbolic_r(double) { return 0; } int gp_engine(void) { return 0; } void gp_allow_exit(int) {}
double gp_diff_(double, double) { abort(); } 
int gp_real_id(double) { return -1; } double gp_real_by_id(int) { return 0; }
int gp_fmt_double(char *b, size_t n, const char *f, double v) { return snprintf(b, n, f, v); }
double gp_parse_double(const char *s) { return atof(s); }
void gp_set_tol(double t) { tol = t; }
// cooperative threads
struct Th { ucontext_t c; bool done; void (*fn)(void *); void *arg; };
static std::vector<Th *> th; static int cur = 0;
static void tramp(int i) { Th *t = th[i]; t->fn(t->arg); t->done = true; cur = 0; setcontext(&th[0]->c); }
static void initTh() { if (th.empty()) { Th *t = new Th(); t->done = false; th.push_back(t); } }
int gp_spawn(void (*fn)(void *), void *arg) { initTh(); Th *t = new Th(); t->done = false; t->fn = fn; t->arg = arg; getcontext(&t->c); size_t sz = 8 << 20; t->c.uc_stack.ss_sp = malloc(sz); t->c.uc_stack.ss_size = sz; t->c.uc_link = 0; int id = th.size(); th.push_back(t); makecontext(&t->c, (void (*)())tramp, 1, id); return id; }
void gp_switch(int id) { initTh(); int me = cur; if (id == me) return; cur = id; swapcontext(&th[me]->c, &th[id]->c); }
int gp_self(void) { return cur; } int gp_done(int id) { initTh(); return th[id]->done; }
}
// recognisable fill of fresh heap memory so that reads of uninitialised data show
static unsigned char fillByte() { static int f = -1; if (f < 0) { const char *s = getenv("GP_FILL"); f = s ? atoi(s) & 255 : 256; } return (unsigned char)f; }
static bool fillOn() { static int f = -1; if (f < 0) f = getenv("GP_FILL") != 0; return f; }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); if (fillOn()) memset(p, fillByte(), n); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); if (fillOn()) memset(p, fillByte(), n); return p; }
void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
int main() { gp_main(); fflush(0); fprintf(stderr, "GP-OK\n"); _exit(0); }
