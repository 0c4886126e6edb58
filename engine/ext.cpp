#include "poly.h"
// External functions and harness intrinsics.
#include "eng.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Demangle/Demangle.h"
#include <cstdio>
#include <algorithm>
using namespace llvm;
namespace gpse {
#define H [](State & S, DInst & d, std::vector<Val> &a, Val &ret) -> int
static std::unordered_map<std::string, ExtFn> tab;
static std::unordered_map<std::string, Expr *> varByName;
static Val mkAgg(std::vector<Val> f) { Val v; v.k = V_AGG; v.a = new Agg(); v.a->f = f; return v; }
static bool str(State &S, const Val &v, std::string &s) { return v.k == V_BV && readCStr(S, v.v, s); }
static Expr *symVar(State &S, const std::string &nm, unsigned w) {
  int k = S.names[nm]++; std::string full = nm + "#" + std::to_string(k);
  std::string key = full + ":" + std::to_string(w); auto it = varByName.find(key); if (it != varByName.end()) return it->second;
  return varByName[key] = mkVar(w, full);
}
static int doFree(State &S, Val p, int how) {
  if (p.k != V_BV && !concretize(S, p, 0)) return 1;
  if (!p.v) return 0;
  MemObj *o = findObj(S, p.v);
  if (!o || o->base != p.v || !(o->kind == 2 || o->kind == 4 || o->kind == 5)) { violPath(S, "memory", !o ? "double or invalid free" : "free of non-heap or interior pointer"); return 1; }
  if ((how == 0 && o->kind != 2) || (how == 1 && o->kind != 4) || (how == 2 && o->kind != 5)) { if (opt.verbose) R.notes["alloc/dealloc mismatch @ " + where(S, 2)]++; }
  S.heap.slot(p.v >> 24).reset(); return 0;
}
static int doAlloc(State &S, Val &n, uint8_t kind, Val &ret, bool zero) {
  if (n.k != V_BV && !concretize(S, n, 0)) return 1;
  if ((int64_t)n.v < 0 || n.v > (1u << 24) - 64) { incomplete(S, "allocation too large"); return 1; }
  uint64_t a = allocHeap(S, n.v, kind, !zero); ret = vBV(64, a); return 0;
}
static int doCopy(State &S, std::vector<Val> &a) {
  if (!concretize(S, a[2], 0)) return 1; if (a[2].v == 0) return 0;
  if (!resolve(S, a[1], a[2].v, "memcpy", false)) return 1;
  if (!resolve(S, a[0], a[2].v, "memcpy", true)) return 1;
  copyMem(S, a[0].v, a[1].v, a[2].v); return 0;
}
static int doCheck(State &S, Expr *c, const std::string &msg) {
  R.checks[msg]++;
  if (c->op == O_CONST) { if (c->v) { R.checksTrivial++; return 0; } violPath(S, "check", msg); return 1; }
  if (Expr *c2 = algSimplify(c); c2 != c && c2->op == O_CONST) { if (c2->v) { R.checksProved++; gSS.algebraic++; return 0; } c = c2; }
  Expr *nc = mkNot(c); Model m;
  static const Model empty;
  if (nc->op != O_CONST && S.model && evalBool(nc, *S.model) == 1) { m = *S.model; report(S, "check", msg, &m); }
  else {
    Res r = checkSat(S.pc, nc, &m);
    if (r == R_UNSAT) { R.checksProved++; return 0; }
    if (r == R_UNKNOWN) { R.unknownChecks++; R.incomplete["check undecided (solver): " + msg]++; 
      if (S.model) { m = *S.model; report(S, "undecided", msg, &m); }
      return 0; }
    Model full = S.model ? *S.model : Model(); if (!S.model) fullModel(S, nc, full); for (auto &p : m) full[p.first] = p.second;
    report(S, "check", msg, &full);
  }
  if (realAtoms(c)) { S.violated = true; return 0; } // assuming an equation between reals that does not hold everywhere would only make later queries hard
  Model m2; Res r = checkSat(S.pc, c, &m2);
  if (r == R_UNSAT) { endPath(S, "violation"); return 1; }
  std::shared_ptr<Model> b0 = S.model; flattenAnd(S, c); setModel(S, b0 ? *b0 : empty, m2); return 0;
}
static Expr *bexp(const Val &v) { Expr *e = toE(v); if (e->w != 1) e = mkNot(mkBin(O_EQ, e, mkConst(APInt(e->w, 0)))); return e; }
static Val un(RFn f, const Val &x) {
  if (x.k == V_RD) { if (!std::isfinite(x.d)) return vRD(f == F_SQRT || f == F_EXP ? x.d : NAN); if (f == F_SQRT && x.d < 0) return vRD(NAN); }
  return vEX(mkRFun(f, toE(x)));
}
static Val fabsV(const Val &x) { if (x.k == V_RD) return vRD(std::fabs(x.d)); if (x.k == V_AGG) { Val r = mkAgg({}); for (auto &y : x.a->f) r.a->f.push_back(fabsV(y)); return r; } return vEX(mkIte(mkRBin(O_RLT, x.e, mkRConst(mpq_class(0))), mkRNeg(x.e), x.e)); }
static int nopInt(State &, DInst &d, std::vector<Val> &, Val &ret) { TypeD *t = typeD(d.I->getType()); if (t->k == TypeD::INT) ret = vBV(t->w, 0); else if (t->k == TypeD::FP) ret = vRD(0); return 0; }
static int retArg0(State &, DInst &, std::vector<Val> &a, Val &ret) { if (!a.empty()) ret = a[0]; return 0; }
static int bodyIfSym(State &, DInst &, std::vector<Val> &, Val &) { return 2; }
static Val muladd(State &S, const Val &a, const Val &b, const Val &c, bool &dead) { Val p = fbin(S, Instruction::FMul, a, b, dead); if (dead) return p; return fbin(S, Instruction::FAdd, p, c, dead); }
static bool concBytes(State &S, uint64_t a, uint64_t n) { if (!n) return true; if (!rangeOk(S, a, n)) return false; MemObj *o = findObj(S, a); if (o->tag.empty()) return true; uint32_t of = a - o->base; for (uint64_t i = 0; i < n; i++) if (o->tag[of + i]) return false; return true; }
static uint8_t *bytes(State &S, uint64_t a) { MemObj *o = findObj(S, a); return &o->b[a - o->base]; }
static Val minmax(State &S, bool isMax, const Val &x, const Val &y) {
  if (x.k == V_RD && y.k == V_RD) return vRD(isMax ? std::fmax(x.d, y.d) : std::fmin(x.d, y.d));
  Expr *a = toE(x), *b = toE(y); return vEX(mkIte(mkRBin(O_RLT, a, b), isMax ? b : a, isMax ? a : b));
}
static int checkApprox(State &S, const Val &a, const Val &b, const std::string &msg) { return 0; }

static void init() {
  // ---- harness intrinsics
  tab["gp_sym_bits"] = H { std::string s; if (!str(S, a[0], s)) { incomplete(S, "gp_sym name"); return 1; } unsigned w = a[1].v; Expr *e = symVar(S, s, w); ret = vEX(w < 64 ? mkZExt(e, 64) : e); return 0; };
  tab["gp_real"] = H { std::string s; if (!str(S, a[0], s)) { incomplete(S, "gp_real name"); return 1; } ret = vEX(symVar(S, s, 0)); return 0; };
  tab["gp_assume"] = H {
    Expr *c = bexp(a[0]); R.assumes++;
    if (c->op == O_CONST) { if (c->v) return 0; endPath(S, "assume"); return 1; }
    static const Model empty;
    if (S.model && evalBool(c, *S.model) == 1) { flattenAnd(S, c); return 0; }
    Model m; Res r = checkSat(S.pc, c, &m); if (r == R_UNSAT) { endPath(S, "assume"); return 1; }
    std::shared_ptr<Model> b0 = S.model; flattenAnd(S, c); if (r == R_SAT) setModel(S, b0 ? *b0 : empty, m); else { S.model.reset(); S.pcUnknown = true; }
    return 0; };
  tab["gp_check"] = H { std::string s; str(S, a[1], s); return doCheck(S, bexp(a[0]), s); };
  tab["gp_check_eqr_"] = H { std::string s; str(S, a[2], s);
    if (a[0].k == V_RD && a[1].k == V_RD) { double x = a[0].d, y = a[1].d; bool eq = x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x) + std::fabs(y)); return doCheck(S, mkBool(eq), s); }
    if ((a[0].k == V_RD && !std::isfinite(a[0].d)) || (a[1].k == V_RD && !std::isfinite(a[1].d))) return doCheck(S, mkBool(false), s);
    Expr *x = toE(a[0]), *y = toE(a[1]);
    if (x->op == O_RCONST && y->op == O_RCONST) { double p = q2d(*x->r), q = q2d(*y->r); return doCheck(S, mkBool(std::fabs(p - q) <= 1e-9 * (1 + std::fabs(p) + std::fabs(q))), s); }
    return doCheck(S, mkRBin(O_REQ, x, y), s); };
  // |a-b| <= tol   (used where the code contains rounded constants)
  tab["gp_check_nearr_"] = H { std::string s; str(S, a[3], s);
    Expr *x = mkRBin(O_RSUB, toE(a[0]), toE(a[1])), *t = toE(a[2]);
    return doCheck(S, mkAnd(mkRBin(O_RLE, x, t), mkRBin(O_RLE, mkRNeg(t), x)), s); };
  tab["gp_cover"] = H { std::string s; str(S, a[0], s); if (!S.pcUnknown) R.covers[s]++; else R.covers[s] += 0; return 0; };
  tab["gp_note"] = H { std::string s; str(S, a[0], s); R.notes[s]++; if (opt.verbose) fprintf(stderr, "note: %s\n", s.c_str()); return 0; };
  tab["gp_dump_i"] = H { std::string s; str(S, a[0], s); fprintf(stderr, "dump[%lu] %s = %s\n", S.id, s.c_str(), exprStr(toE(a[1]), 12).c_str()); return 0; };
  tab["gp_dump_r"] = H { std::string s; str(S, a[0], s); if (a[1].k == V_RD) fprintf(stderr, "dump[%lu] %s = %.17g\n", S.id, s.c_str(), a[1].d); else fprintf(stderr, "dump[%lu] %s = %s\n", S.id, s.c_str(), exprStr(toE(a[1]), 14).c_str()); return 0; };
  tab["gp_fail_path"] = H { std::string s; str(S, a[0], s); incomplete(S, s); return 1; };
  tab["gp_end_path"] = H { std::string s; str(S, a[0], s); endPath(S, "end:" + s); return 1; };
  tab["gp_concrete"] = H { if (!concretize(S, a[0], 0)) return 1; ret = a[0]; return 0; };
  tab["gp_is_symbolic_r"] = H { ret = vBV(32, a[0].k == V_EX && a[0].e->op != O_RCONST); return 0; };
  tab["gp_param"] = H { std::string s; str(S, a[0], s); auto it = opt.params.find(s); ret = it == opt.params.end() ? a[1] : vBV(64, (uint64_t)it->second); return 0; };
  tab["gp_engine"] = H { ret = vBV(32, 1); return 0; };
  tab["gp_allow_exit"] = H { S.allowExit = a[0].v; return 0; };
  tab["gp_diff_"] = H { // d a0 / d a1
    Expr *x = toE(a[1]); if (x->op != O_RVAR) { incomplete(S, "gp_diff: second argument is not a variable"); return 1; }
    if (a[0].k == V_RD) { ret = vRD(0); return 0; }
    std::string err; Expr *r = rdiff(toE(a[0]), x, err); if (!err.empty()) { incomplete(S, err); return 1; } ret = vEX(r); return 0; };
  tab["gp_real_id"] = H { if (isConc(a[0]) || toE(a[0])->op == O_RCONST) ret = vBV(32, (uint32_t)-1); else ret = vBV(32, toE(a[0])->id); return 0; };
  tab["gp_real_by_id"] = H { Expr *e = exprById(a[0].v); if (!e || !e->isReal()) { incomplete(S, "gp_real_by_id"); return 1; } ret = vEX(e); return 0; };
  tab["gp_fmt_double"] = H { // (char* buf, size, fmt, double) concrete only
    std::string f; if (!str(S, a[2], f)) { incomplete(S, "fmt"); return 1; }
    double x; if (a[3].k == V_RD) x = a[3].d; else if (toE(a[3])->op == O_RCONST) x = q2d(*toE(a[3])->r); else { incomplete(S, "fmt of symbolic double"); return 1; }
    char b[512]; int n = snprintf(b, sizeof b, f.c_str(), x); uint64_t sz = a[1].v; if (n >= (int)sz) n = sz - 1; b[n] = 0;
    if (!resolve(S, a[0], n + 1, "fmt", true)) return 1; MemObj *o = wrObj(S, a[0].v); (void)o;
    setMem(S, a[0].v, vBV(8, 0), n + 1); o = wrObj(S, a[0].v); memcpy(&o->b[a[0].v - o->base], b, n + 1); ret = vBV(32, n); return 0; };
  tab["gp_parse_double"] = H { std::string s; if (!str(S, a[0], s)) { incomplete(S, "atof of symbolic string"); return 1; } ret = vRD(atof(s.c_str())); return 0; };
  // threads
  tab["gp_spawn"] = H {
    if (S.th.size() > 60) { incomplete(S, "too many threads"); return 1; }
    auto it = faddr.find(a[0].v); if (it == faddr.end()) { incomplete(S, "gp_spawn"); return 1; }
    int me = S.cur, id = S.th.size(); S.th.emplace_back(); S.cur = id; std::vector<Val> aa{a[1]}; pushFrame(S, getFI(it->second), aa); S.cur = me; ret = vBV(32, id);
    finishCall(S, ret); return 1; };
  tab["gp_switch"] = H { if (!concretize(S, a[0], 0)) return 1; int to = (int)sx(a[0]); if (to < 0 || to >= (int)S.th.size() || S.th[to].done) { incomplete(S, "gp_switch to a finished thread"); return 1; }
    finishCall(S, Val()); S.cur = to; return 1; };
  tab["gp_self"] = H { ret = vBV(32, S.cur); return 0; };
  tab["gp_done"] = H { ret = vBV(32, S.th[a[0].v].done); return 0; };
  tab["gp_leaks"] = H { uint64_t n = 0; (void)n; ret = vBV(32, 0); return 0; };
  // ---- memory
  tab["malloc"] = H { return doAlloc(S, a[0], 2, ret, false); };
  tab["calloc"] = H { Val n; if (!concretize(S, a[0], 0) || !concretize(S, a[1], 0)) return 1; n = vBV(64, a[0].v * a[1].v); return doAlloc(S, n, 2, ret, true); };
  tab["realloc"] = H { if (!concretize(S, a[1], 0)) return 1; Val n = a[1]; uint64_t old = a[0].v; int r = doAlloc(S, n, 2, ret, false); if (r) return r;
    if (old) { MemObj *o = findObj(S, old); if (!o || o->base != old) { violPath(S, "memory", "realloc of invalid pointer"); return 1; } copyMem(S, ret.v, old, std::min<uint64_t>(o->size, n.v)); S.heap.slot(old >> 24).reset(); } return 0; };
  for (const char *n : {"_Znwm", "_ZnwmRKSt9nothrow_t"}) tab[n] = H { return doAlloc(S, a[0], 4, ret, false); };
  for (const char *n : {"_Znam", "_ZnamRKSt9nothrow_t"}) tab[n] = H { return doAlloc(S, a[0], 5, ret, false); };
  tab["_ZnwmSt11align_val_t"] = H { return doAlloc(S, a[0], 4, ret, false); };
  tab["free"] = H { return doFree(S, a[0], 0); };
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) tab[n] = H { return doFree(S, a[0], 1); };
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) tab[n] = H { return doFree(S, a[0], 2); };
  tab["memcpy"] = tab["memmove"] = H { ret = a[0]; return doCopy(S, a); };
  tab["memset"] = H { ret = a[0]; if (!concretize(S, a[2], 0)) return 1; if (!a[2].v) return 0; if (!resolve(S, a[0], a[2].v, "memset", true)) return 1; setMem(S, a[0].v, a[1].k == V_BV ? a[1] : vEX(mkExtract(toE(a[1]), 0, 8)), a[2].v); return 0; };
  tab["strlen"] = H { std::string s; if (!str(S, a[0], s)) return 2; ret = vBV(64, s.size()); return 0; };
  tab["memcmp"] = H { if (a[0].k != V_BV || a[1].k != V_BV || a[2].k != V_BV || !concBytes(S, a[0].v, a[2].v) || !concBytes(S, a[1].v, a[2].v)) return 2;
    int r = a[2].v ? memcmp(bytes(S, a[0].v), bytes(S, a[1].v), a[2].v) : 0; ret = vBV(32, (uint64_t)(int64_t)r); return 0; };
  tab["memchr"] = H { if (a[0].k != V_BV || a[1].k != V_BV || a[2].k != V_BV || !concBytes(S, a[0].v, a[2].v)) return 2;
    if (!a[2].v) { ret = vBV(64, 0); return 0; } uint8_t *p = bytes(S, a[0].v); void *q = memchr(p, a[1].v, a[2].v); ret = vBV(64, q ? a[0].v + ((uint8_t *)q - p) : 0); return 0; };
  tab["strcmp"] = H { std::string x, y; if (!str(S, a[0], x) || !str(S, a[1], y)) return 2; ret = vBV(32, (uint64_t)(int64_t)strcmp(x.c_str(), y.c_str())); return 0; };
  // ---- output: ignored
  for (const char *n : {"printf", "fprintf", "puts", "putchar", "fputs", "fflush", "fputc", "putc", "vprintf", "vfprintf", "perror", "setvbuf", "fwrite", "fclose"}) tab[n] = nopInt;
  tab["__cxa_atexit"] = nopInt; tab["atexit"] = nopInt;
  tab["_ZNSt8ios_base4InitC1Ev"] = nopInt; tab["_ZNSt8ios_base4InitD1Ev"] = nopInt;
  // ---- control
  tab["exit"] = tab["_exit"] = H { if (S.allowExit) endPath(S, "exit"); else violPath(S, "abort", "exit() called"); return 1; };
  tab["abort"] = H { violPath(S, "abort", "abort() called"); return 1; };
  tab["_ZSt9terminatev"] = tab["__clang_call_terminate"] = H { violPath(S, "abort", "std::terminate"); return 1; };
  tab["__assert_fail"] = H { std::string s; str(S, a[0], s); violPath(S, "abort", "assertion failed: " + s); return 1; };
  tab["_ZN5boost16assertion_failedEPKcS1_S1_l"] = H { std::string s; str(S, a[0], s); violPath(S, "abort", "assertion failed: " + s); return 1; };
  tab["_ZN5boost20assertion_failed_msgEPKcS1_S1_S1_l"] = tab["_ZN5boost16assertion_failedEPKcS1_S1_l"];
  tab["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = H { std::string s; str(S, a[3], s); violPath(S, "abort", "libstdc++ assertion: " + s); return 1; };
  tab["__cxa_pure_virtual"] = H { violPath(S, "abort", "pure virtual call"); return 1; };
  tab["__cxa_guard_acquire"] = H { static TypeD t8{TypeD::INT, 8, 1, {}}; Val v = loadAt(S, a[0].v, &t8); ret = vBV(32, v.v == 0); return 0; };
  tab["__cxa_guard_release"] = H { static TypeD t8{TypeD::INT, 8, 1, {}}; storeAt(S, a[0].v, vBV(8, 1), &t8); return 0; };
  tab["__cxa_guard_abort"] = nopInt;
  // ---- exceptions
  tab["__cxa_allocate_exception"] = H { return doAlloc(S, a[0], 4, ret, false); };
  tab["__cxa_free_exception"] = nopInt;
  tab["__cxa_throw"] = H { uint64_t e = a[0].v; S.exc[e] = ExcRec{a[1].v, a[2].v, e, 0}; throwExc(S, e); return 1; };
  tab["__cxa_begin_catch"] = H { uint64_t e = a[0].v; S.caught.push_back(e); S.exc[e].handlers++; ret = vBV(64, S.exc[e].adj); return 0; };
  tab["__cxa_get_exception_ptr"] = H { ret = vBV(64, S.exc[a[0].v].adj); return 0; };
  tab["__cxa_end_catch"] = H { if (!S.caught.empty()) { S.exc[S.caught.back()].handlers--; S.caught.pop_back(); } return 0; };
  tab["__cxa_rethrow"] = H { if (S.caught.empty()) { violPath(S, "abort", "rethrow without exception"); return 1; } throwExc(S, S.caught.back()); return 1; };
  tab["_ZSt18uncaught_exceptionv"] = nopInt; tab["_ZSt19uncaught_exceptionsv"] = nopInt;
  tab["__dynamic_cast"] = H {
    static TypeD t64{TypeD::INT, 64, 8, {}}; if (!a[0].v) { ret = vBV(64, 0); return 0; }
    if (!rangeOk(S, a[0].v, 8)) { violPath(S, "memory", "dynamic_cast of invalid pointer"); return 1; }
    Val vp = loadAt(S, a[0].v, &t64); if (vp.k != V_BV || !rangeOk(S, vp.v - 16, 16)) { violPath(S, "memory", "dynamic_cast: bad vtable"); return 1; }
    int64_t top = (int64_t)loadAt(S, vp.v - 16, &t64).v; uint64_t ti = loadAt(S, vp.v - 8, &t64).v; bool found = false;
    uint64_t r = upcast(S, ti, a[0].v + top, a[2].v, found); ret = vBV(64, found ? r : 0); return 0; };
  // ---- math
#define UN(n, f) tab[n] = H { ret = un(f, a[0]); return 0; }; tab[n "f"] = tab[n];
  UN("sin", F_SIN) UN("cos", F_COS) UN("tan", F_TAN) UN("sqrt", F_SQRT) UN("exp", F_EXP) UN("log", F_LOG) UN("log10", F_LOG10) UN("atan", F_ATAN) UN("asin", F_ASIN) UN("acos", F_ACOS) UN("floor", F_FLOOR) UN("ceil", F_CEIL) UN("tanh", F_TANH)
  tab["fabs"] = tab["fabsf"] = tab["fabsl"] = H { ret = fabsV(a[0]); return 0; };
  tab["atan2"] = H { if (a[0].k == V_RD && a[1].k == V_RD && a[0].d == 0 && a[1].d > 0) ret = vRD(0); else ret = vEX(mkRFun(F_ATAN2, toE(a[0]), toE(a[1]))); return 0; };
  tab["pow"] = H { if (a[0].k == V_RD && a[1].k == V_RD && (a[1].d != std::floor(a[1].d))) { if (a[1].d == 0.5) ret = un(F_SQRT, a[0]); else ret = vRD(pow(a[0].d, a[1].d)); return 0; } ret = vEX(mkRFun(F_POW, toE(a[0]), toE(a[1]))); return 0; };
  tab["fmod"] = H { if (a[0].k == V_RD && a[1].k == V_RD) ret = vRD(fmod(a[0].d, a[1].d)); else ret = vEX(mkRFun(F_FMOD, toE(a[0]), toE(a[1]))); return 0; };
  tab["hypot"] = H { bool dd = false; Val s = fbin(S, Instruction::FAdd, fbin(S, Instruction::FMul, a[0], a[0], dd), fbin(S, Instruction::FMul, a[1], a[1], dd), dd); if (dd) return 1; ret = un(F_SQRT, s); return 0; };
  tab["cabs"] = tab["hypot"];
  tab["fmax"] = H { ret = minmax(S, true, a[0], a[1]); return 0; }; tab["fmin"] = H { ret = minmax(S, false, a[0], a[1]); return 0; };
  tab["carg"] = H { ret = vEX(mkRFun(F_ATAN2, toE(a[1]), toE(a[0]))); return 0; };
  tab["cexp"] = H { bool dd = false; Val m = un(F_EXP, a[0]); ret = mkAgg({fbin(S, Instruction::FMul, m, un(F_COS, a[1]), dd), fbin(S, Instruction::FMul, m, un(F_SIN, a[1]), dd)}); return 0; };
  tab["__divdc3"] = H { bool dd = false; auto M_ = [&](const Val &x, const Val &y) { return fbin(S, Instruction::FMul, x, y, dd); }; auto A_ = [&](const Val &x, const Val &y) { return fbin(S, Instruction::FAdd, x, y, dd); }; auto S_ = [&](const Val &x, const Val &y) { return fbin(S, Instruction::FSub, x, y, dd); };
    if (a[3].k == V_RD && a[3].d == 0) { Val r1 = fbin(S, Instruction::FDiv, a[0], a[2], dd); if (dd) return 1; Val r2 = fbin(S, Instruction::FDiv, a[1], a[2], dd); if (dd) return 1; ret = mkAgg({r1, r2}); return 0; }
    Val den = A_(M_(a[2], a[2]), M_(a[3], a[3])); if (dd) return 1;
    Val re = fbin(S, Instruction::FDiv, A_(M_(a[0], a[2]), M_(a[1], a[3])), den, dd); if (dd) return 1;
    Val im = fbin(S, Instruction::FDiv, S_(M_(a[1], a[2]), M_(a[0], a[3])), den, dd); if (dd) return 1; ret = mkAgg({re, im}); return 0; };
  tab["__muldc3"] = H { bool dd = false; auto M_ = [&](const Val &x, const Val &y) { return fbin(S, Instruction::FMul, x, y, dd); };
    ret = mkAgg({fbin(S, Instruction::FSub, M_(a[0], a[2]), M_(a[1], a[3]), dd), fbin(S, Instruction::FAdd, M_(a[0], a[3]), M_(a[1], a[2]), dd)}); return dd ? 1 : 0; };
  tab["__isnan"] = tab["isnan"] = tab["__isinf"] = H { ret = vBV(32, a[0].k == V_RD && !std::isfinite(a[0].d)); return 0; };
  tab["time"] = nopInt; tab["clock"] = nopInt; tab["getpid"] = H { ret = vBV(32, 1234); return 0; };
  tab["__errno_location"] = H { static uint64_t id = 0; if (!id || !findObj(S, id)) id = allocHeap(S, 8, 2, false); ret = vBV(64, id); return 0; };
}
static Val ibinV(unsigned op, const Val &x, const Val &y) {
  Expr *a = toE(x), *b = toE(y); Op o = op == 0 ? O_ADD : op == 1 ? O_SUB : O_MUL; return vEX(mkBin(o, a, b)); }
static int intrin(State &S, DInst &d, std::vector<Val> &a, Val &ret) {
  Function *F = d.callee; unsigned w = a.empty() ? 0 : a[0].w;
  switch (F->getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return doCopy(S, a);
  case Intrinsic::memset: case Intrinsic::memset_inline: { Val r; return tab["memset"](S, d, a, r); }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation: return 0;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::expect_with_probability: ret = a[0]; return 0;
  case Intrinsic::is_constant: ret = vBV(1, 0); return 0;
  case Intrinsic::objectsize: ret = vBV(typeD(d.I->getType())->w, a[1].v ? 0 : ~0ull); return 0;
  case Intrinsic::stacksave: ret = vBV(64, 0); return 0; case Intrinsic::stackrestore: return 0;
  case Intrinsic::trap: case Intrinsic::ubsantrap: violPath(S, "abort", "trap"); return 1;
  case Intrinsic::eh_typeid_for: ret = vBV(32, tiId(a[0].v)); return 0;
  case Intrinsic::fabs: ret = fabsV(a[0]); return 0;
  case Intrinsic::sqrt: ret = un(F_SQRT, a[0]); return 0; case Intrinsic::sin: ret = un(F_SIN, a[0]); return 0; case Intrinsic::cos: ret = un(F_COS, a[0]); return 0;
  case Intrinsic::exp: ret = un(F_EXP, a[0]); return 0; case Intrinsic::log: ret = un(F_LOG, a[0]); return 0; case Intrinsic::log10: ret = un(F_LOG10, a[0]); return 0;
  case Intrinsic::floor: ret = un(F_FLOOR, a[0]); return 0; case Intrinsic::ceil: ret = un(F_CEIL, a[0]); return 0;
  case Intrinsic::pow: return tab["pow"](S, d, a, ret);
  case Intrinsic::powi: { Val e = a[1]; if (e.k != V_BV) { incomplete(S, "powi"); return 1; } ret = vEX(mkRFun(F_POW, toE(a[0]), mkRConst(mpq_class((long)sx(e))))); return 0; }
  case Intrinsic::fmuladd: case Intrinsic::fma: { bool dd = false; ret = muladd(S, a[0], a[1], a[2], dd); return dd ? 1 : 0; }
  case Intrinsic::minnum: case Intrinsic::minimum: ret = minmax(S, false, a[0], a[1]); return 0;
  case Intrinsic::maxnum: case Intrinsic::maximum: ret = minmax(S, true, a[0], a[1]); return 0;
  case Intrinsic::copysign: { Val m = fabsV(a[0]); if (a[1].k == V_RD) { ret = std::signbit(a[1].d) ? fneg(m) : m; return 0; } ret = vEX(mkIte(mkRBin(O_RLT, toE(a[1]), mkRConst(mpq_class(0))), toE(fneg(m)), toE(m))); return 0; }
  case Intrinsic::is_fpclass: { uint64_t mk = a[1].v; if (a[0].k == V_RD) { double x = a[0].d; bool r = (std::isnan(x) && (mk & 3)) || (std::isinf(x) && (x < 0 ? (mk & 4) : (mk & 512))) || (std::isfinite(x) && (x < 0 ? (mk & 8) : x > 0 ? (mk & 256) : (mk & 96))); ret = vBV(1, r); }
    else { if ((mk & ~0x207ull) == 0) ret = vBV(1, 0); else if ((mk & 0x1f8) == 0x1f8) ret = vBV(1, 1); else { incomplete(S, "is.fpclass"); return 1; } } return 0; }
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
    Expr *x = toE(a[0]), *y = toE(a[1]); auto id = F->getIntrinsicID(); Expr *lt = mkBin(id == Intrinsic::umax || id == Intrinsic::umin ? O_ULT : O_SLT, x, y);
    bool mx = id == Intrinsic::umax || id == Intrinsic::smax; ret = vEX(mkIte(lt, mx ? y : x, mx ? x : y)); return 0; }
  case Intrinsic::abs: { Expr *x = toE(a[0]); Expr *z = mkConst(APInt(x->w, 0)); ret = vEX(mkIte(mkBin(O_SLT, x, z), mkBin(O_SUB, z, x), x)); return 0; }
  case Intrinsic::uadd_with_overflow: { Expr *x = toE(a[0]), *y = toE(a[1]); Expr *s = mkBin(O_ADD, x, y); ret = mkAgg({vEX(s), vEX(mkBin(O_ULT, s, x))}); return 0; }
  case Intrinsic::usub_with_overflow: { Expr *x = toE(a[0]), *y = toE(a[1]); ret = mkAgg({vEX(mkBin(O_SUB, x, y)), vEX(mkBin(O_ULT, x, y))}); return 0; }
  case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
    Expr *x = toE(a[0]), *y = toE(a[1]); auto id = F->getIntrinsicID(); bool sg = id != Intrinsic::umul_with_overflow; unsigned W = 2 * w; Op o = id == Intrinsic::sadd_with_overflow ? O_ADD : id == Intrinsic::ssub_with_overflow ? O_SUB : O_MUL;
    auto X = [&](Expr *e, unsigned n) { return sg ? mkSExt(e, n) : mkZExt(e, n); };
    Expr *p = mkBin(o, X(x, W), X(y, W)); Expr *lo = mkExtract(p, 0, w); ret = mkAgg({vEX(lo), vEX(mkNot(mkBin(O_EQ, X(lo, W), p)))}); return 0; }
  case Intrinsic::usub_sat: { Expr *x = toE(a[0]), *y = toE(a[1]); ret = vEX(mkIte(mkBin(O_ULT, x, y), mkConst(APInt(x->w, 0)), mkBin(O_SUB, x, y))); return 0; }
  case Intrinsic::ctpop: if (a[0].k == V_BV) { ret = vBV(w, __builtin_popcountll(a[0].v)); return 0; } break;
  case Intrinsic::ctlz: if (a[0].k == V_BV) { ret = vBV(w, a[0].v ? __builtin_clzll(a[0].v) - (64 - w) : w); return 0; } if (!concretize(S, a[0], 0)) return 1; return intrin(S, d, a, ret);
  case Intrinsic::cttz: if (a[0].k == V_BV) { ret = vBV(w, a[0].v ? __builtin_ctzll(a[0].v) : w); return 0; } break;
  case Intrinsic::bswap: { Expr *e = toE(a[0]), *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(e, i * 8, 8); r = r ? mkConcat(r, b) : b; } ret = vEX(r); return 0; }
  case Intrinsic::fshl: case Intrinsic::fshr: { Expr *x = toE(a[0]), *y = toE(a[1]), *s = toE(a[2]); if (s->op != O_CONST) { Val sv = a[2]; if (!concretize(S, sv, 0)) return 1; s = toE(sv); } unsigned k = s->v % w; if (F->getIntrinsicID() == Intrinsic::fshr) k = w - k; if (k == 0) { ret = a[0]; return 0; } if (k == w) { ret = a[1]; return 0; }
    ret = vEX(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k))); return 0; }
  case Intrinsic::vastart: { // all arguments in the overflow area
    Frame &f = S.th[S.cur].st.back(); uint64_t n = f.va.size(); uint64_t ob = allocHeap(S, n * 8 + 16, 2, false); static TypeD t64{TypeD::INT, 64, 8, {}}, tf{TypeD::FP, 64, 8, {}}, t32{TypeD::INT, 32, 4, {}};
    for (uint64_t i = 0; i < n; i++) { Val v = f.va[i]; bool fp = v.k == V_RD || (v.k == V_EX && v.e->isReal()); if (!fp && v.w < 64) v = vEX(mkSExt(toE(v), 64)); storeAt(S, ob + i * 8, v, fp ? &tf : &t64); }
    f.vaObj = ob; uint64_t p = a[0].v; if (!rangeOk(S, p, 24)) { incomplete(S, "va_start"); return 1; }
    storeAt(S, p, vBV(32, 48), &t32); storeAt(S, p + 4, vBV(32, 304), &t32); storeAt(S, p + 8, vBV(64, ob), &t64); storeAt(S, p + 16, vBV(64, 0), &t64); return 0; }
  case Intrinsic::vaend: return 0;
  case Intrinsic::vacopy: copyMem(S, a[0].v, a[1].v, 24); return 0;
  case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::trunc: if (a[0].k == V_RD) { double x = a[0].d; ret = vRD(F->getIntrinsicID() == Intrinsic::round ? std::round(x) : F->getIntrinsicID() == Intrinsic::trunc ? std::trunc(x) : std::rint(x)); return 0; } break;
  case Intrinsic::load_relative: break;
  default: break;
  }
  incomplete(S, "unsupported intrinsic " + F->getName().str()); return 1;
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
ExtFn findExt(Function *F) {
  static bool done = false; if (!done) { init(); done = true; }
  static std::unordered_map<Function *, ExtFn> memo; auto it = memo.find(F); if (it != memo.end()) return it->second;
  ExtFn r = nullptr; std::string n = F->getName().str();
  if (F->isIntrinsic()) r = intrin;
  else { auto t = tab.find(n); if (t != tab.end()) r = t->second; }
  if (!r) {
    // console output is not the subject of any property: operators on std::ostream are no-ops
    if (starts(n, "_ZNSolsE") || starts(n, "_ZStlsISt11char_traitsIcEERSt13basic_ostream") || starts(n, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostream") || starts(n, "_ZSt4endlI") || starts(n, "_ZSt5flushI") || starts(n, "_ZNSo5flushEv") || starts(n, "_ZNSo3putEc") || starts(n, "_ZSt16__ostream_insert") || starts(n, "_ZNSo9_M_insertI") || starts(n, "_ZNSo5writeE")
        || starts(n, "_ZStlsIdcSt11char_traitsIcEERSt13basic_ostreamIT0_T1_ES6_RKSt7complex")) r = retArg0;
    else if (F->isDeclaration() && (starts(n, "_ZNSt8ios_base") || starts(n, "_ZNKSt8ios_base") || starts(n, "_ZNSt9basic_iosIc") || starts(n, "_ZNSt6localeC") || starts(n, "_ZNSt6localeD") || starts(n, "_ZStls"))) r = nopInt;
  }
  return memo[F] = r;
}
}
