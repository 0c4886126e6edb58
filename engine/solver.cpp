#include "solver.h"
#include "poly.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <cstdio>
using namespace llvm;
namespace gpse {
SolverStats gSS; unsigned gTimeoutMs = 20000; std::string gDumpDir;
static Z3_context C; static Z3_solver gInc; static std::unordered_map<Expr *, Z3_ast> gBv, gBool;
static Z3_sort RS;
static std::string gZ3Err;
static void onErr(Z3_context c, Z3_error_code e) { gZ3Err = Z3_get_error_msg(c, e); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, onErr);
  RS = Z3_mk_real_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, RS));
  gInc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, gInc);
}
static Z3_ast ref(Z3_ast a) { return a; }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast tBool(Expr *e);
static Z3_ast tr(Expr *e); // bit-vector or real
static Z3_ast tBool(Expr *e) {
  auto it = gBool.find(e); if (it != gBool.end()) return it->second;
  Z3_ast r; Z3_ast a[2];
  switch (e->op) {
  case O_CONST: r = e->v ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case O_NOT: r = Z3_mk_not(C, tBool(e->k[0])); break;
  case O_AND: a[0] = tBool(e->k[0]); a[1] = tBool(e->k[1]); r = Z3_mk_and(C, 2, a); break;
  case O_OR: a[0] = tBool(e->k[0]); a[1] = tBool(e->k[1]); r = Z3_mk_or(C, 2, a); break;
  case O_XOR: r = Z3_mk_xor(C, tBool(e->k[0]), tBool(e->k[1])); break;
  case O_ITE: r = Z3_mk_ite(C, tBool(e->k[0]), tBool(e->k[1]), tBool(e->k[2])); break;
  case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(C, tBool(e->k[0]), tBool(e->k[1])) : Z3_mk_eq(C, tr(e->k[0]), tr(e->k[1])); break;
  case O_ULT: r = Z3_mk_bvult(C, tr(e->k[0]), tr(e->k[1])); break;
  case O_ULE: r = Z3_mk_bvule(C, tr(e->k[0]), tr(e->k[1])); break;
  case O_SLT: r = Z3_mk_bvslt(C, tr(e->k[0]), tr(e->k[1])); break;
  case O_SLE: r = Z3_mk_bvsle(C, tr(e->k[0]), tr(e->k[1])); break;
  case O_REQ: r = Z3_mk_eq(C, tr(e->k[0]), tr(e->k[1])); break;
  case O_RLT: r = Z3_mk_lt(C, tr(e->k[0]), tr(e->k[1])); break;
  case O_RLE: r = Z3_mk_le(C, tr(e->k[0]), tr(e->k[1])); break;
  default: r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, bvs(1)));
  }
  return gBool[e] = ref(r);
}
static Z3_ast named(const char *p, uint32_t id, Z3_sort s) {
  std::string n = std::string(p) + std::to_string(id);
  return Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), s);
}
static Z3_ast tr(Expr *e) {
  auto it = gBv.find(e); if (it != gBv.end()) return it->second;
  Z3_ast r, a[2];
  auto K = [&](int i) { return tr(e->k[i]); };
  switch (e->op) {
  case O_CONST: { SmallString<64> s; constVal(e).toString(s, 10, false); r = Z3_mk_numeral(C, s.c_str(), bvs(e->w)); break; }
  case O_VAR: r = named("v", e->id, bvs(e->w)); break;
  case O_ADD: r = Z3_mk_bvadd(C, K(0), K(1)); break; case O_SUB: r = Z3_mk_bvsub(C, K(0), K(1)); break;
  case O_MUL: r = Z3_mk_bvmul(C, K(0), K(1)); break; case O_UDIV: r = Z3_mk_bvudiv(C, K(0), K(1)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(C, K(0), K(1)); break; case O_UREM: r = Z3_mk_bvurem(C, K(0), K(1)); break;
  case O_SREM: r = Z3_mk_bvsrem(C, K(0), K(1)); break; case O_AND: if (e->w == 1) goto asbool; r = Z3_mk_bvand(C, K(0), K(1)); break;
  case O_OR: if (e->w == 1) goto asbool; r = Z3_mk_bvor(C, K(0), K(1)); break;
  case O_XOR: if (e->w == 1) goto asbool; r = Z3_mk_bvxor(C, K(0), K(1)); break;
  case O_SHL: r = Z3_mk_bvshl(C, K(0), K(1)); break; case O_LSHR: r = Z3_mk_bvlshr(C, K(0), K(1)); break;
  case O_ASHR: r = Z3_mk_bvashr(C, K(0), K(1)); break; case O_NOT: if (e->w == 1) goto asbool; r = Z3_mk_bvnot(C, K(0)); break;
  case O_CONCAT: r = Z3_mk_concat(C, K(0), K(1)); break; case O_EXTRACT: r = Z3_mk_extract(C, e->v + e->w - 1, e->v, K(0)); break;
  case O_ZEXT: if (e->k[0]->w == 1) { r = Z3_mk_ite(C, tBool(e->k[0]), Z3_mk_unsigned_int64(C, 1, bvs(e->w)), Z3_mk_unsigned_int64(C, 0, bvs(e->w))); break; }
    r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, K(0)); break;
  case O_SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, K(0)); break;
  case O_ITE: if (e->w == 1) goto asbool; r = Z3_mk_ite(C, tBool(e->k[0]), K(1), K(2)); break;
  case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_REQ: case O_RLT: case O_RLE:
  asbool: r = Z3_mk_ite(C, tBool(e), Z3_mk_unsigned_int64(C, 1, bvs(1)), Z3_mk_unsigned_int64(C, 0, bvs(1))); break;
  case O_RCONST: r = Z3_mk_numeral(C, e->r->get_str().c_str(), RS); break;
  case O_RVAR: r = named("r", e->id, RS); break;
  case O_RADD: a[0] = K(0); a[1] = K(1); r = Z3_mk_add(C, 2, a); break;
  case O_RSUB: a[0] = K(0); a[1] = K(1); r = Z3_mk_sub(C, 2, a); break;
  case O_RMUL: a[0] = K(0); a[1] = K(1); r = Z3_mk_mul(C, 2, a); break;
  case O_RNEG: r = Z3_mk_unary_minus(C, K(0)); break;
  case O_RDIV: r = named("q", e->id, RS); break;
  case O_RFUN: r = named("f", e->id, RS); break;
  case O_RITE: r = Z3_mk_ite(C, tBool(e->k[0]), K(1), K(2)); break;
  case O_S2R: r = Z3_mk_int2real(C, Z3_mk_bv2int(C, K(0), true)); break;
  case O_U2R: r = Z3_mk_int2real(C, Z3_mk_bv2int(C, K(0), false)); break;
  case O_RBITS: if (rcBits(e) != e) { r = tr(rcBits(e)); break; } r = named("b", e->id, bvs(e->w)); break; // opaque
  case O_BITSR: r = named("o", e->id, RS); break;        // opaque
  default: fprintf(stderr, "tr: op %d\n", e->op); abort();
  }
  return gBv[e] = ref(r);
}
struct Scan { std::unordered_set<Expr *> seen; std::vector<Expr *> aux, vars, work; bool bv = false, real = false, nl = false, mix = false;
  void add(Expr *e) {
    work.push_back(e);
    while (!work.empty()) { e = work.back(); work.pop_back();
      if (!seen.insert(e).second) continue;
      switch (e->op) {
      case O_VAR: vars.push_back(e); if (e->w > 1) bv = true; break;
      case O_RVAR: vars.push_back(e); real = true; break;
      case O_RDIV: aux.push_back(e); nl = true; break;
      case O_RFUN: aux.push_back(e); real = true; nl = true;
        if (e->v == F_SIN) work.push_back(mkRFun(F_COS, e->k[0]));
        if (e->v == F_COS) work.push_back(mkRFun(F_SIN, e->k[0]));
        break;
      case O_RMUL: if (e->k[1]->op != O_RCONST) nl = true; break;
      case O_S2R: case O_U2R: case O_RBITS: case O_BITSR: mix = true; break;
      default: break;
      }
      for (int i = 0; i < e->n; i++) work.push_back(e->k[i]);
    }
  }
};
static Z3_ast lit0() { static Z3_ast z; if (!z) z = ref(Z3_mk_numeral(C, "0", RS)); return z; }
static Z3_ast lit1() { static Z3_ast z; if (!z) z = ref(Z3_mk_numeral(C, "1", RS)); return z; }
static std::unordered_map<Expr *, std::vector<Z3_ast>> gAx;
static const std::vector<Z3_ast> &axioms(Expr *e) {
  auto it = gAx.find(e); if (it != gAx.end()) return it->second;
  auto &v = gAx[e]; Z3_ast me = tr(e);
  auto mul = [&](Z3_ast x, Z3_ast y) { Z3_ast a[2] = {x, y}; return Z3_mk_mul(C, 2, a); };
  auto add = [&](Z3_ast x, Z3_ast y) { Z3_ast a[2] = {x, y}; return Z3_mk_add(C, 2, a); };
  if (e->op == O_RDIV) {
    Z3_ast b = tr(e->k[1]);
    v.push_back(ref(Z3_mk_implies(C, Z3_mk_not(C, Z3_mk_eq(C, b, lit0())), Z3_mk_eq(C, mul(me, b), tr(e->k[0])))));
    return v;
  }
  Z3_ast x = tr(e->k[0]);
  switch ((RFn)e->v) {
  case F_SIN: { Expr *c = mkRFun(F_COS, e->k[0]); Z3_ast cz = tr(c);
    v.push_back(ref(Z3_mk_eq(C, add(mul(me, me), mul(cz, cz)), lit1()))); break; }
  case F_SQRT: v.push_back(ref(Z3_mk_ge(C, me, lit0())));
    v.push_back(ref(Z3_mk_implies(C, Z3_mk_ge(C, x, lit0()), Z3_mk_eq(C, mul(me, me), x)))); break;
  case F_EXP: v.push_back(ref(Z3_mk_gt(C, me, lit0()))); break;
  case F_FLOOR: v.push_back(ref(Z3_mk_le(C, me, x))); v.push_back(ref(Z3_mk_lt(C, x, add(me, lit1()))));
    v.push_back(ref(Z3_mk_is_int(C, me))); break;
  case F_CEIL: v.push_back(ref(Z3_mk_ge(C, me, x))); v.push_back(ref(Z3_mk_lt(C, me, add(x, lit1()))));
    v.push_back(ref(Z3_mk_is_int(C, me))); break;
  case F_FMOD: if (e->k[1]->op == O_RCONST && sgn(*e->k[1]->r) > 0) { Z3_ast b = tr(e->k[1]), nb, sub; Z3_ast t[2] = {x, me}; nb = Z3_mk_unary_minus(C, b); sub = Z3_mk_sub(C, 2, t); Z3_ast xp = Z3_mk_ge(C, x, lit0()), xn = Z3_mk_le(C, x, lit0());
    auto imp = [&](Z3_ast c, Z3_ast p, Z3_ast q) { Z3_ast y[2] = {p, q}; v.push_back(ref(Z3_mk_implies(C, c, Z3_mk_and(C, 2, y)))); };
    imp(xp, Z3_mk_ge(C, me, lit0()), Z3_mk_lt(C, me, b)); imp(xn, Z3_mk_le(C, me, lit0()), Z3_mk_gt(C, me, nb));
    Z3_ast in[2] = {Z3_mk_gt(C, x, nb), Z3_mk_lt(C, x, b)}; v.push_back(ref(Z3_mk_implies(C, Z3_mk_and(C, 2, in), Z3_mk_eq(C, me, x)))); v.push_back(ref(Z3_mk_is_int(C, Z3_mk_div(C, sub, b)))); } break;
  default: break;
  }
  return v;
}
static bool getVal(Z3_model m, Z3_ast c, Expr *e, MVal &out) {
  Z3_ast r = nullptr;
  if (!Z3_model_eval(C, m, c, true, &r) || !r) return false;
  Z3_inc_ref(C, r);
  if (e->w) {
    out.real = false;
    if (!Z3_is_numeral_ast(C, r)) return false;
    out.i = APInt(e->w, StringRef(Z3_get_numeral_string(C, r)), 10);
    return true;
  }
  out.real = true;
  if (Z3_is_numeral_ast(C, r)) { out.q = mpq_class(Z3_get_numeral_string(C, r)); out.q.canonicalize(); return true; }
  if (Z3_is_algebraic_number(C, r)) {
    Z3_ast lo = Z3_get_algebraic_number_lower(C, r, 20); Z3_inc_ref(C, lo);
    out.q = mpq_class(Z3_get_numeral_string(C, lo)); out.q.canonicalize(); return true;
  }
  return false;
}
struct CacheEnt { Res r; std::shared_ptr<Model> m; };
static std::map<std::vector<uint32_t>, CacheEnt> gCache;

static Res runSolver(Z3_solver s, bool inc, const std::vector<Z3_ast> &as, unsigned ms, const std::vector<Expr *> &vals, Model *out) {
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  if (inc) Z3_solver_push(C, s);
  for (Z3_ast a : as) Z3_solver_assert(C, s, a);
  gZ3Err.clear();
  Z3_lbool r = Z3_solver_check(C, s);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (!gZ3Err.empty()) { fprintf(stderr, "z3 error: %s\n", gZ3Err.c_str()); res = R_UNKNOWN; }
  if (res == R_SAT && out) {
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    for (Expr *e : vals) { MVal v; if (getVal(m, tr(e), e, v)) (*out)[e->id] = v; }
    Z3_model_dec_ref(C, m);
  }
  if (inc) Z3_solver_pop(C, s, 1);
  return res;
}
// does e contain a non-linear real comparison worth normalising?
bool realAtoms(Expr *e) { if (e->op == O_REQ || e->op == O_RLT || e->op == O_RLE) return true; if (e->w == 1 && (e->op == O_NOT || e->op == O_AND || e->op == O_OR)) { for (int i = 0; i < e->n; i++) if (realAtoms(e->k[i])) return true; } return false; }
static Res checkCore(const std::vector<Expr *> &pc, Expr *extra, Model *model, unsigned timeoutMs);
// the conditions of a case split belong to the query: slicing must start from them as well
static Res checkSplit(const std::vector<Expr *> &pc, Expr *conds, Expr *extra, Model *model, unsigned timeoutMs, int depth) {
  Expr *s = algSimplify(extra);
  if (s->op == O_CONST) { if (!s->v) { gSS.algebraic++; return R_UNSAT; } return checkCore(pc, mkAnd(conds, s), model, timeoutMs); }
  Expr *c = depth < 8 ? firstIte(s) : nullptr;
  // choices the path has already made need no case split
  for (int k = 0; c && k < 64; k++) {
    Expr *n = mkNot(c); int v = -1; for (Expr *e : pc) { if (e == c) v = 1; else if (e == n) v = 0; if (v >= 0) break; }
    if (v < 0) break;
    s = algSimplify(substCond(s, c, v)); if (s->op == O_CONST) { if (!s->v) { gSS.algebraic++; return R_UNSAT; } return checkCore(pc, mkAnd(conds, s), model, timeoutMs); }
    c = firstIte(s);
  }
  if (!c) return checkCore(pc, mkAnd(conds, s), model, timeoutMs);
  Res worst = R_UNSAT;
  for (int v = 0; v < 2; v++) {
    Expr *cc = v ? c : mkNot(c); if (cc->op == O_CONST && !cc->v) continue;
    Expr *t = substCond(s, c, v); Expr *nc = algSimplify(mkAnd(conds, cc)); if (nc->op == O_CONST && !nc->v) continue; Res r = checkSplit(pc, nc, t, model, timeoutMs, depth + 1);
    if (r == R_SAT) return r; if (r == R_UNKNOWN) worst = r;
  }
  return worst;
}
Res checkSat(const std::vector<Expr *> &pc, Expr *extra, Model *model, unsigned timeoutMs) {
  if (!extra || !realAtoms(extra)) return checkCore(pc, extra, model, timeoutMs);
  auto t0 = std::chrono::steady_clock::now(); double before = gSS.time;
  Res r = checkSplit(pc, mkBool(true), extra, model, timeoutMs, 0);
  gSS.algTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() - (gSS.time - before); return r;
}
static Res checkCore(const std::vector<Expr *> &pc, Expr *extra, Model *model, unsigned timeoutMs) {
  init();
  if (!timeoutMs) timeoutMs = gTimeoutMs;
  if (extra && extra->op == O_CONST) { if (!extra->v) return R_UNSAT; }
  // independence slicing
  std::vector<Expr *> sel; std::unordered_set<uint32_t> vs;
  if (extra) {
    sel.push_back(extra); for (uint32_t v : exprVars(extra)) vs.insert(v);
    std::vector<char> used(pc.size(), 0); bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        const auto &ev = exprVars(pc[i]); bool hit = ev.empty();
        for (uint32_t v : ev) if (vs.count(v)) { hit = true; break; }
        if (hit) { used[i] = 1; sel.push_back(pc[i]); for (uint32_t v : ev) if (vs.insert(v).second) ch = true; }
      } }
  } else sel = pc;
  std::vector<uint32_t> key; for (Expr *e : sel) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  if (it != gCache.end() && it->second.r != R_UNKNOWN) {
    gSS.cacheHits++;
    if (model && it->second.m) *model = *it->second.m;
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  Scan sc; for (Expr *e : sel) sc.add(e);
  std::vector<Z3_ast> as; for (Expr *e : sel) as.push_back(tBool(e));
  for (Expr *e : sc.aux) for (Z3_ast a : axioms(e)) as.push_back(a);
  std::vector<Expr *> vals = sc.vars; for (Expr *e : sc.aux) if (e->op == O_RFUN) vals.push_back(e);
  auto mdl = std::make_shared<Model>();
  Res r;
  if (sc.nl && !sc.mix && !sc.bv && sampleModel(sel, sc.vars, *mdl, 200)) {
    gSS.sampled++; gCache[key] = {R_SAT, mdl}; if (model) *model = *mdl; return R_SAT; }
  gSS.queries++;
  if (sc.nl && !sc.mix && !sc.bv) {
    Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_NRA")); Z3_solver_inc_ref(C, s);
    r = runSolver(s, false, as, timeoutMs, vals, mdl.get());
    Z3_solver_dec_ref(C, s);
    if (r == R_UNKNOWN) { s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); r = runSolver(s, false, as, timeoutMs, vals, mdl.get()); Z3_solver_dec_ref(C, s); }
  } else {
    r = runSolver(gInc, true, as, std::min(timeoutMs, 3000u), vals, mdl.get());
    if (r == R_UNKNOWN) {
      Z3_solver s = (!sc.real && !sc.mix) ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")) : Z3_mk_solver(C);
      Z3_solver_inc_ref(C, s); r = runSolver(s, false, as, timeoutMs, vals, mdl.get()); Z3_solver_dec_ref(C, s);
    }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSS.time += dt; if (dt > gSS.maxTime) gSS.maxTime = dt;
  if (r == R_SAT) gSS.sat++; else if (r == R_UNSAT) gSS.unsat++; else gSS.unknown++;
  gCache[key] = {r, r == R_SAT ? mdl : nullptr};
  if (r == R_SAT && model) *model = *mdl;
  return r;
}
}
