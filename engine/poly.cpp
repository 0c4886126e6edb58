// Algebraic normal form of real terms: rational functions over the atoms (variables,
// uninterpreted function terms) modulo sin^2+cos^2=1, sqrt(x)^2=x and angle addition.
#include "poly.h"
#include "solver.h"
#include <algorithm>
#include <unordered_set>
#include <cmath>
#include <random>
namespace gpse {
typedef std::vector<std::pair<uint32_t, uint32_t>> Mono; // (atom id, exponent), sorted
typedef std::map<Mono, mpq_class> Poly;
struct RF { Poly n; std::map<int, int> d; };
static const size_t MAXT = 60000;
struct TooBig {};
static std::vector<Poly> factors; static std::map<std::string, int> factorIdx;
static Mono mmul(const Mono &a, const Mono &b) {
  Mono r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  }
  return r;
}
static void addTerm(Poly &p, const Mono &m, const mpq_class &c) { if (c == 0) return; auto it = p.find(m); if (it == p.end()) p.emplace(m, c); else { it->second += c; if (it->second == 0) p.erase(it); } if (p.size() > MAXT) throw TooBig(); }
static bool build(Expr *e, RF &out);
struct Rule { int kind = 0; uint32_t cos = 0; bool have = false; Poly sq; }; // 1: sin^2 -> 1-cos^2 ; 2: atom^2 -> polynomial
static std::unordered_map<uint32_t, Rule> rules;
static const Rule &rule(uint32_t a) {
  auto it = rules.find(a); if (it != rules.end()) return it->second;
  Rule r; Expr *e = exprById(a);
  if (e->op == O_RFUN && e->v == F_SIN) { r.kind = 1; r.cos = mkRFun(F_COS, e->k[0])->id; }
  else if (e->op == O_RFUN && e->v == F_SQRT) { RF f; if (build(e->k[0], f) && f.d.empty()) { r.kind = 2; r.sq = f.n; } }
  return rules[a] = r;
}
// reduce one monomial; returns true if a rewrite applied (result in out, to be re-examined)
static bool rewriteMono(const Mono &m, Poly &out) {
  for (size_t i = 0; i < m.size(); i++) if (m[i].second >= 2) {
    const Rule &r = rule(m[i].first); if (!r.kind) continue;
    Mono rest; for (size_t j = 0; j < m.size(); j++) if (j != i) rest.push_back(m[j]); else if (m[j].second > 2) rest.push_back({m[j].first, m[j].second - 2});
    if (r.kind == 1) { out[rest] = 1; Mono c2{{r.cos, 2}}; addTerm(out, mmul(rest, c2), -1); }
    else for (auto &t : r.sq) addTerm(out, mmul(rest, t.first), t.second);
    return true;
  }
  return false;
}
static Poly reduce(const Poly &p) {
  bool any = false; for (auto &t : p) for (auto &x : t.first) if (x.second >= 2 && rule(x.first).kind) { any = true; break; }
  if (!any) return p;
  Poly r; std::vector<std::pair<Mono, mpq_class>> w(p.begin(), p.end()); size_t steps = 0;
  while (!w.empty()) { auto t = w.back(); w.pop_back(); Poly q; if (++steps > 4 * MAXT) throw TooBig(); if (rewriteMono(t.first, q)) { for (auto &x : q) w.push_back({x.first, mpq_class(x.second * t.second)}); } else addTerm(r, t.first, t.second); }
  return r;
}
static size_t budget = 0;
static Poly pmul(const Poly &a, const Poly &b) {
  if (a.size() * b.size() > 400000) throw TooBig(); budget += a.size() * b.size(); if (budget > 20000000) throw TooBig();
  Poly r; for (auto &x : a) for (auto &y : b) addTerm(r, mmul(x.first, y.first), mpq_class(x.second * y.second)); return reduce(r);
}
static std::string pkey(const Poly &p) { std::string s; for (auto &t : p) { for (auto &x : t.first) s += std::to_string(x.first) + "^" + std::to_string(x.second) + "."; s += "*" + t.second.get_str() + "+"; } return s; }
static int factorOf(const Poly &p) { auto k = pkey(p); auto it = factorIdx.find(k); if (it != factorIdx.end()) return it->second; factors.push_back(p); return factorIdx[k] = factors.size() - 1; }
static Poly ppow(int f, int e) { Poly r; r[Mono()] = 1; while (e-- > 0) r = pmul(r, factors[f]); return r; }
static void cancel(RF &r) { // cancel single-atom factors and whole factors that divide the numerator trivially
  for (auto it = r.d.begin(); it != r.d.end();) {
    const Poly &f = factors[it->first];
    while (it->second > 0) {
      if (f.size() == 1) {
        uint32_t at = f.begin()->first[0].first; bool ok = !r.n.empty();
        for (auto &t : r.n) { bool has = false; for (auto &x : t.first) if (x.first == at) has = true; if (!has) { ok = false; break; } }
        if (!ok) break;
        Poly q; for (auto &t : r.n) { Mono m; for (auto &x : t.first) if (x.first != at) m.push_back(x); else if (x.second > 1) m.push_back({x.first, x.second - 1}); q[m] = t.second; }
        r.n.swap(q); it->second--;
      } else { // same polynomial up to a monomial times constant
        if (r.n.size() != f.size()) break;
        auto a = r.n.begin(); auto b = f.begin(); Mono q; bool ok = true; mpq_class c = a->second / b->second;
        for (auto &x : a->first) { uint32_t e = x.second; for (auto &y : b->first) if (y.first == x.first) e = e >= y.second ? e - y.second : 99999; if (e == 99999) ok = false; else if (e) q.push_back({x.first, e}); }
        if (!ok || mmul(q, b->first) != a->first) break;
        Poly t; for (auto &x : f) t[mmul(q, x.first)] = mpq_class(x.second * c); if (t != r.n) break;
        r.n.clear(); r.n[q] = c; it->second--;
      }
    }
    if (it->second == 0) it = r.d.erase(it); else ++it;
  }
}
static RF radd(const RF &a, const RF &b, int sgn) {
  RF r; Poly x = a.n, y = b.n; r.d = a.d;
  if (a.d != b.d) {
    for (auto &p : b.d) { int &e = r.d[p.first]; e = std::max(e, p.second); }
    for (auto &p : r.d) { auto i = a.d.find(p.first); int ea = i == a.d.end() ? 0 : i->second; auto j = b.d.find(p.first); int eb = j == b.d.end() ? 0 : j->second;
      if (p.second > ea) x = pmul(x, ppow(p.first, p.second - ea)); if (p.second > eb) y = pmul(y, ppow(p.first, p.second - eb)); }
  }
  for (auto &t : y) addTerm(x, t.first, sgn > 0 ? t.second : mpq_class(-t.second));
  r.n.swap(x); if (r.n.empty()) r.d.clear(); else if (!r.d.empty()) cancel(r); return r;
}
static RF rmul(const RF &a, const RF &b) { RF r; r.n = pmul(a.n, b.n); if (r.n.empty()) return r; r.d = a.d; for (auto &p : b.d) r.d[p.first] += p.second; cancel(r); return r; }
static bool rinv(const RF &a, RF &r) {
  if (a.n.empty()) return false;
  r.n.clear(); r.n[Mono()] = 1; r.d.clear();
  for (auto &p : a.d) r.n = pmul(r.n, ppow(p.first, p.second));
  // monomial content
  Mono g = a.n.begin()->first; for (auto &t : a.n) { Mono h; for (auto &x : g) for (auto &y : t.first) if (x.first == y.first) h.push_back({x.first, std::min(x.second, y.second)}); g.swap(h); }
  Poly q; mpq_class lead = a.n.begin()->second;
  for (auto &t : a.n) { Mono m; for (auto &x : t.first) { uint32_t e = x.second; for (auto &y : g) if (y.first == x.first) e -= y.second; if (e) m.push_back({x.first, e}); } q[m] = mpq_class(t.second / lead); }
  for (auto &x : g) { Poly f; f[Mono{{x.first, 1}}] = 1; r.d[factorOf(f)] += x.second; }
  if (!(q.size() == 1 && q.begin()->first.empty())) r.d[factorOf(q)] += 1;
  for (auto &t : r.n) t.second /= lead; cancel(r); return true;
}
static std::unordered_map<Expr *, RF> memo; static std::unordered_set<Expr *> failed;
static RF atom(Expr *e) { RF r; r.n[Mono{{e->id, 1}}] = 1; return r; }
static RF cst(const mpq_class &q) { RF r; if (q != 0) r.n[Mono()] = q; return r; }
static RF trig(Expr *arg, bool sine) { // argument in canonical linear form: expand sums
  if (arg->op == O_RADD) { RF sa = trig(arg->k[0], true), ca = trig(arg->k[0], false), sb = trig(arg->k[1], true), cb = trig(arg->k[1], false); return sine ? radd(rmul(sa, cb), rmul(ca, sb), 1) : radd(rmul(ca, cb), rmul(sa, sb), -1); }
  Expr *f = mkRFun(sine ? F_SIN : F_COS, arg); mpq_class c = 1;
  if (f->op == O_RNEG) { c = -1; f = f->k[0]; }
  if (f->op == O_RCONST) return cst(mpq_class(c * *f->r));
  RF r = atom(f); r.n.begin()->second = c; return r;
}
static RF go(Expr *e);
static std::unordered_map<std::string, Expr *> funReps;
// one atom for all applications of a function to arguments with the same normal form
static Expr *funRep(Expr *e) {
  std::string k = std::to_string(e->v);
  try { for (int i = 0; i < e->n; i++) { RF a = go(e->k[i]); k += "|" + pkey(a.n); for (auto &p : a.d) k += "/" + std::to_string(p.first) + "^" + std::to_string(p.second); } } catch (TooBig &) { return e; }
  auto it = funReps.emplace(k, e); return it.first->second;
}
static RF go(Expr *e) {
  auto it = memo.find(e); if (it != memo.end()) return it->second; if (failed.count(e)) throw TooBig();
  RF r;
  switch (e->op) {
  case O_RCONST: return cst(*e->r);
  case O_RADD: r = radd(go(e->k[0]), go(e->k[1]), 1); break;
  case O_RSUB: r = radd(go(e->k[0]), go(e->k[1]), -1); break;
  case O_RNEG: r = go(e->k[0]); for (auto &t : r.n) t.second = -t.second; break;
  case O_RMUL: r = rmul(go(e->k[0]), go(e->k[1])); break;
  case O_RDIV: { RF i; if (!rinv(go(e->k[1]), i)) r = atom(e); else r = rmul(go(e->k[0]), i); break; }
  case O_RFUN: if (e->v == F_SIN || e->v == F_COS) { r = trig(e->k[0], e->v == F_SIN); break; } r = atom(funRep(e)); break;
  default: r = atom(e);
  }
  memo[e] = r; return r;
}
static bool build(Expr *e, RF &out) { try { out = go(e); return true; } catch (TooBig &) { failed.insert(e); return false; } }
// sign of a-b when it is the same for all values: 0 equal, 1/-1 constant non-zero, 2 unknown
int algCompare(Expr *a, Expr *b, int *terms) {
  budget = 0; RF x, y; if (!build(a, x) || !build(b, y)) return 2;
  try { RF d = radd(x, y, -1); if (terms) *terms = d.n.size(); if (d.n.empty()) return 0; if (d.d.empty() && d.n.size() == 1 && d.n.begin()->first.empty()) return sgn(d.n.begin()->second); } catch (TooBig &) { } return 2;
}
static bool hasReal(Expr *e) { return e->op == O_REQ || e->op == O_RLT || e->op == O_RLE; }
static std::unordered_map<Expr *, Expr *> simpMemo;
Expr *algSimplify(Expr *e) {
  if (e->w != 1) return e;
  auto it = simpMemo.find(e); if (it != simpMemo.end()) return it->second;
  Expr *r = e;
  if (hasReal(e)) { int c = algCompare(e->k[0], e->k[1]); if (c != 2) r = mkBool(e->op == O_REQ ? c == 0 : e->op == O_RLT ? c < 0 : c <= 0); }
  else if (e->op == O_NOT) r = mkNot(algSimplify(e->k[0]));
  else if (e->op == O_AND) r = mkAnd(algSimplify(e->k[0]), algSimplify(e->k[1]));
  else if (e->op == O_OR) r = mkOr(algSimplify(e->k[0]), algSimplify(e->k[1]));
  return simpMemo[e] = r;
}
Expr *findIte(Expr *e, std::unordered_set<Expr *> &seen) {
  if (!seen.insert(e).second) return nullptr;
  if (e->op == O_RITE) { Expr *c = findIte(e->k[0], seen); return c ? c : e->k[0]; }
  for (int i = 0; i < e->n; i++) if (Expr *r = findIte(e->k[i], seen)) return r;
  return nullptr;
}
Expr *firstIte(Expr *e) { std::unordered_set<Expr *> s; return findIte(e, s); }
static Expr *sub(Expr *e, Expr *c, bool v, std::unordered_map<Expr *, Expr *> &m) {
  if (e == c) return mkBool(v); if (!e->n) return e;
  auto it = m.find(e); if (it != m.end()) return it->second;
  Expr *k[3] = {0, 0, 0}; bool ch = false; for (int i = 0; i < e->n; i++) { k[i] = sub(e->k[i], c, v, m); if (k[i] != e->k[i]) ch = true; }
  Expr *r = e;
  if (ch) switch (e->op) {
    case O_NOT: r = mkNot(k[0]); break; case O_ITE: case O_RITE: r = mkIte(k[0], k[1], k[2]); break;
    case O_RADD: case O_RSUB: case O_RMUL: case O_RDIV: case O_REQ: case O_RLT: case O_RLE: r = mkRBin(e->op, k[0], k[1]); break;
    case O_RNEG: r = mkRNeg(k[0]); break; case O_RFUN: r = mkRFun((RFn)e->v, k[0], e->n > 1 ? k[1] : nullptr); break;
    case O_S2R: case O_U2R: r = mkInt2Real(k[0], e->op == O_S2R); break; case O_RBITS: r = mkRBits(k[0], e->w); break; case O_BITSR: r = mkBitsR(k[0]); break;
    case O_EXTRACT: r = mkExtract(k[0], e->v, e->w); break; case O_CONCAT: r = mkConcat(k[0], k[1]); break; case O_ZEXT: r = mkZExt(k[0], e->w); break; case O_SEXT: r = mkSExt(k[0], e->w); break;
    default: r = e->n == 2 ? mkBin(e->op, k[0], k[1]) : e; }
  return m[e] = r;
}
Expr *substCond(Expr *e, Expr *c, bool v) { std::unordered_map<Expr *, Expr *> m; return sub(e, c, v, m); }
// ---- evaluation in doubles with the true functions
struct DEval { const std::unordered_map<uint32_t, double> &m; std::unordered_map<Expr *, double> memo; bool bad = false; std::vector<std::pair<Expr *, double>> funs;
  double ev(Expr *e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second; double r = 0;
    switch (e->op) {
    case O_RCONST: r = q2d(*e->r); break; case O_RVAR: { auto i = m.find(e->id); if (i == m.end()) bad = true; else r = i->second; break; }
    case O_CONST: r = e->v; break; case O_VAR: { auto i = m.find(e->id); if (e->w != 1 || i == m.end()) bad = true; else r = i->second; break; }
    case O_RADD: r = ev(e->k[0]) + ev(e->k[1]); break; case O_RSUB: r = ev(e->k[0]) - ev(e->k[1]); break; case O_RMUL: r = ev(e->k[0]) * ev(e->k[1]); break;
    case O_RDIV: r = ev(e->k[0]) / ev(e->k[1]); break; case O_RNEG: r = -ev(e->k[0]); break;
    case O_RITE: case O_ITE: if (e->op == O_ITE && e->w != 1) { bad = true; break; } r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
    case O_RFUN: { double a = ev(e->k[0]), b = e->n > 1 ? ev(e->k[1]) : 0;
      switch ((RFn)e->v) { case F_SIN: r = sin(a); break; case F_COS: r = cos(a); break; case F_SQRT: r = sqrt(a); break; case F_EXP: r = exp(a); break; case F_LOG: r = log(a); break; case F_ATAN2: r = atan2(a, b); break; case F_ATAN: r = atan(a); break; case F_POW: r = pow(a, b); break; case F_TAN: r = tan(a); break; case F_ASIN: r = asin(a); break; case F_ACOS: r = acos(a); break; case F_FLOOR: r = floor(a); break; case F_CEIL: r = ceil(a); break; case F_TANH: r = tanh(a); break; case F_LOG10: r = log10(a); break; case F_FMOD: r = fmod(a, b); break; default: bad = true; }
      funs.push_back({e, r}); break; }
    // comparisons need a margin, so that rounding cannot change them; equalities hold only exactly
    case O_REQ: { double a = ev(e->k[0]), b = ev(e->k[1]); if (a == b) r = 1; else { r = 0; if (std::fabs(a - b) < 1e-6 * (1 + std::fabs(a) + std::fabs(b))) bad = true; } break; }
    case O_RLT: case O_RLE: { double a = ev(e->k[0]), b = ev(e->k[1]); if (a == b) r = e->op == O_RLE; else { r = a < b; if (std::fabs(a - b) < 1e-9 * (1 + std::fabs(a) + std::fabs(b))) bad = true; } break; }
    case O_NOT: if (e->w != 1) { bad = true; break; } r = !ev(e->k[0]); break;
    case O_AND: if (e->w != 1) { bad = true; break; } { double a = ev(e->k[0]), b = ev(e->k[1]); r = a && b; } break;
    case O_OR: if (e->w != 1) { bad = true; break; } { double a = ev(e->k[0]), b = ev(e->k[1]); r = a || b; } break;
    case O_XOR: if (e->w != 1) { bad = true; break; } r = ev(e->k[0]) != ev(e->k[1]); break;
    default: bad = true; }
    if (!std::isfinite(r)) bad = true;
    return memo[e] = r; }
};
// bounds that the constraints put on single variables
static void bounds(Expr *e, bool pos, std::unordered_map<uint32_t, std::pair<double, double>> &b) {
  if (e->op == O_NOT) { bounds(e->k[0], !pos, b); return; }
  if (e->op == O_AND && pos && e->w == 1) { bounds(e->k[0], true, b); bounds(e->k[1], true, b); return; }
  if (e->op == O_OR && !pos && e->w == 1) { bounds(e->k[0], false, b); bounds(e->k[1], false, b); return; }
  if (e->op != O_RLT && e->op != O_RLE && !(e->op == O_REQ && pos)) return;
  Expr *x = e->k[0], *y = e->k[1]; bool up = pos; // x <= y, or y <= x when negated
  auto put = [&](Expr *v, double c, bool upper) { auto it = b.emplace(v->id, std::make_pair(-HUGE_VAL, HUGE_VAL)).first; if (upper) it->second.second = std::min(it->second.second, c); else it->second.first = std::max(it->second.first, c); };
  if (x->op == O_RVAR && y->op == O_RCONST) { put(x, q2d(*y->r), up); if (e->op == O_REQ) put(x, q2d(*y->r), !up); }
  if (y->op == O_RVAR && x->op == O_RCONST) { put(y, q2d(*x->r), !up); if (e->op == O_REQ) put(y, q2d(*x->r), up); }
}
bool sampleModel(const std::vector<Expr *> &sel, const std::vector<Expr *> &vars, Model &out, int tries) {
  for (Expr *v : vars) if (v->w > 1) return false;
  static std::mt19937 rng(12345);
  std::unordered_map<uint32_t, std::pair<double, double>> bd; for (Expr *e : sel) bounds(e, true, bd);
  for (int t = 0; t < tries; t++) {
    std::unordered_map<uint32_t, double> m; int style = t % 4;
    for (Expr *v : vars) { if (v->w == 1) { m[v->id] = rng() & 1; continue; } double x; switch (style) { case 0: x = (int)(rng() % 31 + 1) / 8.0; break; case 1: x = ((int)(rng() % 63) - 31) / 16.0; break; case 2: x = ((int)(rng() % 4001) - 2000) / 16.0; break; default: x = (int)(rng() % 15 + 1) / 64.0 + (rng() % 2 ? 1 : 0); }
      auto i = bd.find(v->id); if (i != bd.end() && (x < i->second.first || x > i->second.second)) { double lo = i->second.first, hi = i->second.second; if (lo == -HUGE_VAL) lo = hi - (rng() % 3 ? 4 : 400); if (hi == HUGE_VAL) hi = lo + (rng() % 3 ? 4 : 400); x = lo + (hi - lo) * (int)(rng() % 65) / 64.0; }
      m[v->id] = x; }
    DEval d{m}; bool ok = true; for (Expr *e : sel) { if (!d.ev(e) || d.bad) { ok = false; break; } }
    if (!ok) continue;
    for (Expr *v : vars) { MVal x; if (v->w) x.i = llvm::APInt(1, m[v->id] != 0); else { x.real = true; x.q = mpq_class(m[v->id]); } out[v->id] = x; }
    for (auto &f : d.funs) { MVal x; x.real = true; x.q = mpq_class(f.second); out[f.first->id] = x; }
    return true;
  }
  return false;
}
}
