#include "expr.h"
#include <cmath>
#include <algorithm>
#include <unordered_set>
using namespace llvm;
namespace gpse {
const char *rfnName[] = {"sin","cos","sqrt","exp","log","atan2","atan","pow","tan","asin","acos","floor","ceil","tanh","fmod","log10"};
std::vector<VarInfo> gVars;
static std::vector<Expr *> gAll;
size_t exprCount() { return gAll.size(); }
Expr *exprById(uint32_t id) { return id < gAll.size() ? gAll[id] : nullptr; }

struct HS { size_t operator()(const Expr *e) const { return e->h; } };
struct EQ { bool operator()(const Expr *a, const Expr *b) const {
  if (a->op != b->op || a->w != b->w || a->n != b->n || a->v != b->v) return false;
  for (int i = 0; i < a->n; i++) if (a->k[i] != b->k[i]) return false;
  if (a->big || b->big) { if (!a->big || !b->big || *a->big != *b->big) return false; }
  if (a->r || b->r) { if (!a->r || !b->r || *a->r != *b->r) return false; }
  return true; } };
static std::unordered_set<Expr *, HS, EQ> gTab;

static Expr *intern(Expr &t) {
  size_t h = t.op * 1000003u + t.w * 7919u + t.v * 0x9E3779B97F4A7C15ull;
  for (int i = 0; i < t.n; i++) h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull + t.k[i]->id * 0x94D049BB133111EBull;
  if (t.big) h ^= hash_value(*t.big);
  if (t.r) { h ^= mpz_get_ui(t.r->get_num_mpz_t()) * 31 + mpz_get_ui(t.r->get_den_mpz_t()) * 131 + (sgn(*t.r) < 0 ? 77 : 0); }
  t.h = h ^ (h >> 31);
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  Expr *e = new Expr(t);
  if (t.r) e->r = new mpq_class(*t.r);
  if (t.big) e->big = new APInt(*t.big);
  e->id = gAll.size(); e->vars = nullptr;
  gAll.push_back(e); gTab.insert(e);
  return e;
}
static Expr blank(Op op, uint16_t w) { Expr t; memset((void *)&t, 0, sizeof t); t.op = op; t.w = w; return t; }
static Expr *node(Op op, uint16_t w, std::initializer_list<Expr *> ks, uint64_t v = 0) {
  Expr t = blank(op, w); t.v = v; for (Expr *k : ks) t.k[t.n++] = k; return intern(t);
}
static uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
Expr *mkConst(uint16_t w, uint64_t v) {
  if (w > 64) return mkConst(APInt(w, v));
  Expr t = blank(O_CONST, w); t.v = v & mask(w); return intern(t);
}
Expr *mkConst(const APInt &v) {
  if (v.getBitWidth() <= 64) return mkConst(v.getBitWidth(), v.getZExtValue());
  Expr t = blank(O_CONST, v.getBitWidth()); APInt c(v); t.big = &c; return intern(t);
}
static Expr *T_, *F_;
Expr *mkBool(bool b) { if (!T_) { T_ = mkConst(1, 1); F_ = mkConst(1, 0); } return b ? T_ : F_; }
APInt constVal(Expr *e) { return e->big ? *e->big : APInt(e->w, e->v); }
Expr *mkVar(uint16_t w, const std::string &name, bool undef) {
  Expr t = blank(w ? O_VAR : O_RVAR, w); t.v = gVars.size();
  Expr *e = intern(t); gVars.push_back({name, w, e, undef}); return e;
}
static bool isC(Expr *e, uint64_t v) { return e->op == O_CONST && !e->big && e->v == v; }
static bool allOnes(Expr *e) { return e->op == O_CONST && constVal(e).isAllOnes(); }

static Expr *foldBin(Op op, Expr *a, Expr *b) {
  APInt x = constVal(a), y = constVal(b); unsigned w = a->w;
  switch (op) {
  case O_ADD: return mkConst(x + y); case O_SUB: return mkConst(x - y); case O_MUL: return mkConst(x * y);
  case O_UDIV: return y == 0 ? nullptr : mkConst(x.udiv(y)); case O_SDIV: return y == 0 ? nullptr : mkConst(x.sdiv(y));
  case O_UREM: return y == 0 ? nullptr : mkConst(x.urem(y)); case O_SREM: return y == 0 ? nullptr : mkConst(x.srem(y));
  case O_AND: return mkConst(x & y); case O_OR: return mkConst(x | y); case O_XOR: return mkConst(x ^ y);
  case O_SHL: return mkConst(y.uge(w) ? APInt(w, 0) : x.shl(y)); case O_LSHR: return mkConst(y.uge(w) ? APInt(w, 0) : x.lshr(y));
  case O_ASHR: return mkConst(y.uge(w) ? x.ashr(w - 1) : x.ashr(y));
  case O_EQ: return mkBool(x == y); case O_ULT: return mkBool(x.ult(y)); case O_ULE: return mkBool(x.ule(y));
  case O_SLT: return mkBool(x.slt(y)); case O_SLE: return mkBool(x.sle(y));
  default: return nullptr;
  }
}
static bool iteConstArms(Expr *e) { return e->op == O_ITE && e->k[1]->op == O_CONST && e->k[2]->op == O_CONST; }
Expr *mkBin(Op op, Expr *a, Expr *b) {
  a = rcBits(a); b = rcBits(b);
  if (a->op == O_CONST && b->op == O_CONST) if (Expr *r = foldBin(op, a, b)) return r;
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
  if (comm && (a->op == O_CONST || (b->op != O_CONST && a->id > b->id))) std::swap(a, b); // const on the right
  uint16_t w = a->w;
  uint16_t rw = (op == O_EQ || op == O_ULT || op == O_ULE || op == O_SLT || op == O_SLE) ? 1 : w;
  switch (op) {
  case O_ADD:
    if (isC(b, 0)) return a;
    if (b->op == O_CONST && a->op == O_ADD && a->k[1]->op == O_CONST) return mkBin(O_ADD, a->k[0], foldBin(O_ADD, a->k[1], b));
    if (b->op == O_CONST && iteConstArms(a)) return mkIte(a->k[0], foldBin(O_ADD, a->k[1], b), foldBin(O_ADD, a->k[2], b));
    break;
  case O_SUB:
    if (isC(b, 0)) return a;
    if (a == b) return mkConst(APInt(w, 0));
    if (b->op == O_CONST) return mkBin(O_ADD, a, mkConst(-constVal(b)));
    break;
  case O_MUL:
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (b->op == O_CONST && a->op == O_ADD && a->k[1]->op == O_CONST)
      return mkBin(O_ADD, mkBin(O_MUL, a->k[0], b), foldBin(O_MUL, a->k[1], b));
    if (b->op == O_CONST && !b->big && w <= 64 && b->v && (b->v & (b->v - 1)) == 0)
      return mkBin(O_SHL, a, mkConst(w, __builtin_ctzll(b->v)));
    break;
  case O_AND:
    if (isC(b, 0)) return b;
    if (allOnes(b)) return a;
    if (a == b) return a;
    if (w == 1 && (a == mkNot(b))) return mkBool(false);
    if (w > 1 && b->op == O_CONST) {
      if (a->op == O_AND && a->k[1]->op == O_CONST) return mkBin(O_AND, a->k[0], foldBin(O_AND, a->k[1], b));
      if (a->op == O_OR) { Expr *x = a->k[0], *y = a->k[1];
        if (y->op == O_CONST || x->op == O_AND || y->op == O_AND) { Expr *l = mkBin(O_AND, x, b), *r = mkBin(O_AND, y, b); if (l->op == O_CONST || r->op == O_CONST) return mkBin(O_OR, l, r); } }
    }
    break;
  case O_OR:
    if (isC(b, 0)) return a;
    if (allOnes(b)) return b;
    if (a == b) return a;
    if (w == 1 && (a == mkNot(b))) return mkBool(true);
    break;
  case O_XOR:
    if (isC(b, 0)) return a;
    if (a == b) return mkConst(APInt(w, 0));
    if (w == 1 && isC(b, 1)) return mkNot(a);
    break;
  case O_SHL: case O_LSHR: case O_ASHR:
    if (isC(b, 0)) return a;
    if (b->op == O_CONST && op == O_LSHR && !b->big && b->v < w) return mkZExt(mkExtract(a, b->v, w - b->v), w);
    if (b->op == O_CONST && op == O_SHL && !b->big && b->v < w && b->v > 0)
      return mkConcat(mkExtract(a, 0, w - b->v), mkConst(APInt(b->v, 0)));
    break;
  case O_UDIV: case O_SDIV: if (isC(b, 1)) return a; break;
  case O_UREM: if (b->op==O_CONST && !b->big && w<=64 && b->v && (b->v&(b->v-1))==0) return mkBin(O_AND,a,mkConst(w,b->v-1)); break;
  case O_EQ:
    if (a == b) return mkBool(true);
    if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
    if (b->op == O_CONST) {
      if (a->op == O_ZEXT) {
        APInt c = constVal(b); unsigned iw = a->k[0]->w;
        if (c.getActiveBits() > iw) return mkBool(false);
        return mkBin(O_EQ, a->k[0], mkConst(c.trunc(iw)));
      }
      if (a->op == O_SEXT) {
        APInt c = constVal(b); unsigned iw = a->k[0]->w;
        if (c.trunc(iw).sext(w) != c) return mkBool(false);
        return mkBin(O_EQ, a->k[0], mkConst(c.trunc(iw)));
      }
      if (a->op == O_ADD && a->k[1]->op == O_CONST) return mkBin(O_EQ, a->k[0], mkConst(constVal(b) - constVal(a->k[1])));
      if (iteConstArms(a)) {
        bool e1 = a->k[1] == b, e2 = a->k[2] == b;
        if (e1 && e2) return mkBool(true); if (!e1 && !e2) return mkBool(false);
        return e1 ? a->k[0] : mkNot(a->k[0]);
      }
      if (a->op == O_ITE && a->k[1]->op == O_CONST) {
        if (a->k[1] == b) return mkOr(a->k[0], mkBin(O_EQ, a->k[2], b));
        return mkAnd(mkNot(a->k[0]), mkBin(O_EQ, a->k[2], b));
      }
      if (a->op == O_ITE && a->k[2]->op == O_CONST) {
        if (a->k[2] == b) return mkOr(mkNot(a->k[0]), mkBin(O_EQ, a->k[1], b));
        return mkAnd(a->k[0], mkBin(O_EQ, a->k[1], b));
      }
      if (a->op == O_CONCAT) {
        APInt c = constVal(b); unsigned lw = a->k[1]->w;
        return mkAnd(mkBin(O_EQ, a->k[0], mkConst(c.lshr(lw).trunc(w - lw))), mkBin(O_EQ, a->k[1], mkConst(c.trunc(lw))));
      }
    }
    break;
  case O_ULT:
    if (a == b) return mkBool(false);
    if (isC(b, 0)) return mkBool(false);
    if (isC(b, 1)) return mkBin(O_EQ, a, mkConst(APInt(w, 0)));
    if (a->op == O_ZEXT && b->op == O_CONST) { unsigned iw = a->k[0]->w; APInt c = constVal(b);
      if (c.getActiveBits() > iw) return mkBool(true); return mkBin(O_ULT, a->k[0], mkConst(c.trunc(iw))); }
    if (b->op == O_ZEXT && a->op == O_CONST) { unsigned iw = b->k[0]->w; APInt c = constVal(a);
      if (c.getActiveBits() > iw) return mkBool(false); return mkBin(O_ULT, mkConst(c.trunc(iw)), b->k[0]); }
    break;
  case O_ULE: if (a == b) return mkBool(true); if (isC(a,0)) return mkBool(true); break;
  case O_SLT: if (a == b) return mkBool(false);
    if (a->op == O_SEXT && b->op == O_CONST) { unsigned iw = a->k[0]->w; APInt c = constVal(b);
      if (c.trunc(iw).sext(w) == c) return mkBin(O_SLT, a->k[0], mkConst(c.trunc(iw))); }
    if (b->op == O_SEXT && a->op == O_CONST) { unsigned iw = b->k[0]->w; APInt c = constVal(a);
      if (c.trunc(iw).sext(w) == c) return mkBin(O_SLT, mkConst(c.trunc(iw)), b->k[0]); }
    if (a->op == O_ZEXT && a->k[0]->w < w && b->op == O_CONST) {
      APInt c = constVal(b); if (c.isNonPositive()) return mkBool(false);
      return mkBin(O_ULT, a, b); }
    if (iteConstArms(a) && b->op == O_CONST) {
      Expr *x = foldBin(op, a->k[1], b), *y = foldBin(op, a->k[2], b);
      return mkIte(a->k[0], x, y); }
    if (iteConstArms(b) && a->op == O_CONST) {
      Expr *x = foldBin(op, a, b->k[1]), *y = foldBin(op, a, b->k[2]);
      return mkIte(b->k[0], x, y); }
    break;
  case O_SLE: if (a == b) return mkBool(true); break;
  default: break;
  }
  return node(op, rw, {a, b});
}
Expr *mkNot(Expr *a) {
  if (a->op == O_CONST) return mkConst(~constVal(a));
  if (a->op == O_NOT) return a->k[0];
  if (a->w == 1) {
    if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]);
    if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]);
    if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]);
    if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]);
    if (a->op == O_RLT) return mkRBin(O_RLE, a->k[1], a->k[0]);
    if (a->op == O_RLE) return mkRBin(O_RLT, a->k[1], a->k[0]);
  }
  return node(O_NOT, a->w, {a});
}
Expr *mkAnd(Expr *a, Expr *b) { return mkBin(O_AND, a, b); }
Expr *mkOr(Expr *a, Expr *b) { return mkBin(O_OR, a, b); }
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->op == O_CONST) return c->v ? a : b;
  if (a == b) return a;
  if (c->op == O_NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->op == O_CONST && b->op == O_CONST) return a->v ? c : mkNot(c);
    if (a->op == O_CONST) return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->op == O_CONST) return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == (a->w ? O_ITE : O_RITE) && a->k[0] == c) a = a->k[1];
  if (b->op == (b->w ? O_ITE : O_RITE) && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return node(a->w ? O_ITE : O_RITE, a->w, {c, a, b});
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  a = rcBits(a);
  if (a->op == O_CONST) return mkConst(constVal(a).extractBits(w, lo));
  if (a->op == O_EXTRACT) return mkExtract(a->k[0], lo + a->v, w);
  if (a->op == O_CONCAT) {
    unsigned lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  if (a->op == O_ZEXT) {
    unsigned iw = a->k[0]->w;
    if (lo >= iw) return mkConst(APInt(w, 0));
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
  }
  if (a->op == O_SEXT && lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
  if (a->op == O_SEXT && lo == 0) return mkSExt(a->k[0], w);
  if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR))
    return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
  if (a->op == O_ITE && a->k[1]->op == O_CONST && a->k[2]->op == O_CONST)
    return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  return node(O_EXTRACT, w, {a}, lo);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  if (hi->op == O_CONST && lo->op == O_CONST) return mkConst(constVal(hi).concat(constVal(lo)));
  if (isC(hi, 0)) return mkZExt(lo, hi->w + lo->w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->v == lo->v + lo->w)
    return mkExtract(hi->k[0], lo->v, hi->w + lo->w);
  if (hi->op == O_EXTRACT && lo->w == hi->v && lo == mkExtract(hi->k[0], 0, lo->w)) return mkExtract(hi->k[0], 0, hi->w + lo->w);
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->v == lo->k[0]->v + lo->k[0]->w)
    return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  return node(O_CONCAT, hi->w + lo->w, {hi, lo});
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->op == O_CONST) return mkConst(constVal(a).zext(w));
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (iteConstArms(a)) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return node(O_ZEXT, w, {a});
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (a->op == O_CONST) return mkConst(constVal(a).sext(w));
  if (a->op == O_SEXT) return mkSExt(a->k[0], w);
  if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  if (iteConstArms(a)) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return node(O_SEXT, w, {a});
}
// ---------------------------------------------------------------- reals
Expr *mkRConst(const mpq_class &q) { Expr t = blank(O_RCONST, 0); mpq_class c(q); c.canonicalize(); t.r = &c; return intern(t); }
Expr *mkRConst(double d) { return mkRConst(mpq_class(d)); }
double q2d(const mpq_class &q) { // nearest double
  double d = q.get_d(); // truncates toward zero
  if (mpq_class(d) == q) return d;
  double up = std::nextafter(d, sgn(q) >= 0 ? INFINITY : -INFINITY);
  if (std::isinf(up)) return d;
  mpq_class e1 = abs(q - mpq_class(d)), e2 = abs(mpq_class(up) - q);
  return e2 < e1 ? up : d;
}
static bool isR(Expr *e, int v) { return e->op == O_RCONST && *e->r == v; }
Expr *mkRNeg(Expr *a) {
  if (a->op == O_RCONST) return mkRConst(mpq_class(-*a->r));
  if (a->op == O_RNEG) return a->k[0];
  if (a->op == O_RSUB) return mkRBin(O_RSUB, a->k[1], a->k[0]);
  if (a->op == O_RMUL && a->k[1]->op == O_RCONST) return mkRBin(O_RMUL, a->k[0], mkRNeg(a->k[1]));
  return node(O_RNEG, 0, {a});
}
Expr *mkRBin(Op op, Expr *a, Expr *b) {
  if (a->op == O_RCONST && b->op == O_RCONST) {
    switch (op) {
    case O_RADD: return mkRConst(mpq_class(*a->r + *b->r));
    case O_RSUB: return mkRConst(mpq_class(*a->r - *b->r));
    case O_RMUL: return mkRConst(mpq_class(*a->r * *b->r));
    case O_RDIV: if (*b->r != 0) return mkRConst(mpq_class(*a->r / *b->r)); break;
    case O_REQ: return mkBool(*a->r == *b->r);
    case O_RLT: return mkBool(*a->r < *b->r);
    case O_RLE: return mkBool(*a->r <= *b->r);
    default: break;
    }
  }
  bool comm = op == O_RADD || op == O_RMUL || op == O_REQ;
  if (comm && (a->op == O_RCONST || (b->op != O_RCONST && a->id > b->id))) std::swap(a, b);
  switch (op) {
  case O_RADD:
    if (isR(b, 0)) return a;
    if (b->op == O_RNEG) return mkRBin(O_RSUB, a, b->k[0]);
    if (a->op == O_RNEG) return mkRBin(O_RSUB, b, a->k[0]);
    if (b->op == O_RCONST && a->op == O_RADD && a->k[1]->op == O_RCONST) return mkRBin(O_RADD, a->k[0], mkRBin(O_RADD, a->k[1], b));
    if (a->op == O_RSUB && a->k[1] == b) return a->k[0];
    if (b->op == O_RSUB && b->k[1] == a) return b->k[0];
    return node(O_RADD, 0, {a, b});
  case O_RSUB:
    if (isR(b, 0)) return a;
    if (isR(a, 0)) return mkRNeg(b);
    if (a == b) return mkRConst(mpq_class(0));
    if (b->op == O_RNEG) return mkRBin(O_RADD, a, b->k[0]);
    if (b->op == O_RCONST) return mkRBin(O_RADD, a, mkRNeg(b));
    if (a->op == O_RADD && a->k[1] == b) return a->k[0];
    if (a->op == O_RADD && a->k[0] == b) return a->k[1];
    return node(O_RSUB, 0, {a, b});
  case O_RMUL:
    if (isR(b, 0)) return b;
    if (isR(b, 1)) return a;
    if (isR(b, -1)) return mkRNeg(a);
    if (a->op == O_RNEG && b->op == O_RNEG) return mkRBin(O_RMUL, a->k[0], b->k[0]);
    if (a->op == O_RNEG) return mkRNeg(mkRBin(O_RMUL, a->k[0], b));
    if (b->op == O_RNEG) return mkRNeg(mkRBin(O_RMUL, a, b->k[0]));
    if (b->op == O_RCONST && a->op == O_RMUL && a->k[1]->op == O_RCONST) return mkRBin(O_RMUL, a->k[0], mkRBin(O_RMUL, a->k[1], b));
    return node(O_RMUL, 0, {a, b});
  case O_RDIV:
    if (isR(a, 0) && b->op != O_RCONST) return a; // b != 0 is recorded by the executor
    if (b->op == O_RCONST && *b->r != 0) return mkRBin(O_RMUL, a, mkRConst(mpq_class(1 / *b->r)));
    if (a == b) return mkRConst(mpq_class(1));
    return node(O_RDIV, 0, {a, b});
  case O_REQ:
    if (a == b) return mkBool(true);
    if (a->op == O_RNEG && b->op == O_RNEG) return mkRBin(O_REQ, a->k[0], b->k[0]);
    if (a->op == O_RNEG && b->op == O_RCONST) return mkRBin(O_REQ, a->k[0], mkRNeg(b));
    if (a->op == O_RITE && b->op == O_RCONST && a->k[1]->op == O_RCONST && a->k[2]->op == O_RCONST)
      return mkIte(a->k[0], mkBool(a->k[1] == b), mkBool(a->k[2] == b));
    return node(O_REQ, 1, {a, b});
  case O_RLT: if (a == b) return mkBool(false); break;
  case O_RLE: if (a == b) return mkBool(true); break;
  default: break;
  }
  if ((op == O_RLT || op == O_RLE)) {
    if (a->op == O_RITE && b->op == O_RCONST && a->k[1]->op == O_RCONST && a->k[2]->op == O_RCONST)
      return mkIte(a->k[0], mkRBin(op, a->k[1], b), mkRBin(op, a->k[2], b));
    return node(op, 1, {a, b});
  }
  return node(op, 0, {a, b});
}
// linear normal form: coeff map over atoms
static bool linForm(Expr *e, const mpq_class &c, std::map<Expr *, mpq_class> &m, mpq_class &k, int depth) {
  if (depth > 64) return false;
  switch (e->op) {
  case O_RCONST: k += c * *e->r; return true;
  case O_RADD: return linForm(e->k[0], c, m, k, depth + 1) && linForm(e->k[1], c, m, k, depth + 1);
  case O_RSUB: return linForm(e->k[0], c, m, k, depth + 1) && linForm(e->k[1], mpq_class(-c), m, k, depth + 1);
  case O_RNEG: return linForm(e->k[0], mpq_class(-c), m, k, depth + 1);
  case O_RMUL: if (e->k[1]->op == O_RCONST) return linForm(e->k[0], mpq_class(c * *e->k[1]->r), m, k, depth + 1);
    m[e] += c; return true;
  default: m[e] += c; return true;
  }
}
struct IdLess { bool operator()(Expr *a, Expr *b) const { return a->id < b->id; } };
static Expr *canonArg(Expr *a, bool &neg, bool allowNeg) {
  std::map<Expr *, mpq_class> m; mpq_class k = 0; neg = false;
  if (!linForm(a, 1, m, k, 0)) return a;
  std::vector<std::pair<Expr *, mpq_class>> v;
  for (auto &p : m) if (p.second != 0) v.push_back(p);
  std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  mpq_class lead = v.empty() ? k : v[0].second;
  if (allowNeg && lead < 0) neg = true;
  Expr *r = nullptr;
  for (auto &p : v) {
    mpq_class c = neg ? mpq_class(-p.second) : p.second;
    Expr *t = mkRBin(O_RMUL, p.first, mkRConst(c));
    r = r ? node(O_RADD, 0, {r, t}) : t;
  }
  mpq_class kk = neg ? mpq_class(-k) : k;
  if (!r) return mkRConst(kk);
  if (kk != 0) r = node(O_RADD, 0, {r, mkRConst(kk)});
  return r;
}
Expr *mkRFun(RFn f, Expr *a, Expr *b) {
  bool neg = false;
  switch (f) {
  case F_SIN: a = canonArg(a, neg, true); if (isR(a, 0)) return a; { Expr *r = node(O_RFUN, 0, {a}, f); return neg ? mkRNeg(r) : r; }
  case F_COS: a = canonArg(a, neg, true); if (isR(a, 0)) return mkRConst(mpq_class(1)); return node(O_RFUN, 0, {a}, f);
  case F_TAN: return mkRBin(O_RDIV, mkRFun(F_SIN, a), mkRFun(F_COS, a));
  case F_ATAN: case F_ASIN: case F_TANH: a = canonArg(a, neg, true); if (isR(a, 0)) return a; { Expr *r = node(O_RFUN, 0, {a}, f); return neg ? mkRNeg(r) : r; }
  case F_EXP: a = canonArg(a, neg, false); if (isR(a, 0)) return mkRConst(mpq_class(1)); break;
  case F_LOG: a = canonArg(a, neg, false); if (isR(a, 1)) return mkRConst(mpq_class(0)); break;
  case F_SQRT:
    if (a->op == O_RCONST && sgn(*a->r) >= 0) {
      mpz_class n = a->r->get_num(), d = a->r->get_den();
      if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t()))
        return mkRConst(mpq_class(sqrt(n), sqrt(d)));
    }
    a = canonArg(a, neg, false);
    break;
  case F_FLOOR: case F_CEIL:
    if (a->op == O_RCONST) {
      mpz_class q;
      if (f == F_FLOOR) mpz_fdiv_q(q.get_mpz_t(), a->r->get_num_mpz_t(), a->r->get_den_mpz_t());
      else mpz_cdiv_q(q.get_mpz_t(), a->r->get_num_mpz_t(), a->r->get_den_mpz_t());
      return mkRConst(mpq_class(q));
    }
    break;
  case F_POW:
    if (b->op == O_RCONST && b->r->get_den() == 1 && b->r->get_num() >= 0 && b->r->get_num() <= 8) {
      long n = b->r->get_num().get_si(); Expr *r = mkRConst(mpq_class(1));
      for (long i = 0; i < n; i++) r = mkRBin(O_RMUL, r, a);
      return r;
    }
    if (b->op == O_RCONST && *b->r == mpq_class(1, 2)) return mkRFun(F_SQRT, a);
    if (b->op == O_RCONST && b->r->get_den() == 1 && b->r->get_num() < 0 && b->r->get_num() >= -8)
      return mkRBin(O_RDIV, mkRConst(mpq_class(1)), mkRFun(F_POW, a, mkRNeg(b)));
    break;
  default: break;
  }
  if (b) return node(O_RFUN, 0, {a, b}, f);
  return node(O_RFUN, 0, {a}, f);
}
Expr *mkInt2Real(Expr *a, bool sgn) {
  if (a->op == O_CONST) {
    SmallString<64> s; constVal(a).toString(s, 10, sgn);
    return mkRConst(mpq_class(mpz_class(std::string(s.c_str()))));
  }
  if (a->op == O_ITE) return mkIte(a->k[0], mkInt2Real(a->k[1], sgn), mkInt2Real(a->k[2], sgn));
  if (a->op == O_ZEXT) return mkInt2Real(a->k[0], false);
  if (a->op == O_SEXT && sgn) return mkInt2Real(a->k[0], true);
  return node(sgn ? O_S2R : O_U2R, 0, {a});
}
// bits of a constant that is no double, once they are looked at
Expr *rcBits(Expr *e) {
  if (e->op != O_RBITS || e->k[0]->op != O_RCONST) return e;
  double d = q2d(*e->k[0]->r); if (e->w == 64) { uint64_t u; memcpy(&u, &d, 8); return mkConst(64, u); }
  float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return mkConst(32, u);
}
Expr *mkRBits(Expr *a, unsigned w) {
  if (a->op == O_RCONST) {
    double d = q2d(*a->r);
    if (mpq_class(d) != *a->r) return node(O_RBITS, w, {a}); // kept exact while it is only moved; see rcBits
    if (w == 64) { uint64_t u; memcpy(&u, &d, 8); return mkConst(64, u); }
    float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return mkConst(32, u);
  }
  if (a->op == O_BITSR && a->k[0]->w == w) return a->k[0];
  return node(O_RBITS, w, {a});
}
Expr *mkBitsR(Expr *a) {
  if (a->op == O_RBITS) return a->k[0];
  if (a->op == O_CONST && a->w == 64) { double d; memcpy(&d, &a->v, 8); if (std::isfinite(d)) return mkRConst(d); }
  if (a->op == O_CONST && a->w == 32) { float d; uint32_t u = a->v; memcpy(&d, &u, 4); if (std::isfinite(d)) return mkRConst((double)d); }
  if (a->op == O_ITE) return mkIte(a->k[0], mkBitsR(a->k[1]), mkBitsR(a->k[2]));
  return node(O_BITSR, 0, {a});
}
const std::vector<uint32_t> &exprVars(Expr *e) {
  if (e->vars) return *e->vars;
  auto *v = new std::vector<uint32_t>();
  if (e->op == O_VAR || e->op == O_RVAR) v->push_back(e->id);
  else for (int i = 0; i < e->n; i++) {
    const auto &o = exprVars(e->k[i]);
    if (v->empty()) *v = o;
    else if (!o.empty()) {
      std::vector<uint32_t> t; t.reserve(v->size() + o.size());
      std::set_union(v->begin(), v->end(), o.begin(), o.end(), std::back_inserter(t)); v->swap(t);
    }
  }
  e->vars = v; return *v;
}
static const char *opn[] = {"const","var","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","~","=","u<","u<=","<","<=","ite","++","ext","zext","sext","rc","rv","+","-","*","/","neg","fun","=","<","<=","ite","s2r","u2r","bits","frombits"};
std::string exprStr(Expr *e, int d) {
  if (e->op == O_CONST) { SmallString<64> s; constVal(e).toString(s, 10, e->w > 1); return std::string(s.c_str()); }
  if (e->op == O_RCONST) { char b[64]; snprintf(b, 64, "%.17g", q2d(*e->r)); return b; }
  if (e->op == O_VAR || e->op == O_RVAR) return gVars[e->v].name;
  if (d <= 0) return "...";
  std::string s = "("; s += e->op == O_RFUN ? rfnName[e->v] : opn[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->v + e->w - 1) + ":" + std::to_string(e->v) + "]";
  for (int i = 0; i < e->n; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
static Expr *rd(Expr *e, Expr *x, std::unordered_map<Expr *, Expr *> &memo, std::string &err) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *Z = mkRConst(mpq_class(0)), *r = Z;
  auto D = [&](Expr *k) { return rd(k, x, memo, err); };
  auto dep = exprVars(e);
  if (!std::binary_search(dep.begin(), dep.end(), x->id)) { memo[e] = Z; return Z; }
  switch (e->op) {
  case O_RVAR: r = e == x ? mkRConst(mpq_class(1)) : Z; break;
  case O_RADD: case O_RSUB: r = mkRBin(e->op, D(e->k[0]), D(e->k[1])); break;
  case O_RNEG: r = mkRNeg(D(e->k[0])); break;
  case O_RMUL: r = mkRBin(O_RADD, mkRBin(O_RMUL, D(e->k[0]), e->k[1]), mkRBin(O_RMUL, e->k[0], D(e->k[1]))); break;
  case O_RDIV: { Expr *num = mkRBin(O_RSUB, mkRBin(O_RMUL, D(e->k[0]), e->k[1]), mkRBin(O_RMUL, e->k[0], D(e->k[1])));
    r = mkRBin(O_RDIV, num, mkRBin(O_RMUL, e->k[1], e->k[1])); break; }
  case O_RITE: r = mkIte(e->k[0], D(e->k[1]), D(e->k[2])); break;
  case O_RFUN: {
    Expr *da = D(e->k[0]);
    switch ((RFn)e->v) {
    case F_SIN: r = mkRBin(O_RMUL, mkRFun(F_COS, e->k[0]), da); break;
    case F_COS: r = mkRNeg(mkRBin(O_RMUL, mkRFun(F_SIN, e->k[0]), da)); break;
    case F_EXP: r = mkRBin(O_RMUL, e, da); break;
    case F_LOG: r = mkRBin(O_RDIV, da, e->k[0]); break;
    case F_SQRT: r = mkRBin(O_RDIV, da, mkRBin(O_RMUL, mkRConst(mpq_class(2)), e)); break;
    case F_ATAN: r = mkRBin(O_RDIV, da, mkRBin(O_RADD, mkRConst(mpq_class(1)), mkRBin(O_RMUL, e->k[0], e->k[0]))); break;
    case F_ATAN2: { Expr *y = e->k[0], *xx = e->k[1]; Expr *dx = D(xx);
      Expr *den = mkRBin(O_RADD, mkRBin(O_RMUL, y, y), mkRBin(O_RMUL, xx, xx));
      r = mkRBin(O_RDIV, mkRBin(O_RSUB, mkRBin(O_RMUL, xx, da), mkRBin(O_RMUL, y, dx)), den); break; }
    default: err = std::string("derivative of ") + rfnName[e->v]; r = Z;
    } break; }
  default: err = std::string("derivative through op ") + opn[e->op]; r = Z;
  }
  memo[e] = r; return r;
}
Expr *rdiff(Expr *e, Expr *var, std::string &err) { std::unordered_map<Expr *, Expr *> memo; return rd(e, var, memo, err); }

static std::unordered_map<Expr *, bool> gHasFun;
static bool hasFun(Expr *e) { if (e->op == O_RFUN) return true; if (!e->n) return false; auto it = gHasFun.find(e); if (it != gHasFun.end()) return it->second; bool r = false; for (int i = 0; i < e->n && !r; i++) r = hasFun(e->k[i]); return gHasFun[e] = r; }
// function values of a model are approximations: a comparison decided by less than rounding is unknown
static bool closeQ(Expr *e, const mpq_class &a, const mpq_class &b) { if (!hasFun(e)) return false; mpq_class d = abs(a - b), s = 1 + abs(a) + abs(b); return d * 10000000 < s; }
static bool ev(Expr *e, const Model &m, std::unordered_map<Expr *, MVal> &memo, MVal &out) {
  switch (e->op) {
  case O_CONST: out.real = false; out.i = constVal(e); return true;
  case O_RCONST: out.real = true; out.q = *e->r; return true;
  case O_VAR: { auto it = m.find(e->id); out.real = false; out.i = it == m.end() ? APInt(e->w, 0) : it->second.i; return true; }
  case O_RVAR: { auto it = m.find(e->id); out.real = true; if (it == m.end()) out.q = 0; else out.q = it->second.q; return true; }
  case O_RFUN: { auto it = m.find(e->id); if (it == m.end()) return false; out.real = true; out.q = it->second.q; return true; }
  case O_RBITS: { Expr *c = rcBits(e); if (c == e) return false; out.real = false; out.i = constVal(c); return true; }
  case O_BITSR: return false;
  default: break;
  }
  auto it = memo.find(e); if (it != memo.end()) { out = it->second; return true; }
  MVal a, b;
  if (e->op == O_ITE || e->op == O_RITE) {
    if (!ev(e->k[0], m, memo, a)) return false;
    if (!ev(e->k[a.i.getBoolValue() ? 1 : 2], m, memo, out)) return false;
    memo[e] = out; return true;
  }
  if (!ev(e->k[0], m, memo, a)) return false;
  if (e->w == 1 && (e->op == O_AND || e->op == O_OR)) {
    bool av = a.i.getBoolValue();
    if (e->op == O_AND && !av) { out = a; return true; }
    if (e->op == O_OR && av) { out = a; return true; }
  }
  if (e->n > 1 && !ev(e->k[1], m, memo, b)) return false;
  if ((e->op == O_REQ || e->op == O_RLT || e->op == O_RLE) && closeQ(e, a.q, b.q)) return false;
  out.real = e->w == 0; unsigned w = a.real ? 0 : a.i.getBitWidth();
  switch (e->op) {
  case O_ADD: out.i = a.i + b.i; break; case O_SUB: out.i = a.i - b.i; break; case O_MUL: out.i = a.i * b.i; break;
  case O_UDIV: if (b.i == 0) return false; out.i = a.i.udiv(b.i); break;
  case O_SDIV: if (b.i == 0) return false; out.i = a.i.sdiv(b.i); break;
  case O_UREM: if (b.i == 0) return false; out.i = a.i.urem(b.i); break;
  case O_SREM: if (b.i == 0) return false; out.i = a.i.srem(b.i); break;
  case O_AND: out.i = a.i & b.i; break; case O_OR: out.i = a.i | b.i; break; case O_XOR: out.i = a.i ^ b.i; break;
  case O_SHL: out.i = b.i.uge(w) ? APInt(w, 0) : a.i.shl(b.i); break;
  case O_LSHR: out.i = b.i.uge(w) ? APInt(w, 0) : a.i.lshr(b.i); break;
  case O_ASHR: out.i = b.i.uge(w) ? a.i.ashr(w - 1) : a.i.ashr(b.i); break;
  case O_NOT: out.i = ~a.i; break;
  case O_EQ: out.i = APInt(1, a.i == b.i); break; case O_ULT: out.i = APInt(1, a.i.ult(b.i)); break;
  case O_ULE: out.i = APInt(1, a.i.ule(b.i)); break; case O_SLT: out.i = APInt(1, a.i.slt(b.i)); break;
  case O_SLE: out.i = APInt(1, a.i.sle(b.i)); break;
  case O_CONCAT: out.i = a.i.concat(b.i); break;
  case O_EXTRACT: out.i = a.i.extractBits(e->w, e->v); break;
  case O_ZEXT: out.i = a.i.zext(e->w); break; case O_SEXT: out.i = a.i.sext(e->w); break;
  case O_RADD: out.q = a.q + b.q; break; case O_RSUB: out.q = a.q - b.q; break; case O_RMUL: out.q = a.q * b.q; break;
  case O_RDIV: if (b.q == 0) return false; out.q = a.q / b.q; break;
  case O_RNEG: out.q = -a.q; break;
  case O_REQ: out.i = APInt(1, a.q == b.q); break; case O_RLT: out.i = APInt(1, a.q < b.q); break; case O_RLE: out.i = APInt(1, a.q <= b.q); break;
  case O_S2R: case O_U2R: { SmallString<64> s; a.i.toString(s, 10, e->op == O_S2R); out.q = mpq_class(mpz_class(std::string(s.c_str()))); break; }
  default: return false;
  }
  memo[e] = out; return true;
}
bool evalExpr(Expr *e, const Model &m, MVal &out) { std::unordered_map<Expr *, MVal> memo; return ev(e, m, memo, out); }
int evalBool(Expr *e, const Model &m) { MVal v; if (!evalExpr(e, m, v)) return -1; return v.i.getBoolValue(); }
}
