// Hash-consed expression layer of the gpse symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <gmpxx.h>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/Hashing.h"

namespace gpse {

enum Op : uint8_t {
  // bit-vector (w>=1); w==1 doubles as bool
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_NOT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // real (w==0)
  O_RCONST, O_RVAR, O_RADD, O_RSUB, O_RMUL, O_RDIV, O_RNEG, O_RFUN,
  O_REQ, O_RLT, O_RLE,            // -> bool
  O_RITE,
  O_S2R, O_U2R,                   // int -> real
  O_RBITS,                        // real -> BV64/32 (opaque ieee bits)
  O_BITSR                         // BV64/32 -> real (opaque)
};

enum RFn : uint8_t { F_SIN, F_COS, F_SQRT, F_EXP, F_LOG, F_ATAN2, F_ATAN, F_POW, F_TAN, F_ASIN, F_ACOS, F_FLOOR, F_CEIL, F_TANH, F_FMOD, F_LOG10 };
extern const char *rfnName[];

struct Expr {
  Op op; uint8_t n; uint16_t w;
  uint32_t id;
  Expr *k[3];
  uint64_t v;            // const value / extract low / var index / fn
  mpq_class *r;          // real const
  llvm::APInt *big;      // wide const
  size_t h;
  std::vector<uint32_t> *vars; // memo: sorted variable ids
  bool isConst() const { return op == O_CONST || op == O_RCONST; }
  bool isReal() const { return w == 0; }
};

struct VarInfo { std::string name; uint16_t w; Expr *e; bool undef; };
extern std::vector<VarInfo> gVars;

Expr *mkConst(uint16_t w, uint64_t v);
Expr *mkConst(const llvm::APInt &v);
Expr *mkBool(bool b);
Expr *mkVar(uint16_t w, const std::string &name, bool undef = false); // w==0 => real
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkRConst(const mpq_class &q);
Expr *mkRConst(double d);
Expr *mkRBin(Op op, Expr *a, Expr *b);
Expr *mkRNeg(Expr *a);
Expr *mkRFun(RFn f, Expr *a, Expr *b = nullptr);
Expr *mkInt2Real(Expr *a, bool sgn);
Expr *mkRBits(Expr *a, unsigned w);
Expr *rcBits(Expr *e);
Expr *mkBitsR(Expr *a);
Expr *mkAnd(Expr *a, Expr *b);
Expr *mkOr(Expr *a, Expr *b);
llvm::APInt constVal(Expr *e);
const std::vector<uint32_t> &exprVars(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
Expr *rdiff(Expr *e, Expr *var, std::string &err);
double q2d(const mpq_class &q);
size_t exprCount();
Expr *exprById(uint32_t id);

struct MVal { bool real; llvm::APInt i; mpq_class q; MVal() : real(false), i(1, 0) {} };
typedef std::unordered_map<uint32_t, MVal> Model; // key: var expr id / rfun expr id
// evaluate; returns false if it cannot (unknown function value, division by 0)
bool evalExpr(Expr *e, const Model &m, MVal &out);
int evalBool(Expr *e, const Model &m); // 1,0,-1
}
