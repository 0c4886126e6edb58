#pragma once
#include "expr.h"
#include "solver.h"
#include <memory>
#include <set>
#include <functional>
#include <cmath>
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"

namespace gpse {
struct Agg;
enum VK : uint8_t { V_NONE, V_BV, V_RD, V_EX, V_AGG };
struct Val {
  VK k; uint16_t w; union { uint64_t v; double d; Expr *e; Agg *a; };
  Val() : k(V_NONE), w(0), v(0) {}
};
struct Agg { std::vector<Val> f; };
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val vBV(unsigned w, uint64_t v) { Val r; r.k = V_BV; r.w = w; r.v = v & msk(w); return r; }
static inline Val vRD(double d) { Val r; r.k = V_RD; r.w = 0; r.d = d; return r; }
static inline Val vEX(Expr *e) {
  Val r;
  if (e->op == O_CONST && !e->big) { r.k = V_BV; r.w = e->w; r.v = e->v; return r; }
  if (e->op == O_RCONST) { double d = e->r->get_d(); if (std::isfinite(d) && mpq_class(d) == *e->r) return vRD(d); }
  r.k = V_EX; r.w = e->w; r.e = e; return r;
}
static inline Expr *toE(const Val &v) {
  switch (v.k) { case V_BV: return mkConst(v.w, v.v); case V_RD: return mkRConst(v.d); case V_EX: return v.e; default: return mkConst(64, 0); }
}
static inline bool isConc(const Val &v) { return v.k == V_BV || v.k == V_RD; }
static inline int64_t sx(const Val &v) { return v.w >= 64 ? (int64_t)v.v : ((int64_t)(v.v << (64 - v.w)) >> (64 - v.w)); }

struct MemObj {
  uint64_t base; uint32_t size; uint8_t kind; // 0 global 1 const global 2 heap(malloc) 3 stack 4 heap(new) 5 heap(new[]) 6 function
  std::vector<uint8_t> b, tag;                // tag: empty if all concrete; 0 concrete 1 uninit 2 cell start 3 cell cont
  std::map<uint32_t, Val> cells;
  std::map<uint32_t, uint32_t> clen;
  const char *nm = nullptr;
};
typedef std::shared_ptr<MemObj> ObjP;
struct Chunk { ObjP o[64]; };
struct PageTab {
  std::vector<std::shared_ptr<Chunk>> c;
  MemObj *get(uint64_t i) const { uint64_t k = i >> 6; if (k >= c.size() || !c[k]) return nullptr; return c[k]->o[i & 63].get(); }
  ObjP &slot(uint64_t i) { uint64_t k = i >> 6; if (k >= c.size()) c.resize(k + 1);
    if (!c[k]) c[k] = std::make_shared<Chunk>(); else if (c[k].use_count() > 1) c[k] = std::make_shared<Chunk>(*c[k]);
    return c[k]->o[i & 63]; }
  MemObj *wr(uint64_t i) { ObjP &p = slot(i); if (!p) return nullptr; if (p.use_count() > 1) p = std::make_shared<MemObj>(*p); return p.get(); }
};

struct TypeD { enum K : uint8_t { INT, FP, AGG, VOID } k; uint16_t w; uint32_t size; std::vector<std::pair<uint32_t, TypeD *>> f; };

struct Opnd { int32_t slot = -1; Val c; };
struct FuncInfo; struct DInst;
typedef int (*ExtFn)(struct State &, DInst &, std::vector<Val> &, Val &); // 0 ok, 1 state redirected/ended
struct DInst {
  unsigned op = 0; int32_t dst = -1; uint16_t w = 0; uint8_t sub = 0; uint8_t flag = 0;
  std::vector<Opnd> ops;
  std::vector<std::pair<uint64_t, int>> cases; // switch
  int t0 = -1, t1 = -1;                        // target blocks
  uint64_t imm = 0; std::vector<uint64_t> scales;
  TypeD *ty = nullptr; int blk = 0; const llvm::Instruction *I = nullptr;
  llvm::Function *callee = nullptr; ExtFn ext = nullptr; FuncInfo *fi = nullptr; bool resolved = false;
};
struct Phi { int dst; std::vector<Opnd> in; std::vector<int> from; };
struct BlockD { int start = 0; std::vector<Phi> phis; };
struct FuncInfo { llvm::Function *F; int nregs = 0; std::vector<DInst> ins; std::vector<BlockD> bb; std::vector<int> argSlot; uint64_t calls = 0; std::string name; bool fresh = true; };

struct Frame {
  FuncInfo *f; int pc; int prevBlk; std::vector<Val> r; std::vector<uint64_t> allocas; std::vector<Val> va; uint64_t vaObj = 0;
};
struct Thread { std::vector<Frame> st; bool done = false; PageTab stk; uint64_t sp = 1; uint64_t curExc = 0; int curSel = 0; };
struct ExcRec { uint64_t ti, dtor, adj; int handlers; };
struct State {
  uint64_t id;
  std::vector<Thread> th; int cur = 0;
  PageTab heap;
  std::shared_ptr<std::vector<int>> dummy;
  std::vector<Expr *> pc;
  std::shared_ptr<Model> model; // satisfies pc, or null
  std::map<std::string, int> names;
  std::map<uint64_t, ExcRec> exc; std::vector<uint64_t> caught;
  std::vector<std::string> notes;
  uint64_t nextId, steps = 0, forks = 0; int depth = 0; bool allowExit = false; bool leakcheck = false;
  std::vector<Val> regs; // for harness intrinsics
  bool pcUnknown = false, violated = false; int regsFp = 0; // pcUnknown: some branch was taken without proof of feasibility
};
}
