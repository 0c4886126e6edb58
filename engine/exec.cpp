// gpse: symbolic executor for LLVM IR (core).
#include "exec.h"
#include "eng.h"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SmallString.h"
using namespace llvm;
namespace gpse {
Module *M; const DataLayout *DL;
std::vector<std::unique_ptr<State>> work;
Results R; Options opt;
std::unordered_map<const Function *, FuncInfo *> fmap;
std::unordered_map<const GlobalValue *, uint64_t> gaddr;
std::unordered_map<uint64_t, Function *> faddr;
static uint64_t nextState = 1;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double tStart;
std::string demang(const std::string &s) { return demangle(s); }

// ------------------------------------------------------------------ types
static std::unordered_map<Type *, TypeD *> tmap;
TypeD *typeD(Type *t) {
  auto it = tmap.find(t); if (it != tmap.end()) return it->second;
  TypeD *d = new TypeD(); tmap[t] = d; d->w = 0; d->size = 0;
  if (t->isIntegerTy()) { d->k = TypeD::INT; d->w = t->getIntegerBitWidth(); d->size = DL->getTypeStoreSize(t); }
  else if (t->isPointerTy()) { d->k = TypeD::INT; d->w = 64; d->size = 8; }
  else if (t->isFloatingPointTy()) { d->k = TypeD::FP; d->w = t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : t->isHalfTy() ? 16 : 80; d->size = t->isFloatTy() ? 4 : t->isDoubleTy() ? 8 : t->isHalfTy() ? 2 : 10; }
  else if (auto *st = dyn_cast<StructType>(t)) { d->k = TypeD::AGG; if (st->isSized()) { d->size = DL->getTypeAllocSize(t);
      for (unsigned i = 0; i < st->getNumElements(); i++) d->f.push_back({(uint32_t)DL->getStructLayout(st)->getElementOffset(i), typeD(st->getElementType(i))}); } }
  else if (auto *at = dyn_cast<ArrayType>(t)) { d->k = TypeD::AGG; d->size = DL->getTypeAllocSize(t); uint64_t es = DL->getTypeAllocSize(at->getElementType());
    uint64_t n = at->getNumElements(); if (n > 4096) n = 0; for (uint64_t i = 0; i < n; i++) d->f.push_back({(uint32_t)(i * es), typeD(at->getElementType())}); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { d->k = TypeD::AGG; d->size = DL->getTypeStoreSize(t); uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) d->f.push_back({(uint32_t)(i * es), typeD(vt->getElementType())}); }
  else d->k = TypeD::VOID;
  return d;
}
Val zeroOf(TypeD *t) {
  if (t->k == TypeD::INT) return t->w <= 64 ? vBV(t->w, 0) : vEX(mkConst(APInt(t->w, 0)));
  if (t->k == TypeD::FP) return vRD(0);
  Val v; v.k = V_AGG; v.a = new Agg(); for (auto &p : t->f) v.a->f.push_back(zeroOf(p.second)); return v;
}
// ------------------------------------------------------------------ memory
bool isStackAddr(uint64_t a) { return (a >> 60) == 1; }
MemObj *findObj(State &S, uint64_t addr) {
  if (isStackAddr(addr)) { unsigned t = (addr >> 52) & 0xff; if (t >= S.th.size()) return nullptr; return S.th[t].stk.get((addr & ((1ull << 52) - 1)) >> 24); }
  if (addr >> 60) return nullptr;
  return S.heap.get(addr >> 24);
}
MemObj *wrObj(State &S, uint64_t addr) {
  if (isStackAddr(addr)) { unsigned t = (addr >> 52) & 0xff; return S.th[t].stk.wr((addr & ((1ull << 52) - 1)) >> 24); }
  return S.heap.wr(addr >> 24);
}
static ObjP newObj(uint64_t base, uint64_t size, uint8_t kind, bool uninit) {
  auto o = std::make_shared<MemObj>(); o->base = base; o->size = size; o->kind = kind;
  o->b.assign(size, 0); if (uninit && size) o->tag.assign(size, 1); return o;
}
uint64_t allocHeap(State &S, uint64_t size, uint8_t kind, bool uninit) {
  if (size > (1u << 24) - 64) { return 0; }
  uint64_t id = S.nextId++; S.heap.slot(id) = newObj(id << 24, size, kind, uninit); return id << 24;
}
uint64_t allocStack(State &S, uint64_t size) {
  Thread &t = S.th[S.cur]; uint64_t id = t.sp++; uint64_t base = (1ull << 60) | ((uint64_t)S.cur << 52) | (id << 24);
  t.stk.slot(id) = newObj(base, size, 3, true); t.st.back().allocas.push_back(id); return base;
}
static int undefCnt = 0;
static void splitCells(MemObj *o, uint32_t off, uint32_t n) { // break cells overlapping [off,off+n) into bytes
  if (o->tag.empty()) return;
  uint32_t s = off; while (s > 0 && o->tag[s] == 3) s--;
  for (uint32_t i = s; i < off + n;) {
    if (o->tag[i] != 2) { i++; continue; }
    uint32_t len = o->clen[i];
    if (i >= off && i + len <= off + n) { i += len; continue; } // will be overwritten entirely
    if (len == 1) { i++; continue; }
    Val v = o->cells[i]; Expr *e = toE(v); if (e->isReal()) e = mkRBits(e, len * 8 > 64 ? 64 : len * 8);
    for (uint32_t j = 0; j < len; j++) {
      Expr *be = j * 8 + 8 <= e->w ? mkExtract(e, j * 8, 8) : mkConst(8, 0);
      o->cells[i + j] = vEX(be); o->clen[i + j] = 1; o->tag[i + j] = 2;
    }
    i += len;
  }
}
static void clearCells(MemObj *o, uint32_t off, uint32_t n) {
  if (o->tag.empty()) return;
  splitCells(o, off, n);
  for (uint32_t i = off; i < off + n; i++) { if (o->tag[i] == 2) { o->cells.erase(i); o->clen.erase(i); } o->tag[i] = 0; }
}
static void storeScalar(MemObj *o, uint32_t off, uint32_t n, const Val &v, TypeD *t) {
  if (v.k == V_NONE) return;
  clearCells(o, off, n);
  if (v.k == V_BV) { uint64_t x = v.v; for (uint32_t i = 0; i < n; i++) { o->b[off + i] = i < 8 ? (x >> (8 * i)) & 255 : 0; } return; }
  if (v.k == V_RD && t->k == TypeD::FP && t->w == 64) { memcpy(&o->b[off], &v.d, 8); return; }
  if (v.k == V_RD && t->k == TypeD::FP && t->w == 32 && (double)(float)v.d == v.d) { float f = v.d; memcpy(&o->b[off], &f, 4); return; }
  if (v.k == V_EX && v.e->op == O_CONST) { APInt c = constVal(v.e); for (uint32_t i = 0; i < n; i++) o->b[off + i] = i * 8 < c.getBitWidth() ? c.extractBitsAsZExtValue(std::min(8u, c.getBitWidth() - i * 8), i * 8) : 0; return; }
  if (o->tag.empty()) o->tag.assign(o->size, 0);
  Val c = v;
  if (c.k == V_EX && c.w && c.w < n * 8) c = vEX(mkZExt(c.e, n * 8));
  o->cells[off] = c; o->clen[off] = n; o->tag[off] = 2; for (uint32_t i = 1; i < n; i++) o->tag[off + i] = 3;
}
static Val conv(const Val &v, TypeD *t, uint32_t n) { // cell value -> requested type of same byte size
  if (t->k == TypeD::FP) {
    if (v.k == V_RD) return v;
    if (v.k == V_BV) { if (t->w == 64) { double d; memcpy(&d, &v.v, 8); return vRD(d); } if (t->w == 32) { float f; uint32_t u = v.v; memcpy(&f, &u, 4); return vRD(f); } return vRD(0); }
    if (v.k == V_EX && v.e->isReal()) return v;
    return vEX(mkBitsR(v.e));
  }
  if (v.k == V_RD) { uint64_t u; memcpy(&u, &v.d, 8); if (n == 4) { float f = v.d; uint32_t x; memcpy(&x, &f, 4); u = x; } return vBV(t->w, u); }
  if (v.k == V_EX && v.e->isReal()) return vEX(mkRBits(v.e, n * 8));
  if (v.k == V_EX && v.w > t->w) return vEX(mkExtract(v.e, 0, t->w));
  if (v.k == V_BV) return vBV(t->w, v.v);
  return v;
}
static void materializeUndef(MemObj *o, uint32_t off, uint32_t n, TypeD *t) {
  // reading uninitialised bytes: fresh symbolic value
  for (uint32_t i = off; i < off + n; i++) if (o->tag[i] == 1) {
    uint32_t j = i; while (j < off + n && o->tag[j] == 1) j++;
    if (i == off && j == off + n && (n == 1 || n == 2 || n == 4 || n == 8)) {
      Val v = t->k == TypeD::FP ? vEX(mkVar(0, "undef!" + std::to_string(undefCnt++), true)) : vEX(mkVar(n * 8, "undef!" + std::to_string(undefCnt++), true));
      R.undefReads++;
      o->cells[i] = v; o->clen[i] = n; o->tag[i] = 2; for (uint32_t k = 1; k < n; k++) o->tag[i + k] = 3; return;
    }
    Val v = vEX(mkVar(8, "undef!" + std::to_string(undefCnt++), true)); R.undefReads++;
    o->cells[i] = v; o->clen[i] = 1; o->tag[i] = 2;
  }
}
static Val loadScalar(State &S, MemObj *o, uint32_t off, uint32_t n, TypeD *t) {
  if (!o->tag.empty()) {
    bool sym = false, und = false;
    for (uint32_t i = 0; i < n; i++) { if (o->tag[off + i] == 1) und = true; if (o->tag[off + i]) sym = true; }
    if (und) { o = wrObj(S, o->base); materializeUndef(o, off, n, t); }
    if (sym) {
      if (o->tag[off] == 2 && o->clen[off] == n) return conv(o->cells[off], t, n);
      // byte-wise assembly
      Expr *e = nullptr;
      for (uint32_t i = 0; i < n; i++) {
        Expr *be; uint32_t p = off + i;
        if (o->tag[p] == 0) be = mkConst(8, o->b[p]);
        else { uint32_t s = p; while (o->tag[s] == 3) s--; Expr *c = toE(o->cells[s]); if (c->isReal()) c = mkRBits(c, o->clen[s] * 8 > 64 ? 64 : o->clen[s] * 8);
          unsigned lo = (p - s) * 8; be = lo + 8 <= c->w ? mkExtract(c, lo, 8) : mkConst(8, 0); }
        e = e ? mkConcat(be, e) : be;
      }
      if (t->k == TypeD::FP) return vEX(mkBitsR(e));
      if (e->w > t->w) e = mkExtract(e, 0, t->w);
      return vEX(e);
    }
  }
  if (t->k == TypeD::FP) {
    if (t->w == 64) { double d; memcpy(&d, &o->b[off], 8); return vRD(d); }
    if (t->w == 32) { float d; memcpy(&d, &o->b[off], 4); return vRD(d); }
    long double ld = 0; memcpy(&ld, &o->b[off], 10); return vRD((double)ld);
  }
  if (n <= 8) { uint64_t x = 0; memcpy(&x, &o->b[off], n); return vBV(t->w, x); }
  APInt a(n * 8, 0); for (uint32_t i = 0; i < n; i++) a.insertBits((uint64_t)o->b[off + i], i * 8, 8);
  return vEX(mkConst(a.zextOrTrunc(t->w)));
}
Val loadAt(State &S, uint64_t addr, TypeD *t) { // bounds already checked
  MemObj *o = findObj(S, addr); uint32_t off = addr - o->base;
  if (t->k == TypeD::AGG) { Val v; v.k = V_AGG; v.a = new Agg(); for (auto &p : t->f) v.a->f.push_back(loadAt(S, addr + p.first, p.second)); return v; }
  return loadScalar(S, o, off, t->size, t);
}
void storeAt(State &S, uint64_t addr, const Val &v, TypeD *t) {
  if (t->k == TypeD::AGG) { if (v.k != V_AGG) return; for (size_t i = 0; i < t->f.size(); i++) storeAt(S, addr + t->f[i].first, v.a->f[i], t->f[i].second); return; }
  MemObj *o = wrObj(S, addr); storeScalar(o, addr - o->base, t->size, v, t);
}
bool rangeOk(State &S, uint64_t addr, uint64_t n) { MemObj *o = findObj(S, addr); return o && addr - o->base <= o->size && n <= o->size - (addr - o->base); }
void copyMem(State &S, uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  MemObj *so = findObj(S, s); uint32_t so_ = s - so->base;
  std::vector<uint8_t> b(so->b.begin() + so_, so->b.begin() + so_ + n), tg; std::map<uint32_t, Val> cells; std::map<uint32_t, uint32_t> cl;
  if (!so->tag.empty()) {
    bool any = false; for (uint64_t i = 0; i < n; i++) if (so->tag[so_ + i]) { any = true; break; }
    if (any) {
      if (so->tag[so_] == 3 || (so_ + n < so->size && so->tag[so_ + n] == 3)) { // partial cell at an edge: split
        so = wrObj(S, s); splitCells(so, so_, n);
      }
      tg.assign(so->tag.begin() + so_, so->tag.begin() + so_ + n);
      for (auto it = so->cells.lower_bound(so_); it != so->cells.end() && it->first < so_ + n; ++it) { cells[it->first - so_] = it->second; cl[it->first - so_] = so->clen[it->first]; }
    }
  }
  MemObj *o = wrObj(S, d); uint32_t off = d - o->base;
  clearCells(o, off, n);
  memcpy(&o->b[off], b.data(), n);
  if (!tg.empty()) {
    if (o->tag.empty()) o->tag.assign(o->size, 0);
    for (uint64_t i = 0; i < n; i++) o->tag[off + i] = tg[i];
    for (auto &p : cells) { o->cells[off + p.first] = p.second; o->clen[off + p.first] = cl[p.first]; }
  }
}
void setMem(State &S, uint64_t d, const Val &c, uint64_t n) {
  if (!n) return;
  MemObj *o = wrObj(S, d); uint32_t off = d - o->base; clearCells(o, off, n);
  if (c.k == V_BV) memset(&o->b[off], (int)c.v, n);
  else { TypeD t8; t8.k = TypeD::INT; t8.w = 8; t8.size = 1; for (uint64_t i = 0; i < n; i++) storeScalar(o, off + i, 1, c, &t8); }
}
bool readCStr(State &S, uint64_t a, std::string &out) {
  out.clear();
  for (int i = 0; i < 1 << 20; i++) {
    if (!rangeOk(S, a + i, 1)) return false;
    MemObj *o = findObj(S, a + i); uint32_t off = a + i - o->base;
    if (!o->tag.empty() && o->tag[off]) return false;
    if (!o->b[off]) return true; out.push_back(o->b[off]);
  }
  return false;
}
// ------------------------------------------------------------------ constants
static Val constV(const Constant *c);
uint64_t addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); return 0;
}
static Val constV(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return vBV(ci->getBitWidth(), ci->getZExtValue()); return vEX(mkConst(ci->getValue())); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return vRD(f.convertToDouble()); }
  if (isa<ConstantPointerNull>(c)) return vBV(64, 0);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constV(ga->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(c)) return vBV(64, addrOf(gv));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { return zeroOf(typeD(c->getType())); }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    Val v; v.k = V_AGG; v.a = new Agg();
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) for (unsigned i = 0; i < cd->getNumElements(); i++) v.a->f.push_back(constV(cd->getElementAsConstant(i)));
    else for (unsigned i = 0; i < c->getNumOperands(); i++) v.a->f.push_back(constV(cast<Constant>(c->getOperand(i))));
    return v;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
      return vBV(64, constV(ce->getOperand(0)).v + off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: {
      Val v = constV(ce->getOperand(0)); TypeD *t = typeD(ce->getType()); if (t->k == TypeD::INT && v.k == V_BV) return vBV(t->w, v.v); return v; }
    case Instruction::Add: return vBV(typeD(ce->getType())->w, constV(ce->getOperand(0)).v + constV(ce->getOperand(1)).v);
    case Instruction::Sub: return vBV(typeD(ce->getType())->w, constV(ce->getOperand(0)).v - constV(ce->getOperand(1)).v);
    case Instruction::ICmp: { uint64_t a = constV(ce->getOperand(0)).v, b = constV(ce->getOperand(1)).v; return vBV(1, ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b); }
    default: fprintf(stderr, "constexpr opcode %s\n", ce->getOpcodeName());
    }
  }
  return zeroOf(typeD(c->getType()));
}
static void initMem(MemObj *o, uint32_t off, const Constant *c) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  TypeD *t = typeD(c->getType());
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = cd->getElementByteSize();
    StringRef raw = cd->getRawDataValues(); memcpy(&o->b[off], raw.data(), raw.size()); (void)es; return; }
  if (isa<ConstantStruct>(c)) { const StructLayout *sl = DL->getStructLayout(cast<StructType>(c->getType())); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { uint64_t es = DL->getTypeAllocSize(c->getOperand(0)->getType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  storeScalar(o, off, t->size, constV(c), t);
}
// ------------------------------------------------------------------ decode
static Opnd opnd(const Value *v, std::unordered_map<const Value *, int> &slots) {
  Opnd o; if (auto *c = dyn_cast<Constant>(v)) { o.c = constV(c); return o; }
  auto it = slots.find(v); if (it != slots.end()) { o.slot = it->second; return o; }
  return o;
}
FuncInfo *getFI(Function *F) {
  auto it = fmap.find(F); if (it != fmap.end()) return it->second;
  FuncInfo *fi = new FuncInfo(); fmap[F] = fi; fi->F = F; fi->name = F->getName().str();
  std::unordered_map<const Value *, int> slots; std::unordered_map<const BasicBlock *, int> bidx;
  for (auto &a : F->args()) { fi->argSlot.push_back(fi->nregs); slots[&a] = fi->nregs++; }
  int b = 0; for (auto &BB : *F) { bidx[&BB] = b++; for (auto &I : BB) if (!I.getType()->isVoidTy()) slots[&I] = fi->nregs++; }
  fi->bb.resize(b); b = 0;
  for (auto &BB : *F) {
    BlockD &bd = fi->bb[b];
    for (auto &I : BB) {
      if (auto *ph = dyn_cast<PHINode>(&I)) { Phi p; p.dst = slots[ph]; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { p.in.push_back(opnd(ph->getIncomingValue(i), slots)); p.from.push_back(bidx[ph->getIncomingBlock(i)]); } bd.phis.push_back(p); continue; }
      break;
    }
    bd.start = fi->ins.size();
    for (auto &I : BB) {
      if (isa<PHINode>(&I)) continue;
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DInst d; d.I = &I; d.op = I.getOpcode(); d.blk = b; if (!I.getType()->isVoidTy()) d.dst = slots[&I];
      TypeD *t = typeD(I.getType()); d.ty = t; d.w = t->w;
      switch (I.getOpcode()) {
      case Instruction::Br: { auto *br = cast<BranchInst>(&I); d.t0 = bidx[br->getSuccessor(0)]; if (br->isConditional()) { d.ops.push_back(opnd(br->getCondition(), slots)); d.t1 = bidx[br->getSuccessor(1)]; } break; }
      case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); d.ops.push_back(opnd(sw->getCondition(), slots)); d.t0 = bidx[sw->getDefaultDest()]; for (auto &c : sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); break; }
      case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(&I); d.ops.push_back(opnd(g->getPointerOperand(), slots)); int64_t k = 0;
        for (gep_type_iterator gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
          if (StructType *st = gi.getStructTypeOrNull()) { k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
          uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) k += ci->getSExtValue() * es;
          else { d.ops.push_back(opnd(gi.getOperand(), slots)); d.scales.push_back(es); }
        }
        d.imm = k; break; }
      case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); d.imm = DL->getTypeAllocSize(al->getAllocatedType()); d.ops.push_back(opnd(al->getArraySize(), slots)); break; }
      case Instruction::Store: d.ops.push_back(opnd(I.getOperand(0), slots)); d.ops.push_back(opnd(I.getOperand(1), slots)); d.ty = typeD(I.getOperand(0)->getType()); break;
      case Instruction::ExtractValue: d.ops.push_back(opnd(I.getOperand(0), slots)); for (unsigned i : cast<ExtractValueInst>(&I)->indices()) d.scales.push_back(i); break;
      case Instruction::InsertValue: d.ops.push_back(opnd(I.getOperand(0), slots)); d.ops.push_back(opnd(I.getOperand(1), slots)); for (unsigned i : cast<InsertValueInst>(&I)->indices()) d.scales.push_back(i); break;
      case Instruction::ICmp: case Instruction::FCmp: d.sub = cast<CmpInst>(&I)->getPredicate(); d.ops.push_back(opnd(I.getOperand(0), slots)); d.ops.push_back(opnd(I.getOperand(1), slots)); d.w = typeD(I.getOperand(0)->getType())->w; break;
      case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(&I);
        for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) d.ops.push_back(Opnd()); else d.ops.push_back(opnd(a, slots)); }
        d.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
        if (!d.callee) { if (isa<InlineAsm>(cb->getCalledOperand())) d.flag = 1; else d.ops.push_back(opnd(cb->getCalledOperand(), slots)); }
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.t0 = bidx[iv->getNormalDest()]; d.t1 = bidx[iv->getUnwindDest()]; }
        break; }
      case Instruction::LandingPad: break;
      case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(&I); d.ops.push_back(opnd(I.getOperand(0), slots)); d.ops.push_back(opnd(I.getOperand(1), slots)); for (int i : sv->getShuffleMask()) d.scales.push_back((int64_t)i); break; }
      default:
        for (auto &o : I.operands()) { if (isa<BasicBlock>(o)) continue; d.ops.push_back(opnd(o, slots)); }
        if (isa<AtomicRMWInst>(&I)) d.sub = cast<AtomicRMWInst>(&I)->getOperation();
      }
      fi->ins.push_back(std::move(d));
    }
    b++;
  }
  return fi;
}
// ------------------------------------------------------------------ states
std::unique_ptr<State> cloneState(State &S) { auto n = std::make_unique<State>(S); n->id = nextState++; n->forks = 0; R.forks++; return n; }
std::string where(State &S, int max) {
  std::string s; if (S.th.empty()) return s; Thread &t = S.th[S.cur];
  for (int i = (int)t.st.size() - 1, k = 0; i >= 0 && k < max; i--, k++) {
    Frame &f = t.st[i]; std::string loc;
    if (f.pc >= 0 && f.pc < (int)f.f->ins.size()) if (auto &dl = f.f->ins[f.pc].I->getDebugLoc()) { loc = ":" + std::to_string(dl.getLine()); if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) loc = " " + sc->getFilename().str() + loc; }
    std::string nm = demangle(f.f->name); if (nm.size() > 90) nm = nm.substr(0, 90) + "...";
    if (k) s += " <- "; s += nm + loc;
  }
  return s;
}
static std::string valStr(const MVal &v, uint16_t w) {
  if (v.real) { char b[64]; snprintf(b, 64, "%.17g", q2d(v.q)); return b; }
  SmallString<64> s; v.i.toString(s, 10, w > 1); return std::string(s.c_str());
}
static void pathSample(State &S, uint64_t n) { // assignments of completed paths, replayed natively by the runner
  if (S.violated) return;
  if (R.inCtors || R.pathSamples.size() >= (size_t)opt.pathSamples || (n & (n - 1))) return;
  Model m; if (S.model) m = *S.model; else if (!fullModel(S, nullptr, m)) return;
  ViolSample s; for (auto &g : gVars) { if (g.undef) continue; size_t h = g.name.rfind('#'); std::string base = g.name.substr(0, h); int idx = atoi(g.name.c_str() + h + 1);
    auto it = S.names.find(base); if (it == S.names.end() || idx >= it->second) continue;
    auto mi = m.find(g.e->id); s.vals.push_back({g.name, mi == m.end() ? "0" : valStr(mi->second, g.w)}); }
  R.pathSamples.push_back(s);
}
void endPath(State &S, const std::string &why) {
  uint64_t n = ++R.ends[why]; if (why == "complete") pathSample(S, n); S.th.clear();
}
void incomplete(State &S, const std::string &why) {
  std::string w = why + " @ " + where(S, 4);
  if (!R.incomplete[w]++ && opt.verbose) fprintf(stderr, "INCOMPLETE %s\n", w.c_str()); S.th.clear();
}
bool fullModel(State &S, Expr *extra, Model &m) { // model of pc /\ extra
  Model sl; Res r = checkSat(S.pc, extra, &sl);
  if (r != R_SAT) return false;
  if (S.model) { m = *S.model; for (auto &p : sl) m[p.first] = p.second; return true; }
  Model a; if (checkSat(S.pc, nullptr, &a) == R_SAT) { m = a; for (auto &p : sl) m[p.first] = p.second; return true; }
  m = sl; return true;
}
static bool skipLoc(const std::string &n) { // attribute a memory error to the first frame outside libraries
  return n.compare(0, 4, "std:") == 0 || n.find("__gnu_cxx") == 0;
}
void report(State &S, const std::string &kind, const std::string &msg, Model *m) {
  std::string key = kind + "|" + msg;
  if (kind != "check") {
    Thread &t = S.th[S.cur]; std::string fn;
    for (int i = (int)t.st.size() - 1; i >= 0; i--) { fn = demangle(t.st[i].f->name); size_t p = fn.find('('); std::string h = fn.substr(0, p); if (!skipLoc(h) && h.find("std::") == std::string::npos) break; }
    key += "|" + fn;
  }
  auto &v = R.viol[key];
  if (v.count++ >= (uint64_t)opt.samplesPerViol) return;
  ViolSample s; s.where = where(S, 8); s.unknownPath = S.pcUnknown;
  if (m) for (auto &g : gVars) { if (g.undef) continue; 
      // only variables this path created
      size_t h = g.name.rfind('#'); std::string base = g.name.substr(0, h); int idx = atoi(g.name.c_str() + h + 1);
      auto it = S.names.find(base); if (it == S.names.end() || idx >= it->second) continue;
      auto mi = m->find(g.e->id); s.vals.push_back({g.name, g.w ? (mi == m->end() ? "0" : valStr(mi->second, g.w)) : (mi == m->end() ? "0" : valStr(mi->second, 0))}); }
  v.kind = kind; v.msg = msg; v.key = key; v.samples.push_back(s);
  if (opt.verbose) { fprintf(stderr, "VIOL %s @ %s\n", key.c_str(), s.where.c_str()); for (auto &p : s.vals) fprintf(stderr, "   %s = %s\n", p.first.c_str(), p.second.c_str()); }
}
void violPath(State &S, const std::string &kind, const std::string &msg) { // unconditional on this path
  Model m; bool ok = true;
  if (S.model) m = *S.model; else ok = fullModel(S, nullptr, m);
  report(S, kind, msg, ok ? &m : nullptr); endPath(S, "violation");
}
static bool modelOk(State &S, const Model &m) { for (Expr *e : S.pc) if (evalBool(e, m) != 1) return false; return true; }
void setModel(State &S, const Model &base, const Model &sl) {
  auto m = std::make_shared<Model>(base); for (auto &p : sl) (*m)[p.first] = p.second;
  if (modelOk(S, *m)) S.model = m; else S.model.reset();
}
void flattenAnd(State &S, Expr *c) {
  if (c->op == O_CONST) return;
  if (c->op == O_AND && c->w == 1) { flattenAnd(S, c->k[0]); flattenAnd(S, c->k[1]); return; }
  for (Expr *e : S.pc) if (e == c) return;
  S.pc.push_back(c);
}
// add constraint known feasible under (sl) model
void addC(State &S, Expr *c) { flattenAnd(S, c); }
static bool inPc(State &S, Expr *c) { for (Expr *e : S.pc) if (e == c) return true; return false; }
// decide a condition: returns 1/0, may fork (the clone re-executes the current instruction)
// result -1: path dead
int decide(State &S, Expr *c, std::unique_ptr<State> *other) {
  if (c->op == O_CONST) return c->v ? 1 : 0;
  if (inPc(S, c)) return 1;
  Expr *nc = mkNot(c);
  if (inPc(S, nc)) return 0;
  int mv = S.model ? evalBool(c, *S.model) : -1;
  Res rt, rf; Model mt, mf;
  static const Model empty;
  if (mv == 1) { rt = R_SAT; rf = checkSat(S.pc, nc, &mf); }
  else if (mv == 0) { rf = R_SAT; rt = checkSat(S.pc, c, &mt); }
  else { rt = checkSat(S.pc, c, &mt); rf = checkSat(S.pc, nc, &mf); }
  if (rt == R_UNSAT && rf == R_UNSAT) { endPath(S, "infeasible"); return -1; }
  if (rf == R_UNSAT) { if (rt == R_UNKNOWN) {} return 1; }
  if (rt == R_UNSAT) return 0;
  if (rt == R_UNKNOWN || rf == R_UNKNOWN) R.unknownBranches++;
  bool takeTrue = mv != 0;
  // fork
  auto n = cloneState(S); n->depth++; S.depth++;
  State &A = takeTrue ? S : *n, &B = takeTrue ? *n : S;
  std::shared_ptr<Model> base = S.model; const Model &bm = base ? *base : empty;
  flattenAnd(A, c); flattenAnd(B, nc);
  if (rt == R_UNKNOWN) A.pcUnknown = true; if (rf == R_UNKNOWN) B.pcUnknown = true;
  if (mv == 1) { setModel(B, bm, mf); if (rf == R_UNKNOWN) B.model.reset(); }
  else if (mv == 0) { setModel(A, bm, mt); if (rt == R_UNKNOWN) A.model.reset(); }
  else { setModel(A, bm, mt); setModel(B, bm, mf); }
  if (opt.verbose > 1) fprintf(stderr, "fork %lu->%lu %s @ %s\n", S.id, n->id, exprStr(c).c_str(), where(S, 2).c_str());
  if (other) *other = std::move(n); else work.push_back(std::move(n));
  return takeTrue ? 1 : 0;
}
// concretise a bit-vector value by forking; true if S now has the concrete value in v
bool concretize(State &S, Val &v, int limit) {
  if (v.k == V_BV) return true;
  if (v.k != V_EX || v.e->isReal()) { incomplete(S, "concretize real"); return false; }
  Expr *e = v.e; MVal mv; bool have = false;
  if (S.model && evalExpr(e, *S.model, mv)) have = true;
  if (!have) {
    Model m; Res r = checkSat(S.pc, mkBin(O_EQ, e, e)->op == O_CONST ? nullptr : nullptr, &m);
    if (r == R_UNSAT) { endPath(S, "infeasible"); return false; }
    if (r == R_SAT && evalExpr(e, m, mv)) have = true;
    if (!have) { incomplete(S, "cannot concretize"); return false; }
  }
  if (mv.i.getBitWidth() > 64) { incomplete(S, "concretize wide"); return false; }
  Expr *eq = mkBin(O_EQ, e, mkConst(mv.i));
  Expr *ne = mkNot(eq); Model m2;
  Res r = eq->op == O_CONST ? R_UNSAT : checkSat(S.pc, ne, &m2);
  if (r != R_UNSAT) {
    if (r == R_UNKNOWN) R.unknownBranches++;
    auto n = cloneState(S); n->depth++; S.depth++;
    flattenAnd(*n, ne); static const Model empty; setModel(*n, S.model ? *S.model : empty, m2); if (r == R_UNKNOWN) n->pcUnknown = true;
    work.push_back(std::move(n)); R.concretizations++;
  }
  flattenAnd(S, eq); v = vBV(e->w, mv.i.getZExtValue());
  return true;
}
// resolve an address for an access of n bytes.
bool resolve(State &S, Val &a, uint64_t n, const char *what, bool write) {
  if (a.k == V_EX) {
    MVal mv; Model m;
    if (!(S.model && evalExpr(a.e, *S.model, mv))) {
      Res r = checkSat(S.pc, nullptr, &m); if (r == R_UNSAT) { endPath(S, "infeasible"); return false; }
      if (r != R_SAT || !evalExpr(a.e, m, mv)) { incomplete(S, "address unresolved"); return false; }
    }
    uint64_t x = mv.i.getZExtValue(); MemObj *o = findObj(S, x);
    if (o && x >= o->base && x - o->base <= o->size && n <= o->size - (x - o->base)) {
      // inside o for this model: can it be outside while still pointing into o's region?
      Expr *inside = mkBin(O_ULE, mkBin(O_SUB, a.e, mkConst(64, o->base)), mkConst(64, o->size - n));
      Expr *outside = mkNot(inside);
      Expr *near = mkAnd(outside, mkBin(O_ULE, mkBin(O_ADD, mkBin(O_SUB, a.e, mkConst(64, o->base)), mkConst(64, 1u << 23)), mkConst(64, 1u << 24)));
      Model m2; Res r = checkSat(S.pc, near, &m2);
      if (r == R_SAT) {
        auto c = cloneState(S); flattenAnd(*c, near); static const Model empty; setModel(*c, S.model ? *S.model : empty, m2);
        violPath(*c, "memory", std::string(write ? "out-of-bounds write" : "out-of-bounds read"));
        flattenAnd(S, mkNot(near));
      } else if (r == R_UNKNOWN) { R.unknownChecks++; R.incomplete["bounds check undecided @ " + where(S, 3)]++; }
    }
    if (!concretize(S, a, 0)) return false;
  }
  uint64_t x = a.v; MemObj *o = findObj(S, x);
  if (!o) { violPath(S, "memory", x < 4096 ? "null pointer access" : "invalid or freed memory access"); return false; }
  if (x - o->base > o->size || n > o->size - (x - o->base)) { violPath(S, "memory", std::string(write ? "out-of-bounds write" : "out-of-bounds read")); return false; }
  if (write && o->kind == 1) { violPath(S, "memory", "write to constant"); return false; }
  return true;
}
// ------------------------------------------------------------------ arithmetic on values
static bool fin(const Val &v) { return v.k != V_RD || std::isfinite(v.d); }
Val fbin(State &S, unsigned op, const Val &a, const Val &b, bool &dead) {
  if (a.k == V_AGG) { Val r; r.k = V_AGG; r.a = new Agg(); for (size_t i = 0; i < a.a->f.size(); i++) r.a->f.push_back(fbin(S, op, a.a->f[i], b.a->f[i], dead)); return r; }
  if (a.k == V_RD && b.k == V_RD) {
    double x = a.d, y = b.d;
    if (opt.ieeeConc || !std::isfinite(x) || !std::isfinite(y)) {
      double r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmod(x, y); return vRD(r); }
    switch (op) {
    case Instruction::FAdd: { double s = x + y, bb = s - x, e = (x - (s - bb)) + (y - bb); if (e == 0 && std::isfinite(s)) return vRD(s); break; }
    case Instruction::FSub: { double s = x - y, bb = s - x, e = (x - (s - bb)) - (y + bb); if (e == 0 && std::isfinite(s)) return vRD(s); break; }
    case Instruction::FMul: { double p = x * y; if (std::isfinite(p) && (p == 0 ? (x == 0 || y == 0) : (std::fabs(p) > 1e-250 && std::fma(x, y, -p) == 0))) return vRD(p); break; }
    case Instruction::FDiv: if (y == 0) return vRD(x / y); { double q = x / y; if (std::isfinite(q) && (x == 0 || (std::fabs(q) > 1e-250 && std::fabs(x) > 1e-250 && std::fma(q, y, -x) == 0))) return vRD(q); } break;
    case Instruction::FRem: return vRD(fmod(x, y));
    }
  }
  if (!fin(a) || !fin(b)) { if (op == Instruction::FDiv && !fin(b) && std::isinf(b.d)) return vRD(0); incomplete(S, "non-finite arithmetic"); dead = true; return vRD(0); }
  Expr *x = toE(a), *y = toE(b);
  switch (op) {
  case Instruction::FAdd: return vEX(mkRBin(O_RADD, x, y));
  case Instruction::FSub: return vEX(mkRBin(O_RSUB, x, y));
  case Instruction::FMul: return vEX(mkRBin(O_RMUL, x, y));
  case Instruction::FDiv:
    if (y->op == O_RCONST) { if (*y->r == 0) { R.div0[where(S, 2)]++; endPath(S, "division-by-zero"); dead = true; return vRD(0); } }
    else {
      Expr *nz = mkNot(mkRBin(O_REQ, y, mkRConst(mpq_class(0))));
      if (!inPc(S, nz)) {
        if (!(S.model && evalBool(nz, *S.model) == 1)) {
          Model m; Res r = checkSat(S.pc, nz, &m);
          if (r == R_UNSAT) { R.div0[where(S, 2)]++; endPath(S, "division-by-zero"); dead = true; return vRD(0); }
          static const Model empty; std::shared_ptr<Model> b0 = S.model; flattenAnd(S, nz); setModel(S, b0 ? *b0 : empty, m); if (r == R_UNKNOWN) S.pcUnknown = true;
        } else flattenAnd(S, nz);
        R.divAssume.insert(where(S, 1));
      }
    }
    return vEX(mkRBin(O_RDIV, x, y));
  case Instruction::FRem: return vEX(mkRFun(F_FMOD, x, y));
  }
  return vRD(0);
}
Val fneg(const Val &a) {
  if (a.k == V_AGG) { Val r; r.k = V_AGG; r.a = new Agg(); for (auto &x : a.a->f) r.a->f.push_back(fneg(x)); return r; }
  return a.k == V_RD ? vRD(-a.d) : vEX(mkRNeg(a.e)); }
static Val fcmp(State &S, unsigned p, const Val &a, const Val &b, bool &dead) {
  if (a.k == V_RD && b.k == V_RD) {
    double x = a.d, y = b.d; bool u = std::isnan(x) || std::isnan(y), r = false;
    switch (p) {
    case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
    case CmpInst::FCMP_OEQ: r = !u && x == y; break; case CmpInst::FCMP_OGT: r = !u && x > y; break; case CmpInst::FCMP_OGE: r = !u && x >= y; break;
    case CmpInst::FCMP_OLT: r = !u && x < y; break; case CmpInst::FCMP_OLE: r = !u && x <= y; break; case CmpInst::FCMP_ONE: r = !u && x != y; break;
    case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break;
    case CmpInst::FCMP_UEQ: r = u || x == y; break; case CmpInst::FCMP_UGT: r = u || x > y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break;
    case CmpInst::FCMP_ULT: r = u || x < y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break; case CmpInst::FCMP_UNE: r = u || x != y; break;
    }
    return vBV(1, r);
  }
  if (p == CmpInst::FCMP_ORD) return vBV(1, 1);
  if (p == CmpInst::FCMP_UNO) return vBV(1, 0);
  if (!fin(a) || !fin(b)) { // infinity against a finite symbolic value
    double x = a.k == V_RD && !std::isfinite(a.d) ? a.d : 0, y = b.k == V_RD && !std::isfinite(b.d) ? b.d : 0;
    return fcmp(S, p, vRD(x), vRD(y), dead);
  }
  Expr *x = toE(a), *y = toE(b); Expr *r = nullptr;
  switch (p) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = mkRBin(O_REQ, x, y); break;
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(mkRBin(O_REQ, x, y)); break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkRBin(O_RLT, y, x); break;
  case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = mkRBin(O_RLE, y, x); break;
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = mkRBin(O_RLT, x, y); break;
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkRBin(O_RLE, x, y); break;
  case CmpInst::FCMP_TRUE: return vBV(1, 1); default: return vBV(1, 0);
  }
  return vEX(r);
}
static Val icmp(unsigned p, const Val &a, const Val &b) {
  if (a.k == V_AGG) { Val r; r.k = V_AGG; r.a = new Agg(); for (size_t i = 0; i < a.a->f.size(); i++) r.a->f.push_back(icmp(p, a.a->f[i], b.a->f[i])); return r; }
  if (a.k == V_BV && b.k == V_BV) {
    uint64_t x = a.v, y = b.v; int64_t sxx = sx(a), sy = sx(b); bool r = false;
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = sxx > sy; break; case CmpInst::ICMP_SGE: r = sxx >= sy; break; case CmpInst::ICMP_SLT: r = sxx < sy; break; case CmpInst::ICMP_SLE: r = sxx <= sy; break;
    }
    return vBV(1, r);
  }
  Expr *x = toE(a), *y = toE(b);
  if (x->op == O_RBITS && y->op == O_CONST && y->v == 0 && (p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SGE)) {
    Expr *r = mkRBin(O_RLT, x->k[0], mkRConst(mpq_class(0))); return vEX(p == CmpInst::ICMP_SLT ? r : mkNot(r)); }
  switch (p) {
  case CmpInst::ICMP_EQ: return vEX(mkBin(O_EQ, x, y)); case CmpInst::ICMP_NE: return vEX(mkNot(mkBin(O_EQ, x, y)));
  case CmpInst::ICMP_UGT: return vEX(mkBin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return vEX(mkBin(O_ULE, y, x));
  case CmpInst::ICMP_ULT: return vEX(mkBin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return vEX(mkBin(O_ULE, x, y));
  case CmpInst::ICMP_SGT: return vEX(mkBin(O_SLT, y, x)); case CmpInst::ICMP_SGE: return vEX(mkBin(O_SLE, y, x));
  case CmpInst::ICMP_SLT: return vEX(mkBin(O_SLT, x, y)); default: return vEX(mkBin(O_SLE, x, y));
  }
}
static Val ibin(State &S, unsigned op, const Val &a, const Val &b, bool &dead) {
  if (a.k == V_AGG) { Val r; r.k = V_AGG; r.a = new Agg(); for (size_t i = 0; i < a.a->f.size(); i++) r.a->f.push_back(ibin(S, op, a.a->f[i], b.a->f[i], dead)); return r; }
  if (a.k == V_BV && b.k == V_BV) {
    uint64_t x = a.v, y = b.v; unsigned w = a.w;
    switch (op) {
    case Instruction::Add: return vBV(w, x + y); case Instruction::Sub: return vBV(w, x - y); case Instruction::Mul: return vBV(w, x * y);
    case Instruction::And: return vBV(w, x & y); case Instruction::Or: return vBV(w, x | y); case Instruction::Xor: return vBV(w, x ^ y);
    case Instruction::Shl: return vBV(w, y >= w ? 0 : x << y); case Instruction::LShr: return vBV(w, y >= w ? 0 : x >> y);
    case Instruction::AShr: return vBV(w, sx(a) >> (y >= w ? 63 : y));
    }
    if (y == 0) { violPath(S, "arith", "integer division by zero"); dead = true; return a; }
    switch (op) {
    case Instruction::UDiv: return vBV(w, x / y); case Instruction::URem: return vBV(w, x % y);
    case Instruction::SDiv: if (sx(b) == -1) return vBV(w, -x); return vBV(w, sx(a) / sx(b));
    case Instruction::SRem: if (sx(b) == -1) return vBV(w, 0); return vBV(w, sx(a) % sx(b));
    }
  }
  Expr *x = toE(a), *y = toE(b); Op o;
  switch (op) {
  case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
  case Instruction::And: o = O_AND;
    if (x->op == O_RBITS && y->op == O_CONST && x->w == 64 && y->v == 0x7fffffffffffffffull) { Expr *r = x->k[0]; return vEX(mkRBits(mkIte(mkRBin(O_RLT, r, mkRConst(mpq_class(0))), mkRNeg(r), r), 64)); }
    break;
  case Instruction::Or: o = O_OR; break;
  case Instruction::Xor: o = O_XOR; break; case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
  case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; default: o = O_SREM; break;
  }
  if (o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM) {
    Expr *z = mkBin(O_EQ, y, mkConst(APInt(y->w, 0)));
    if (z->op != O_CONST) {
      Model m; Res r = checkSat(S.pc, z, &m);
      if (r == R_SAT) { auto c = cloneState(S); flattenAnd(*c, z); static const Model empty; setModel(*c, S.model ? *S.model : empty, m); violPath(*c, "arith", "integer division by zero");
        Expr *nz = mkNot(z); if (checkSat(S.pc, nz, nullptr) == R_UNSAT) { endPath(S, "infeasible"); dead = true; return a; }
        Model m2; checkSat(S.pc, nz, &m2); std::shared_ptr<Model> b0 = S.model; flattenAnd(S, nz); setModel(S, b0 ? *b0 : empty, m2); }
    } else if (z->v) { violPath(S, "arith", "integer division by zero"); dead = true; return a; }
  }
  return vEX(mkBin(o, x, y));
}
// ------------------------------------------------------------------ control
static void jump(State &S, Frame &f, int to, int from) {
  BlockD &b = f.f->bb[to];
  if (!b.phis.empty()) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (b.phis.size() > 64) { big.resize(b.phis.size()); t = big.data(); }
    for (size_t i = 0; i < b.phis.size(); i++) { Phi &p = b.phis[i]; for (size_t j = 0; j < p.from.size(); j++) if (p.from[j] == from) { t[i] = p.in[j].slot >= 0 ? f.r[p.in[j].slot] : p.in[j].c; break; } }
    for (size_t i = 0; i < b.phis.size(); i++) f.r[b.phis[i].dst] = t[i];
  }
  f.pc = b.start;
}
void popFrame(State &S) {
  Thread &t = S.th[S.cur]; Frame &f = t.st.back();
  for (uint64_t id : f.allocas) t.stk.slot(id).reset();
  if (!f.allocas.empty()) t.sp = f.allocas.front();
  if (f.vaObj) { MemObj *o = findObj(S, f.vaObj); if (o) S.heap.slot(f.vaObj >> 24).reset(); }
  t.st.pop_back();
}
void pushFrame(State &S, FuncInfo *fi, std::vector<Val> &args) {
  Thread &t = S.th[S.cur];
  if (t.st.size() > 4000) { violPath(S, "memory", "stack overflow (recursion)"); return; }
  t.st.emplace_back(); Frame &f = t.st.back(); f.f = fi; f.prevBlk = 0; f.r.resize(fi->nregs); f.pc = fi->bb[0].start; fi->calls++;
  size_t n = fi->argSlot.size();
  for (size_t i = 0; i < n && i < args.size(); i++) {
    Val v = args[i];
    // byval aggregates
    if (fi->F->hasParamAttribute(i, Attribute::ByVal)) {
      uint64_t sz = DL->getTypeAllocSize(fi->F->getParamByValType(i)); uint64_t a = allocStack(S, sz);
      if (v.k == V_BV && rangeOk(S, v.v, sz)) copyMem(S, a, v.v, sz); v = vBV(64, a);
    }
    t.st.back().r[fi->argSlot[i]] = v;
  }
  if (fi->F->isVarArg()) for (size_t i = n; i < args.size(); i++) t.st.back().va.push_back(args[i]);
}
// finish the call instruction of the (now top) frame with value v
void finishCall(State &S, const Val &v) {
  Frame &f = S.th[S.cur].st.back(); DInst &d = f.f->ins[f.pc];
  if (d.dst >= 0) f.r[d.dst] = v;
  if (d.op == Instruction::Invoke) jump(S, f, d.t0, d.blk); else f.pc++;
}
static std::vector<Function *> globalCtors;
// ---- exceptions
static std::unordered_map<uint64_t, int> tiIds;
int tiId(uint64_t ti) { auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; int n = tiIds.size() + 1; tiIds[ti] = n; return n; }
static uint64_t rd64(State &S, uint64_t a) { if (!rangeOk(S, a, 8)) return 0; static TypeD t{TypeD::INT, 64, 8, {}}; Val v = loadAt(S, a, &t); return v.k == V_BV ? v.v : 0; }
static uint64_t symAddr(const char *n) { auto *g = M->getNamedValue(n); return g ? gaddr[g] : 0; }
uint64_t classKind(State &S, uint64_t ti) {
  static uint64_t c = symAddr("_ZTVN10__cxxabiv117__class_type_infoE"), s = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), v = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  uint64_t vt = rd64(S, ti); if (!vt) return 0; vt = (vt >> 24) << 24;
  if (c && vt == c) return 1; if (s && vt == s) return 2; if (v && vt == v) return 3; return 0;
}
static std::string tiName(State &S, uint64_t ti) {
  uint64_t p = rd64(S, ti + 8); std::string s; if (p && readCStr(S, p, s)) return s;
  for (auto &g : gaddr) if (g.second == ti) return g.first->getName().str(); return "?";
}
bool sameTi(State &S, uint64_t a, uint64_t b) { return a == b; }
// find base `dst` in object of type ti at address obj; returns address or 0
uint64_t upcast(State &S, uint64_t ti, uint64_t obj, uint64_t dst, bool &found) {
  if (ti == dst) { found = true; return obj; }
  switch (classKind(S, ti)) {
  case 2: return upcast(S, rd64(S, ti + 16), obj, dst, found);
  case 3: { static TypeD t32{TypeD::INT, 32, 4, {}}; uint32_t n = loadAt(S, ti + 20, &t32).v;
    for (uint32_t i = 0; i < n; i++) { uint64_t b = rd64(S, ti + 24 + 16 * i); int64_t of = (int64_t)rd64(S, ti + 32 + 16 * i); int64_t off = of >> 8; bool virt = of & 1;
      uint64_t bo; if (virt) { if (!obj) { bo = 0; } else { uint64_t vp = rd64(S, obj); bo = obj + (int64_t)rd64(S, vp + off); } } else bo = obj + off;
      uint64_t r = upcast(S, b, bo, dst, found); if (found) return r; }
    return 0; }
  default: return 0;
  }
}
void unwind(State &S, uint64_t exc);
void throwExc(State &S, uint64_t exc) { unwind(S, exc); }
void unwind(State &S, uint64_t exc) {
  Thread &t = S.th[S.cur]; ExcRec &er = S.exc[exc];
  while (true) {
    if (t.st.empty()) return;
    Frame &f = t.st.back(); DInst &d = f.f->ins[f.pc];
    if (d.op == Instruction::Invoke) {
      BlockD &b = f.f->bb[d.t1]; DInst &lp = f.f->ins[b.start]; auto *L = cast<LandingPadInst>(lp.I);
      int sel = 0; bool land = L->isCleanup(); uint64_t adj = exc;
      for (unsigned i = 0; i < L->getNumClauses(); i++) {
        if (L->isCatch(i)) {
          Constant *c = L->getClause(i); uint64_t ti = isa<ConstantPointerNull>(c) ? 0 : addrOf(cast<GlobalValue>(c->stripPointerCasts()));
          bool found = false; uint64_t r = exc;
          if (!ti) found = true; else r = upcast(S, er.ti, exc, ti, found);
          if (found) { sel = tiId(ti); adj = r; land = true; break; }
        } else { // filter: treat as matching nothing allowed => land with negative selector
          sel = -1; land = true; break; }
      }
      if (land) { er.adj = adj; t.curExc = exc; t.curSel = sel; jump(S, f, d.t1, d.blk); return; }
    }
    if (t.st.size() == 1) { violPath(S, "exception", "uncaught exception " + demangle("_ZTI" + tiName(S, er.ti))); return; }
    popFrame(S);
  }
}
// ------------------------------------------------------------------ main interpreter loop
static Val symRead(State &S, MemObj *o, Expr *off, TypeD *t) {
  Expr *r = nullptr; uint32_t n = t->size;
  for (uint32_t p = 0; p + n <= o->size; p += n) { Expr *v = toE(loadScalar(S, o, p, n, t)); r = r ? mkIte(mkBin(O_EQ, off, mkConst(64, p)), v, r) : v; }
  return vEX(r);
}
static void run(State &S) {
  std::vector<Val> args;
  while (!S.th.empty()) {
    Thread &T = S.th[S.cur];
    Frame &f = T.st.back(); DInst &d = f.f->ins[f.pc];
    S.steps++; R.steps++;
    if ((R.steps & 0xfff) == 0) {
      if (now() - tStart > opt.maxTime) { R.timedOut = true; incomplete(S, "time limit"); return; }
      if (S.steps > opt.maxSteps) { if (opt.hang) violPath(S, "hang", "no termination within the step bound"); else incomplete(S, "step limit"); return; }
    }
    auto OP = [&](int i) -> const Val & { const Opnd &o = d.ops[i]; return o.slot >= 0 ? f.r[o.slot] : o.c; };
    bool dead = false;
    switch (d.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      Val r = ibin(S, d.op, OP(0), OP(1), dead); if (dead) return; f.r[d.dst] = r; f.pc++; break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val r = fbin(S, d.op, OP(0), OP(1), dead); if (dead) return; f.r[d.dst] = r; f.pc++; break; }
    case Instruction::FNeg: f.r[d.dst] = fneg(OP(0)); f.pc++; break;
    case Instruction::ICmp: f.r[d.dst] = icmp(d.sub, OP(0), OP(1)); f.pc++; break;
    case Instruction::FCmp: { Val r = fcmp(S, d.sub, OP(0), OP(1), dead); f.r[d.dst] = r; f.pc++; break; }
    case Instruction::Br: {
      if (d.t1 < 0) { jump(S, f, d.t0, d.blk); break; }
      Val c = OP(0);
      if (c.k == V_BV) { jump(S, f, c.v ? d.t0 : d.t1, d.blk); break; }
      if (c.k != V_EX) { incomplete(S, "branch on non-value"); return; }
      int r = decide(S, c.e, nullptr); if (r < 0) return;
      { Frame &g = S.th[S.cur].st.back(); jump(S, g, r ? d.t0 : d.t1, d.blk); }
      break; }
    case Instruction::Switch: {
      Val c = OP(0);
      if (c.k == V_BV) { int to = d.t0; for (auto &p : d.cases) if (p.first == c.v) { to = p.second; break; } jump(S, f, to, d.blk); break; }
      int to = d.t0; bool stop = false;
      for (auto &p : d.cases) { int r = decide(S, mkBin(O_EQ, c.e, mkConst(c.w, p.first)), nullptr); if (r < 0) { stop = true; break; } if (r) { to = p.second; break; } }
      if (stop) return;
      { Frame &g = S.th[S.cur].st.back(); jump(S, g, to, d.blk); }
      break; }
    case Instruction::Select: {
      Val c = OP(0); const Val &a = OP(1), &b = OP(2); Val r;
      if (c.k == V_BV) r = c.v ? a : b;
      else if (c.k == V_EX && (isConc(a) || a.k == V_EX) && (isConc(b) || b.k == V_EX)) {
        if (!fin(a) || !fin(b)) { int q = decide(S, c.e, nullptr); if (q < 0) return; r = q ? a : b; }
        else r = vEX(mkIte(c.e, toE(a), toE(b)));
      }
      else if (c.k == V_AGG) { r.k = V_AGG; r.a = new Agg(); for (size_t i = 0; i < c.a->f.size(); i++) { const Val &ci = c.a->f[i]; if (ci.k == V_BV) r.a->f.push_back(ci.v ? a.a->f[i] : b.a->f[i]); else r.a->f.push_back(vEX(mkIte(ci.e, toE(a.a->f[i]), toE(b.a->f[i])))); } }
      else { int q = decide(S, c.e, nullptr); if (q < 0) return; r = q ? a : b; }
      S.th[S.cur].st.back().r[d.dst] = r; S.th[S.cur].st.back().pc++; break; }
    case Instruction::GetElementPtr: {
      const Val &b = OP(0); bool conc = b.k == V_BV; for (size_t i = 0; i < d.scales.size(); i++) if (OP(i + 1).k != V_BV) conc = false;
      if (conc) { uint64_t a = b.v + d.imm; for (size_t i = 0; i < d.scales.size(); i++) a += (uint64_t)sx(OP(i + 1)) * d.scales[i]; f.r[d.dst] = vBV(64, a); }
      else if (b.k == V_AGG) { incomplete(S, "vector gep"); return; }
      else { Expr *e = mkBin(O_ADD, toE(b), mkConst(64, d.imm)); for (size_t i = 0; i < d.scales.size(); i++) e = mkBin(O_ADD, e, mkBin(O_MUL, mkSExt(toE(OP(i + 1)), 64), mkConst(64, d.scales[i]))); f.r[d.dst] = vEX(e); }
      f.pc++; break; }
    case Instruction::Load: {
      Val a = OP(0);
      if (a.k == V_EX && d.ty->k != TypeD::AGG) { // constant-table read
        Expr *e = a.e; if (e->op == O_ADD && e->k[1]->op == O_CONST) { MemObj *o = findObj(S, e->k[1]->v); if (o && o->kind == 1 && o->base == e->k[1]->v && o->size <= 2048) {
          Expr *off = e->k[0]; Expr *bad = mkNot(mkBin(O_ULE, off, mkConst(64, o->size - d.ty->size)));
          Expr *mis = d.ty->size == 1 ? mkBool(false) : mkNot(mkBin(O_EQ, mkBin(O_AND, off, mkConst(64, d.ty->size - 1)), mkConst(64, 0)));
          if (checkSat(S.pc, mkOr(bad, mis), nullptr) == R_UNSAT) { f.r[d.dst] = symRead(S, o, off, d.ty); f.pc++; break; } } } }
      if (!resolve(S, a, d.ty->size, "load", false)) return;
      Val v = loadAt(S, a.v, d.ty);
      S.th[S.cur].st.back().r[d.dst] = v; S.th[S.cur].st.back().pc++; break; }
    case Instruction::Store: {
      Val a = OP(1); Val v = OP(0);
      if (!resolve(S, a, d.ty->size, "store", true)) return;
      storeAt(S, a.v, v, d.ty); S.th[S.cur].st.back().pc++; break; }
    case Instruction::Alloca: {
      Val n = OP(0); if (!concretize(S, n, 0)) return;
      uint64_t a = allocStack(S, d.imm * n.v); S.th[S.cur].st.back().r[d.dst] = vBV(64, a); S.th[S.cur].st.back().pc++; break; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      const Val &a = OP(0); unsigned w = d.w; Val r;
      auto cv = [&](const Val &a, unsigned w) -> Val {
        if (a.k == V_BV && w <= 64) return d.op == Instruction::SExt ? vBV(w, (uint64_t)sx(a)) : vBV(w, a.v);
        Expr *e = toE(a); if (w == e->w) return a;
        if (w < e->w) return vEX(mkExtract(e, 0, w));
        return vEX(d.op == Instruction::SExt ? mkSExt(e, w) : mkZExt(e, w)); };
      if (a.k == V_AGG) { r.k = V_AGG; r.a = new Agg(); for (size_t i = 0; i < a.a->f.size(); i++) r.a->f.push_back(cv(a.a->f[i], d.ty->f[i].second->w)); }
      else r = cv(a, w);
      f.r[d.dst] = r; f.pc++; break; }
    case Instruction::BitCast: {
      const Val &a = OP(0); Type *st = d.I->getOperand(0)->getType(), *dt = d.I->getType(); Val r = a;
      if (st->isPointerTy() && dt->isPointerTy()) {}
      else if (d.ty->k == TypeD::FP || d.ty->k == TypeD::INT) {
        if (a.k == V_AGG) { incomplete(S, "vector bitcast"); return; }
        r = conv(a, d.ty, d.ty->size);
      } else if (a.k != V_AGG || a.a->f.size() != d.ty->f.size()) { incomplete(S, "vector bitcast"); return; }
      f.r[d.dst] = r; f.pc++; break; }
    case Instruction::FPExt: case Instruction::FPTrunc: { Val a = OP(0); if (d.op == Instruction::FPTrunc && a.k == V_RD && d.w == 32 && opt.ieeeConc) a = vRD((float)a.d); f.r[d.dst] = a; f.pc++; break; }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      Val a = OP(0); bool sg = d.op == Instruction::SIToFP;
      if (a.k == V_EX && a.e->op != O_CONST) {
        if (!opt.int2real) { if (!concretize(S, a, 0)) return; }
        else { S.th[S.cur].st.back().r[d.dst] = vEX(mkInt2Real(a.e, sg)); S.th[S.cur].st.back().pc++; break; }
      }
      Val r = a.k == V_EX ? vEX(mkInt2Real(a.e, sg)) : sg ? vRD((double)sx(a)) : vRD((double)a.v);
      S.th[S.cur].st.back().r[d.dst] = r; S.th[S.cur].st.back().pc++; break; }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Val a = OP(0);
      if (a.k == V_RD) { f.r[d.dst] = d.op == Instruction::FPToSI ? vBV(d.w, (uint64_t)(int64_t)a.d) : vBV(d.w, (uint64_t)a.d); f.pc++; break; }
      if (a.k == V_EX && a.e->op == O_RCONST) { mpz_class q; mpz_tdiv_q(q.get_mpz_t(), a.e->r->get_num_mpz_t(), a.e->r->get_den_mpz_t()); f.r[d.dst] = vBV(d.w, (uint64_t)q.get_si()); f.pc++; break; }
      if (a.k == V_EX && (a.e->op == O_S2R || a.e->op == O_U2R)) { Expr *k = a.e->k[0]; f.r[d.dst] = vEX(k->w >= d.w ? mkExtract(k, 0, d.w) : a.e->op == O_S2R ? mkSExt(k, d.w) : mkZExt(k, d.w)); f.pc++; break; }
      if (a.k == V_EX && a.e->op == O_RITE) { int q = decide(S, a.e->k[0], nullptr); if (q < 0) return; // re-execute with narrowed value: substitute in register
        Frame &g = S.th[S.cur].st.back(); const Opnd &o = d.ops[0]; if (o.slot >= 0) { g.r[o.slot] = vEX(q ? a.e->k[1] : a.e->k[2]); break; } }
      // symbolic: k with k <= a < k+1 (a>=0), small range enumerated by forking
      { MVal mv; Model m; bool have = S.model && evalExpr(a.e, *S.model, mv);
        if (!have) { if (checkSat(S.pc, nullptr, &m) == R_SAT && evalExpr(a.e, m, mv)) have = true; }
        if (!have) { incomplete(S, "fptosi"); return; }
        mpz_class q; mpz_tdiv_q(q.get_mpz_t(), mv.q.get_num_mpz_t(), mv.q.get_den_mpz_t()); long k = q.get_si();
        Expr *lo = k <= 0 ? mkRBin(O_RLT, mkRConst(mpq_class(k - 1)), a.e) : mkRBin(O_RLE, mkRConst(mpq_class(k)), a.e);
        Expr *hi = k >= 0 ? mkRBin(O_RLT, a.e, mkRConst(mpq_class(k + 1))) : mkRBin(O_RLE, a.e, mkRConst(mpq_class(k)));
        if (k == 0) { lo = mkRBin(O_RLT, mkRConst(mpq_class(-1)), a.e); hi = mkRBin(O_RLT, a.e, mkRConst(mpq_class(1))); }
        int r = decide(S, mkAnd(lo, hi), nullptr); if (r < 0) return; if (!r) break; // re-execute with the rest
        R.concretizations++; if (++S.regsFp > 4096) { incomplete(S, "fptosi enumeration"); return; }
        S.th[S.cur].st.back().r[d.dst] = vBV(d.w, (uint64_t)k); S.th[S.cur].st.back().pc++; break; }
    }
    case Instruction::Freeze: f.r[d.dst] = OP(0); f.pc++; break;
    case Instruction::ExtractValue: { Val v = OP(0); for (uint64_t i : d.scales) { if (v.k != V_AGG || i >= v.a->f.size()) { incomplete(S, "extractvalue"); return; } v = v.a->f[i]; } f.r[d.dst] = v; f.pc++; break; }
    case Instruction::InsertValue: {
      Val v = OP(0); std::function<Val(Val, size_t)> ins = [&](Val a, size_t k) -> Val { if (k == d.scales.size()) return OP(1); Val r; r.k = V_AGG; r.a = new Agg(*a.a); r.a->f[d.scales[k]] = ins(a.a->f[d.scales[k]], k + 1); return r; };
      f.r[d.dst] = ins(v, 0); f.pc++; break; }
    case Instruction::ExtractElement: { const Val &v = OP(0); f.r[d.dst] = v.a->f[OP(1).v]; f.pc++; break; }
    case Instruction::InsertElement: { const Val &v = OP(0); Val r; r.k = V_AGG; r.a = new Agg(*v.a); r.a->f[OP(2).v] = OP(1); f.r[d.dst] = r; f.pc++; break; }
    case Instruction::ShuffleVector: { const Val &a = OP(0), &b = OP(1); Val r; r.k = V_AGG; r.a = new Agg(); size_t n = a.a->f.size();
      for (uint64_t m : d.scales) { int64_t i = (int64_t)m; r.a->f.push_back(i < 0 ? a.a->f[0] : (size_t)i < n ? a.a->f[i] : b.a->f[i - n]); } f.r[d.dst] = r; f.pc++; break; }
    case Instruction::Ret: {
      Val v; if (!d.ops.empty()) v = OP(0);
      popFrame(S);
      Thread &t = S.th[S.cur];
      if (t.st.empty()) {
        if (S.cur == 0) { endPath(S, "complete"); return; }
        t.done = true; S.cur = 0; break; // back to the scheduler thread
      }
      finishCall(S, v); break; }
    case Instruction::Unreachable: violPath(S, "abort", "unreachable executed"); return;
    case Instruction::LandingPad: { Val v; v.k = V_AGG; v.a = new Agg(); v.a->f.push_back(vBV(64, T.curExc)); v.a->f.push_back(vBV(32, (uint32_t)T.curSel)); f.r[d.dst] = v; f.pc++; break; }
    case Instruction::Resume: {
      uint64_t e = OP(0).a->f[0].v;
      if (T.st.size() == 1) { violPath(S, "exception", "uncaught exception " + demangle("_ZTI" + tiName(S, S.exc[e].ti))); return; }
      popFrame(S); unwind(S, e); break; }
    case Instruction::AtomicRMW: {
      Val a = OP(0); TypeD *t = typeD(d.I->getType()); if (!resolve(S, a, t->size, "atomicrmw", true)) return;
      Val old = loadAt(S, a.v, t), v = OP(1), nv; 
      switch (d.sub) { case AtomicRMWInst::Add: nv = ibin(S, Instruction::Add, old, v, dead); break; case AtomicRMWInst::Sub: nv = ibin(S, Instruction::Sub, old, v, dead); break; case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::And: nv = ibin(S, Instruction::And, old, v, dead); break; case AtomicRMWInst::Or: nv = ibin(S, Instruction::Or, old, v, dead); break; default: incomplete(S, "atomicrmw"); return; }
      storeAt(S, a.v, nv, t); f.r[d.dst] = old; f.pc++; break; }
    case Instruction::AtomicCmpXchg: {
      Val a = OP(0); TypeD *t = typeD(d.I->getOperand(1)->getType()); if (!resolve(S, a, t->size, "cmpxchg", true)) return;
      Val old = loadAt(S, a.v, t); Val eq = icmp(CmpInst::ICMP_EQ, old, OP(1)); int q = eq.k == V_BV ? (int)eq.v : decide(S, eq.e, nullptr); if (q < 0) return;
      if (q) storeAt(S, a.v, OP(2), t); Val r; r.k = V_AGG; r.a = new Agg(); r.a->f = {old, vBV(1, q)}; f.r[d.dst] = r; f.pc++; break; }
    case Instruction::Fence: f.pc++; break;
    case Instruction::Call: case Instruction::Invoke: {
      if (d.flag == 1) { if (d.dst >= 0) { incomplete(S, "inline asm"); return; } finishCall(S, Val()); break; }
      Function *F = d.callee; size_t na = d.ops.size();
      if (!F) {
        Val fp = OP(na - 1); na--;
        if (fp.k != V_BV) { if (!concretize(S, fp, 0)) return; }
        auto it = faddr.find(fp.v); if (it == faddr.end()) { violPath(S, "memory", "call through invalid function pointer"); return; }
        F = it->second;
      }
      args.clear(); for (size_t i = 0; i < na; i++) args.push_back(OP(i));
      ExtFn ext; FuncInfo *fi;
      if (d.callee && d.resolved) { ext = d.ext; fi = d.fi; }
      else { ext = findExt(F); fi = F->isDeclaration() ? nullptr : getFI(F); if (d.callee) { d.ext = ext; d.fi = fi; d.resolved = true; } }
      if (ext) {
        if (F->getName().starts_with("gp_")) { bool bad = false; for (size_t i = 0; i < na && i < F->arg_size(); i++) if (args[i].k == V_EX && F->getArg(i)->getType()->isPointerTy() && !concretize(S, args[i], 0)) { bad = true; break; } if (bad) return; }
        Val ret; int r = ext(S, d, args, ret);
        if (r == 1) { if (S.th.empty()) return; break; }
        if (r == 0) { finishCall(S, ret); break; }
        if (r == 3) { return; }
      }
      if (!fi) { incomplete(S, "unsupported external " + F->getName().str()); return; }
      pushFrame(S, fi, args); if (S.th.empty()) return;
      break; }
    default: incomplete(S, std::string("unsupported instruction ") + d.I->getOpcodeName()); return;
    }
  }
}
// ------------------------------------------------------------------ set-up
static void initGlobals(State &S) {
  for (auto &F : *M) { uint64_t id = S.nextId++; S.heap.slot(id) = newObj(id << 24, 1, 6, false); gaddr[&F] = id << 24; faddr[id << 24] = &F; }
  for (auto &g : M->globals()) {
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration() && sz < 512) sz = 512;
    uint64_t id = S.nextId++; auto o = newObj(id << 24, sz, g.isConstant() && !g.isDeclaration() ? 1 : 0, false); o->nm = strdup(g.getName().str().c_str());
    S.heap.slot(id) = o; gaddr[&g] = id << 24;
  }
  for (auto &a : M->aliases()) if (auto *o = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) { gaddr[&a] = gaddr[o]; }
  for (auto &g : M->globals()) if (g.hasInitializer()) initMem(S.heap.wr(gaddr[&g] >> 24), 0, g.getInitializer());
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function *>> v;
    for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) if (p.second) globalCtors.push_back(p.second);
  }
}
int runModule(Module *m, const std::string &entry) {
  M = m; DL = &m->getDataLayout(); tStart = now();
  auto S = std::make_unique<State>(); S->id = 0; S->nextId = 256; S->th.resize(1); S->model = std::make_shared<Model>();
  initGlobals(*S);
  // global constructors, then the entry: a chain executed by one state
  Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  for (Function *c : globalCtors) {
    if (c->isDeclaration()) continue;
    std::vector<Val> a; S->cur = 0; S->th.resize(1); pushFrame(*S, getFI(c), a);
    R.inCtors = true;
    size_t w0 = work.size(); run(*S);
    if (R.ends["complete"]) R.ends["complete"]--; else { fprintf(stderr, "global constructor did not complete: %s\n", c->getName().str().c_str()); return 2; }
    if (work.size() != w0) { fprintf(stderr, "global constructor forked\n"); return 2; }
    S->th.resize(1); S->th[0] = Thread();
  }
  R.inCtors = false; R.ends.clear();
  std::vector<Val> a; S->cur = 0; S->th.resize(1); pushFrame(*S, getFI(E), a);
  work.push_back(std::move(S));
  while (!work.empty()) {
    if (R.timedOut || R.stop) { R.abandoned += work.size(); break; }
    auto s = std::move(work.back()); work.pop_back();
    s->steps = 0;
    run(*s); R.paths++;
    R.maxDepth = std::max(R.maxDepth, (uint64_t)s->depth);
    if (R.paths >= opt.maxPaths) { R.timedOut = true; }
  }
  R.wall = now() - tStart;
  return 0;
}
}
