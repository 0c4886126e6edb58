#pragma once
#include "exec.h"
namespace gpse {
struct ViolSample { std::string where; std::vector<std::pair<std::string, std::string>> vals; bool unknownPath = false; };
struct Viol { std::string kind, msg, key; uint64_t count = 0; std::vector<ViolSample> samples; };
struct Results {
  std::map<std::string, uint64_t> ends, incomplete, covers, div0, checks; std::map<std::string, Viol> viol; std::set<std::string> divAssume, stubs;
  uint64_t steps = 0, forks = 0, paths = 0, undefReads = 0, unknownBranches = 0, unknownChecks = 0, concretizations = 0, checksProved = 0, checksTrivial = 0, abandoned = 0, maxDepth = 0, assumes = 0;
  std::vector<ViolSample> pathSamples; bool timedOut = false, stop = false, inCtors = false; double wall = 0;
  std::map<std::string, uint64_t> notes;
};
struct Options { int verbose = 0; double maxTime = 600; uint64_t maxSteps = 200000000ull, maxPaths = 10000000; int samplesPerViol = 3, pathSamples = 8; bool ieeeConc = false, int2real = false, hang = false; std::map<std::string, int64_t> params; };
extern Results R; extern Options opt; extern llvm::Module *M; extern const llvm::DataLayout *DL;
extern std::unordered_map<const llvm::Function *, FuncInfo *> fmap;
extern std::unordered_map<const llvm::GlobalValue *, uint64_t> gaddr;
extern std::unordered_map<uint64_t, llvm::Function *> faddr;
extern std::vector<std::unique_ptr<State>> work;
ExtFn findExt(llvm::Function *F);
TypeD *typeD(llvm::Type *t);
MemObj *findObj(State &S, uint64_t a); MemObj *wrObj(State &S, uint64_t a);
uint64_t allocHeap(State &S, uint64_t size, uint8_t kind, bool uninit);
Val loadAt(State &S, uint64_t a, TypeD *t); void storeAt(State &S, uint64_t a, const Val &v, TypeD *t);
bool rangeOk(State &S, uint64_t a, uint64_t n); void copyMem(State &S, uint64_t d, uint64_t s, uint64_t n); void setMem(State &S, uint64_t d, const Val &c, uint64_t n);
bool readCStr(State &S, uint64_t a, std::string &out);
std::unique_ptr<State> cloneState(State &S); std::string where(State &S, int max);
void endPath(State &S, const std::string &why); void incomplete(State &S, const std::string &why);
void report(State &S, const std::string &kind, const std::string &msg, Model *m); void violPath(State &S, const std::string &kind, const std::string &msg);
void setModel(State &S, const Model &base, const Model &sl); void flattenAnd(State &S, Expr *c);
int decide(State &S, Expr *c, std::unique_ptr<State> *other);
bool concretize(State &S, Val &v, int limit); bool resolve(State &S, Val &a, uint64_t n, const char *what, bool write);
Val fbin(State &S, unsigned op, const Val &a, const Val &b, bool &dead); Val fneg(const Val &a);
void finishCall(State &S, const Val &v); void pushFrame(State &S, FuncInfo *fi, std::vector<Val> &args); void popFrame(State &S); FuncInfo *getFI(llvm::Function *F);
void throwExc(State &S, uint64_t exc); int tiId(uint64_t ti); uint64_t upcast(State &S, uint64_t ti, uint64_t obj, uint64_t dst, bool &found);
bool fullModel(State &S, Expr *extra, Model &m);
int runModule(llvm::Module *m, const std::string &entry);
}
