#include "eng.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/StringExtras.h"
#include <cstdio>
#include <fstream>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm; using namespace gpse;
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
template <class Mp> static std::string jm(const Mp &m) { std::string s = "{"; bool f = true; for (auto &p : m) { if (!f) s += ","; f = false; s += js(p.first) + ":" + std::to_string(p.second); } return s + "}"; }
template <class St> static std::string jl(const St &m) { std::string s = "["; bool f = true; for (auto &p : m) { if (!f) s += ","; f = false; s += js(p); } return s + "]"; }
int main(int argc, char **argv) {
  std::string in, out, entry = "gp_main";
  struct rlimit rl{1ul << 30, 1ul << 30}; setrlimit(RLIMIT_STACK, &rl);
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") out = nx(); else if (a == "-e") entry = nx(); else if (a == "-v") opt.verbose++; else if (a == "--time") opt.maxTime = atof(nx().c_str());
    else if (a == "--steps") opt.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--paths") opt.maxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--timeout") gTimeoutMs = atoi(nx().c_str()); else if (a == "--ieee") opt.ieeeConc = true; else if (a == "--int2real") opt.int2real = true;
    else if (a == "--hang") opt.hang = true; else if (a == "-p") { std::string kv = nx(); size_t q = kv.find('='); opt.params[kv.substr(0, q)] = atoll(kv.c_str() + q + 1); } else if (a == "--psamples") opt.pathSamples = atoi(nx().c_str()); else if (a == "--samples") opt.samplesPerViol = atoi(nx().c_str());
    else in = a; }
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(in, err, ctx);
  if (!m) { err.print("gpse", errs()); return 2; }
  int rc = runModule(m.get(), entry); if (rc) return rc;
  std::string s = "{";
  auto num = [&](const char *k, double v) { char b[64]; snprintf(b, 64, "%.17g", v); s += js(k) + ":" + b + ","; };
  num("paths", R.paths); num("steps", R.steps); num("forks", R.forks); num("queries", gSS.queries); num("cache_hits", gSS.cacheHits); num("sat", gSS.sat); num("unsat", gSS.unsat); num("unknown", gSS.unknown); num("solver_s", gSS.time); num("algebraic", gSS.algebraic); num("algebraic_s", gSS.algTime); num("sampled", gSS.sampled); num("solver_max_s", gSS.maxTime); num("wall_s", R.wall);
  num("checks_proved", R.checksProved); num("checks_trivial", R.checksTrivial); num("unknown_checks", R.unknownChecks); num("unknown_branches", R.unknownBranches); num("undef_reads", R.undefReads); num("concretizations", R.concretizations); num("abandoned", R.abandoned); num("max_depth", R.maxDepth); num("timed_out", R.timedOut); num("vars", gVars.size()); num("exprs", exprCount());
  s += "\"ends\":" + jm(R.ends) + ",\"incomplete\":" + jm(R.incomplete) + ",\"covers\":" + jm(R.covers) + ",\"checks\":" + jm(R.checks) + ",\"div0\":" + jm(R.div0) + ",\"div_assume\":" + jl(R.divAssume) + ",\"notes\":" + jm(R.notes) + ",";
  std::map<std::string, uint64_t> fn; std::set<std::string> files;
  for (auto &p : fmap) if (p.second->calls) { fn[demangle(p.second->name)] = p.second->calls; }
  std::map<std::string, uint64_t> rf; // repository functions: by debug info file
  for (auto &p : fmap) if (p.second->calls) if (auto *sp = p.second->F->getSubprogram()) { std::string f = (sp->getFilename().starts_with("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str(); size_t k = f.find("/src/"); if (f.find("/repo/") != std::string::npos) rf[f + ":" + demangle(p.second->name)] = p.second->calls; }
  s += "\"functions\":" + jm(rf) + ",\"nfunctions\":" + std::to_string(fn.size()) + ",\"violations\":[";
  bool f = true;
  for (auto &p : R.viol) { if (!f) s += ","; f = false; s += "{\"kind\":" + js(p.second.kind) + ",\"msg\":" + js(p.second.msg) + ",\"key\":" + js(p.first) + ",\"count\":" + std::to_string(p.second.count) + ",\"samples\":[";
    bool g = true; for (auto &v : p.second.samples) { if (!g) s += ","; g = false; s += "{\"where\":" + js(v.where) + ",\"unknown_path\":" + (v.unknownPath ? "true" : "false") + ",\"values\":["; bool h = true; for (auto &q : v.vals) { if (!h) s += ","; h = false; s += "[" + js(q.first) + "," + js(q.second) + "]"; } s += "]}"; }
    s += "]}"; }
  s += "],\"path_samples\":["; f = true;
  for (auto &v : R.pathSamples) { if (!f) s += ","; f = false; s += "["; bool h = true; for (auto &q : v.vals) { if (!h) s += ","; h = false; s += "[" + js(q.first) + "," + js(q.second) + "]"; } s += "]"; }
  s += "]}\n";
  if (out.empty()) fputs(s.c_str(), stdout); else { std::ofstream o(out); o << s; }
  fprintf(stderr, "paths=%lu steps=%lu queries=%lu solver=%.1fs wall=%.1fs viol=%zu incomplete=%zu\n", (unsigned long)R.paths, (unsigned long)R.steps, (unsigned long)gSS.queries, gSS.time, R.wall, R.viol.size(), R.incomplete.size());
  fflush(0); _exit(0);
}
