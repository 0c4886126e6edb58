#pragma once
#include "ga.h"
#include "macdecls.h"
namespace GA {
struct Services { int nodeid() { return GA_Nodeid(); } int nodes() { return GA_Nnodes(); } void sync() { GA_Sync(); } };
extern Services SERVICES;
class GlobalArray { int h_;
public:
  GlobalArray(int type, int nd, int dims[], char *name, int *chunk); GlobalArray(int type, int nd, int dims[], const char *name, int *chunk) : GlobalArray(type, nd, dims, (char *)name, chunk) {}
  ~GlobalArray(); int handle() const { return h_; }
  void put(int lo[], int hi[], void *b, int ld[]) { NGA_Put(h_, lo, hi, b, ld); } void get(int lo[], int hi[], void *b, int ld[]) { NGA_Get(h_, lo, hi, b, ld); }
  void scatter(void *v, int *s[], int n) { NGA_Scatter(h_, v, s, n); } void gather(void *v, int *s[], int n) { NGA_Gather(h_, v, s, n); }
  void scatterAcc(void *v, int *s[], int n, void *a) { NGA_Scatter_acc(h_, v, s, n, a); }
  long readInc(int s[], long inc) { return NGA_Read_inc(h_, s, inc); } void zero() { GA_Zero(h_); } void distribution(int p, int *lo, int *hi) { NGA_Distribution(h_, p, lo, hi); }
  void fill(void *v) { GA_Fill(h_, v); } void print() {} void printDistribution() {}
};
}
