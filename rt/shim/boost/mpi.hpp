// Environment model of Boost.MPI over the simulated process set.
#pragma once
#include <functional>
#include <algorithm>
#include <vector>
#include "mpi.h"
#include "sim.h"
#include <boost/serialization/gp_ser.hpp>
namespace boost { namespace mpi {
enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
template <class T> struct maximum { T operator()(const T &a, const T &b) const { return a < b ? b : a; } };
template <class T> struct minimum { T operator()(const T &a, const T &b) const { return b < a ? b : a; } };
class communicator { SimComm *c_;
public:
  communicator() : c_(sim_world()) {} communicator(const MPI_Comm &c, comm_create_kind k) : c_(k == comm_duplicate ? sim_dup(c) : c) {}
  int rank() const { return sim_crank(c_); } int size() const { return (int)c_->wr.size(); } void barrier() const { sim_barrier(c_, 1); }
  communicator split(int color) const { return communicator(sim_split(c_, color, rank()), comm_attach); }
  communicator split(int color, int key) const { return communicator(sim_split(c_, color, key), comm_attach); }
  operator MPI_Comm() const { return c_; }
  SimComm *raw() const { return c_; }
  template <class T> void send(int dst, int tag, const T &t) const { gpar::oar o; o << t; size_t n = o.n; sim_send(c_, dst, tag, o.take(), n); }
  template <class T> void recv(int src, int tag, T &t) const { size_t n; char *b = sim_recv(c_, src, tag, &n); gpar::iar i(b, n); i >> t; gp_check(i.at == i.n, "message not read to its end"); free(b); }
  template <class T> void send(int dst, int tag, const T *t, int n) const { gpar::oar o; for (int i = 0; i < n; i++) o << t[i]; size_t k = o.n; sim_send(c_, dst, tag, o.take(), k); }
  template <class T> void recv(int src, int tag, T *t, int n) const { size_t k; char *b = sim_recv(c_, src, tag, &k); gpar::iar i(b, k); for (int j = 0; j < n; j++) i >> t[j]; free(b); }
};
class environment { public: environment() {} environment(int &, char **&, bool = true) {} };
template <class T, class Op> void all_reduce(const communicator &c, const T *in, int n, T *out, Op op) {
  const std::vector<const void *> &s = sim_enter(c.raw(), in, 50000 + n); std::vector<T> t;
  for (int i = 0; i < n; i++) { T v = ((const T *)s[0])[i]; for (size_t r = 1; r < s.size(); r++) v = op(v, ((const T *)s[r])[i]); t.push_back(v); }
  sim_leave(c.raw()); for (int i = 0; i < n; i++) out[i] = t[i]; }
template <class T, class Op> void all_reduce(const communicator &c, const T &in, T &out, Op op) { T t = in; T r[1]; 
  const std::vector<const void *> &s = sim_enter(c.raw(), &t, 50001); T v = *(const T *)s[0]; for (size_t k = 1; k < s.size(); k++) v = op(v, *(const T *)s[k]); sim_leave(c.raw()); out = v; }
template <class T, class Op> T all_reduce(const communicator &c, const T &in, Op op) { T o; all_reduce(c, in, o, op); return o; }
template <class T, class Op> void reduce(const communicator &c, const T &in, T &out, Op op, int root) { T o; struct A { const T *p; int root; } a = {&in, root}; const std::vector<const void *> &s = sim_enter(c.raw(), &a, 50002); T v = *((const A *)s[0])->p; for (size_t k = 1; k < s.size(); k++) { v = op(v, *((const A *)s[k])->p); gp_check(((const A *)s[k])->root == root, "reduce roots differ"); } sim_leave(c.raw()); if (c.rank() == root) out = v; }
template <class T, class Op> void reduce(const communicator &c, const T &in, Op op, int root) { T o = in; reduce(c, in, o, op, root); }
template <class T> void broadcast(const communicator &c, T &t, int root) { struct A { T *p; int root; } a = {&t, root}; const std::vector<const void *> &s = sim_enter(c.raw(), &a, 50003); const A *r = (const A *)s[root]; gp_check(r->root == root, "broadcast roots differ"); if (r->p != &t) gpar::transfer(*r->p, t); sim_leave(c.raw()); }
template <class T> void broadcast(const communicator &c, T *t, int n, int root) { struct A { T *p; int root, n; } a = {t, root, n}; const std::vector<const void *> &s = sim_enter(c.raw(), &a, 50004); const A *r = (const A *)s[root]; gp_check(r->root == root && r->n == n, "broadcast arguments differ"); if (r->p != t) for (int i = 0; i < n; i++) gpar::transfer(r->p[i], t[i]); sim_leave(c.raw()); }
template <class T> void gather(const communicator &c, const T &in, std::vector<T> &out, int root) { const std::vector<const void *> &s = sim_enter(c.raw(), &in, 50005); if (c.rank() == root) { std::vector<T> t(s.size()); for (size_t i = 0; i < s.size(); i++) gpar::transfer(*(const T *)s[i], t[i]); out.swap(t); } sim_leave(c.raw()); }
template <class T> void gather(const communicator &c, const T &in, int) { sim_enter(c.raw(), &in, 50005); sim_leave(c.raw()); }
template <class T> void all_gather(const communicator &c, const T &in, std::vector<T> &out) { const std::vector<const void *> &s = sim_enter(c.raw(), &in, 50006); std::vector<T> t(s.size()); for (size_t i = 0; i < s.size(); i++) gpar::transfer(*(const T *)s[i], t[i]); sim_leave(c.raw()); out.swap(t); }
} }
