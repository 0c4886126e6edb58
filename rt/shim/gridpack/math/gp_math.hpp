// Model of the distributed math library seen by the mappers: rows (elements) are owned
// by processes in rank order, values may be set or added anywhere, the two kinds of
// insertion may not be mixed before ready(), only own rows may be read, sparse rows
// may not exceed their preallocation.
#pragma once
#include <complex>
#include <cmath>
#include <boost/function.hpp>
#include "sim.h"
#include "gridpack/utilities/complex.hpp"
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/math/matrix_storage_type.hpp"
namespace gridpack { namespace math {
enum { GM_DIM = 40, GM_PROC = 10 };
template <class T> struct GmStore { int nr, nc, np, rlo[GM_PROC + 1], clo[GM_PROC + 1], sparse, dn[GM_DIM], on[GM_DIM]; T v[GM_DIM][GM_DIM]; bool nz[GM_DIM][GM_DIM]; int mode, dirty; };
template <class T> std::vector<GmStore<T> *> &gm_stores(int vec) { static std::vector<GmStore<T> *> s[2]; return s[vec]; }
template <class T> int *gm_counts(int vec) { static int c[2][GM_PROC]; return c[vec]; }
inline void gm_fail(const char *w) { gp_check(0, w); gp_end_path("math"); }
template <class T> struct GmBase {
  GmStore<T> *s; parallel::Communicator comm; int me;
  // collective
  GmBase(const parallel::Communicator &c, int lr, int lc, int dn, const int *dnz, bool dense, bool vec) : comm(c), me(c.rank()) {
    if (lr < 0 || lc < 0) gm_fail("matrix or vector created with a negative number of local rows"); int np = c.size(); comm.barrier();
    std::vector<GmStore<T> *> &st = gm_stores<T>(vec); int k = gm_counts<T>(vec)[me]++; if ((int)st.size() <= k) { GmStore<T> *n = new GmStore<T>(); memset(n->rlo, 0, sizeof n->rlo); memset(n->clo, 0, sizeof n->clo); n->np = np; n->mode = n->dirty = 0; n->sparse = !dense; for (int i = 0; i < GM_DIM; i++) for (int j = 0; j < (vec ? 1 : GM_DIM); j++) { n->v[i][j] = T(0.0); n->nz[i][j] = false; } st.push_back(n); }
    s = st[k]; if (s->sparse != !dense) gm_fail("processes disagree about the kind of matrix"); s->rlo[me + 1] = lr; s->clo[me + 1] = lc; comm.barrier();
    if (me == 0) { for (int p = 0; p < np; p++) { s->rlo[p + 1] += s->rlo[p]; s->clo[p + 1] += s->clo[p]; } s->nr = s->rlo[np]; s->nc = s->clo[np]; if (s->nr > GM_DIM || s->nc > GM_DIM) gm_fail("matrix larger than the model"); } comm.barrier();
    for (int i = 0; i < lr; i++) { int d = dnz ? dnz[i] : dn, o = dnz ? d : (d > 10 ? d : 10); if (d < 0) gm_fail("negative number of nonzeros per row"); s->dn[s->rlo[me] + i] = np == 1 && !dnz ? d + o : d; s->on[s->rlo[me] + i] = o; } comm.barrier(); }
  void put(int i, int j, const T &x, int m) {
    if (!(i >= 0 && i < s->nr && j >= 0 && j < s->nc)) gm_fail("value placed outside the matrix or vector"); if (s->mode && s->mode != m) gm_fail("set and add mixed before ready"); s->mode = m; s->dirty = 1;
    if (s->sparse && !s->nz[i][j]) { int p = 0; while (i >= s->rlo[p + 1]) p++; int d = 0, o = 0; for (int k = 0; k < s->nc; k++) if (s->nz[i][k] || k == j) { if (k >= s->clo[p] && k < s->clo[p + 1]) d++; else o++; } if (d > s->dn[i] || o > s->on[i]) gm_fail("more nonzeros in a row than announced"); }
    s->nz[i][j] = true; if (m == 1) s->v[i][j] = x; else s->v[i][j] += x; }
  T get(int i, int j) const { if (s->dirty) gm_fail("value read before ready"); if (!(i >= s->rlo[me] && i < s->rlo[me + 1] && j >= 0 && j < s->nc)) gm_fail("value of another process read"); return s->v[i][j]; }
  void zero() { comm.barrier(); if (me == 0) { if (s->dirty) gm_fail("zeroed before ready"); for (int i = 0; i < s->nr; i++) for (int j = 0; j < s->nc; j++) s->v[i][j] = T(0.0); } comm.barrier(); }
  void ready() { comm.barrier(); if (me == 0) s->mode = s->dirty = 0; comm.barrier(); }
  parallel::Communicator communicator() const { return comm; }
};
template <class T, class I = int> struct MatrixT : GmBase<T> { typedef GmBase<T> B; typedef T TheType; typedef I IdxType;
  MatrixT(const parallel::Communicator &c, const int &lr, const int &lc, const MatrixStorageType &t = Sparse) : B(c, lr, lc, GM_DIM, 0, t == Dense, false) {}
  MatrixT(const parallel::Communicator &c, const int &lr, const int &lc, const int &nz) : B(c, lr, lc, nz, 0, false, false) {}
  MatrixT(const parallel::Communicator &c, const int &lr, const int &lc, const int *nz) : B(c, lr, lc, 0, nz, false, false) {}
  static int split(const parallel::Communicator &c, int n) { return n / c.size() + (n % c.size() > c.rank()); }
  static MatrixT *createDense(const parallel::Communicator &c, const int &gr, const int &gc, const int &lr, const int &lc) { if ((gr <= 0 && lr < 0) || (gc <= 0 && lc < 0)) gm_fail("no matrix size given"); return new MatrixT(c, gr > 0 && lr <= 0 ? split(c, gr) : lr, gc > 0 && lc <= 0 ? split(c, gc) : lc, Dense); }
  void setElement(const int &i, const int &j, const T &x) { this->put(i, j, x, 1); } void addElement(const int &i, const int &j, const T &x) { this->put(i, j, x, 2); }
  void setElements(const int &n, const int *i, const int *j, const T *x) { for (int k = 0; k < n; k++) this->put(i[k], j[k], x[k], 1); } void addElements(const int &n, const int *i, const int *j, const T *x) { for (int k = 0; k < n; k++) this->put(i[k], j[k], x[k], 2); }
  void getElement(const int &i, const int &j, T &x) const { x = this->get(i, j); }
  void getRowBlock(const int &n, const int *rows, T *x) const { for (int k = 0; k < n; k++) for (int j = 0; j < this->s->nc; j++) x[k * this->s->nc + j] = this->get(rows[k], j); }
  int rows() const { return this->s->nr; } int cols() const { return this->s->nc; } int localRows() const { return this->s->rlo[this->me + 1] - this->s->rlo[this->me]; }
  void localRowRange(int &lo, int &hi) const { lo = this->s->rlo[this->me]; hi = this->s->rlo[this->me + 1]; } };
// norms: computed, unless the harness gives them (a norm is then an arbitrary value)
template <class T, class I = int> struct VectorT;
template <class T> double (*&gm_norm())(const VectorT<T, int> &, int kind) { static double (*f)(const VectorT<T, int> &, int) = 0; return f; }
template <class T, class I> struct VectorT : GmBase<T> { typedef GmBase<T> B; typedef T TheType; typedef I IdxType;
  VectorT(const parallel::Communicator &c, const int &n) : B(c, n, c.rank() == 0, 0, 0, true, true) {}
  void setElement(const int &i, const T &x) { this->put(i, 0, x, 1); } void addElement(const int &i, const T &x) { this->put(i, 0, x, 2); }
  void setElements(const int &n, const int *i, const T *x) { for (int k = 0; k < n; k++) this->put(i[k], 0, x[k], 1); } void addElements(const int &n, const int *i, const T *x) { for (int k = 0; k < n; k++) this->put(i[k], 0, x[k], 2); }
  void getElement(const int &i, T &x) const { x = this->get(i, 0); } void getElements(const int &n, const int *i, T *x) const { for (int k = 0; k < n; k++) x[k] = this->get(i[k], 0); }
  VectorT *clone() const { int n = localSize(); VectorT *r = new VectorT(this->comm, n); for (int i = 0; i < n; i++) r->s->v[r->s->rlo[r->me] + i][0] = this->get(this->s->rlo[this->me] + i, 0); this->comm.barrier(); return r; }
  template <class F> void each_(F f) { if (this->s->dirty) gm_fail("vector used before ready"); this->comm.barrier(); for (int i = this->s->rlo[this->me]; i < this->s->rlo[this->me + 1]; i++) f(i, this->s->v[i][0]); this->comm.barrier(); }
  void fill(const T &x) { each_([&](int, T &y) { y = x; }); } void scale(const T &x) { each_([&](int, T &y) { y *= x; }); } void equate(const VectorT &o) { each_([&](int i, T &y) { y = o.get(i, 0); }); } void add(const VectorT &o, const T &m = T(1.0)) { each_([&](int i, T &y) { y += m * o.get(i, 0); }); } void add(const T &x) { each_([&](int, T &y) { y += x; }); }
  static double mag_(const RealType &x) { return gp_branch(x < 0) ? -x : x; } static double mag_(const ComplexType &x) { return std::abs(x); }
  double normInfinity() const { if (this->s->dirty) gm_fail("norm before ready"); if (gm_norm<T>()) return gm_norm<T>()(*this, 0); this->comm.barrier(); double r = 0; for (int i = 0; i < this->s->nr; i++) { double m = mag_(this->s->v[i][0]); if (gp_branch(m > r)) r = m; } this->comm.barrier(); return r; }
  double norm2() const { if (this->s->dirty) gm_fail("norm before ready"); if (gm_norm<T>()) return gm_norm<T>()(*this, 2); this->comm.barrier(); double r = 0; for (int i = 0; i < this->s->nr; i++) r += std::norm(this->s->v[i][0]); this->comm.barrier(); return sqrt(r); }
  int processor_rank() const { return this->me; } int processor_size() const { return this->comm.size(); } void print(const char * = 0) const {} void save(const char *) const {}
  int size() const { return this->s->nr; } int localSize() const { return this->s->rlo[this->me + 1] - this->s->rlo[this->me]; }
  void localIndexRange(int &lo, int &hi) const { lo = this->s->rlo[this->me]; hi = this->s->rlo[this->me + 1]; } };
template <class T> struct NonlinearSolverT;
void gm_solve(MatrixT<RealType> &, const VectorT<RealType> &, VectorT<RealType> &); void gm_solve(MatrixT<ComplexType> &, const VectorT<ComplexType> &, VectorT<ComplexType> &);
void gm_nlsolve(NonlinearSolverT<RealType> &, VectorT<RealType> &); void gm_nlsolve(NonlinearSolverT<ComplexType> &, VectorT<ComplexType> &);
// Linear and nonlinear solvers: the harness decides what a solve returns.
template <class T> struct LinearSolverT { MatrixT<T> &A; LinearSolverT(MatrixT<T> &a) : A(a) {} template <class C> void configure(C) {} void configurationKey(const std::string &) {}
  void solve(const VectorT<T> &b, VectorT<T> &x) const { gm_solve(A, b, x); } };
template <class T> struct NonlinearSolverT { typedef boost::function<void(const VectorT<T> &, MatrixT<T> &)> JacobianBuilder; typedef boost::function<void(const VectorT<T> &, VectorT<T> &)> FunctionBuilder; MatrixT<T> &A; JacobianBuilder jb; FunctionBuilder fb; double tol_; int mx_;
  NonlinearSolverT(MatrixT<T> &a, JacobianBuilder j, FunctionBuilder f) : A(a), jb(j), fb(f), tol_(0), mx_(-1) {} virtual ~NonlinearSolverT() {} template <class C> void configure(C) {} void tolerance(const double &t) { tol_ = t; } void maximumIterations(const int &n) { mx_ = n; }
  void solve(VectorT<T> &x) { gm_nlsolve(*this, x); } };
template <class T> struct NewtonRaphsonSolverT : NonlinearSolverT<T> { using NonlinearSolverT<T>::NonlinearSolverT; };
typedef LinearSolverT<ComplexType> LinearSolver, ComplexLinearSolver; typedef LinearSolverT<RealType> RealLinearSolver; typedef NonlinearSolverT<ComplexType> NonlinearSolver; typedef NonlinearSolverT<RealType> RealNonlinearSolver; typedef NewtonRaphsonSolverT<ComplexType> NewtonRaphsonSolver; typedef NewtonRaphsonSolverT<RealType> RealNewtonRaphsonSolver;
typedef MatrixT<ComplexType> ComplexMatrix; typedef MatrixT<RealType> RealMatrix; typedef ComplexMatrix Matrix;
typedef VectorT<ComplexType> ComplexVector; typedef VectorT<RealType> RealVector; typedef ComplexVector Vector;
} }
