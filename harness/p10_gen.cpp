// Generalised mappers: indices of rows, columns and elements, placement of values, and the way back to the components.
#define NB_CUSTOM
#define NB_GLOBALS
#include "gridpack/component/base_component.hpp"
using namespace gridpack;
enum { ROUNDS = 3, CM = 16 }; // components: buses 0..7, branches 8..15
static int nr_[CM], nc_[CM], ncol_, rnd_[16], e1_[6], e2_[6], all_, extra_;
static double vr_[ROUNDS][CM][2], vi_[ROUNDS][CM][2], sr_[ROUNDS][CM][2][2];
static double coef(int k, int own, int col, int r, int c, int im); // value given by a component for its row r and column c of component col
int curRound();
struct Gen { int cid; std::vector<int> ri, ci, vix, six; std::vector<double> gr, gi; int sets; Gen() : cid(-1), ri(2, -1), ci(2, -1), vix(2, -1), six(2, -1), sets(0) {}
  std::vector<Gen *> cols; // components with columns to which this one contributes in its own rows
  std::vector<std::pair<Gen *, Gen *> > other; // branches: (row component, column component) outside its own rows
  int nv() const { int n = 0; for (size_t j = 0; j < cols.size(); j++) n += nr_[cid] * nc_[cols[j]->cid]; for (size_t j = 0; j < other.size(); j++) n += nr_[other[j].first->cid] * nc_[other[j].second->cid]; return n; }
  void mv(ComplexType *v, int *rows, int *cs) { int k = curRound(), n = 0; for (size_t j = 0; j < cols.size() + other.size(); j++) { Gen *a = j < cols.size() ? this : other[j - cols.size()].first, *b = j < cols.size() ? cols[j] : other[j - cols.size()].second; for (int r = 0; r < nr_[a->cid]; r++) for (int c = 0; c < nc_[b->cid]; c++) { v[n] = ComplexType(coef(k, a->cid, b->cid, r, c, 0), coef(k, a->cid, b->cid, r, c, 1)); rows[n] = a->ri[r]; cs[n] = b->ci[c]; n++; } } }
  void vv(ComplexType *v, int *idx) { for (int r = 0; r < nr_[cid]; r++) { v[r] = ComplexType(vr_[curRound()][cid][r], vi_[curRound()][cid][r]); idx[r] = vix[r]; } }
  void vs(ComplexType *v) { sets++; gr.clear(); gi.clear(); for (int r = 0; r < nr_[cid]; r++) { gr.push_back(real(v[r])); gi.push_back(imag(v[r])); } }
  void sv(std::vector<ComplexType *> &v, int *idx) { gp_check((int)v.size() >= nr_[cid], "slab buffer too small"); for (int r = 0; r < nr_[cid]; r++) { for (int c = 0; c < ncol_; c++) v[r][c] = ComplexType(sr_[curRound()][cid][r][c], c + 1.0); idx[r] = six[r]; } }
  void ss(ComplexType **v) { sets++; gr.clear(); for (int r = 0; r < nr_[cid]; r++) for (int c = 0; c < ncol_; c++) gr.push_back(real(v[r][c])); } };
#define GENFN int matrixNumRows() const { return nr_[g.cid]; } int matrixNumCols() const { return nc_[g.cid]; } void matrixSetRowIndex(int i, int x) { g.ri[i] = x; } void matrixSetColIndex(int i, int x) { g.ci[i] = x; } int matrixGetRowIndex(int i) { return g.ri[i]; } int matrixGetColIndex(int i) { return g.ci[i]; } int matrixNumValues() const { return g.nv(); } void matrixGetValues(ComplexType *v, int *r, int *c) { g.mv(v, r, c); } void matrixGetValues(RealType *, int *, int *) {} \
  int vectorNumElements() const { return nr_[g.cid]; } void vectorSetElementIndex(int i, int x) { g.vix[i] = x; } void vectorGetElementIndices(int *x) { for (int r = 0; r < nr_[g.cid]; r++) x[r] = g.vix[r]; } void vectorGetElementValues(ComplexType *v, int *x) { g.vv(v, x); } void vectorGetElementValues(RealType *, int *) {} void vectorSetElementValues(ComplexType *v) { g.vs(v); } void vectorSetElementValues(RealType *) {} \
  void slabSize(int *r, int *c) const { *r = nr_[g.cid]; *c = ncol_; } void slabSetRowIndex(int i, int x) { g.six[i] = x; } void slabGetRowIndices(int *x) { for (int r = 0; r < nr_[g.cid]; r++) x[r] = g.six[r]; } void slabGetValues(std::vector<ComplexType *> &v, int *x) { g.sv(v, x); } void slabGetValues(std::vector<RealType *> &, int *) {} void slabSetValues(ComplexType **v) { g.ss(v); } void slabSetValues(RealType **) {}
struct TBus : component::BaseBusComponent { int id; double v; Gen g; TBus() : id(-1), v(0) {} GENFN
  template <class A> void serialize(A &a, const unsigned) { a & boost::serialization::base_object<component::BaseBusComponent>(*this) & id & v; } };
struct TBranch : component::BaseBranchComponent { int id; double v; Gen g; TBranch() : id(-1), v(0) {} GENFN
  template <class A> void serialize(A &a, const unsigned) { a & boost::serialization::base_object<component::BaseBranchComponent>(*this) & id & v; } };
#include "netbase.h"
int curRound() { return rnd_[sim_rank()]; }
static double cf_[ROUNDS][CM][CM][2]; static double coef(int k, int a, int b, int r, int c, int im) { return cf_[k][a][b][im] * (r == 1 ? -2 : 1) * (c == 1 ? 3 : 1); }
#include "gridpack/mapper/gen_matrix_map.hpp"
#include "gridpack/mapper/gen_vector_map.hpp"
#include "gridpack/mapper/gen_slab_map.hpp"
typedef network::BaseNetwork<TBus, TBranch> Net;
static int mode, op; static int ix_[3][CM][2]; // row, column or element indices reported by the owner
static bool adj(int a, int b) { // does component a contribute to columns of b in rows of a
  if (a == b) return true; if (a < 8 && b < 8) { for (int q = 0; q < nBr; q++) if ((e1_[q] == a && e2_[q] == b) || (e2_[q] == a && e1_[q] == b)) return true; return false; }
  if (a >= 8 && b < 8) return e1_[a - 8] == b || e2_[a - 8] == b; if (a < 8) return extra_ && (e1_[b - 8] == a || e2_[b - 8] == a); return false; }
static bool comp(int c) { return c < 8 ? c < nBus : c - 8 < nBr; }
static void indices(int which, const int *cnt, int total) { for (int x = 0; x < total; x++) { int c = 0; for (int i = 0; i < CM; i++) if (comp(i)) for (int k = 0; k < cnt[i]; k++) c += ix_[which][i][k] == x; gp_check(c == 1, "indices are not a contiguous range given once each"); } }
static double er_[16][16], ei_[16][16];
template <class M> static void verify(M &m, parallel::Communicator &w, int k, int acc, const char *what) { w.barrier();
  int NR = 0, NC = 0; for (int i = 0; i < CM; i++) if (comp(i)) { NR += nr_[i]; NC += nc_[i]; } gp_check_eqi(m.rows(), NR, "number of rows"); gp_check_eqi(m.cols(), NC, "number of columns");
  if (w.rank() == 0) { if (!acc) for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) er_[i][j] = ei_[i][j] = 0; for (int a = 0; a < CM; a++) for (int b = 0; b < CM; b++) if (comp(a) && comp(b) && adj(a, b)) for (int r = 0; r < nr_[a]; r++) for (int c = 0; c < nc_[b]; c++) { double &x = er_[ix_[0][a][r]][ix_[1][b][c]], &y = ei_[ix_[0][a][r]][ix_[1][b][c]]; x = (acc == 2 ? x : 0) + coef(k, a, b, r, c, 0); y = (acc == 2 ? y : 0) + coef(k, a, b, r, c, 1); if (a >= 8) gp_cover("branch value"); } } w.barrier();
  int lo, hi; m.localRowRange(lo, hi); for (int i = lo; i < hi; i++) for (int j = 0; j < NC; j++) { ComplexType x; m.getElement(i, j, x); gp_check_eq(real(x), er_[i][j], what); gp_check_eq(imag(x), ei_[i][j], what); } w.barrier(); }
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<Net> n(new Net(w)); net_build(*n, r, true); factory::BaseFactory<Net> f(n); f.setComponents(); rnd_[r] = 0; int nb = n->numBuses(), nr = n->numBranches();
  for (int l = 0; l < nb; l++) n->getBus(l)->g.cid = n->getBus(l)->id; for (int l = 0; l < nr; l++) n->getBranch(l)->g.cid = 8 + n->getBranch(l)->id;
  for (int l = 0; l < nb; l++) { Gen &g = n->getBus(l)->g; g.cols.push_back(&g); for (int k = 0; k < nb; k++) if (k != l && adj(g.cid, n->getBus(k)->id) && all_ == 0) g.cols.push_back(&n->getBus(k)->g); if (extra_ == 1) for (int k = 0; k < nr; k++) if (adj(g.cid, 8 + n->getBranch(k)->id)) g.cols.push_back(&n->getBranch(k)->g); }
  for (int k = 0; k < nr; k++) { Gen &g = n->getBranch(k)->g; int x, y; n->getBranchEndpoints(k, &x, &y); Gen *a = &n->getBus(x)->g, *b = &n->getBus(y)->g; g.cols.push_back(&g); g.cols.push_back(a); g.cols.push_back(b); if (all_) { g.other.push_back(std::make_pair(a, b)); g.other.push_back(std::make_pair(b, a)); } if (extra_ == 2) { g.other.push_back(std::make_pair(a, &g)); g.other.push_back(std::make_pair(b, &g)); } }
  std::vector<Gen *> lc; std::vector<bool> la; for (int l = 0; l < nb; l++) { lc.push_back(&n->getBus(l)->g); la.push_back(n->getActiveBus(l)); } for (int l = 0; l < nr; l++) { lc.push_back(&n->getBranch(l)->g); la.push_back(n->getActiveBranch(l)); }
  int tot = 0, mine = 0; for (int i = 0; i < CM; i++) if (comp(i)) { tot += nr_[i]; if (i < 8 ? own_[i] == r : bown_[i - 8] == r) mine += nr_[i]; }
#define PUB(which, fld, cnt) do { w.barrier(); for (size_t i = 0; i < lc.size(); i++) if (la[i]) for (int k = 0; k < cnt[lc[i]->cid]; k++) ix_[which][lc[i]->cid][k] = lc[i]->fld[k]; w.barrier(); for (size_t i = 0; i < lc.size(); i++) if (!la[i]) { for (int k = 0; k < cnt[lc[i]->cid]; k++) gp_check(lc[i]->fld[k] == ix_[which][lc[i]->cid][k], "ghost and owner have different indices"); gp_cover("ghost"); } } while (0)
  if (mode == 0) { mapper::GenMatrixMap<Net> map(n); PUB(0, ri, nr_); PUB(1, ci, nc_); if (r == 0) { int tc = 0; for (int i = 0; i < CM; i++) if (comp(i)) tc += nc_[i]; indices(0, nr_, tot); indices(1, nc_, tc); }
    boost::shared_ptr<math::Matrix> m; if (op & 8) m.reset(map.intMapToMatrix()); else m = map.mapToMatrix(); int lo, hi; m->localRowRange(lo, hi); gp_check_eqi(hi - lo, mine, "rows of a process are not those of its components"); verify(*m, w, 0, 0, "value in the mapped matrix"); rnd_[r] = 1; if (op & 1) map.mapToMatrix(m); else map.mapToMatrix(*m); verify(*m, w, 1, 0, "value in the reset matrix"); rnd_[r] = 2; if (op & 2) { map.incrementMatrix(m); verify(*m, w, 2, 2, "value in the incremented matrix"); gp_cover("increment"); } else { map.overwriteMatrix(m); verify(*m, w, 2, 1, "value in the overwritten matrix"); gp_cover("overwrite"); } w.barrier(); }
  else if (mode == 1) { mapper::GenVectorMap<Net> map(n); PUB(2, vix, nr_); if (r == 0) indices(2, nr_, tot); boost::shared_ptr<math::Vector> v; if (op & 8) v.reset(map.intMapToVector()); else v = map.mapToVector();
    for (int k = 0; k < 2; k++) { if (k) { rnd_[r] = 1; if (op & 1) map.mapToVector(v); else map.mapToVector(*v); } gp_check_eqi(v->size(), tot, "length of the vector"); int lo, hi; v->localIndexRange(lo, hi); gp_check_eqi(hi - lo, mine, "elements of a process are not those of its components");
      for (int i = 0; i < CM; i++) if (comp(i)) for (int j = 0; j < nr_[i]; j++) { int x = ix_[2][i][j]; if (x < lo || x >= hi) continue; ComplexType z; v->getElement(x, z); gp_check_eq(real(z), vr_[k][i][j], "value in the vector"); gp_check_eq(imag(z), vi_[k][i][j], "value in the vector"); gp_cover("vector"); } w.barrier(); }
    for (int i = 0; i < CM; i++) if (comp(i)) for (int j = 0; j < nr_[i]; j++) { int lo, hi; v->localIndexRange(lo, hi); if (ix_[2][i][j] >= lo && ix_[2][i][j] < hi) v->setElement(ix_[2][i][j], ComplexType(vr_[2][i][j], vi_[2][i][j])); } v->ready(); if (op & 1) map.mapToNetwork(v); else map.mapToNetwork(*v);
    for (size_t i = 0; i < lc.size(); i++) { gp_check(la[i] ? lc[i]->sets == 1 : lc[i]->sets == 0, "values not given to each owned component once"); if (la[i]) for (int j = 0; j < nr_[lc[i]->cid]; j++) { gp_check_eq(lc[i]->gr[j], vr_[2][lc[i]->cid][j], "value given back to a component"); gp_check_eq(lc[i]->gi[j], vi_[2][lc[i]->cid][j], "value given back to a component"); gp_cover("back"); } } w.barrier(); }
  else { mapper::GenSlabMap<Net> map(n); PUB(2, six, nr_); if (r == 0) indices(2, nr_, tot); boost::shared_ptr<math::Matrix> v; if (op & 8) v.reset(map.intMapToMatrix()); else v = map.mapToMatrix();
    for (int k = 0; k < 2; k++) { if (k) { rnd_[r] = 1; if (op & 1) map.mapToMatrix(v); else map.mapToMatrix(*v); } gp_check_eqi(v->rows(), tot, "number of rows"); if (!(op & 8)) gp_check_eqi(v->cols(), ncol_, "number of columns"); int lo, hi; v->localRowRange(lo, hi); gp_check_eqi(hi - lo, mine, "rows of a process are not those of its components");
      for (int i = 0; i < CM; i++) if (comp(i)) for (int j = 0; j < nr_[i]; j++) { int x = ix_[2][i][j]; if (x < lo || x >= hi) continue; for (int c = 0; c < ncol_; c++) { ComplexType z; v->getElement(x, c, z); gp_check_eq(real(z), sr_[k][i][j][c], "value in the slab"); gp_check_eq(imag(z), c + 1.0, "value in the slab"); gp_cover("slab"); } } w.barrier(); }
    if (!(op & 8)) { for (int i = 0; i < CM; i++) if (comp(i)) for (int j = 0; j < nr_[i]; j++) { int lo, hi; v->localRowRange(lo, hi); if (ix_[2][i][j] >= lo && ix_[2][i][j] < hi) for (int c = 0; c < ncol_; c++) v->setElement(ix_[2][i][j], c, sr_[2][i][j][c]); } v->ready(); if (op & 1) map.mapToNetwork(v); else map.mapToNetwork(*v);
      for (size_t i = 0; i < lc.size(); i++) { gp_check(la[i] ? lc[i]->sets == 1 : lc[i]->sets == 0, "values not given to each owned component once"); if (la[i]) for (int j = 0; j < nr_[lc[i]->cid]; j++) for (int c = 0; c < ncol_; c++) { gp_check_eq(lc[i]->gr[j * ncol_ + c], sr_[2][lc[i]->cid][j][c], "value given back to a component"); gp_cover("back"); } } } w.barrier(); }
}
void gp_main() { mode = (int)gp_param("mode", 0); op = (int)gp_param("op", 0); int cnt = (int)gp_param("cnt", 1); all_ = (int)gp_param("all", 0); extra_ = (int)gp_param("extra", 0); ncol_ = (int)gp_param("ncol", 2); net_graph(); net_owners(); int any = 0;
  for (int i = 0; i < CM; i++) if (comp(i)) { nr_[i] = cnt ? gp_choose("rows", 0, cnt) : (i * 5 + 1) % 3; nc_[i] = cnt >= 2 ? gp_choose("cols", 0, 2) : cnt ? (i & 1 ? nr_[i] : 1) : (i + 1) % 3; any += nr_[i]; if (!nr_[i]) gp_cover("no rows"); } if (!any) gp_end_path("nothing declared");
  for (int k = 0; k < ROUNDS; k++) for (int i = 0; i < CM; i++) if (comp(i)) { for (int j = 0; j < CM; j++) if (comp(j)) { cf_[k][i][j][0] = gp_real("a"); cf_[k][i][j][1] = gp_real("a"); } for (int r = 0; r < 2; r++) { vr_[k][i][r] = gp_real("v"); vi_[k][i][r] = gp_real("v"); for (int c = 0; c < 2; c++) sr_[k][i][r][c] = gp_real("s"); } }
  sim_order((int)gp_param("rev", 0)); sim_run(nProc, body); }
