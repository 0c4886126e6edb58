// Full-matrix and bus-vector mappers: every block of every contributing component at the rows and columns of its bus or bus pair, once.
#define NB_CUSTOM
#include "gridpack/component/base_component.hpp"
using namespace gridpack;
enum { ROUNDS = 3 };
static int nr_[8], nc_[8], db_[8], bb_[8][2], dv_[ROUNDS][8], bv2_[ROUNDS][8][2], kind, rnd_[16], vb_[8], got_[8]; // block sizes, contributes, values given
static double re_[ROUNDS][8][2][2], im_[ROUNDS][8][2][2], bre_[ROUNDS][8][2][2][2], bim_[ROUNDS][8][2][2][2], vre_[ROUNDS][8][2], vim_[ROUNDS][8][2];
int curRound();
template <class T> static T mk(double a, double b); template <> ComplexType mk<ComplexType>(double a, double b) { return ComplexType(a, b); } template <> double mk<double>(double a, double) { return a; }
struct TBus : component::BaseBusComponent { int id; double v; std::vector<double> gr, gi; int sets; TBus() : id(-1), v(0), sets(0) {} 
  bool matrixDiagSize(int *i, int *j) const { *i = nr_[id]; *j = nc_[id]; return db_[id]; }
  template <class T> bool dv(T *x) { int k = curRound(); if (!dv_[k][id]) return false; for (int c = 0; c < nc_[id]; c++) for (int r = 0; r < nr_[id]; r++) x[c * nr_[id] + r] = mk<T>(re_[k][id][r][c], im_[k][id][r][c]); return true; }
  bool matrixDiagValues(ComplexType *x) { return dv(x); } bool matrixDiagValues(RealType *x) { return dv(x); }
  bool vectorSize(int *n) const { *n = nr_[id]; return vb_[id]; }
  template <class T> bool vv(T *x) { int k = curRound(); for (int r = 0; r < nr_[id]; r++) x[r] = mk<T>(vre_[k][id][r], vim_[k][id][r]); return true; }
  bool vectorValues(ComplexType *x) { return vv(x); } bool vectorValues(RealType *x) { return vv(x); }
  void setValues(ComplexType *x) { sets++; gr.clear(); gi.clear(); for (int r = 0; r < nr_[id]; r++) { gr.push_back(real(x[r])); gi.push_back(imag(x[r])); } } void setValues(RealType *x) { sets++; gr.clear(); for (int r = 0; r < nr_[id]; r++) gr.push_back(x[r]); }
  template <class A> void serialize(A &a, const unsigned) { a & boost::serialization::base_object<component::BaseBusComponent>(*this) & id & v; } };
static int e1_[6], e2_[6];
struct TBranch : component::BaseBranchComponent { int id; double v; TBranch() : id(-1), v(0) {}
  bool sz(int d, int *i, int *j) const { int a = d ? e2_[id] : e1_[id], b = d ? e1_[id] : e2_[id]; *i = nr_[a]; *j = nc_[b]; return bb_[id][d]; }
  template <class T> bool val(int d, T *x) { int k = curRound(), a = d ? e2_[id] : e1_[id], b = d ? e1_[id] : e2_[id]; if (!bv2_[k][id][d]) return false; for (int c = 0; c < nc_[b]; c++) for (int r = 0; r < nr_[a]; r++) x[c * nr_[a] + r] = mk<T>(bre_[k][id][d][r][c], bim_[k][id][d][r][c]); return true; }
  bool matrixForwardSize(int *i, int *j) const { return sz(0, i, j); } bool matrixReverseSize(int *i, int *j) const { return sz(1, i, j); }
  bool matrixForwardValues(ComplexType *x) { return val(0, x); } bool matrixReverseValues(ComplexType *x) { return val(1, x); } bool matrixForwardValues(RealType *x) { return val(0, x); } bool matrixReverseValues(RealType *x) { return val(1, x); }
  template <class A> void serialize(A &a, const unsigned) { a & boost::serialization::base_object<component::BaseBranchComponent>(*this) & id & v; } };
#define NB_GLOBALS
#include "netbase.h"
int curRound() { return rnd_[sim_rank()]; }
#include "gridpack/mapper/full_map.hpp"
#include "gridpack/mapper/bus_vector_map.hpp"
typedef network::BaseNetwork<TBus, TBranch> Net;
static int op, mv_[MAXB], cplx;
static void eqc(ComplexType a, double r, double i, const char *m) { gp_check_eq(real(a), r, m); gp_check_eq(imag(a), i, m); } static void eqc(double a, double r, double, const char *m) { gp_check_eq(a, r, m); }
// what the matrix must hold; acc: 0 new or reset, 1 overwritten, 2 incremented
static double er_[16][16], ei_[16][16]; static int NR, NC, ro_[MAXB], co_[MAXB];
static void expect(int k, int acc) { if (!acc) for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) er_[i][j] = ei_[i][j] = 0;
  for (int i = 0; i < nBus; i++) if (db_[i]) for (int r = 0; r < nr_[i]; r++) for (int c = 0; c < nc_[i]; c++) { double a = dv_[k][i] ? re_[k][i][r][c] : 0, b = dv_[k][i] ? im_[k][i][r][c] : 0; if (!dv_[k][i]) continue; double &x = er_[ro_[i] + r][co_[i] + c], &y = ei_[ro_[i] + r][co_[i] + c]; x = acc == 2 ? x + a : a; y = acc == 2 ? y + b : b; }
  for (int q = 0; q < nBr; q++) for (int d = 0; d < 2; d++) if (bb_[q][d] && bv2_[k][q][d]) { int f = d ? e2_[q] : e1_[q], t = d ? e1_[q] : e2_[q]; for (int r = 0; r < nr_[f]; r++) for (int c = 0; c < nc_[t]; c++) { double &x = er_[ro_[f] + r][co_[t] + c], &y = ei_[ro_[f] + r][co_[t] + c]; x = acc == 2 ? x + bre_[k][q][d][r][c] : bre_[k][q][d][r][c]; y = acc == 2 ? y + bim_[k][q][d][r][c] : bim_[k][q][d][r][c]; gp_cover(d ? "reverse" : "forward"); } } }
template <class M> static void verify(M &m, parallel::Communicator &w, int k, int acc, const char *what) {
  w.barrier(); if (w.rank() == 0) { gp_check_eqi(m.rows(), NR, "number of rows"); gp_check_eqi(m.cols(), NC, "number of columns"); expect(k, acc); } w.barrier(); int lo, hi; m.localRowRange(lo, hi); int mine = 0; for (int i = 0; i < nBus; i++) if (own_[i] == w.rank() && db_[i]) mine += nr_[i]; gp_check_eqi(hi - lo, mine, "rows of a process are not those of its buses");
  for (int i = lo; i < hi; i++) for (int j = 0; j < NC; j++) { decltype(m.s->v[0][0] + m.s->v[0][0]) x; m.getElement(i, j, x); eqc(x, er_[i][j], ei_[i][j], what); } w.barrier(); }
template <class V> static void vverify(V &v, parallel::Communicator &w, int k, int *vo, int NV) { gp_check_eqi(v.size(), NV, "length of the vector"); int lo, hi; v.localIndexRange(lo, hi); for (int i = 0; i < nBus; i++) if (vb_[i] && own_[i] == w.rank()) for (int r = 0; r < nr_[i]; r++) { decltype(v.s->v[0][0] + v.s->v[0][0]) x; v.getElement(vo[i] + r, x); eqc(x, vre_[k][i][r], vim_[k][i][r], "value of a bus in the vector"); gp_cover("vector"); } w.barrier(); }
static void body(int r) {
  NoPrint::instance()->setStatus(true); parallel::Communicator w; boost::shared_ptr<Net> n(new Net(w)); net_build(*n, r, true); factory::BaseFactory<Net> f(n); f.setComponents(); rnd_[r] = 0;
  for (int l = 0; l < n->numBuses(); l++) if (n->getActiveBus(l)) { int m; n->getBus(l)->getMatVecIndex(&m); mv_[n->getBus(l)->id] = m; } w.barrier();
  int vo[MAXB], NV = 0; if (r == 0) NR = NC = 0;
  for (int m = 0; m < nBus; m++) for (int i = 0; i < nBus; i++) if (mv_[i] == m) { if (r == 0 && db_[i]) { ro_[i] = NR; co_[i] = NC; NR += nr_[i]; NC += nc_[i]; } vo[i] = NV; if (vb_[i]) NV += nr_[i]; } w.barrier();
  if (!(op & 4)) { mapper::FullMatrixMap<Net> map(n);
    if (cplx) { boost::shared_ptr<math::Matrix> m; if (op & 8) m.reset(map.intMapToMatrix(op & 1)); else m = map.mapToMatrix(op & 1); verify(*m, w, 0, 0, "value in the mapped matrix"); rnd_[r] = 1; if (op & 1) map.mapToMatrix(m); else map.mapToMatrix(*m); verify(*m, w, 1, 0, "value in the reset matrix"); rnd_[r] = 2; if (op & 2) { map.incrementMatrix(m); verify(*m, w, 2, 2, "value in the incremented matrix"); gp_cover("increment"); } else { map.overwriteMatrix(m); verify(*m, w, 2, 1, "value in the overwritten matrix"); gp_cover("overwrite"); } }
    else { boost::shared_ptr<math::RealMatrix> m; m = map.mapToRealMatrix(op & 1); verify(*m, w, 0, 0, "value in the mapped matrix"); rnd_[r] = 1; if (op & 1) map.mapToRealMatrix(m); else map.mapToRealMatrix(*m); verify(*m, w, 1, 0, "value in the reset matrix"); } w.barrier(); }
  else { mapper::BusVectorMap<Net> map(n); boost::shared_ptr<math::Vector> v; boost::shared_ptr<math::RealVector> q;
    if (cplx) { if (op & 8) v.reset(map.intMapToVector()); else v = map.mapToVector(); vverify(*v, w, 0, vo, NV); } else { q = map.mapToRealVector(); vverify(*q, w, 0, vo, NV); }
    rnd_[r] = 1; if (cplx) { if (op & 1) map.mapToVector(v); else map.mapToVector(*v); vverify(*v, w, 1, vo, NV); } else { if (op & 1) map.mapToRealVector(q); else map.mapToRealVector(*q); vverify(*q, w, 1, vo, NV); }
    w.barrier(); // other values, given by the owners, pushed to the buses
    for (int i = 0; i < nBus; i++) if (vb_[i] && own_[i] == r) for (int k = 0; k < nr_[i]; k++) { if (cplx) v->setElement(vo[i] + k, ComplexType(vre_[2][i][k], vim_[2][i][k])); else q->setElement(vo[i] + k, vre_[2][i][k]); } if (cplx) v->ready(); else q->ready();
    if (cplx) { if (op & 1) map.mapToBus(v); else map.mapToBus((const math::Vector &)*v); } else { if (op & 1) map.mapToBus(q); else map.mapToBus((const math::RealVector &)*q); }
    int lo, hi; if (cplx) v->localIndexRange(lo, hi); else q->localIndexRange(lo, hi);
    for (int l = 0; l < n->numBuses(); l++) { TBus *b = n->getBus(l).get(); bool c = n->getActiveBus(l) && vb_[b->id]; gp_check_eqi(b->sets, c, c ? "bus not given its values exactly once" : "values given to a bus that has none"); if (c) { gp_check_eqi(b->gr.size(), nr_[b->id], "x"); for (int k = 0; k < nr_[b->id]; k++) { gp_check_eq(b->gr[k], vre_[2][b->id][k], "value pushed to a bus"); if (cplx) gp_check_eq(b->gi[k], vim_[2][b->id][k], "value pushed to a bus"); } gp_cover("push"); }
      int off = -7, sz = -7; map.getLocalOffset(l, &off, &sz); if (c) gp_check(off == vo[b->id] - lo && sz == nr_[b->id], "local offset of a bus"); else gp_check(off == -1 && sz == 0, "local offset of a bus without values"); } w.barrier(); }
}
void gp_main() { op = (int)gp_param("op", 0); cplx = (int)gp_param("cplx", 1); int sz = (int)gp_param("sz", 1), on = (int)gp_param("on", 1), val = (int)gp_param("val", 0); net_graph(); net_owners();
  for (int i = 0; i < nBus; i++) { nr_[i] = sz ? gp_choose("rows", 1, 2) : 1 + (i & 1); nc_[i] = sz == 2 ? gp_choose("cols", 1, 2) : nr_[i]; db_[i] = on ? gp_choose("contributes", 0, 1) : i != 1; vb_[i] = db_[i]; if (!db_[i]) gp_cover("no contribution"); }
  for (int b = 0; b < nBr; b++) for (int d = 0; d < 2; d++) bb_[b][d] = db_[e1_[b]] && db_[e2_[b]] && (on < 2 || gp_choose("branch contributes", 0, 1));
  for (int k = 0; k < ROUNDS; k++) { for (int i = 0; i < nBus; i++) { dv_[k][i] = !(val && k == 2) || gp_choose("gives values", 0, 1); for (int r = 0; r < 2; r++) { vre_[k][i][r] = gp_real("v"); vim_[k][i][r] = gp_real("v"); for (int c = 0; c < 2; c++) { re_[k][i][r][c] = gp_real("d"); im_[k][i][r][c] = gp_real("d"); } } }
    for (int b = 0; b < nBr; b++) for (int d = 0; d < 2; d++) { bv2_[k][b][d] = !(val && k == 2) || ((b + d) & 1); for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) { bre_[k][b][d][r][c] = gp_real("o"); bim_[k][b][d][r][c] = gp_real("o"); } } }
  sim_order((int)gp_param("rev", 0)); sim_run(nProc, body); }
