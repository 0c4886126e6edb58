#include "sim.h"
#include "mpi.h"
#include "ga.h"
#include "macdecls.h"
#include "ga-mpi.h"
#include "ga++.h"
#include <complex>
// ---------------------------------------------------------------- scheduler
struct Msg { int ctx, src, dst, tag; char *buf; size_t n; };
struct Rank { int tid; int wait; SimComm *wc; int wgen; int wsrc, wtag; };
static std::vector<Rank> R; static int curRank = -1, exploreLeft = 0, reversed_ = 0, nextId = 1;
static SimComm *world_ = 0; static std::vector<Msg> mail; static std::vector<SimComm *> comms; static void (*body_)(int);
int sim_rank() { return curRank; }
int sim_size() { return (int)R.size(); }
void sim_explore(int b) { exploreLeft = b; }
void sim_order(int r) { reversed_ = r; }
SimComm *sim_world() { return world_; }
static SimComm *mk(const std::vector<int> &wr) { SimComm *c = new SimComm(); c->id = nextId++; c->wr = wr; c->arrived = 0; c->gen = 0; c->tag = 0; c->joined = 0; c->slot.resize(wr.size()); comms.push_back(c); return c; }
static bool runnable(int r) {
  Rank &k = R[r]; if (gp_done(k.tid)) return false;
  if (k.wait == 1) return k.wc->gen != k.wgen;
  if (k.wait == 2) { for (size_t i = 0; i < mail.size(); i++) if (mail[i].ctx == k.wc->id && mail[i].dst == r && mail[i].src == k.wsrc && mail[i].tag == k.wtag) return true; return false; }
  return true;
}
static void rankMain(void *a) { body_((int)(long)a); }
static void toSched() { int r = curRank; gp_switch(0); curRank = r; }
static int lastRun = -1, preempt = 0;
void sim_run(int n, void (*body)(int)) {
  body_ = body; R.clear(); mail.clear(); R.resize(n); std::vector<int> w;
  for (int i = 0; i < n; i++) { R[i].wait = 0; R[i].wc = 0; w.push_back(i); }
  world_ = mk(w);
  for (int i = 0; i < n; i++) R[i].tid = gp_spawn(rankMain, (void *)(long)i);
  for (;;) {
    std::vector<int> q; bool all = true;
    for (int j = 0; j < n; j++) { int i = reversed_ ? n - 1 - j : j; if (runnable(i)) q.push_back(i); if (!gp_done(R[i].tid)) all = false; }
    if (all) break;
    if (q.empty()) { gp_check(0, "deadlock: no process can proceed"); gp_end_path("deadlock"); }
    int pick = q[0];
    if (preempt) { for (size_t i = 0; i < q.size(); i++) if (q[i] == lastRun) pick = lastRun; }
    if (q.size() > 1 && exploreLeft > 0 && preempt) { exploreLeft--; pick = q[gp_choose("sched", 0, (int)q.size() - 1)]; }
    preempt = 0; lastRun = pick; R[pick].wait = 0; curRank = pick; gp_switch(R[pick].tid); curRank = -1;
  }
  for (size_t i = 0; i < mail.size(); i++) { (void)i; }
}
void sim_point() { if (curRank < 0 || exploreLeft <= 0) return; preempt = 1; toSched(); }
int sim_crank(SimComm *c) { for (size_t i = 0; i < c->wr.size(); i++) if (c->wr[i] == curRank) return (int)i; gp_check(0, "process is not a member of the communicator it uses"); gp_end_path("member"); return -1; }
void sim_barrier(SimComm *c, int tag) {
  if (c->arrived == 0) c->tag = tag; else if (c->tag != tag) { gp_check(0, "processes of a communicator call different collective operations"); gp_end_path("mismatch"); }
  sim_crank(c);
  if (++c->arrived == (int)c->wr.size()) { c->arrived = 0; c->gen++; if (exploreLeft > 0) { preempt = 1; toSched(); } return; }
  Rank &k = R[curRank]; k.wait = 1; k.wc = c; k.wgen = c->gen; toSched();
}
const std::vector<const void *> &sim_enter(SimComm *c, const void *p, int tag) { c->slot[sim_crank(c)] = p; sim_barrier(c, tag); return c->slot; }
void sim_leave(SimComm *c) { sim_barrier(c, -1); }
struct CK { int color, key; SimComm *res; };
SimComm *sim_split(SimComm *c, int color, int key) {
  CK me = {color, key, 0}; const std::vector<const void *> &s = sim_enter(c, &me, 101); int r = sim_crank(c);
  std::vector<int> mem; std::vector<int> keys; int first = -1;
  for (size_t i = 0; i < c->wr.size(); i++) { const CK *o = (const CK *)s[i]; if (o->color != color) continue; if (first < 0) first = (int)i;
    size_t p = mem.size(); while (p > 0 && keys[p - 1] > o->key) p--; mem.insert(mem.begin() + p, c->wr[i]); keys.insert(keys.begin() + p, o->key); }
  if (first == r) { SimComm *n = mk(mem); for (size_t i = 0; i < c->wr.size(); i++) { CK *o = (CK *)s[i]; if (o->color == color) o->res = n; } }
  sim_leave(c); return me.res;
}
SimComm *sim_dup(SimComm *c) { return sim_split(c, 0, 0); }
SimComm *sim_group(const int *list, int n) {
  std::vector<int> w(list, list + n);
  for (size_t i = 0; i < comms.size(); i++) { SimComm *c = comms[i]; if (c->joined == 0 || !(c->wr == w)) continue;
    int me = -1; for (int j = 0; j < n; j++) if (w[j] == curRank) me = j; if (me < 0 || (c->joined >> me & 1)) continue;
    c->joined |= 1 << me; return c; }
  SimComm *c = mk(w); for (int j = 0; j < n; j++) if (w[j] == curRank) c->joined |= 1 << j;
  return c;
}
void sim_send(SimComm *c, int dst, int tag, char *buf, size_t n) {
  if (dst < 0 || dst >= (int)c->wr.size()) { gp_check(0, "message sent to a rank outside the communicator"); gp_end_path("rank"); }
  Msg m = {c->id, curRank, c->wr[dst], tag, buf, n}; sim_crank(c); mail.push_back(m); }
char *sim_recv(SimComm *c, int src, int tag, size_t *n) {
  if (src < 0 || src >= (int)c->wr.size()) { gp_check(0, "message expected from a rank outside the communicator"); gp_end_path("rank"); }
  int s = c->wr[src];
  for (;;) {
    for (size_t i = 0; i < mail.size(); i++) if (mail[i].ctx == c->id && mail[i].dst == curRank && mail[i].src == s && mail[i].tag == tag) { char *b = mail[i].buf; *n = mail[i].n; mail.erase(mail.begin() + i); return b; }
    Rank &k = R[curRank]; k.wait = 2; k.wc = c; k.wsrc = s; k.wtag = tag; toSched();
  }
}
int sim_blocked_end() { return (int)mail.size(); }
// ---------------------------------------------------------------- reductions
enum { OP_SUM = 1, OP_PROD, OP_MIN, OP_MAX };
template <class T> static T red1(T a, T b, int op) { switch (op) { case OP_SUM: return a + b; case OP_PROD: return a * b; case OP_MIN: return b < a ? b : a; default: return a < b ? b : a; } }
template <class T> static void red(SimComm *c, const void *in, void *out, int n, int op, int tag) {
  const std::vector<const void *> &s = sim_enter(c, in, tag * 1000 + n);
  std::vector<T> t(n);
  for (int i = 0; i < n; i++) { T v = ((const T *)s[0])[i]; for (size_t r = 1; r < s.size(); r++) v = red1<T>(v, ((const T *)s[r])[i], op); t[i] = v; }
  sim_leave(c); for (int i = 0; i < n; i++) ((T *)out)[i] = t[i];
}
static void redT(SimComm *c, const void *in, void *out, int n, int type, int op, int tag) {
  switch (type) {
  case MPI_INT: red<int>(c, in, out, n, op, tag); break; case MPI_LONG: red<long>(c, in, out, n, op, tag); break;
  case MPI_DOUBLE: red<double>(c, in, out, n, op, tag); break; case MPI_FLOAT: red<float>(c, in, out, n, op, tag); break;
  case MPI_CHAR: case MPI_BYTE: red<char>(c, in, out, n, op, tag); break;
  default: gp_fail_path("reduction type"); } }
static size_t mpiSize(int t) { return t == MPI_INT || t == MPI_FLOAT ? 4 : t == MPI_CHAR || t == MPI_BYTE ? 1 : 8; }
extern "C" {
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = sim_crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = (int)c->wr.size(); return 0; }
int MPI_Barrier(MPI_Comm c) { sim_barrier(c, 1); return 0; }
int MPI_Bcast(void *b, int n, int t, int root, MPI_Comm c) {
  struct A { void *b; int n, t, root; } me = {b, n, t, root}; const std::vector<const void *> &s = sim_enter(c, &me, 2);
  A *r = (A *)s[root]; if (r->n * mpiSize(r->t) != n * mpiSize(t) || r->root != root) { gp_check(0, "broadcast arguments differ between processes"); gp_end_path("bcast"); }
  if (r->b != b) memcpy(b, r->b, n * mpiSize(t)); sim_leave(c); return 0; }
int MPI_Allreduce(const void *in, void *out, int n, int t, int op, MPI_Comm c) { redT(c, in == MPI_IN_PLACE ? out : in, out, n, t, op, 10 + t); return 0; }
int MPI_Alltoall(const void *in, int n, int t, void *out, int, int, MPI_Comm c) {
  const std::vector<const void *> &s = sim_enter(c, in, 3000 + n); size_t z = mpiSize(t) * n; int me = sim_crank(c); size_t np = s.size();
  char *tmp = (char *)malloc(z * np + 1); for (size_t r = 0; r < np; r++) memcpy(tmp + r * z, (const char *)s[r] + me * z, z);
  sim_leave(c); memcpy(out, tmp, z * np); free(tmp); return 0; }
int MPI_Alltoallv(const void *in, const int *sc, const int *sd, int st, void *out, const int *rc, const int *rd, int rt, MPI_Comm c) {
  struct A { const char *b; const int *sc, *sd; size_t z; } a = {(const char *)in, sc, sd, mpiSize(st)}; const std::vector<const void *> &s = sim_enter(c, &a, 4);
  int me = sim_crank(c); size_t np = s.size();
  for (size_t r = 0; r < np; r++) { const A *o = (const A *)s[r]; if (o->sc[me] * o->z != rc[r] * mpiSize(rt)) { gp_check(0, "all-to-all: size sent differs from size received"); gp_end_path("alltoallv"); }
    if (rc[r]) memcpy((char *)out + rd[r] * mpiSize(rt), o->b + o->sd[me] * o->z, rc[r] * mpiSize(rt)); }
  sim_leave(c); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { *o = sim_split(c, color, key); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { *o = sim_dup(c); return 0; }
int MPI_Comm_free(MPI_Comm *) { return 0; }
static double wt; double MPI_Wtime(void) { return wt += 0.5; }
int MPI_Init(int *, char ***) { return 0; } int MPI_Finalize(void) { return 0; } int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Abort(MPI_Comm, int) { gp_check(0, "MPI_Abort called"); gp_end_path("abort"); return 0; }
}
// ---------------------------------------------------------------- Global Arrays
struct Blk { int lo[3], hi[3]; char *mem; };
struct Arr { int ndim, dims[3], type; size_t esz; std::vector<Blk> blk; SimComm *grp; int freed; bool irreg; };
struct Hnd { int ndim, dims[3], type, grp; std::vector<int> map, nblk; Arr *a; bool dead; };
struct Per { std::vector<Hnd *> h; std::vector<size_t> types; std::vector<SimComm *> grp; int defgrp; bool init; };
static std::vector<Per> per_;
static Per &per() { if (per_.size() < R.size()) per_.resize(R.size()); Per &p = per_[curRank]; if (!p.init) { p.init = true; p.defgrp = 0; p.grp.push_back(world_); } return p; }
void sim_ga_reset() { per_.clear(); }
static void gaerr(const char *m) { gp_check(0, m); gp_end_path("ga error"); }
static Hnd &H(int h) { Per &p = per(); int i = h + 1000; if (i < 0 || i >= (int)p.h.size() || p.h[i]->dead) gaerr("invalid global array handle"); return *p.h[i]; }
static Arr &A(int h) { Hnd &x = H(h); if (!x.a) gaerr("global array used before it is allocated"); return *x.a; }
static SimComm *G(int g) { Per &p = per(); if (g == -1) g = p.defgrp; if (g < 0 || g >= (int)p.grp.size()) gaerr("invalid process group handle"); return p.grp[g]; }
static size_t tsz(int t) { switch (t) { case C_INT: case C_FLOAT: return 4; case C_DBL: case C_LONG: case C_LONGLONG: return 8; case C_DCPL: return 16; case C_CHAR: return 1; case C_SCPL: return 8; }
  Per &p = per(); if (t >= 2000 && t - 2000 < (int)p.types.size() && p.types[t - 2000]) return p.types[t - 2000]; gaerr("invalid global array element type"); return 0; }
static char *elem(Arr &a, const int *s) {
  for (int d = 0; d < a.ndim; d++) if (s[d] < 0 || s[d] >= a.dims[d]) gaerr("global array subscript out of range");
  for (size_t b = 0; b < a.blk.size(); b++) { Blk &k = a.blk[b]; bool in = true; for (int d = 0; d < a.ndim; d++) if (s[d] < k.lo[d] || s[d] > k.hi[d]) in = false; if (!in) continue;
    size_t o = 0; for (int d = 0; d < a.ndim; d++) o = o * (k.hi[d] - k.lo[d] + 1) + (s[d] - k.lo[d]); return k.mem + o * a.esz; }
  gaerr("global array element is not in any block"); return 0; }
static void conc(int *o, const int *s, int n) { for (int i = 0; i < n; i++) o[i] = (int)gp_concrete(s[i]); }
static void patch(int h, int lo0[], int hi0[], char *buf, int ld[], int op, const void *alpha) {
  sim_point(); Arr &a = A(h); int lo[3], hi[3]; conc(lo, lo0, a.ndim); conc(hi, hi0, a.ndim);
  for (int d = 0; d < a.ndim; d++) if (lo[d] < 0 || hi[d] >= a.dims[d] || lo[d] > hi[d]) gaerr("global array patch out of range");
  int s[3]; long inner = hi[a.ndim - 1] - lo[a.ndim - 1] + 1;
  long rows = a.ndim > 1 ? hi[0] - lo[0] + 1 : 1; if (a.ndim > 2) gp_fail_path("3-d global array"); long l = a.ndim > 1 ? gp_concrete(ld[0]) : 0;
  for (long i = 0; i < rows; i++) for (long j = 0; j < inner; j++) {
    if (a.ndim > 1) { s[0] = lo[0] + i; s[1] = lo[1] + j; } else s[0] = lo[0] + j;
    char *e = elem(a, s), *b = buf + (i * l + j) * a.esz; if (op == 0) memcpy(e, b, a.esz); else memcpy(b, e, a.esz); }
}
static void points(int h, void *v, int *subs[], int n, int op, const void *alpha) {
  sim_point(); Arr &a = A(h);
  for (int i = 0; i < n; i++) { int s[3]; conc(s, subs[i], a.ndim); char *e = elem(a, s), *b = (char *)v + i * a.esz;
    if (op == 0) memcpy(e, b, a.esz); else if (op == 1) memcpy(b, e, a.esz);
    else switch (a.type) { case C_INT: *(int *)e += *(int *)b * *(const int *)alpha; break; case C_LONG: *(long *)e += *(long *)b * *(const long *)alpha; break; case C_DBL: *(double *)e += *(double *)b * *(const double *)alpha; break;
      case C_DCPL: *(std::complex<double> *)e += *(std::complex<double> *)b * *(const std::complex<double> *)alpha; break; default: gp_fail_path("accumulate type"); } }
}
extern "C" {
void GA_Initialize(void) {} void GA_Terminate(void) {} int GA_Initialized(void) { return 1; } void GA_Initialize_comm(MPI_Comm) {}
int MA_init(int, int, int) { return 1; } int MA_sizeof(int t, int n, int u) { size_t b = t == MT_CHAR ? 1 : t == MT_C_INT ? 4 : 8, d = u == MT_CHAR ? 1 : u == MT_C_INT ? 4 : 8; return (int)((b * n + d - 1) / d); }
MPI_Comm GA_MPI_Comm(void) { return world_; }
int GA_Nodeid(void) { return curRank; } int GA_Nnodes(void) { return (int)R.size(); }
int GA_Pgroup_get_world(void) { per(); return 0; } int GA_Pgroup_get_default(void) { return per().defgrp; } void GA_Pgroup_set_default(int g) { G(g); per().defgrp = g; }
int GA_Pgroup_create(int *l, int n) { per().grp.push_back(sim_group(l, n)); return (int)per().grp.size() - 1; }
int GA_Pgroup_destroy(int) { return 1; }
int GA_Pgroup_nodeid(int g) { return sim_crank(G(g)); } int GA_Pgroup_nnodes(int g) { return (int)G(g)->wr.size(); }
void GA_Pgroup_sync(int g) { sim_barrier(G(g), 20); } void GA_Sync(void) { sim_barrier(G(-1), 20); } void NGA_Pgroup_sync(int g) { GA_Pgroup_sync(g); }
static int gop(const char *o) { return !strcmp(o, "+") ? OP_SUM : !strcmp(o, "*") ? OP_PROD : !strcmp(o, "max") ? OP_MAX : !strcmp(o, "min") ? OP_MIN : (gaerr("unknown reduction operator"), 0); }
void GA_Pgroup_igop(int g, int *x, int n, char *o) { redT(G(g), x, x, n, MPI_INT, gop(o), 30); } void GA_Pgroup_lgop(int g, long *x, int n, char *o) { redT(G(g), x, x, n, MPI_LONG, gop(o), 31); }
void GA_Pgroup_fgop(int g, float *x, int n, char *o) { redT(G(g), x, x, n, MPI_FLOAT, gop(o), 32); } void GA_Pgroup_dgop(int g, double *x, int n, char *o) { redT(G(g), x, x, n, MPI_DOUBLE, gop(o), 33); }
void GA_Igop(int *x, int n, char *o) { GA_Pgroup_igop(-1, x, n, o); } void GA_Dgop(double *x, int n, char *o) { GA_Pgroup_dgop(-1, x, n, o); }
int GA_Create_handle(void) { Hnd *h = new Hnd(); h->ndim = 0; h->a = 0; h->dead = false; h->grp = per().defgrp; per().h.push_back(h); return (int)per().h.size() - 1 - 1000; }
void GA_Set_data(int g, int nd, int dims[], int type) { Hnd &h = H(g); if (nd < 1 || nd > 2) gp_fail_path("array dimension"); h.ndim = nd; conc(h.dims, dims, nd); for (int d = 0; d < nd; d++) if (h.dims[d] <= 0) gaerr("global array dimension not positive"); h.type = type; tsz(type); }
void GA_Set_chunk(int, int *) {} void GA_Set_array_name(int, char *) {}
void GA_Set_pgroup(int g, int p) { G(p); H(g).grp = p; }
void GA_Set_irreg_distr(int g, int map[], int blk[]) { Hnd &h = H(g); if (!h.ndim) gaerr("distribution set before the data"); h.nblk.assign(blk, blk + h.ndim); int n = 0; for (int d = 0; d < h.ndim; d++) n += (int)gp_concrete(blk[d]); h.map.clear(); for (int i = 0; i < n; i++) h.map.push_back((int)gp_concrete(map[i])); }
int GA_Allocate(int g) {
  Hnd &h = H(g); SimComm *c = G(h.grp); if (!h.ndim) gaerr("global array allocated before its data are set"); const std::vector<const void *> &s = sim_enter(c, &h, 40); int me = sim_crank(c);
  for (size_t r = 0; r < s.size(); r++) { const Hnd *o = (const Hnd *)s[r]; bool same = o->ndim == h.ndim && o->map == h.map && o->nblk == h.nblk; for (int d = 0; same && d < h.ndim; d++) same = o->dims[d] == h.dims[d]; if (!same) gaerr("processes describe a global array differently"); }
  if (me == 0) {
    Arr *a = new Arr(); a->ndim = h.ndim; a->type = h.type; a->esz = tsz(h.type); a->grp = c; a->freed = 0; a->irreg = !h.map.empty(); for (int d = 0; d < h.ndim; d++) a->dims[d] = h.dims[d]; int np = (int)c->wr.size();
    std::vector<std::vector<int> > st(h.ndim);
    if (!h.map.empty()) { int k = 0; for (int d = 0; d < h.ndim; d++) { for (int i = 0; i < h.nblk[d]; i++) st[d].push_back(h.map[k++]); if (st[d][0] != 0) gaerr("irregular distribution does not start at 0"); for (size_t i = 1; i < st[d].size(); i++) if (st[d][i] < st[d][i - 1] || st[d][i] >= h.dims[d]) gaerr("irregular distribution not increasing"); } }
    else { int b = (h.dims[0] + np - 1) / np; for (int p = 0; p < np; p++) st[0].push_back(p * b < h.dims[0] ? p * b : h.dims[0]); if (h.ndim > 1) st[1].push_back(0); }
    int nb = (int)st[0].size() * (h.ndim > 1 ? (int)st[1].size() : 1); if (nb > np) gaerr("more blocks than processes");
    for (size_t i = 0; i < st[0].size(); i++) for (size_t j = 0; j < (h.ndim > 1 ? st[1].size() : 1); j++) {
      Blk b; b.lo[0] = st[0][i]; b.hi[0] = (i + 1 < st[0].size() ? st[0][i + 1] : h.dims[0]) - 1; long n = b.hi[0] - b.lo[0] + 1;
      if (h.ndim > 1) { b.lo[1] = st[1][j]; b.hi[1] = (j + 1 < st[1].size() ? st[1][j + 1] : h.dims[1]) - 1; n *= b.hi[1] - b.lo[1] + 1; }
      b.mem = n > 0 ? (char *)operator new(n * a->esz) : 0; a->blk.push_back(b); }
    for (size_t r = 0; r < s.size(); r++) ((Hnd *)s[r])->a = a;
  }
  sim_leave(c); return 1; }
void GA_Destroy(int g) { Hnd &h = H(g); if (h.a) { sim_barrier(h.a->grp, 41); if (++h.a->freed == (int)h.a->grp->wr.size()) { for (size_t b = 0; b < h.a->blk.size(); b++) operator delete(h.a->blk[b].mem); } } h.dead = true; }
void GA_Zero(int g) { Arr &a = A(g); sim_barrier(a.grp, 42); int me = sim_crank(a.grp); if (a.irreg && me < (int)a.blk.size() && !a.blk[me].mem) gaerr("zeroing an empty block of an irregular distribution"); if (me < (int)a.blk.size() && a.blk[me].mem) { Blk &k = a.blk[me]; long n = 1; for (int d = 0; d < a.ndim; d++) n *= k.hi[d] - k.lo[d] + 1;
    if (a.type == C_DBL || a.type == C_DCPL) { double *p = (double *)k.mem; for (long i = 0; i < n * (long)(a.esz / 8); i++) p[i] = 0.0; } else memset(k.mem, 0, n * a.esz); } sim_barrier(a.grp, 43); }
void NGA_Put(int g, int lo[], int hi[], void *b, int ld[]) { patch(g, lo, hi, (char *)b, ld, 0, 0); }
void NGA_Get(int g, int lo[], int hi[], void *b, int ld[]) { patch(g, lo, hi, (char *)b, ld, 1, 0); }
void NGA_Scatter(int g, void *v, int *s[], int n) { points(g, v, s, n, 0, 0); }
void NGA_Gather(int g, void *v, int *s[], int n) { points(g, v, s, n, 1, 0); }
void NGA_Scatter_acc(int g, void *v, int *s[], int n, void *al) { points(g, v, s, n, 2, al); }
long NGA_Read_inc(int g, int s0[], long inc) { sim_point(); Arr &a = A(g); int s[3]; conc(s, s0, a.ndim); char *e = elem(a, s); if (a.type == C_INT) { long r = *(int *)e; *(int *)e += (int)inc; return r; } if (a.type == C_LONG) { long r = *(long *)e; *(long *)e += inc; return r; } gaerr("read-increment on a non-integer array"); return 0; }
void NGA_Distribution(int g, int p, int lo[], int hi[]) { Arr &a = A(g); p = (int)gp_concrete(p); if (p < 0 || p >= (int)a.grp->wr.size()) gaerr("distribution of a process outside the group"); bool none = p >= (int)a.blk.size() || (!a.irreg && !a.blk[p].mem); for (int d = 0; d < a.ndim; d++) { lo[d] = none ? -1 : a.blk[p].lo[d]; hi[d] = none ? -2 : a.blk[p].hi[d]; } }
void NGA_Access(int g, int lo[], int hi[], void *ptr, int ld[]) { sim_point(); Arr &a = A(g); int me = sim_crank(a.grp); if (me >= (int)a.blk.size() || !a.blk[me].mem) gaerr("access to an empty local block"); Blk &k = a.blk[me]; for (int d = 0; d < a.ndim; d++) if (lo[d] < k.lo[d] || hi[d] > k.hi[d] || lo[d] > hi[d]) gaerr("access outside the local block");
  *(char **)ptr = elem(a, lo); if (a.ndim > 1) ld[0] = k.hi[1] - k.lo[1] + 1; }
void NGA_Release(int g, int *, int *) { A(g); } void NGA_Release_update(int g, int *, int *) { A(g); }
int NGA_Register_type(size_t n) { per().types.push_back(n); return 2000 + (int)per().types.size() - 1; }
int NGA_Deregister_type(int t) { tsz(t); per().types[t - 2000] = 0; return 0; }
void GA_Fill(int g, void *v) { Arr &a = A(g); sim_barrier(a.grp, 44); int me = sim_crank(a.grp); if (me < (int)a.blk.size() && a.blk[me].mem) { Blk &k = a.blk[me]; long n = 1; for (int d = 0; d < a.ndim; d++) n *= k.hi[d] - k.lo[d] + 1; for (long i = 0; i < n; i++) memcpy(k.mem + i * a.esz, v, a.esz); } sim_barrier(a.grp, 45); }
void GA_Error(char *m, int) { gaerr(m); }
}
namespace GA {
Services SERVICES;
GlobalArray::GlobalArray(int type, int nd, int dims[], char *, int *) { h_ = GA_Create_handle(); int t = type == MT_C_INT ? C_INT : type == MT_C_DBL ? C_DBL : type; GA_Set_data(h_, nd, dims, t); GA_Allocate(h_); }
GlobalArray::~GlobalArray() { GA_Destroy(h_); }
}
