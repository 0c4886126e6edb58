// Communicator: divide, split, duplicate, reductions on sub-communicators.
#include "sim.h"
#include <ga.h>
#include "gridpack/parallel/communicator.hpp"
using namespace gridpack::parallel;
static int NP, mode, nsize, color[16], mem[16], rk[16], sz[16], grp[16], gid[16]; static int ix[16]; static long lx[16]; static double dx[16]; static bool bx[16]; static int ph[16];
static void reductions(Communicator &c, int r, bool touch) {
  int g = gid[r];
  int is = 0, imx = 0, imn = 0; long ls = 0, lmx = 0; double ds = 0, dmx = 0, dmn = 0; bool any = false, all = true, first = true;
  for (int i = 0; i < NP; i++) { if (gid[i] != g) continue; is += ix[i]; ls += lx[i]; ds += dx[i]; any = any || bx[i]; all = all && bx[i];
    if (first || ix[i] > imx) imx = ix[i]; if (first || ix[i] < imn) imn = ix[i]; if (first || lx[i] > lmx) lmx = lx[i]; if (first || dx[i] > dmx) dmx = dx[i]; if (first || dx[i] < dmn) dmn = dx[i]; first = false; }
  int what = (int)gp_param("red", 0);
  if (what == 0) { int v[2] = {ix[r], 3}; c.sum(v, 2); gp_check_eqi(v[0], is, "integer sum over exactly the members"); gp_check_eqi(v[1], 3 * c.size(), "integer sum of a constant"); long l = lx[r]; c.sum(&l, 1); gp_check_eqi(l, ls, "long sum over exactly the members");
    double d[2] = {dx[r], 1.0}; c.sum(d, 2); gp_check_eq(d[0], ds, "double sum over exactly the members"); gp_check_eq(d[1], c.size(), "double sum of a constant"); float f = 2; c.sum(&f, 1); gp_check_eq(f, 2.0 * c.size(), "float sum"); gridpack::ComplexType z(dx[r], -dx[r]); c.sum(&z, 1); gp_check_eq(real(z), ds, "complex sum"); gp_check_eq(imag(z), -ds, "complex sum"); }
  else if (what == 1) { int v[2] = {ix[r], 7}; c.max(v, 2); gp_check_eqi(v[0], imx, "integer maximum over exactly the members"); gp_check_eqi(v[1], 7, "maximum of a constant"); int w = ix[r]; c.min(&w, 1); gp_check_eqi(w, imn, "integer minimum over exactly the members"); long l = lx[r]; c.max(&l, 1); gp_check_eqi(l, lmx, "long maximum"); }
  else if (what == 2) { double v = dx[r]; c.max(&v, 1); gp_check_eq(v, dmx, "double maximum over exactly the members"); v = dx[r]; c.min(&v, 1); gp_check_eq(v, dmn, "double minimum over exactly the members"); float f = (float)(r + 1); c.max(&f, 1); int hi = 0, lo = 99; for (int i = 0; i < NP; i++) if (gid[i] == g) { if (i + 1 > hi) hi = i + 1; if (i + 1 < lo) lo = i + 1; } gp_check_eq(f, hi, "float maximum"); f = (float)(r + 1); c.min(&f, 1); gp_check_eq(f, lo, "float minimum"); long l = r; c.min(&l, 1); gp_check_eqi(l, lo - 1, "long minimum"); }
  else { gp_check(c.any(bx[r]) == any, "any() is the disjunction over exactly the members"); gp_check(c.all(bx[r]) == all, "all() is the conjunction over exactly the members"); }
}
static void barriers(Communicator &c, int r) { // no member passes before all members have arrived
  for (int k = 1; k <= 2; k++) { ph[r] = k; if (k == 1) c.barrier(); else c.sync(); for (int i = 0; i < NP; i++) if (gid[i] == gid[r]) gp_check(ph[i] >= k, "a member left the barrier before all members entered"); c.barrier(); }
}
static void describe(Communicator &c, int r) {
  rk[r] = c.rank(); sz[r] = c.size(); grp[r] = c.getGroup(); gp_check_eqi(GA_Pgroup_nodeid(c.getGroup()), c.rank(), "process group and communicator agree on the rank"); gp_check_eqi(GA_Pgroup_nnodes(c.getGroup()), c.size(), "process group and communicator agree on the size"); gp_check_eqi(c.worldRank(), r, "world rank of a sub-communicator member"); }
static void body(int r) {
  Communicator world; gp_check_eqi(world.size(), NP, "world size"); gp_check_eqi(world.rank(), r, "world rank");
  if (mode == 0) {
    Communicator c = world.divide(nsize); describe(c, r); world.barrier();
    if (r == 0) { // groups: consecutive ranks, at most nsize each, as few as possible
      int g = 0, groups = 0; for (int i = 0; i < NP;) { gp_check_eqi(rk[i], 0, "a group starts with its rank 0"); int n = sz[i]; gp_check(n >= 1 && n <= nsize && i + n <= NP, "group size must be between 1 and the requested size"); n = (int)gp_concrete(n); for (int j = 0; j < n && i + j < NP; j++) { gp_check_eqi(rk[i + j], j, "ranks in a group follow the parent order"); gp_check_eqi(sz[i + j], n, "members agree on the group size"); gid[i + j] = groups; } groups++; i += n; }
      gp_check_eqi(groups, (NP + nsize - 1) / nsize, "number of groups"); gp_cover("divide"); if (nsize < NP && NP % nsize) gp_cover("uneven"); }
    world.barrier(); reductions(c, r, true); barriers(c, r);
  } else if (mode == 1) {
    Communicator c = world.split(color[r]); describe(c, r); world.barrier(); for (int i = 0; i < NP; i++) gid[i] = color[i];
    int n = 0, before = 0; for (int i = 0; i < NP; i++) if (color[i] == color[r]) { n++; if (i < r) before++; }
    gp_check_eqi(sz[r], n, "size is the number of processes of the colour"); gp_check_eqi(rk[r], before, "ranks follow the parent order"); gp_cover("split"); if (n == NP) gp_cover("all one colour");
    world.barrier(); reductions(c, r, true); barriers(c, r);
    Communicator s = c.self(); gp_check(s.size() == 1 && s.rank() == 0, "self() holds only the calling process");
  } else { // copies and nested splits
    Communicator c = world.split(color[r]); Communicator d(c), e; e = d; for (int i = 0; i < NP; i++) gid[i] = color[i]; world.barrier();
    gp_check(d.size() == c.size() && d.rank() == c.rank() && e.size() == c.size() && e.rank() == c.rank() && e.getGroup() == c.getGroup(), "copies describe the same group"); reductions(e, r, true); barriers(d, r);
    Communicator f(static_cast<MPI_Comm>(c)); describe(f, r); gp_check(f.size() == c.size() && f.rank() == c.rank(), "communicator built from an MPI handle describes the same group"); world.barrier(); reductions(f, r, true); barriers(f, r);
    Communicator q = c.divide(nsize); gp_check(q.size() <= nsize, "nested group size"); int one = 1; Communicator w2 = c; w2.sum(&one, 1); gp_check_eqi(one, c.size(), "parent still usable"); gp_cover("nested");
  }
}
void gp_main() {
  NP = (int)gp_param("np", 3); mode = (int)gp_param("mode", 0); nsize = gp_range("nsize", 1, NP + 2); int nc = (int)gp_param("colors", 2);
  for (int i = 0; i < NP; i++) { color[i] = mode ? gp_range("color", 0, nc - 1) : 0; ph[i] = 0; ix[i] = gp_range("i", -1000000, 1000000); lx[i] = gp_range("l", -1000000, 1000000); dx[i] = gp_real("d"); bx[i] = gp_bool("b"); }
  sim_order((int)gp_param("rev", 0)); sim_explore((int)gp_param("X", 0)); sim_run(NP, body);
}
