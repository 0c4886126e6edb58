// Task manager: symbolic task counts, every interleaving of requests.
#include "sim.h"
#include "gridpack/parallel/task_manager.hpp"
using namespace gridpack::parallel;
static int NP, mode, M, n1, n2, grp; static int got[64], cnt[8]; static int setdone, cancelled;
static bool started; static void start() { if (!started) { started = true; sim_explore((int)gp_param("X", 12)); } }
static void drain(TaskManager &tm, int n, int r) {
  int next, prev = -1;
  for (int k = 0; k <= n + 1; k++) {
    next = 77; bool ok = tm.nextTask(&next);
    if (!ok) { gp_check_eqi(next, -1, "no-more-work must set the index to -1"); return; }
    gp_check(next >= 0 && next < n, "task index outside 0..n-1"); gp_check(next > prev, "task indices handed to one process must increase"); prev = next; got[next]++;
  }
  gp_check(0, "process was given more tasks than exist");
}
static void drainc(TaskManager &tm, Communicator &c, int n, int r) {
  int next, prev = -1;
  for (int k = 0; k <= n + 1; k++) {
    next = 77; bool ok = tm.nextTask(c, &next);
    if (!ok) { gp_check_eqi(next, -1, "no-more-work must set the index to -1"); return; }
    gp_check(next >= 0 && next < n, "task index outside 0..n-1"); gp_check(next > prev, "task indices handed to one group must increase"); prev = next; got[next]++;
  }
  gp_check(0, "group was given more tasks than exist");
}
static void check(int n, int mult) { for (int i = 0; i < 16; i++) { if (i < n) gp_check_eqi(got[i], mult, "every task is handed out exactly once"); else gp_check_eqi(got[i], 0, "task that does not exist was handed out"); got[i] = 0; } }
static void body(int r) {
  Communicator world;
  if (mode == 0) { // default manager, two task sets
    TaskManager tm; tm.set(n1); start(); drain(tm, n1, r); world.barrier(); if (r == 0) { check(n1, 1); if (n1) gp_cover("tasks"); else gp_cover("none"); }
    int x = 5; gp_check(!tm.nextTask(&x) && x == -1, "still no work after the end"); world.barrier();
    tm.set(n2); drain(tm, n2, r); world.barrier(); if (r == 0) { check(n2, 1); gp_cover("reset"); }
  } else if (mode == 1) { // manager on a communicator of equal groups: one requester per group
    Communicator c = world.split(r < grp ? 0 : 1); TaskManager tm(world); tm.set(n1); start(); drainc(tm, c, n1, r); world.barrier();
    if (r == 0) { int s = 0; for (int i = 0; i < n1; i++) s += got[i]; for (int i = 0; i < n1; i++) gp_check(got[i] == grp || got[i] == NP - grp, "every task goes to exactly one group, seen by all its members"); for (int i = 0; i < 16; i++) got[i] = 0; gp_cover("groups"); }
    world.barrier(); int x = 5; gp_check(!tm.nextTask(c, &x) && x == -1, "still no work after the end"); world.barrier(); tm.set(n2); drainc(tm, c, n2, r); world.barrier();
    if (r == 0) for (int i = 0; i < n2; i++) gp_check(got[i] == grp || got[i] == NP - grp, "every task goes to exactly one group, seen by all its members");
  } else if (mode == 2) { // cancel by rank 0 after at most one task; nobody gets work later
    TaskManager tm; tm.set(n1); start();
    if (r == 0) { tm.cancel(); cancelled = 1; int x; gp_check(!tm.nextTask(&x), "request after cancel must report no work"); }
    else for (;;) { int pre = cancelled; int next; bool ok = tm.nextTask(&next); if (!ok) { gp_check_eqi(next, -1, "no-more-work must set the index to -1"); break; } gp_check(!pre, "task handed out after cancel"); gp_check(next >= 0 && next < n1, "task index outside 0..n-1"); got[next]++; }
    world.barrier(); if (r == 0) for (int i = 0; i < n1; i++) { gp_check(got[i] <= 1, "task handed out twice"); got[i] = 0; } world.barrier();
    tm.set(n2); drain(tm, n2, r); world.barrier(); if (r == 0) { check(n2, 1); gp_cover("after cancel"); }
  } else { // manager confined to a sub-communicator: two managers side by side
    Communicator c = world.split(r < grp ? 0 : 1); TaskManager tm(c); int n = r < grp ? n1 : n2, base = r < grp ? 0 : 20; tm.set(n); start(); int next;
    for (int k = 0;; k++) { if (!tm.nextTask(&next)) break; gp_check(next >= 0 && next < n, "task index outside 0..n-1"); got[base + next]++; if (k > n) { gp_check(0, "process was given more tasks than exist"); break; } }
    world.barrier(); if (r == 0) { for (int i = 0; i < 20; i++) { gp_check_eqi(got[i], i < n1, "every task of the first manager exactly once"); gp_check_eqi(got[20 + i], i < n2, "every task of the second manager exactly once"); } gp_cover("two managers"); }
  }
}
void gp_main() {
  NP = (int)gp_param("np", 2); mode = (int)gp_param("mode", 0); M = (int)gp_param("M", 3); grp = (int)gp_param("grp", 1);
  n1 = gp_range("n1", 0, M); n2 = gp_range("n2", 0, (int)gp_param("M2", 1)); for (int i = 0; i < 64; i++) got[i] = 0; cancelled = 0;
  started = false; sim_run(NP, body);
}
