// Simulated process set: the environment model of MPI and Global Arrays.
// Ranks are cooperative threads in one address space; every blocking operation
// and (when exploring) every one-sided operation is a scheduling point.
#pragma once
#include <vector>
#include <string>
#include <map>
#include <cstring>
#include <cstdlib>
#include "gp.h"
struct SimComm { int id; std::vector<int> wr; int arrived, gen, tag; std::vector<const void *> slot; int joined; };
int sim_rank();                       // world rank of the running thread
int sim_size();
void sim_run(int n, void (*body)(int));
void sim_explore(int budget);         // number of symbolic scheduling choices allowed on a path
void sim_order(int reversed);         // default order of runnable ranks
int sim_blocked_end();                // 1 when every rank finished
SimComm *sim_world();
int sim_crank(SimComm *c);            // my rank in c
void sim_point();                     // scheduling point before a one-sided operation
void sim_barrier(SimComm *c, int tag);
// contribute p, wait for all; slots valid until the matching sim_leave
const std::vector<const void *> &sim_enter(SimComm *c, const void *p, int tag);
void sim_leave(SimComm *c);
SimComm *sim_split(SimComm *c, int color, int key);
SimComm *sim_dup(SimComm *c);
SimComm *sim_group(const int *list, int n);
void sim_send(SimComm *c, int dst, int tag, char *buf, size_t n);  // eager; takes ownership
char *sim_recv(SimComm *c, int src, int tag, size_t *n);
