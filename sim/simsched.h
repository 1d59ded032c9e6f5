// Simulated threads: real threads of which exactly one runs at any time, chosen by a seeded
// scheduler at instrumented memory accesses, atomics and locks; with a happens-before race
// detector over every access.
#pragma once
#include "core.h"
#include <functional>

namespace sim::sched {
constexpr int MAXT = 4;

struct Params {
  u64 seed = 1;
  int policy = 0;        // 0 random intervals, 1 priorities with change points, 2 at shared memory
  u64 mean = 100;        // mean interval / spread of the change points
};
// Runs the bodies concurrently; returns when all are done. onSwitch(from, to) is called at
// every switch with thread numbers (-1: the main thread).
void run(std::vector<std::function<void()>> const& bodies, Params const& p, void (*onSwitch)(int, int));
int current();                       // number of the running thread, -1: main thread
extern u64 switches, accesses, sharedCells, syncOps, blockedWaits;
void forget(void const* p, size_t n);   // memory gets a new life: no conflicts with the past
}
