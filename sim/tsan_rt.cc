// Runtime behind -fsanitize=thread instrumentation, replacing the real one: every memory
// access, atomic operation, lock and static-local guard of instrumented code comes here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <sched.h>
#include "simsched.h"
#include <atomic>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);
extern "C" size_t malloc_usable_size(void*);

namespace sim::sched {
u64 switches, accesses, sharedCells, syncOps, blockedWaits;

namespace {
using Clk = u32;
struct VC { Clk c[MAXT] = {}; };

enum St { RUN, BLOCK, DONE };
struct Th {
  int futex = 0;
  St st = RUN;
  void const* wait = nullptr;
  bool timed = false, timedOut = false;
  VC vc;
  u64 prio = 0;
  u64 alone = 0;           // accesses since the last voluntary or forced switch
  char* lo = nullptr; char* hi = nullptr;
  std::function<void()> const* body = nullptr;
  pthread_t pt{};
};
Th th[MAXT];
int nth = 0;
bool on = false;           // several simulated threads exist
int cur = -1;
int mainFutex = 0;
int ready = 0;
thread_local int self = -1;
Params par;
Rng rng(1);
i64 until = 0;
u64 change[8]; int nchange = 0, nextChange = 0; u64 lowPrio = 0;
void (*switchHook)(int, int) = nullptr;
u64 lastSwitchAt = 0;

// tiny raw memory map for sync objects (no allocation through the simulated heap)
template <typename T> struct AddrMap {
  struct E { u64 k; T v; };
  E* t = nullptr; size_t cap = 0, n = 0;
  static E* get(size_t c) { return (E*)mmap(nullptr, c * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  T& at(void const* p) {
    if ((n + 1) * 2 > cap) grow();
    u64 k = (u64)p;
    size_t i = mix(k) & (cap - 1);
    while (t[i].k && t[i].k != k) i = (i + 1) & (cap - 1);
    if (!t[i].k) { t[i].k = k; n++; }
    return t[i].v;
  }
  T* find(void const* p) {
    if (!cap) return nullptr;
    u64 k = (u64)p;
    size_t i = mix(k) & (cap - 1);
    while (t[i].k && t[i].k != k) i = (i + 1) & (cap - 1);
    return t[i].k ? &t[i].v : nullptr;
  }
  void grow() {
    E* o = t; size_t oc = cap;
    cap = cap ? cap * 2 : 1 << 12;
    t = get(cap); n = 0;
    for (size_t i = 0; i < oc; i++) if (o[i].k) { at((void*)o[i].k) = o[i].v; }
    if (o) syscall(SYS_munmap, o, oc * sizeof(E));
  }
};

enum { AK_R, AK_W, AK_AR, AK_AW, AK_N };
struct Cell {
  Clk sum[MAXT];                 // latest access of each thread
  Clk k[AK_N][MAXT][8];
  void* pc[MAXT][2];             // last read / write
  u8 touched;                    // threads
};
AddrMap<u32> cellIdx;
Cell* cells = nullptr; u32 ncells = 0;
constexpr u32 MAXCELLS = 1u << 22;
AddrMap<VC> syncs;
struct Lock { int owner; int count; int readers; };   // owner: thread + 1
AddrMap<Lock> locks;
AddrMap<u32> conds;

void futexWait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
void futexWake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void join(VC& a, VC const& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

void drawInterval() { until = par.policy == 0 ? (i64)(1 + rng.below(2 * par.mean)) : par.policy == 2 ? (i64)(1 + rng.below(8)) : 1; }

int runnable(int except) {
  int n = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == RUN && i != except) n++;
  return n;
}
int pick(int except) {
  int best = -1;
  if (par.policy == 1) {
    for (int i = 0; i < nth; i++) if (th[i].st == RUN && i != except && (best < 0 || th[i].prio > th[best].prio)) best = i;
  } else {
    int n = runnable(except);
    if (n) {
      int j = (int)rng.below((u64)n);
      for (int i = 0; i < nth; i++) if (th[i].st == RUN && i != except && j-- == 0) best = i;
    }
  }
  return best;
}
// the running thread gives the processor to another one
void transfer(int to) {
  int from = cur;
  switches++;
  sim::shape(0x5C4ED, (u64)(from + 1) << 56 | (u64)(to + 1) << 48 | (accesses - lastSwitchAt));
  lastSwitchAt = accesses;
  cur = to;
  if (switchHook) switchHook(from, to);
  if (to >= 0) th[to].alone = 0;
  bool mine = from >= 0 && th[from].st == DONE;
  futexWake(to >= 0 ? &th[to].futex : &mainFutex);
  if (!mine) futexWait(from >= 0 ? &th[from].futex : &mainFutex);
}
void deadlock() {
  sim::violation("deadlock", "every thread waits for a lock that another one holds");
}
void block(void const* obj, bool timed = false) {
  Th& t = th[cur];
  t.st = BLOCK; t.wait = obj; t.timed = timed; t.timedOut = false;
  blockedWaits++;
  int to = pick(cur);
  if (to < 0) {
    // somebody may have a time-out
    for (int i = 0; i < nth && to < 0; i++) if (th[i].st == BLOCK && th[i].timed) { th[i].st = RUN; th[i].timedOut = true; to = i; }
    if (to < 0) deadlock();
    if (to == cur) return;
  }
  transfer(to);
}
void wakeAll(void const* obj) { for (int i = 0; i < nth; i++) if (th[i].st == BLOCK && th[i].wait == obj) { th[i].st = RUN; th[i].wait = nullptr; } }
void wakeOne(void const* obj) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nth; i++) if (th[i].st == BLOCK && th[i].wait == obj) c[n++] = i;
  if (n) { int i = c[rng.below((u64)n)]; th[i].st = RUN; th[i].wait = nullptr; }
}
inline bool active() { return on && self >= 0; }

// a place where the scheduler may switch
void point(bool interesting) {
  Th& t = th[cur];
  accesses++;
  if (++t.alone > 3'000'000) { if (runnable(cur)) { t.prio = lowPrio ? --lowPrio : 0; t.alone = 0; int to = pick(cur); transfer(to); return; } }
  if (accesses > 60'000'000) sim::violation("hang", "the threads made no end after %llu memory accesses", (unsigned long long)accesses);
  switch (par.policy) {
    case 0:
      if (--until > 0) return;
      drawInterval();
      break;
    case 1:
      if (nextChange < nchange && accesses >= change[nextChange]) { nextChange++; t.prio = lowPrio--; }
      else return;
      break;
    default:
      if (!interesting) return;
      if (--until > 0) return;
      drawInterval();
  }
  int to = par.policy == 1 ? pick(-1) : pick(cur);
  if (to >= 0 && to != cur) transfer(to);
}
void release(void const* o) { syncOps++; Th& t = th[cur]; join(syncs.at(o), t.vc); t.vc.c[cur]++; }
void acquire(void const* o) { syncOps++; if (VC* v = syncs.find(o)) join(th[cur].vc, *v); }

char const* fname(void* pc, char* buf, size_t n) {
  Dl_info d;
  if (pc && dladdr(pc, &d) && d.dli_sname) {
    int st; char* r = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, n, "%.220s", r ? r : d.dli_sname);
    __libc_free(r);
  } else snprintf(buf, n, "?");
  return buf;
}
[[noreturn]] void race(Cell& c, int other, int kind, int okind, void* pc, bool global) {
  t_track = 0;
  char a[256], b[256];
  static char const* const n[] = {"read", "write", "atomic read", "atomic write"};
  sim::violation("data-race", "%s in %s races with %s in %s of another thread (%s memory)", n[kind], fname(pc, a, sizeof a), n[okind],
                 fname(c.pc[other][okind & 1], b, sizeof b), global ? "global" : "dynamic");
}
extern "C" char __data_start, _end, __executable_start;
bool isGlobal(void const* p) { return (char const*)p >= &__executable_start && (char const*)p < &_end; }

void record(u64 granule, u8 mask, int kind, void* pc) {
  u32& ix = cellIdx.at((void*)(granule + 1));    // never zero
  if (!ix) {
    if (!cells) cells = (Cell*)mmap(nullptr, sizeof(Cell) * (size_t)MAXCELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (ncells + 1 >= MAXCELLS) return;
    ix = ++ncells;
  }
  Cell& c = cells[ix];
  Th& t = th[cur];
  if (!(c.touched & (1 << cur))) { if (c.touched && !(c.touched & (c.touched - 1))) sharedCells++; c.touched |= (u8)(1 << cur); }
  for (int o = 0; o < nth; o++) {
    if (o == cur || c.sum[o] <= t.vc.c[o]) continue;
    for (int ok = 0; ok < AK_N; ok++) {
      bool w = (kind & 1) || (ok & 1), bothAtomic = kind >= AK_AR && ok >= AK_AR;
      if (!w || bothAtomic) continue;
      for (int b = 0; b < 8; b++)
        if ((mask >> b & 1) && c.k[ok][o][b] > t.vc.c[o]) race(c, o, kind, ok, pc, isGlobal((void*)(granule << 3)));
    }
  }
  Clk now = t.vc.c[cur];
  c.sum[cur] = now;
  for (int b = 0; b < 8; b++) if (mask >> b & 1) c.k[kind][cur][b] = now;
  c.pc[cur][kind & 1] = pc;
}
void access(void const* p, size_t n, int kind, void* pc, bool maySwitch = true) {
  if (!active() || t_track <= 0 || !n) return;
  Th& t = th[cur];
  if ((char*)p >= t.lo && (char*)p < t.hi) return;       // own stack
  u64 a = (u64)p, e = a + n;
  bool glob = isGlobal(p), shared = glob;
  if (!shared && par.policy == 2) { if (u32* ix = cellIdx.find((void*)((a >> 3) + 1))) shared = *ix && (cells[*ix].touched & ~(1 << cur)); }
  if (maySwitch) point(shared);
  while (a < e) {
    u64 g = a >> 3, lo = a & 7, hi = (e - (g << 3)) < 8 ? e - (g << 3) : 8;
    u8 mask = (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
    record(g, mask, kind, pc);
    a = (g + 1) << 3;
  }
}
void* entry(void* v) {
  int id = (int)(u64)v;
  pthread_attr_t at; void* lo; size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  th[id].lo = (char*)lo; th[id].hi = (char*)lo + sz;
  __atomic_add_fetch(&ready, 1, __ATOMIC_ACQ_REL);
  futexWait(&th[id].futex);
  self = id;
  (*th[id].body)();
  th[id].st = DONE;
  self = -1;
  int to = pick(id);
  if (to < 0) {
    bool blocked = false;
    for (int i = 0; i < nth; i++) if (th[i].st == BLOCK) { if (th[i].timed) { th[i].st = RUN; th[i].timedOut = true; to = i; break; } blocked = true; }
    if (to < 0 && blocked) deadlock();
  }
  transfer(to);
  return nullptr;
}
} // namespace

int current() { return cur; }

void forget(void const* p, size_t n) {
  if (!on || self < 0 || !n) return;   // threads that begin or end are not part of the run
  u64 a = (u64)p >> 3, e = ((u64)p + n + 7) >> 3;
  if (e - a > (1u << 20)) e = a + (1u << 20);
  for (; a < e; a++) if (u32* ix = cellIdx.find((void*)(a + 1))) if (*ix) memset(&cells[*ix], 0, sizeof(Cell));
}

void run(std::vector<std::function<void()>> const& bodies, Params const& p, void (*hook)(int, int)) {
  par = p;
  rng = Rng(p.seed);
  nth = (int)bodies.size();
  if (!par.mean) par.mean = 1;
  switchHook = hook;
  for (int i = 0; i < nth; i++) {
    th[i].body = &bodies[(size_t)i];
    th[i].st = RUN;
    th[i].vc.c[i] = 1;
  }
  // priorities
  u64 order[MAXT];
  for (int i = 0; i < nth; i++) order[i] = (u64)i;
  for (int i = nth - 1; i > 0; i--) std::swap(order[i], order[rng.below((u64)i + 1)]);
  for (int i = 0; i < nth; i++) th[i].prio = 1000 + order[i];
  lowPrio = 999;
  nchange = 1 + (int)rng.below(5);
  for (int i = 0; i < nchange; i++) change[i] = 1 + rng.below(p.mean * 50);
  for (int i = 0; i < nchange; i++) for (int j = i + 1; j < nchange; j++) if (change[j] < change[i]) std::swap(change[i], change[j]);
  drawInterval();
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < nth; i++) if (pthread_create(&th[i].pt, &at, entry, (void*)(u64)i)) sim::harnessError("cannot create a thread");
  while (__atomic_load_n(&ready, __ATOMIC_ACQUIRE) != nth) syscall(SYS_sched_yield);
  on = true;
  cur = -1;
  int first = par.policy == 1 ? pick(-1) : (int)rng.below((u64)nth);
  transfer(first);
  on = false;
  for (int i = 0; i < nth; i++) ::pthread_join(th[i].pt, nullptr);
  // all memory of the heap may be reused freely
}
} // namespace sim::sched

using namespace sim;
using namespace sim::sched;

// --------------------------------------------------------- instrumentation
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, AK_R, RA); } \
  void __tsan_write##N(void* p) { access(p, N, AK_W, RA); } \
  void __tsan_read_write##N(void* p) { access(p, N, AK_R, RA); access(p, N, AK_W, RA, false); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, AK_R, RA); } \
  void __tsan_unaligned_write##N(void* p) { access(p, N, AK_W, RA); } \
  void __tsan_unaligned_read_write##N(void* p) { access(p, N, AK_R, RA); access(p, N, AK_W, RA, false); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, AK_R, RA); } \
  void __tsan_volatile_write##N(void* p) { access(p, N, AK_W, RA); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, AK_R, RA); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, AK_W, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, AK_W, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, AK_R, RA); }
void __tsan_read_range(void* p, size_t n) { access(p, n, AK_R, RA); }
void __tsan_write_range(void* p, size_t n) { access(p, n, AK_W, RA); }
void* __tsan_memcpy(void* d, void const* s, size_t n) { access(s, n, AK_R, RA); access(d, n, AK_W, RA, false); return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, size_t n) { access(s, n, AK_R, RA); access(d, n, AK_W, RA, false); return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, AK_W, RA); return __builtin_memset(d, c, n); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void pre(void volatile* p, size_t n, int kind, void* pc) { if (active() && t_track > 0) { access((void*)p, n, kind, pc); } }
static inline void before(void volatile* p, int mo) { if (active() && rel(mo)) release((void*)p); }
static inline void after(void volatile* p, int mo) { if (active() && acq(mo)) acquire((void*)p); }
#define ATOMICS(B, T) \
  T __tsan_atomic##B##_load(T volatile* p, int mo) { pre(p, sizeof(T), AK_AR, RA); T v = *p; after(p, mo); return v; } \
  void __tsan_atomic##B##_store(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); before(p, mo); *p = v; } \
  T __tsan_atomic##B##_exchange(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); after(p, mo); before(p, mo); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); after(p, mo); before(p, mo); T o = *p; *p = (T)(o + v); return o; } \
  T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); after(p, mo); before(p, mo); T o = *p; *p = (T)(o - v); return o; } \
  T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); after(p, mo); before(p, mo); T o = *p; *p = (T)(o & v); return o; } \
  T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); after(p, mo); before(p, mo); T o = *p; *p = (T)(o | v); return o; } \
  T __tsan_atomic##B##_fetch_xor(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); after(p, mo); before(p, mo); T o = *p; *p = (T)(o ^ v); return o; } \
  T __tsan_atomic##B##_fetch_nand(T volatile* p, T v, int mo) { pre(p, sizeof(T), AK_AW, RA); after(p, mo); before(p, mo); T o = *p; *p = (T)~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* c, T v, int mo, int fmo) { \
    pre(p, sizeof(T), AK_AW, RA); \
    if (*p == *c) { after(p, mo); before(p, mo); *p = v; return 1; } \
    after(p, fmo); *c = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMICS(8, u8) ATOMICS(16, unsigned short) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int) { if (active()) { static char f; acquire(&f); release(&f); } }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ static locals
int sim_guard_acquire(u64* g) asm("__cxa_guard_acquire");
int sim_guard_acquire(u64* g) {
  u8* b = (u8*)g;
  for (;;) {
    if (active() && t_track > 0) point(true);
    if (b[0]) { if (active()) acquire(g); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    if (!active()) return 1;       // recursive initialisation by one thread
    block(g);
  }
}
void sim_guard_release(u64* g) asm("__cxa_guard_release");
void sim_guard_release(u64* g) {
  u8* b = (u8*)g;
  if (active()) release(g);
  b[0] = 1; b[1] = 0;
  if (active()) { wakeAll(g); if (t_track > 0) point(true); }
}
void sim_guard_abort(u64* g) asm("__cxa_guard_abort");
void sim_guard_abort(u64* g) {
  u8* b = (u8*)g;
  b[1] = 0;
  if (active()) wakeAll(g);
}

// -------------------------------------------------------------------- locks
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return 0;
  if (t_track > 0) point(true);
  for (;;) {
    Lock& l = locks.at(m);
    if (l.owner == cur + 1 && recursive(m)) { l.count++; return 0; }
    if (!l.owner) { l.owner = cur + 1; l.count = 1; acquire(m); return 0; }
    block(m);
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return 0;
  if (t_track > 0) point(true);
  Lock& l = locks.at(m);
  if (l.owner == cur + 1 && recursive(m)) { l.count++; return 0; }
  if (l.owner) return EBUSY;
  l.owner = cur + 1; l.count = 1; acquire(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active()) return 0;
  Lock& l = locks.at(m);
  if (l.owner == cur + 1 && --l.count > 0) return 0;
  l.owner = 0;
  release(m);
  wakeAll(m);
  if (t_track > 0) point(true);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  if (t_track > 0) point(true);
  for (;;) { Lock& l = locks.at(m); if (!l.owner) { l.readers++; acquire(m); return 0; } block(m); }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!active()) return 0; Lock& l = locks.at(m); if (l.owner) return EBUSY; l.readers++; acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  if (t_track > 0) point(true);
  for (;;) { Lock& l = locks.at(m); if (!l.owner && !l.readers) { l.owner = cur + 1; acquire(m); return 0; } block(m); }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!active()) return 0; Lock& l = locks.at(m); if (l.owner || l.readers) return EBUSY; l.owner = cur + 1; acquire(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  Lock& l = locks.at(m);
  if (l.owner == cur + 1) l.owner = 0; else if (l.readers) l.readers--;
  release(m);
  wakeAll(m);
  if (t_track > 0) point(true);
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
int pthread_spin_unlock(pthread_spinlock_t* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active()) return 0;
  pthread_mutex_unlock(m);
  block(c);
  pthread_mutex_lock(m);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const*) {
  if (!active()) return ETIMEDOUT;
  pthread_mutex_unlock(m);
  block(c, true);
  bool to = th[cur].timedOut;
  pthread_mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t* c) { if (active()) wakeOne(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (active()) wakeAll(c); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
  int volatile* s = (int volatile*)o;
  for (;;) {
    if (active() && t_track > 0) point(true);
    if (*s == 2) { if (active()) acquire(o); return 0; }
    if (*s == 0) break;
    if (!active()) return 0;
    block(o);
  }
  *s = 1;
  try { f(); } catch (...) { *s = 0; if (active()) wakeAll(o); throw; }
  if (active()) release(o);
  *s = 2;
  if (active()) wakeAll(o);
  return 0;
}
static void giveWay() {
  if (!active()) return;
  int to = pick(cur);
  if (par.policy == 1) th[cur].prio = lowPrio--;
  if (to >= 0) transfer(to);
}
int sched_yield() { giveWay(); return 0; }
int usleep(useconds_t) { giveWay(); return 0; }
int nanosleep(timespec const*, timespec*) { giveWay(); return 0; }
int clock_nanosleep(clockid_t, int, timespec const*, timespec*) { giveWay(); return 0; }

// ------------------------------------------------------------------- memory
static inline void renew(void* p) { if (active() && p) forget(p, malloc_usable_size(p)); }
void* malloc(size_t n) { void* p = __libc_malloc(n); renew(p); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); renew(p); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); renew(p); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); renew(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
void free(void* p) {
  // releasing memory conflicts with every unordered use of it
  if (p && active() && t_track > 0) access(p, malloc_usable_size(p), AK_W, RA, false);
  __libc_free(p);
}
}
