// Simulator core: randomness, traces, plans, faults, violations, statistics.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// The only source of randomness of a run.
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed ^ 0x5851f42d4c957f2dull)) {}
  u64 u() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  u64 below(u64 n) { return n ? u() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  // log-uniform in [1, max]
  u64 logu(u64 max) {
    int bits = 0;
    while ((1ull << bits) < max) bits++;
    u64 hi = 1ull << below(bits + 1);
    u64 v = 1 + below(hi);
    return v > max ? max : v;
  }
};

// ---------------------------------------------------------------- faults ---
enum Site : int {
  S_NONE = 0,
  // simulated OS
  S_OPEN, S_FSTAT, S_FALLOCATE, S_FTRUNCATE, S_FSYNC, S_MMAP, S_MSYNC, S_MUNMAP,
  S_CLOSE, S_WRITE, S_READ, S_LSEEK, S_RENAME, S_UNLINK,
  S_NOSPACE,   // arg: pages still free on the device
  // memory
  S_ALLOC,
  // user code
  S_CTOR, S_COPY, S_SERIALIZE, S_CALLBACK,
  // streams: arg = byte position
  S_STREAM_EOF, S_STREAM_ERR, S_STREAM_THROW,
  // whole system
  S_CRASH,     // nth crash point within the step; arg: write-back seed
  S_MUTATE,    // nth yield point within the step; arg: mutation seed
  S_COUNT
};
extern char const* const site_name[S_COUNT];
int siteByName(std::string const&);

struct Fault {
  int site = 0;
  i64 nth = 1;   // 1-based occurrence within the step
  i64 arg = 0;   // errno, position, seed ...
};

struct Step {
  std::string op;
  std::vector<std::pair<std::string, i64>> a;
  std::vector<Fault> faults;
  i64 get(char const* k, i64 d = 0) const {
    for (auto& p : a) if (p.first == k) return p.second;
    return d;
  }
  Step& set(char const* k, i64 v) {
    for (auto& p : a) if (p.first == k) { p.second = v; return *this; }
    a.emplace_back(k, v);
    return *this;
  }
  Step& fault(int site, i64 nth, i64 arg) {
    faults.push_back(Fault{site, nth, arg});
    return *this;
  }
};

struct Plan {
  std::string prop;
  u64 seed = 0;
  std::vector<std::pair<std::string, i64>> knobs;
  std::vector<Step> steps;
  i64 knob(char const* k, i64 d = 0) const {
    for (auto& p : knobs) if (p.first == k) return p.second;
    return d;
  }
  void setKnob(char const* k, i64 v) { knobs.emplace_back(k, v); }
  Step& step(char const* op) { steps.emplace_back(); steps.back().op = op; return steps.back(); }
};

std::string planText(Plan const&);
bool parsePlans(std::string const& text, std::vector<Plan>& out, std::string& err);

// -------------------------------------------------------------- run state ---
struct FiredFault { int site; i64 nth; i64 arg; };

struct World {
  Plan const* plan = nullptr;
  u64 trace = 0;          // hash of every event of the run
  u64 shape = 0;          // hash of the abstract execution (distinctness measure)
  u64 events = 0;
  int step = -1;
  Step const* cur = nullptr;
  i64 counter[S_COUNT] = {};       // occurrences of each site within the step
  bool armed = false;              // faults may fire
  std::vector<FiredFault> fired;   // fired within the step
  bool nontrivial = false;
  u8 garbage = 0xA5;               // content of fresh memory in this run
  u64 simTimeNs = 0;               // simulated time: advanced by every simulated operation
};
extern World W;

constexpr u64 EVENT_CAP = 20'000'000;

void ev(u64 a, u64 b = 0);              // trace event
void shape(u64 a, u64 b = 0);           // event that also counts for distinctness
u64 hstr(char const* s);
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2)));  // verbose log only
extern bool g_verbose;

void stat(char const* key, u64 n = 1);   // measured counters for the evidence
std::map<std::string, u64>& stats();

// Is there a fault for the n-th occurrence of this site within this step?
// Counts the occurrence. Returns the fault or nullptr.
Fault const* hit(int site);
// Non-counting: fault configured for a site in this step
Fault const* configured(int site);
void markFired(Fault const& f);
bool firedAny();
bool firedSite(int site);

[[noreturn]] void violation(char const* cls, char const* fmt, ...)
  __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(char const* fmt, ...) __attribute__((format(printf, 1, 2)));

struct LeakSuspect { std::string what; };
// While warming up, violations are not reported but end the current warm-up item.
struct SoftViolation {};
extern bool g_soft;

// tells a race detector that memory begins a new life
extern void (*g_freshMemory)(void*, size_t);

// guards: harness code that runs inside library operations
extern thread_local int t_track;   // >0: allocations belong to the library operation
struct Untracked { int save; Untracked() : save(t_track) { t_track = 0; } ~Untracked() { t_track = save; } };
struct Tracked { int save; Tracked() : save(t_track) { t_track = 1; } ~Tracked() { t_track = save; } };

// ------------------------------------------------------------------- heap ---
namespace heap {
  u64 live();                         // live allocations made by library operations
  u64 tracked();                      // serial of the next such allocation
  void dump(u64 fromSerial);          // verbose log of live allocations
  bool isLive(void const* p);
  extern u64 budget;                  // max live tracked bytes
  extern u64 maxSingle;               // max single allocation
}

} // namespace sim
