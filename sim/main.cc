// Simulation driver: runs seeded plans of one property, or replays recorded ones.
#include "giant.h"
#include "rt.h"
#include "fam.h"
#include "users.h"
#include <csignal>
#include <ctime>
#include <exception>
#include <unistd.h>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace sim;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
extern "C" void __asan_set_error_report_callback(void (*)(char const*));
extern "C" char const* __asan_default_options() {
  return "handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:detect_leaks=0:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=0:alloc_dealloc_mismatch=0:"
         "quarantine_size_mb=16:malloc_context_size=8:max_allocation_size_mb=4096:detect_container_overflow=0";
}
static void onAsan(char const* text) {
  g_soft = false;
  std::string cls = "memory-error";
  if (char const* s = strstr(text, "AddressSanitizer: ")) {
    s += 18;
    char const* e = s;
    while (*e && *e != ' ' && *e != '\n') e++;
    cls = "memory-error-" + std::string(s, e);
  }
  if (g_verbose) fprintf(stderr, "%s\n", text);
  violation(cls.c_str(), "%.400s", text);
}
#endif

namespace sim {
void genC14M(Plan&, Rng&); void runC14M(Plan const&);
static Property const props[] = {
#define P(X) {#X, gen##X, run##X}
#if defined(SIM_THREADS)
  P(C13),
#elif defined(SIM_RESTART)
  P(C17),
#elif defined(SIM_MODULES)
  {"C14", genC14M, runC14M},
#else
  P(C01), P(C02), P(C03), P(C04), P(C05), P(C06), P(C07), P(C08), P(C09), P(C10), P(C11), P(C12), P(C14), P(C15), P(C16),
#endif
#undef P
};
Property const* findProperty(std::string const& id) {
  for (auto& p : props) if (id == p.id) return &p;
  return nullptr;
}
}

static void onSignal(int sig, siginfo_t* si, void*) {
  char const* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGALRM";
  g_soft = false;
  if (sig == SIGALRM) violation("hang", "one run took more than the wall clock limit");
  violation((std::string("crash-") + n).c_str(), "the process died of %s, address %s", n, sig == SIGSEGV || sig == SIGBUS ? fs::describeAddr(si->si_addr) : "-");
}
static void onTerminate() {
  g_soft = false;
  std::string w = "no exception";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (std::exception const& x) { w = x.what(); }
    catch (LeakSuspect const& x) { w = x.what; }
    catch (...) { w = "unknown exception"; }
  }
  violation("terminate", "std::terminate was called: %s", w.c_str());
}
static void installHandlers() {
  static char* stack = (char*)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss{};
  ss.ss_sp = stack; ss.ss_size = 1 << 18;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
#ifdef HAVE_ASAN
  __asan_set_error_report_callback(onAsan);
#endif
}

static void resetWorld(Plan const& p) {
  W = World{};
  W.plan = &p;
  W.garbage = (u8)p.knob("garbage", 0xA5);
  fs::reset();
  heap::budget = 512ull << 20;
  t_track = 0;
  g_mutator = nullptr;
  errno = 0;
}

struct RunResult { bool leak = false; std::string what; };
static RunResult runOnce(Property const& prop, Plan const& p) {
  RunResult r;
  resetWorld(p);
  alarm(40);
  try {
#if defined(SIM_GIANT)
    if (!p.steps.empty() && p.steps[0].op == "giant") { alarm(280); giant::run(p); }
    else
#endif
    prop.run(p);
  }
  catch (LeakSuspect& l) { r.leak = true; r.what = l.what; }
  W.armed = false; W.cur = nullptr;
  fs::closeAllDead();
  return r;
}
#ifdef SIM_RESTART
namespace sim { int processC17(int fd, int role, void (*reset)(Plan const&)); }
static void runPlan(Property const& prop, Plan const& p) {
  resetWorld(p);
  alarm(120);
  prop.run(p);
}
static void warmUp() {}
#elif defined(SIM_FORK)
// every run in a process of its own: nothing has been used before
struct ForkResult { u64 trace, shape, events, simTimeNs; bool nontrivial; size_t n; char text[60000]; };
static void runPlan(Property const& prop, Plan const& p) {
  static ForkResult* fr = (ForkResult*)mmap(nullptr, sizeof(ForkResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout);
  resetWorld(p);
  pid_t pid = fork();
  if (pid < 0) harnessError("cannot fork");
  if (pid == 0) {
    stats().clear();
    auto r = runOnce(prop, p);
    if (r.leak) violation("leak", "%s", r.what.c_str());
    fr->trace = W.trace; fr->shape = W.shape; fr->events = W.events; fr->simTimeNs = W.simTimeNs; fr->nontrivial = W.nontrivial;
    std::string t;
    for (auto& s : stats()) { std::string k = s.first; for (auto& c : k) if (c == ' ') c = '_'; t += k + " " + std::to_string(s.second) + "\n"; }
    fr->n = std::min(t.size(), sizeof fr->text);
    memcpy(fr->text, t.data(), fr->n);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) != pid) {}
  if (WIFSIGNALED(st)) violation("killed", "the process died of signal %d", WTERMSIG(st));
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  W.trace = fr->trace; W.shape = fr->shape; W.events = fr->events; W.simTimeNs = fr->simTimeNs; W.nontrivial = fr->nontrivial;
  std::istringstream in(std::string(fr->text, fr->n));
  std::string k; u64 v;
  while (in >> k >> v) stat(k.c_str(), v);
}
static void warmUp() {}
#else
static void runPlan(Property const& prop, Plan const& p) {
  auto r = runOnce(prop, p);
  if (r.leak) {
    stat("leak_rechecks");
    auto r2 = runOnce(prop, p);
    if (r2.leak) violation("leak", "%s", r2.what.c_str());
  }
}
#endif

static Plan genPlan(Property const& prop, u64 seed) {
  Plan p;
  p.prop = prop.id;
  p.seed = seed;
  Rng r(mix(seed) ^ hstr(prop.id));
#if defined(SIM_GIANT)
  if (seed % 1000000000 == 0 && giant::has(p.prop)) { giant::gen(p, r); return p; }
#endif
  prop.gen(p, r);
  Rng k(mix(seed + 77) ^ hstr(prop.id));
  if (k.chance(1, 6)) p.setKnob("fd0", 1);
  if (k.chance(1, 2)) p.setKnob("garbage", (i64)k.below(256));
  return p;
}

#if !defined(SIM_FORK) && !defined(SIM_RESTART)
// Runs everything once without faults, and the usual failures, so that lazily initialised
// state of the runtime is in place before anything is measured.
static void warmUp() {
  Plan dummy; dummy.prop = "warm";
  resetWorld(dummy);
  alarm(100);
  // what goes wrong here goes wrong in the runs as well, and is reported there
  auto soft = [](std::function<void()> f) {
    g_soft = true;
    try { f(); } catch (SoftViolation&) {}
    g_soft = false; t_track = 0; W.armed = false;
  };
  // polymorphic parts: the size class decides the dynamic types
  for (auto& t : zoo()) for (int z = 0; z < ((t.flags & TF_POLY) ? 20 : 1); z++) {
    int size = (t.flags & TF_POLY) ? z : 3;
    Obj o(t, 7, size);
    Bytes b;
    soft([&] { b = reference(t, o.p); });
    for (int via = 0; via < SV_N; via++) soft([&] { save(t, o.p, via, via, 1, 16); });
    if (b.empty()) continue;
    fs::install(fileName(0), b);
    for (int via = 0; via < LV_N; via++) soft([&] {
      LoadArgs a; a.via = via; a.bytes = &b; a.file = 0;
      Obj target;
      if (loadInPlace(via)) { target = Obj(t, 8, size); a.target = target.p; }
      auto l = load(t, a);
      dropResult(t, l);
    });
    size_t n = 0;
    soft([&] { attempt([&] { n = t.footprint(o.p); n += t.getSize(o.p); }, false); });
  }
  fam();
  // failures
  soft([&] {
    auto& t = typeById(9);
    Obj o(t, 7, 3);
    fs::remove(fileName(3));
    LoadArgs a; a.via = LV_FILE; a.file = 3;
    auto l = load(t, a);
    Bytes bad = reference(t, o.p);
    for (size_t i = 0; i < bad.size() && i < 8; i++) bad[i] = 0xFF;
    a.via = LV_BUF; a.bytes = &bad;
    auto l2 = load(t, a);
  });
  alarm(0);
}

#endif

static u64 now_ms() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (u64)ts.tv_sec * 1000 + (u64)ts.tv_nsec / 1000000; }

static void reportStats(u64 runs, u64 nontrivial, u64 simNs, u64 events, std::unordered_set<u64> const& shapes, char const* file) {
  printf("STAT runs %llu\nSTAT nontrivial %llu\nSTAT sim_us %llu\nSTAT events %llu\n", (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)(simNs / 1000), (unsigned long long)events);
  for (auto& s : stats()) printf("STAT %s %llu\n", [](std::string k) { for (auto& c : k) if (c == ' ') c = '_'; return k; }(s.first).c_str(), (unsigned long long)s.second);
  if (file) {
    FILE* f = fopen(file, "wb");
    for (u64 h : shapes) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  fflush(stdout);
}

int main(int argc, char** argv) {
  installHandlers();
  zooFreeze();
  std::vector<std::string> a(argv + 1, argv + argc);
  if (a.empty()) { fprintf(stderr, "usage: run PROP SEED0 STRIDE COUNT MS SHAPEFILE | gen PROP SEED | replay FILE [-v] | types\n"); return 2; }
  if (a[0] == "types") { for (auto& t : zoo()) printf("%d %s\n", t.id, t.name); return 0; }
  if (a[0] == "gen") {
    auto p = findProperty(a[1]);
    if (!p) return 2;
    fputs(planText(genPlan(*p, std::stoull(a[2]))).c_str(), stdout);
    return 0;
  }
  if (a[0] == "replay") {
    if (a.size() > 2 && a[2] == "-v") g_verbose = true;
    std::ifstream in(a[1]);
    std::stringstream ss; ss << in.rdbuf();
    std::vector<Plan> plans; std::string err;
    if (!parsePlans(ss.str(), plans, err) || plans.empty()) { fprintf(stderr, "bad plan file: %s\n", err.c_str()); return 2; }
    bool v = g_verbose; g_verbose = false;
    warmUp();
    g_verbose = v;
    for (auto& p : plans) {
      auto pr = findProperty(p.prop);
      if (!pr) return 2;
      runPlan(*pr, p);
      printf("OK prop=%s seed=%llu hash=%016llx\n", p.prop.c_str(), (unsigned long long)p.seed, (unsigned long long)W.trace);
    }
    return 0;
  }
#ifdef SIM_RESTART
  if (a[0] == "proc") {
    if (a.size() > 3) g_verbose = true;
    return processC17(std::stoi(a[1]), std::stoi(a[2]), resetWorld);
  }
#endif
  if (a[0] == "run" && a.size() >= 7) {
    auto p = findProperty(a[1]);
    if (!p) return 2;
    u64 seed0 = std::stoull(a[2]), stride = std::stoull(a[3]), count = std::stoull(a[4]), ms = std::stoull(a[5]);
    warmUp();
    stats().clear();
    u64 t0 = now_ms(), runs = 0, nontriv = 0, simNs = 0, events = 0;
    std::unordered_set<u64> shapes;
    std::vector<std::pair<u64, u64>> traces;
    bool announce = getenv("SIM_ANNOUNCE") != nullptr;
    for (u64 k = 0; k < count; k++) {
      if (ms && now_ms() - t0 > ms) break;
      Plan plan = genPlan(*p, seed0 + k * stride);
      if (announce || k % 64 == 0) {   // for deaths that no handler can report
        char b[64]; int n = snprintf(b, sizeof b, "AT %llu\n", (unsigned long long)plan.seed); if (write(1, b, (size_t)n)) {}
      }
      runPlan(*p, plan);
      if (traces.size() < 4000) traces.emplace_back(plan.seed, W.trace);
      runs++; simNs += W.simTimeNs; events += W.events;
      if (W.nontrivial) { nontriv++; if (shapes.size() < 4000000) shapes.insert(W.shape); }
    }
    reportStats(runs, nontriv, simNs, events, shapes, a[6].c_str());
    if (FILE* f = fopen((a[6] + ".trace").c_str(), "wb")) { for (auto& t : traces) { fwrite(&t.first, 8, 1, f); fwrite(&t.second, 8, 1, f); } fclose(f); }
    puts("DONE");
    return 0;
  }
  return 2;
}
