#include "core.h"
#include "giant.h"
#include <cstdarg>
#include <unistd.h>
#include <new>
#include <sstream>

namespace sim {

char const* const site_name[S_COUNT] = {
  "none", "open", "fstat", "fallocate", "ftruncate", "fsync", "mmap", "msync", "munmap",
  "close", "write", "read", "lseek", "rename", "unlink", "nospace", "alloc", "ctor", "copy",
  "serialize", "callback", "stream_eof", "stream_err", "stream_throw", "crash", "mutate"};

int siteByName(std::string const& n) {
  for (int i = 0; i < S_COUNT; i++) if (n == site_name[i]) return i;
  return -1;
}

World W;
bool g_verbose = false;
bool g_soft = false;
thread_local int t_track = 0;
void (*g_freshMemory)(void*, size_t) = nullptr;

std::string planText(Plan const& p) {
  std::ostringstream o;
  o << "prop " << p.prop << "\n" << "seed " << p.seed << "\n";
  for (auto& k : p.knobs) o << "knob " << k.first << " " << k.second << "\n";
  for (auto& s : p.steps) {
    o << "step " << s.op;
    for (auto& a : s.a) o << " " << a.first << "=" << a.second;
    o << "\n";
    for (auto& f : s.faults) o << "fault " << site_name[f.site] << " " << f.nth << " " << f.arg << "\n";
  }
  o << "end\n";
  return o.str();
}

bool parsePlans(std::string const& text, std::vector<Plan>& out, std::string& err) {
  std::istringstream in(text);
  std::string line;
  Plan p;
  bool open = false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "prop") { p = Plan{}; l >> p.prop; open = true; }
    else if (w == "seed") l >> p.seed;
    else if (w == "knob") { std::string k; i64 v; l >> k >> v; p.knobs.emplace_back(k, v); }
    else if (w == "step") {
      Step s; l >> s.op;
      std::string kv;
      while (l >> kv) {
        auto e = kv.find('=');
        if (e == std::string::npos) { err = "bad arg " + kv; return false; }
        s.a.emplace_back(kv.substr(0, e), std::stoll(kv.substr(e + 1)));
      }
      p.steps.push_back(s);
    } else if (w == "fault") {
      std::string n; Fault f; l >> n >> f.nth >> f.arg;
      f.site = siteByName(n);
      if (f.site < 0 || p.steps.empty()) { err = "bad fault " + line; return false; }
      p.steps.back().faults.push_back(f);
    } else if (w == "end") { out.push_back(p); open = false; }
    else { err = "bad line " + line; return false; }
  }
  if (open) { err = "unterminated plan"; return false; }
  return true;
}

u64 hstr(char const* s) {
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (u8)*s) * 1099511628211ull;
  return h;
}

static FILE* const evlog = getenv("SIM_EVLOG") ? fopen(getenv("SIM_EVLOG"), "w") : nullptr;
void ev(u64 a, u64 b) {
  if (evlog) { fprintf(evlog, "%d %llx %llx\n", W.step, (unsigned long long)a, (unsigned long long)b); fflush(evlog); }
  W.trace = mix(W.trace ^ mix(a) ^ (mix(b) << 1));
  W.simTimeNs += 1000;
  if (++W.events > EVENT_CAP) violation("hang", "more than %llu events in one run", (unsigned long long)EVENT_CAP);
}
void shape(u64 a, u64 b) {
  W.shape = mix(W.shape ^ mix(a) ^ (mix(b) << 1));
  ev(a, b);
}

void note(char const* fmt, ...) {
  if (!g_verbose) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "[%d] ", W.step);
  vfprintf(stderr, fmt, ap);
  fputc('\n', stderr);
  va_end(ap);
}

std::map<std::string, u64>& stats() {
  static std::map<std::string, u64>* m = new std::map<std::string, u64>;
  return *m;
}
void stat(char const* key, u64 n) { Untracked u; stats()[key] += n; }

Fault const* configured(int site) {
  if (!W.armed || !W.cur) return nullptr;
  for (auto& f : W.cur->faults) if (f.site == site) return &f;
  return nullptr;
}

void markFired(Fault const& f) {
  Untracked u;
  W.fired.push_back(FiredFault{f.site, f.nth, f.arg});
  W.nontrivial = true;
  stat((std::string("fault:") + site_name[f.site]).c_str());
  shape(0xF000 + f.site, (u64)f.nth * 4096 + (u64)(f.site == S_CRASH || f.site == S_MUTATE ? 0 : f.arg));
  note("fault %s nth=%lld arg=%lld fired", site_name[f.site], (long long)f.nth, (long long)f.arg);
}

Fault const* hit(int site) {
  if (!W.armed || !W.cur) return nullptr;
  i64 n = ++W.counter[site];
  for (auto& f : W.cur->faults)
    if (f.site == site && f.nth == n) { markFired(f); return &f; }
  return nullptr;
}
bool firedAny() { return !W.fired.empty(); }
bool firedSite(int site) {
  for (auto& f : W.fired) if (f.site == site) return true;
  return false;
}

static void emit(char const* kind, char const* cls, char const* fmt, va_list ap) {
  char buf[1500];
  vsnprintf(buf, sizeof buf, fmt, ap);
  for (char* c = buf; *c; c++) if (*c == '\n' || *c == '"' || *c == '\\') *c = ' ';
  char out[2000];
  int n = snprintf(out, sizeof out, "%s class=%s prop=%s seed=%llu step=%d hash=%016llx detail=%s\n", kind, cls,
           W.plan ? W.plan->prop.c_str() : "-", W.plan ? (unsigned long long)W.plan->seed : 0ull, W.step,
           (unsigned long long)W.trace, buf);
  fflush(stdout);
  if (n > (int)sizeof out - 1) n = sizeof out - 1;
  ssize_t r = write(1, out, n); (void)r;
}

void violation(char const* cls, char const* fmt, ...) {
  t_track = 0; W.armed = false;
  if (g_soft) throw SoftViolation{};
  va_list ap; va_start(ap, fmt);
  emit("VIOL", cls, fmt, ap);
  va_end(ap);
  _exit(1);
}
void harnessError(char const* fmt, ...) {
  t_track = 0; W.armed = false;
  va_list ap; va_start(ap, fmt);
  emit("HERR", "harness", fmt, ap);
  va_end(ap);
  _exit(3);
}

// --------------------------------------------------------------------- heap
namespace heap {

u64 budget = 512ull << 20;
u64 maxSingle = 256ull << 20;

namespace {
struct Ent { void* p; u64 serial; u64 size; };   // serial 0: harness allocation
void* const TOMB = (void*)1;
// open addressing hash table in plain malloc memory
Ent* tab = nullptr;
size_t cap = 0, used = 0, tomb = 0;
size_t slot(void const* p) { return (size_t)mix((u64)p) & (cap - 1); }
void rawPut(Ent e) {
  size_t i = slot(e.p);
  while (tab[i].p && tab[i].p != TOMB) i = (i + 1) & (cap - 1);
  if (tab[i].p == TOMB) tomb--;
  tab[i] = e; used++;
}
void put(Ent e) {
  if ((used + tomb + 1) * 2 >= cap) {
    Untracked u;
    size_t n = 8192;
    while (n < used * 4 + 4096) n <<= 1;
    Ent* old = tab; size_t oc = cap;
    tab = (Ent*)calloc(n, sizeof(Ent)); cap = n; used = tomb = 0;
    for (size_t i = 0; i < oc; i++) if (old[i].p && old[i].p != TOMB) rawPut(old[i]);
    free(old);
  }
  rawPut(e);
}
Ent* find(void const* p) {
  if (!cap) return nullptr;
  size_t i = slot(p);
  while (tab[i].p) { if (tab[i].p == p) return &tab[i]; i = (i + 1) & (cap - 1); }
  return nullptr;
}
u64 serial = 1;
u64 liveBytes = 0, liveN = 0;
}

u64 live() { return liveN; }
u64 tracked() { return serial; }
void dump(u64 from) {
  for (size_t i = 0; i < cap; i++)
    if (tab[i].p && tab[i].p != TOMB && tab[i].serial >= from && tab[i].serial)
      note("  live alloc size=%llu serial=%llu", (unsigned long long)tab[i].size, (unsigned long long)(tab[i].serial - from));
}
bool isLive(void const* p) { return find(p) != nullptr; }

#ifdef SIM_REDZONE
static constexpr size_t RZ = 32;
#else
static constexpr size_t RZ = 0;
#endif

static void* doAlloc(size_t n, size_t align, bool nothrow) {
  bool tr = t_track > 0;
  if (tr) {
    // everything in here is harness code
    Untracked u;
    ev(0xA110C, n);
    bool fail = false;
    if (hit(S_ALLOC)) fail = true;
    else if (giant::on && n >= giant::MIN && n <= giant::MAX) {}
    else if (n > maxSingle || liveBytes + n > budget) { fail = true; stat("memory_limit_hit"); }
    if (fail) {
      ev(0xA110CFA1L, n);
      if (nothrow) return nullptr;
      throw std::bad_alloc{};
    }
  }
  void* p = nullptr;
  if (giant::on && n >= giant::MIN && n <= giant::MAX) return giant::alloc(n);
  if (RZ) {
    size_t lead = align > RZ ? align : RZ;
    char* b = (char*)(align > 16 ? aligned_alloc(align, (n + lead + RZ + align - 1) / align * align) : malloc(n + lead + RZ));
    if (b) { memset(b + lead - 16, 0xCB, 16); memset(b + lead + n, 0xCE, 16); p = b + lead; }
  } else {
    p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  }
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
  if (tr) {
    memset(p, W.garbage, n < 65536 ? n : 65536);
    liveBytes += n; liveN++;
    put(Ent{p, serial++, n});
  } else {
    put(Ent{p, 0, n});
  }
  return p;
}

static void doFree(void* p, size_t align) {
  if (!p) return;
  if (giant::on && giant::owns(p)) { giant::free(p); return; }
  Ent* e = find(p);
  if (!e) violation("bad-free", "operator delete of memory that operator new did not return (or already freed)");
  size_t n = e->size;
  if (e->serial) { liveBytes -= n; liveN--; }
  e->p = TOMB; used--; tomb++;
  if (RZ) {
    size_t lead = align > RZ ? align : RZ;
    unsigned char* c = (unsigned char*)p;
    for (int i = 1; i <= 16; i++) if (c[-i] != 0xCB) violation("heap-underflow", "bytes before a heap block were overwritten");
    for (int i = 0; i < 16; i++) if (c[n + i] != 0xCE) violation("heap-overflow", "bytes after a heap block were overwritten");
    memset(p, 0xDD, n < 65536 ? n : 65536);
    free((char*)p - lead);
  } else free(p);
}

} // heap
} // sim

using sim::heap::doAlloc;
using sim::heap::doFree;
void* operator new(size_t n) { return doAlloc(n, 16, false); }
void* operator new[](size_t n) { return doAlloc(n, 16, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return doAlloc(n, 16, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return doAlloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return doAlloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return doAlloc(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return doAlloc(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return doAlloc(n, (size_t)a, true); }
void operator delete(void* p) noexcept { doFree(p, 16); }
void operator delete[](void* p) noexcept { doFree(p, 16); }
void operator delete(void* p, size_t) noexcept { doFree(p, 16); }
void operator delete[](void* p, size_t) noexcept { doFree(p, 16); }
void operator delete(void* p, std::nothrow_t const&) noexcept { doFree(p, 16); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { doFree(p, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { doFree(p, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { doFree(p, (size_t)a); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { doFree(p, (size_t)a); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { doFree(p, (size_t)a); }
