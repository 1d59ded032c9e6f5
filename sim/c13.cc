// C13: concurrent callers on distinct objects.  Threads of which one runs at a time, switched by
// a seeded scheduler at memory accesses of the library; compared with the same calls made one
// after the other in a process of their own.
#include "rt.h"
#include "users.h"
#include "simsched.h"
#include "c13_types.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

void genC13(Plan& p, Rng& r) {
  int nt = r.chance(1, 2) ? 2 : 2 + (int)r.below(3);
  p.setKnob("threads", nt);
  p.setKnob("pol", (i64)r.below(3));
  p.setKnob("mean", (i64)r.logu(r.chance(1, 2) ? 60 : 2000));
  p.setKnob("ss", (i64)(r.u() >> 1));
  p.setKnob("warm", r.chance(1, 4));
  // few types, so that several threads meet in the same code and state
  int tys[3], n = 1 + (int)r.below(3);
  for (int i = 0; i < n; i++)
    tys[i] = r.chance(2, 5) ? pickType(r, TF_HUGE, TF_POLY) : r.chance(1, 4) ? 130 + (int)r.below(10) : pickType(r, TF_HUGE);
  for (int i = 0; i < n; i++) { bool ok = false; for (auto& t : zoo()) ok |= t.id == tys[i]; if (!ok) tys[i] = pickType(r, TF_HUGE); }
  int st = tys[0];
  int ssv = (int)r.below(SV_N), sz = (int)r.below(6);
  i64 sval = (i64)(r.u() >> 1);
  bool same = r.chance(1, 3);      // every thread does the same thing
  Step proto;
  int total = nt * (1 + (int)r.below(4));
  for (int i = 0; i < total; i++) {
    int k = (int)r.below(20);
    char const* op = k < 6 ? "trip" : k < 8 ? "save" : k < 11 ? "load" : k < 13 ? "loadsh" : k < 14 ? "size" : k < 15 ? "foot" : k < 16 ? "footraw" : "bad";
    if (same && i > 0 && r.chance(3, 4)) op = p.steps[0].op.c_str();
    std::string o = op;
    auto& s = p.step(o.c_str());
    int ty = o == "loadsh" ? st : tys[r.below((u64)n)];
    s.set("th", i < nt ? i : (i64)r.below((u64)nt)).set("t", ty).set("v", o == "loadsh" ? sval : (i64)(r.u() >> 1));
    s.set("z", o == "loadsh" ? sz : (i64)r.below(6)).set("sv", o == "loadsh" ? ssv : (i64)r.below(SV_N)).set("lv", (i64)r.below(LV_N)).set("chunk", r.chance(1, 2) ? 0 : (i64)r.logu(64));
    if (o == "bad") {
      int kind = (int)r.below(4);       // 0 other type, 1 garbage type, 2 truncated file, 3 truncated stream
      s.set("kind", kind).set("u", tys[r.below((u64)n)]).set("cut", (i64)r.below(100));
    }
    if (r.chance(1, 5)) addFaults(r, s, {S_CTOR, S_COPY, S_SERIALIZE, S_CALLBACK, S_OPEN, S_FSTAT, S_FALLOCATE, S_FTRUNCATE, S_FSYNC, S_MMAP, S_MSYNC, S_MUNMAP, S_CLOSE, S_WRITE, S_READ, S_STREAM_EOF, S_STREAM_ERR, S_STREAM_THROW}, 1);
  }
}

namespace {
constexpr size_t MAXS = 64, ARENA = 8u << 20;
struct Rec { int done, kind; u64 what, bytes, digest, size; };
struct Shared {
  Rec ref[MAXS];
  u64 off[MAXS], len[MAXS];       // input of a step
  size_t used;
  int failed;
  u8 arena[ARENA];
};
Shared* sh = nullptr;
Plan const* plan = nullptr;

struct Ctx { int step = -1; Step const* cur = nullptr; i64 counter[S_COUNT] = {}; bool armed = false; std::vector<FiredFault> fired; };
Ctx ctx[sched::MAXT + 1];
void onSwitch(int from, int to) {
  int save = t_track; t_track = 0;
  auto& a = ctx[from + 1];
  a.step = W.step; a.cur = W.cur; a.armed = W.armed; memcpy(a.counter, W.counter, sizeof a.counter); a.fired.swap(W.fired);
  auto& b = ctx[to + 1];
  W.step = b.step; W.cur = b.cur; W.armed = b.armed; memcpy(W.counter, b.counter, sizeof b.counter); W.fired.swap(b.fired);
  b.fired.clear();
  t_track = save;
}
u64 hbytes(Bytes const& b) { u64 h = 77; for (u8 x : b) h = (h ^ x) * 1099511628211ull; return mix(h ^ b.size()); }
// text without numbers: descriptors and the like may differ
u64 htext(std::string const& s) { std::string o; for (char c : s) if (!isdigit((unsigned char)c)) o += c; return hstr(o.c_str()); }

bool inMemory(int lv) { return loadMem(lv); }
int badVia(Step const& s) {
  int lv = (int)s.get("lv"), kind = (int)s.get("kind");
  if (kind == 2) return lv % 2 ? LV_FILE : LV_FILEIN;
  if (kind == 3 || (!config.errorChecking && true)) return lv % 2 ? LV_STREAM : LV_STREAMIN;
  return lv;
}

void execStep(size_t i, Rec& r) {
  auto& s = plan->steps[i];
  W.step = (int)i; W.cur = &s; W.fired.clear();
  for (auto& c : W.counter) c = 0;
  auto set = [&](Outcome const& o) { r.kind = (int)o.kind; r.what = htext(o.what); };
  auto& t = typeById((int)s.get("t"));
  int z = (int)s.get("z"), sv = (int)s.get("sv"), lv = (int)s.get("lv");
  u64 v = (u64)s.get("v");
  size_t chunk = (size_t)s.get("chunk");
  int file = 2 + 2 * (int)i;
  auto doLoad = [&](Bytes const& b, int via, int fl) {
    LoadArgs a; a.via = via; a.bytes = &b; a.streamSeed = (u64)i; a.chunk = chunk; a.file = fl; a.mis = (size_t)(v % 16);
    Obj target;
    if (loadInPlace(via)) { target = Obj(t, v + 1, z); a.target = target.p; }
    auto l = load(t, a);
    set(l.o);
    if (l.o.ok()) r.digest = resultDigest(t, a, l);
    dropResult(t, l);
  };
  if (s.op == "size" || s.op == "foot") {
    Obj o(t, v, z);
    size_t n = 0;
    auto out = attempt([&] { n = s.op == "size" ? t.getSize(o.p) : t.footprint(o.p); });
    set(out); r.size = n;
  } else if (s.op == "footraw") {
    size_t n = 0;
    auto out = attempt([&] { n = opaque()[v % OPAQUE].footprint(v); });
    set(out); r.size = n;
  } else if (s.op == "save" || s.op == "trip") {
    Obj o(t, v, z);
    u64 d0 = o.digest();
    auto x = save(t, o.p, sv, file, (u64)i, chunk);
    set(x.o);
    if (x.o.ok()) r.bytes = hbytes(x.bytes);
    r.size = x.announced;
    if (o.digest() != d0) violation("object-changed", "saving %s via %s changed it", t.name, save_name[sv]);
    if (s.op == "trip" && x.o.ok() && x.streamGood) {     // a stream that failed holds no checkpoint
      if (loadFile(lv) && sv != SV_FILE) fs::install(fileName(file), x.bytes);
      doLoad(x.bytes, lv, file);
    }
  } else if (s.op == "load" || s.op == "loadsh") {
    // what several threads load from is the same memory, or the same file
    Bytes b(sh->arena + sh->off[i], sh->arena + sh->off[i] + sh->len[i]);
    if (s.op == "loadsh" && inMemory(lv) && lv != LV_RET) {
      char* src = (char*)sh->arena + sh->off[i];
      void* res = nullptr;
      Obj target(t, v + 1, z);
      auto o = attempt([&] { if (lv == LV_IN) t.deserIn(src, target.p); else res = t.deser(src); });
      set(o);
      if (o.ok()) r.digest = res ? t.digest(res) : target.digest();
      if (res) t.destroy(res);
    } else {
      int f = s.op == "loadsh" ? 1 : file;
      if (loadFile(lv) && s.op == "load") fs::install(fileName(f), b);
      doLoad(b, lv, f);
    }
  } else if (s.op == "bad") {
    Bytes b(sh->arena + sh->off[i], sh->arena + sh->off[i] + sh->len[i]);
    int via = badVia(s);
    if (loadFile(via)) fs::install(fileName(file), b);
    doLoad(b, via, file);
  }
  W.cur = nullptr;
  r.done = 1;
  if (r.kind != K_OK) W.nontrivial = true;
}

// inputs of the steps: made in the other process, so that this one starts cold
void prepare() {
  for (size_t i = 0; i < plan->steps.size(); i++) {
    auto& s = plan->steps[i];
    if (s.op != "load" && s.op != "loadsh" && s.op != "bad") continue;
    bool other = s.op == "bad" && s.get("kind") == 0 && config.errorChecking;
    if (s.op == "loadsh") {
      bool found = false;
      for (size_t j = 0; j < i && !found; j++)
        if (plan->steps[j].op == "loadsh" && plan->steps[j].get("t") == s.get("t") && plan->steps[j].get("v") == s.get("v") && plan->steps[j].get("z") == s.get("z")) { sh->off[i] = sh->off[j]; sh->len[i] = sh->len[j]; found = true; }
      if (found) continue;
    }
    auto& t = typeById((int)(other ? s.get("u") : s.get("t")));
    Obj o(t, (u64)s.get("v"), (int)s.get("z"));
    Bytes b = reference(t, o.p);
    if (s.op == "bad") {
      int kind = (int)s.get("kind");
      if (kind == 1 && config.errorChecking) { for (size_t k = 0; k < 8 && k < b.size(); k++) b[k] = (u8)mix((u64)s.get("v") + k); }
      else if (!other) b.resize(b.size() * (size_t)s.get("cut") / 100);
    }
    if (sh->used + b.size() + 64 > ARENA) { sh->off[i] = 0; sh->len[i] = 0; continue; }
    sh->off[i] = sh->used; sh->len[i] = b.size();
    memcpy(sh->arena + sh->used, b.data(), b.size());
    sh->used += (b.size() + 63) / 64 * 64;
  }
}
void installShared() {
  for (size_t i = 0; i < plan->steps.size(); i++)
    if (plan->steps[i].op == "loadsh") { fs::install(fileName(1), Bytes(sh->arena + sh->off[i], sh->arena + sh->off[i] + sh->len[i])); return; }
}
} // namespace

void runC13(Plan const& p) {
  plan = &p;
  if (!sh) sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t n = p.steps.size() < MAXS ? p.steps.size() : MAXS;
  int nt = (int)p.knob("threads", 2);
  if (nt < 1) nt = 1;
  if (nt > sched::MAXT) nt = sched::MAXT;
  auto thread = [&](size_t i) { int t = (int)p.steps[i].get("th"); return t < 0 ? 0 : t % nt; };
  // ---- one after the other, in a process of their own
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) harnessError("cannot fork");
  if (pid == 0) {
    alarm(40);
    prepare();
    installShared();
    for (int t = 0; t < nt; t++)
      for (size_t i = 0; i < n; i++) if (thread(i) == t) execStep(i, sh->ref[i]);
    checkLedger("calls made one after the other");
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) != pid) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
  // ---- concurrently
  std::vector<Rec> got(n);
  installShared();
  if (p.knob("warm")) for (size_t i = 0; i < n; i++) if (thread(i) == 0) { Rec x{}; execStep(i, x); }
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; t++) bodies.push_back([&, t] { for (size_t i = 0; i < n; i++) if (thread(i) == t) execStep(i, got[i]); });
  sched::Params sp;
  sp.seed = (u64)p.knob("ss", 1); sp.policy = (int)p.knob("pol"); sp.mean = (u64)p.knob("mean", 50);
  W.step = -1; W.cur = nullptr;
  g_freshMemory = [](void* p, size_t k) { sched::forget(p, k); };
  sched::run(bodies, sp, onSwitch);
  W.step = -1; W.cur = nullptr; W.armed = false;
  for (size_t i = 0; i < n; i++) {
    auto& a = sh->ref[i]; auto& b = got[i];
    W.step = (int)i;
    auto& t = typeById((int)p.steps[i].get("t"));
    if (!b.done) violation("not-done", "a thread did not finish its call");
    if (a.kind != b.kind || a.what != b.what)
      violation("other-outcome", "%s of %s ends in %s among concurrent calls but in %s alone", p.steps[i].op.c_str(), t.name, kind_name[b.kind], kind_name[a.kind]);
    if (a.bytes != b.bytes) violation("other-bytes", "%s of %s saves other bytes among concurrent calls than alone", p.steps[i].op.c_str(), t.name);
    if (a.digest != b.digest) violation("other-object", "%s of %s loads another object among concurrent calls than alone", p.steps[i].op.c_str(), t.name);
    if (a.size != b.size) violation("other-size", "%s of %s returns another size among concurrent calls than alone", p.steps[i].op.c_str(), t.name);
  }
  checkLedger("concurrent calls");
  if (sched::switches > (u64)nt + 1) W.nontrivial = true;
  stat("thread_switches", sched::switches);
  stat("accesses_scheduled", sched::accesses);
  stat("cells_touched_by_several_threads", sched::sharedCells);
  stat("synchronisation_operations", sched::syncOps);
  stat("blocked_waits", sched::blockedWaits);
  shape(0xC13, sched::switches);
}
} // namespace sim
