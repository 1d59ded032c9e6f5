// C17: checkpoints travel between processes of one program.  Every simulated process is a fresh
// execution of the program (at one of two load addresses) with its own history of operations,
// failures, memory content and descriptors.
#include "rt.h"
#include "users.h"
#include "fam.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

static constexpr int FAMID = 1000;
static int pickAny(Rng& r) { return r.chance(1, 6) ? FAMID + (int)r.below(FAMALL) : r.chance(1, 4) ? pickType(r, 0, TF_POLY) : pickType(r); }

void genC17(Plan& p, Rng& r) {
  int np = r.chance(2, 3) ? 2 : 3;
  p.setKnob("procs", np);
  for (int i = 0; i < np; i++) {
    p.setKnob(("exe" + std::to_string(i)).c_str(), (i64)r.below(2));
    p.setKnob(("g" + std::to_string(i)).c_str(), (i64)r.below(256));
  }
  struct Art { int t, z; i64 v; };
  std::vector<Art> arts;
  int na = 1 + (int)r.below(4);
  for (int i = 0; i < na; i++) arts.push_back(Art{pickAny(r), (int)r.below(6), (i64)(r.u() >> 1)});
  // some processes first touch the types of the artifacts in another order
  for (int pr = 0; pr < np; pr++) {
    int h = (int)r.below(7);
    for (int i = 0; i < h; i++) {
      int k = (int)r.below(10);
      auto& s = p.step(k < 4 ? "use" : k < 5 ? "size" : k < 6 ? "foot" : k < 8 ? "bad" : "use");
      int t = r.chance(1, 2) ? arts[r.below(arts.size())].t : pickAny(r);
      if (t >= FAMID) t = pickType(r);
      s.set("pr", pr).set("t", t).set("v", (i64)(r.u() >> 1)).set("z", (i64)r.below(6)).set("sv", (i64)r.below(SV_N)).set("lv", (i64)r.below(LV_N)).set("chunk", r.chance(1, 2) ? 0 : (i64)r.logu(64));
      if (s.op == "bad") s.set("u", pickType(r)).set("kind", (i64)r.below(3)).set("cut", (i64)r.below(100));
      if (r.chance(1, 3)) addFaults(r, s, {S_ALLOC, S_CTOR, S_COPY, S_SERIALIZE, S_CALLBACK, S_OPEN, S_FSTAT, S_FALLOCATE, S_FTRUNCATE, S_MMAP, S_MSYNC, S_CLOSE, S_STREAM_EOF, S_STREAM_ERR, S_STREAM_THROW}, 1);
    }
    std::vector<int> order;
    for (int i = 0; i < na; i++) order.push_back(i);
    for (int i = na - 1; i > 0; i--) std::swap(order[(size_t)i], order[r.below((u64)i + 1)]);
    for (int a : order) {
      auto put = [&](char const* op) {
        auto& s = p.step(op);
        s.set("pr", pr).set("a", a).set("t", arts[(size_t)a].t).set("v", arts[(size_t)a].v).set("z", arts[(size_t)a].z);
        s.set("sv", (i64)r.below(SV_N)).set("lv", (i64)r.below(LV_N)).set("chunk", r.chance(1, 2) ? 0 : (i64)r.logu(64));
      };
      bool readFirst = r.chance(1, 2);
      if (pr > 0 && readFirst) put("read");
      if (pr == 0 || r.chance(3, 4)) put("write");
      if (pr > 0 && !readFirst) put("read");
    }
  }
}

namespace {
constexpr size_t NART = 8, SLOT = 512 << 10;
struct Xchg {
  size_t planLen; char planText[60000];
  u64 trace, shape, events, simTimeNs; bool nontrivial; int done;
  size_t nstat; char stat[30000];
  struct { int written; int by; size_t len; u8 data[SLOT]; } art[NART];
};
u64 hb(u8 const* b, size_t n) { u64 h = 77; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return mix(h ^ n); }

void runStep(Xchg& x, Plan const& p, size_t i, int role) {
  beginStep(p, i);
  auto& s = p.steps[i];
  int ty = (int)s.get("t"), z = (int)s.get("z"), sv = (int)s.get("sv"), lv = (int)s.get("lv");
  u64 v = (u64)s.get("v");
  size_t chunk = (size_t)s.get("chunk");
  auto& slot = x.art[(size_t)s.get("a") % NART];
  bool isFam = ty >= FAMID;
  auto load1 = [&](TypeOps const& t, Bytes const& b, int via, u64* digest) {
    LoadArgs a; a.via = via; a.bytes = &b; a.streamSeed = (u64)i; a.chunk = chunk; a.file = 5;
    if (loadFile(via)) fs::install(fileName(5), b);
    Obj target;
    if (loadInPlace(via)) { target = Obj(t, v + 1, z); a.target = target.p; }
    auto l = load(t, a);
    if (l.o.ok() && digest) *digest = resultDigest(t, a, l);
    dropResult(t, l);
    return l.o;
  };
  if (s.op == "write") {
    Bytes b;
    if (isFam) {
      checkpoint::SerializedReturnType ret;
      auto o = attempt([&] { ret = fam()[(size_t)(ty - FAMID) % FAMALL].ser(v); });
      if (!o.ok()) violation("save-failed", "process %d: saving: %s", role, describe(o).c_str());
      b.assign((u8*)ret->getBuffer(), (u8*)ret->getBuffer() + ret->getSize());
      Tracked tr; ret.reset();
    } else {
      auto& t = typeById(ty);
      Obj o(t, v, z);
      auto r = save(t, o.p, sv, 4, (u64)i, chunk);
      if (!r.o.ok()) violation("save-failed", "process %d: saving %s via %s: %s", role, t.name, save_name[sv], describe(r.o).c_str());
      b = r.bytes;
    }
    if (b.size() > SLOT) return;
    if (slot.written) {
      if (slot.len != b.size() || memcmp(slot.data, b.data(), b.size()))
        violation("other-bytes", "process %d saves other bytes of an equal object (%s) than process %d did", role, isFam ? "user type" : typeById(ty).name, slot.by);
      stat("same_bytes_across_processes");
      if (slot.by != role) W.nontrivial = true;
    } else {
      memcpy(slot.data, b.data(), b.size());
      slot.len = b.size(); slot.written = 1; slot.by = role;
    }
  } else if (s.op == "read") {
    if (!slot.written) return;
    Bytes b(slot.data, slot.data + slot.len);
    stat("loaded_across_processes");
    if (slot.by != role) W.nontrivial = true;
    if (isFam) {
      u64 after = 0;
      Block m(b, 16, 0);
      auto& f = fam()[(size_t)(ty - FAMID) % FAMALL];
      auto o = attempt([&] { if (lv % 2) f.load(m.c(), &after); else f.loadIn(m.c(), v + 1, &after); });
      if (!o.ok()) violation("load-failed", "process %d cannot load what process %d saved: %s", role, slot.by, describe(o).c_str());
      if (after != famDigest(v)) violation("differs", "process %d loads another object than process %d saved", role, slot.by);
      return;
    }
    auto& t = typeById(ty);
    u64 want = wantDigest(t, v, z), got = 0;
    auto o = load1(t, b, lv, &got);
    if (!o.ok()) violation("load-failed", "process %d cannot load %s that process %d saved, via %s: %s", role, t.name, slot.by, load_name[lv], describe(o).c_str());
    if (got != want) violation("differs", "process %d loads another %s than process %d saved, via %s", role, t.name, slot.by, load_name[lv]);
  } else if (s.op == "size" || s.op == "foot") {
    auto& t = typeById(ty);
    Obj o(t, v, z);
    size_t n = 0;
    attempt([&] { n = s.op == "size" ? t.getSize(o.p) : t.footprint(o.p); });
  } else if (s.op == "use") {
    auto& t = typeById(ty);
    Obj o(t, v, z);
    auto r = save(t, o.p, sv, 4, (u64)i, chunk);
    if (r.o.ok() && r.streamGood) load1(t, r.bytes, lv, nullptr);
  } else if (s.op == "bad") {
    auto& t = typeById(ty);
    int kind = (int)s.get("kind");
    auto& u = typeById((int)s.get("u"));
    bool other = kind == 0 && config.errorChecking;
    Obj o(other ? u : t, v, z);
    Bytes b = reference(other ? u : t, o.p);
    if (kind == 1 && config.errorChecking) for (size_t k = 0; k < 8 && k < b.size(); k++) b[k] = (u8)mix(v + k);
    else if (!other) { b.resize(b.size() * (size_t)s.get("cut") / 100); lv = lv % 2 ? LV_FILE : LV_STREAM; }
    load1(t, b, lv, nullptr);
  }
}
} // namespace

// one simulated process: an execution of its own
int processC17(int fd, int role, void (*reset)(Plan const&)) {
  auto x = (Xchg*)mmap(nullptr, sizeof(Xchg), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (x == MAP_FAILED) return 3;
  std::vector<Plan> plans; std::string err;
  if (!parsePlans(std::string(x->planText, x->planLen), plans, err)) return 3;
  Plan& p = plans[0];
  for (auto& k : p.knobs) if (k.first == "garbage") k.second = p.knob(("g" + std::to_string(role)).c_str());
  reset(p);
  W.garbage = (u8)p.knob(("g" + std::to_string(role)).c_str(), 0xA5);
  alarm(40);
  W.trace = x->trace; W.shape = x->shape; W.events = x->events;
  for (size_t i = 0; i < p.steps.size(); i++) if ((int)p.steps[i].get("pr") == role) runStep(*x, p, i, role);
  W.armed = false; W.cur = nullptr;
  x->trace = W.trace; x->shape = W.shape; x->events = W.events; x->simTimeNs += W.simTimeNs; x->nontrivial |= W.nontrivial;
  std::string t;
  for (auto& s : stats()) { std::string k = s.first; for (auto& c : k) if (c == ' ') c = '_'; t += k + " " + std::to_string(s.second) + "\n"; }
  x->nstat = std::min(t.size(), sizeof x->stat);
  memcpy(x->stat, t.data(), x->nstat);
  x->done = 1;
  return 0;
}

void runC17(Plan const& p) {
  static int fd = -1; static Xchg* x = nullptr;
  if (fd < 0) {
    fd = memfd_create("exchange", 0);
    if (fd < 0) { FILE* f = tmpfile(); if (f) fd = dup(fileno(f)); }
    if (fd < 0 || ftruncate(fd, sizeof(Xchg))) harnessError("no exchange file");
    x = (Xchg*)mmap(nullptr, sizeof(Xchg), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  std::string text = planText(p);
  if (text.size() > sizeof x->planText) harnessError("plan too long");
  memcpy(x->planText, text.data(), text.size()); x->planLen = text.size();
  x->trace = x->shape = x->events = x->simTimeNs = 0; x->nontrivial = false;
  for (auto& a : x->art) a.written = 0;
  char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 8);
  if (n <= 0) harnessError("readlink");
  self[n] = 0;
  std::string base = self;
  fflush(stdout);
  int np = (int)p.knob("procs", 2);
  std::string fds = std::to_string(fd);
  for (int role = 0; role < np; role++) {
    x->done = 0;
    std::string exe = base + (p.knob(("exe" + std::to_string(role)).c_str()) ? "-b" : "");
    std::string rs = std::to_string(role);
    pid_t pid = vfork();
    if (pid < 0) harnessError("fork");
    if (pid == 0) { execl(exe.c_str(), exe.c_str(), "proc", fds.c_str(), rs.c_str(), (g_verbose ? "-v" : nullptr), nullptr); _exit(3); }
    int st = 0;
    while (waitpid(pid, &st, 0) != pid) {}
    if (WIFSIGNALED(st)) violation("killed", "a process died of signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    if (!x->done) violation("not-done", "a process ended in the middle");
    std::string t(x->stat, x->nstat), k, l;
    for (size_t a = 0; a < t.size();) {
      size_t e = t.find('\n', a); l = t.substr(a, e - a); a = e + 1;
      size_t q = l.find(' ');
      if (q != std::string::npos) stat(l.substr(0, q).c_str(), std::stoull(l.substr(q + 1)));
    }
    stat("processes_run");
  }
  W.trace = x->trace; W.shape = x->shape; W.events = x->events; W.simTimeNs = x->simTimeNs; W.nontrivial = x->nontrivial;
}
} // namespace sim
