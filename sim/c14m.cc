// C14 with dynamically loaded modules: which modules are loaded, in which order, and what is
// saved and loaded in between is up to the seed.  Every run happens in a fresh process.
#include "rt.h"
#include <dlfcn.h>
#include <unistd.h>

namespace app { extern sim::u64 levelWant[]; }
namespace modapp {
using sim::Gen; using sim::u32;
using Maker = void* (*)(Gen&);
enum { KINDS = 6 };
Maker makers[3][KINDS];
u32 usable[3];
void add(int f, int k, Maker m) { makers[f][k] = m; usable[f] |= 1u << k; }
void want(int l) { app::levelWant[l]++; }
// the dynamic type depends on size class, depth and the classes known
void* makeKind(int f, Gen& g) {
  int n = __builtin_popcount(usable[f]);
  if (!n || g.depth > 6) return nullptr;
  int k = (g.sz + g.depth) % n, i = 0;
  while (!(usable[f] >> i & 1) || k-- > 0) i++;
  sim::Deeper x(g);
  return makers[f][i](g);
}
}

namespace sim {
void stepC14(Plan const&, size_t);
namespace {
constexpr int MODS = 6;
struct ModType { int mod, id; };
constexpr ModType types[] = {{1, 200}, {1, 201}, {2, 205}, {3, 210}, {3, 211}, {3, 212}, {4, 215}, {4, 216}, {5, 220}, {5, 221}, {6, 225}, {6, 226}, {6, 227}};
struct Kept { bool set = false; Bytes b; u64 want = 0; u32 usable[3]; };
}

void genC14M(Plan& p, Rng& r) {
  unsigned loaded = 0;
  int steps = 4 + (int)r.below(14), kept = 0;
  for (int i = 0; i < steps; i++) {
    if (!loaded || r.chance(2, 5)) {
      int m = 1 + (int)r.below(MODS);
      if (loaded >> m & 1) continue;
      loaded |= 1u << m;
      p.step("mod").set("m", m);
      continue;
    }
    std::vector<int> ids;
    for (auto& t : types) if (loaded >> t.mod & 1) ids.push_back(t.id);
    int what = (int)r.below(10);
    if (what >= 8 && kept) { p.step("restore").set("k", (i64)r.below((u64)kept)).set("lv", (i64)r.below(LV_N)).set("chunk", r.chance(1, 2) ? 0 : (i64)r.logu(100)); continue; }
    auto& s = p.step(what == 0 ? "size" : what == 1 ? "footprint" : what >= 6 ? "keep" : "trip");
    s.set("t", ids[r.below(ids.size())]).set("v", (i64)(r.u() >> 1)).set("z", (i64)r.below(10)).set("sv", (i64)r.below(SV_N)).set("lv", (i64)r.below(LV_N)).set("chunk", r.chance(1, 2) ? 0 : (i64)r.logu(100));
    if (what >= 6) s.set("k", kept++);
    else if (r.chance(1, 5)) addFaults(r, s, {S_ALLOC, S_CTOR, S_COPY, S_SERIALIZE}, 1);
  }
  for (int k = 0; k < kept; k++) p.step("restore").set("k", k).set("lv", (i64)r.below(LV_N)).set("chunk", 0);
}

void runC14M(Plan const& p) {
  char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 16);
  if (n <= 0) harnessError("readlink");
  self[n] = 0;
  std::string dir = self;
  dir.resize(dir.rfind('/'));
  bool loaded[MODS + 1] = {};
  std::map<i64, std::pair<Kept, size_t>> keep;
  int nl = 0;
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    if (s.op == "mod") {
      int m = (int)s.get("m");
      if (m < 1 || m > MODS || loaded[m]) continue;
      W.armed = false;
      if (!dlopen((dir + "/mod" + std::to_string(m) + ".so").c_str(), RTLD_LAZY | RTLD_GLOBAL)) violation("module-load", "a module cannot be loaded: %s", dlerror());
      loaded[m] = true; nl++;
      zooFreeze();
      stat("modules_loaded");
      shape(0xC14F, (u64)m);
      if (nl > 1) W.nontrivial = true;
      continue;
    }
    if (s.op == "restore") {
      auto it = keep.find(s.get("k"));
      if (it == keep.end() || !it->second.first.set) continue;
      auto& k = it->second.first; auto& ks = p.steps[it->second.second];
      auto& t = typeById((int)ks.get("t"));
      LoadArgs a; a.via = (int)s.get("lv"); a.bytes = &k.b; a.streamSeed = (u64)i; a.chunk = (size_t)s.get("chunk"); a.file = 1;
      if (loadFile(a.via)) fs::install(fileName(1), k.b);
      Obj target;
      if (loadInPlace(a.via)) {
        u32 now[3]; memcpy(now, modapp::usable, sizeof now); memcpy(modapp::usable, k.usable, sizeof now);
        target = Obj(t, (u64)ks.get("v") + 1, (int)ks.get("z")); a.target = target.p;
        memcpy(modapp::usable, now, sizeof now);
      }
      auto l = load(t, a);
      if (!l.o.ok()) violation("load-failed", "%s saved before other modules were loaded cannot be loaded via %s: %s", t.name, load_name[a.via], describe(l.o).c_str());
      if (resultDigest(t, a, l) != k.want) violation("differs", "%s saved before other modules were loaded has another type or state when loaded via %s", t.name, load_name[a.via]);
      dropResult(t, l);
      stat("restored_after_module_loads");
      continue;
    }
    bool known = false;
    for (auto& t : types) known |= t.id == (int)s.get("t") && loaded[t.mod];
    if (!known) continue;
    if (s.op == "keep") {
      auto& t = typeById((int)s.get("t"));
      Obj o(t, (u64)s.get("v"), (int)s.get("z"));
      Kept k;
      k.want = o.digest();
      memcpy(k.usable, modapp::usable, sizeof k.usable);
      auto r = save(t, o.p, (int)s.get("sv"), 0, (u64)i, (size_t)s.get("chunk"));
      if (!r.o.ok()) violation("save-failed", "saving %s via %s: %s", t.name, save_name[s.get("sv")], describe(r.o).c_str());
      k.b = r.bytes; k.set = true;
      keep[s.get("k")] = {k, i};
      continue;
    }
    stepC14(p, i);
  }
}
} // namespace sim
