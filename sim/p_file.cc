// C01-C04: checkpoints in files under crashes, system call failures and damage.
#include "rt.h"

namespace sim {

static std::vector<int> const WRITE_SYS = {S_OPEN, S_FALLOCATE, S_FTRUNCATE, S_FSYNC, S_MMAP, S_MSYNC, S_MUNMAP, S_CLOSE, S_WRITE, S_FSTAT, S_RENAME, S_UNLINK, S_LSEEK};
static std::vector<int> const READ_SYS = {S_OPEN, S_FSTAT, S_MMAP, S_MUNMAP, S_CLOSE, S_READ, S_LSEEK};
// weights: the calls the code is known to make come up more often
static int writeSite(Rng& r) { return r.chance(1, 12) ? WRITE_SYS[8 + r.below(5)] : WRITE_SYS[r.below(8)]; }
static int readSite(Rng& r) { return r.chance(1, 12) ? READ_SYS[5 + r.below(2)] : READ_SYS[r.below(5)]; }
static void sysFault(Rng& r, Step& s, bool write) {
  int site = write ? writeSite(r) : readSite(r);
  s.fault(site, r.chance(1, 6) ? 2 : 1, pickErrno(r, site));
}

static void loadExpect(TypeOps const& t, int file, bool inPlace, u64 want, char const* when, Rng& r) {
  LoadArgs a;
  a.via = inPlace ? LV_FILEIN : LV_FILE;
  a.file = file;
  Obj target;
  if (inPlace) {
    int sz = (t.flags & TF_POLY) ? -1 : (int)r.below(6);
    if (sz < 0) a.via = LV_FILE;
    else { target = Obj(t, r.u(), sz); a.target = target.p; }
  }
  auto l = load(t, a);
  if (!l.o.ok()) violation("lost", "%s: loading the acknowledged checkpoint of %s failed: %s", when, t.name, describe(l.o).c_str());
  if (resultDigest(t, a, l) != want) violation("differs", "%s: the acknowledged checkpoint of %s loads as a different object", when, t.name);
  dropResult(t, l);
}

// ---------------------------------------------------------------------- C01
void genC01(Plan& p, Rng& r) {
  int n = 3 + (int)r.below(10);
  int files = 1 + (int)r.below(3);
  bool crashy = r.chance(4, 5);
  for (int i = 0; i < n; i++) {
    int what = (int)r.below(20);
    int f = (int)r.below(files);
    auto saveArgs = [&](Step& s) -> Step& {
      int ty = r.chance(1, 4) ? pickType(r, 0, TF_BIG) : pickType(r);
      s.set("f", f).set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty)));
      return s;
    };
    if (what < 8) saveArgs(p.step("save"));
    else if (what < 11 && crashy) saveArgs(p.step("crashsave")).fault(S_CRASH, (i64)r.below(11) + 1, (i64)(r.u() >> 1));
    else if (what < 13) { auto& s = saveArgs(p.step("save")); sysFault(r, s, true); if (r.chance(1, 3)) sysFault(r, s, true); }
    else if (what < 17) p.step("load").set("f", f).set("in", (i64)r.below(2)).set("v", (i64)(r.u() >> 1));
    else if (what < 18) { auto& s = p.step("load").set("f", f).set("in", 0).set("v", 1); sysFault(r, s, false); }
    else if (crashy) p.step("crash").set("seed", (i64)(r.u() >> 1));
  }
  p.step("crash").set("seed", r.chance(1, 3) ? 0 : (i64)(r.u() >> 1));
  for (int f = 0; f < files; f++) p.step("load").set("f", f).set("in", 0).set("v", 1);
}

void runC01(Plan const& p) {
  struct Acked { int t = 0; u64 want = 0; };   // t == 0: nothing promised about the file
  std::map<int, Acked> model;
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    int f = (int)s.get("f");
    if (s.op == "save" || s.op == "crashsave") {
      auto& t = typeById((int)s.get("t"));
      Obj o(t, (u64)s.get("v"), (int)s.get("z"));
      u64 want = o.digest();
      model.erase(f);
      auto r = save(t, o.p, SV_FILE, f, 0, 0);
      if (r.o.ok()) model[f] = Acked{t.id, want};
      else if (r.o.fired.empty()) violation("save-failed", "saving %s to a file failed: %s", t.name, describe(r.o).c_str());
      if (fs::haveCrashImage()) {
        // the system died in the middle of this save
        fs::takeCrashImage();
        model.erase(f);
      }
    } else if (s.op == "crash") {
      fs::crashNow((u64)s.get("seed"));
    } else if (s.op == "load") {
      auto it = model.find(f);
      if (it == model.end() || it->second.t == 0) continue;
      auto& t = typeById(it->second.t);
      Rng r((u64)s.get("v"));
      if (!s.faults.empty()) {
        LoadArgs a; a.via = LV_FILE; a.file = f;
        auto l = load(t, a);
        if (l.o.ok()) { if (resultDigest(t, a, l) != it->second.want) violation("differs", "a disturbed load of %s returned a different object", t.name); }
        dropResult(t, l);
      } else loadExpect(t, f, s.get("in") != 0, it->second.want, "after crashes and other operations", r);
    }
  }
}

// ---------------------------------------------------------------------- C02
void genC02(Plan& p, Rng& r) {
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) {
    int ty = r.chance(1, 4) ? pickType(r, 0, TF_BIG) : pickType(r);
    bool w = r.chance(2, 3);
    auto& s = p.step(w ? "save" : "load");
    s.set("f", (i64)r.below(2)).set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty)));
    if (!w) s.set("in", (i64)r.below(2));
    if (w && config.fallocate && r.chance(1, 5)) s.fault(S_NOSPACE, 1, (i64)r.below(4));
    else {
      int k = 1 + (r.chance(1, 3) ? 1 + (int)r.below(2) : 0);
      for (int j = 0; j < k; j++) sysFault(r, s, w);
    }
  }
}

static bool onlyMissingPrealloc(Outcome const& o) {
  for (auto& f : o.fired) if (f.site != S_FALLOCATE || (f.arg != EOPNOTSUPP && f.arg != ENOSYS)) return false;
  return true;
}

void runC02(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    int f = (int)s.get("f");
    auto& t = typeById((int)s.get("t"));
    Obj o(t, (u64)s.get("v"), (int)s.get("z"));
    u64 want = o.digest();
    Rng r((u64)s.get("v") ^ 77);
    if (s.op == "save") {
      auto sv = save(t, o.p, SV_FILE, f, 0, 0);
      if (sv.o.ok()) {
        // success means safely stored: only what is durable survives this crash
        W.cur = nullptr; fs::beginStep();
        fs::crashNow(0);
        loadExpect(t, f, false, want, "a save that returned success despite a failing system call, after a crash", r);
        if (!sv.o.fired.empty()) stat("faulty_save_succeeded");
      } else {
        if (onlyMissingPrealloc(sv.o)) violation("spurious-failure", "saving %s failed: %s", t.name, describe(sv.o).c_str());
        if (sv.o.kind != K_RUNTIME) violation("wrong-exception", "saving %s to a failing file system: %s", t.name, describe(sv.o).c_str());
        if (!mentionsErrno(sv.o)) violation("no-errno", "saving %s to a failing file system: the message does not carry the errno: %s", t.name, describe(sv.o).c_str());
        stat("faulty_save_reported");
      }
      W.cur = nullptr; fs::beginStep();
      auto again = save(t, o.p, SV_FILE, f, 0, 0);
      if (!again.o.ok()) violation("no-recovery", "saving %s after the faults stopped: %s", t.name, describe(again.o).c_str());
      fs::crashNow((u64)s.get("v"));
      loadExpect(t, f, true, want, "a save after the faults stopped", r);
    } else {
      Step const* cur = W.cur; W.cur = nullptr;
      auto sv = save(t, o.p, SV_FILE, f, 0, 0);
      if (!sv.o.ok()) violation("save-failed", "saving %s without faults: %s", t.name, describe(sv.o).c_str());
      W.cur = cur;
      LoadArgs a; a.file = f; a.via = s.get("in") ? LV_FILEIN : LV_FILE;
      Obj target;
      if (s.get("in")) { target = Obj(t, (u64)s.get("v") + 1, (int)s.get("z")); a.target = target.p; }
      auto l = load(t, a);
      if (l.o.ok()) {
        if (resultDigest(t, a, l) != want) violation("differs", "a load of %s with failing system calls returned a different object", t.name);
      } else {
        if (l.o.fired.empty()) violation("spurious-failure", "loading %s failed: %s", t.name, describe(l.o).c_str());
        if (l.o.kind != K_RUNTIME) violation("wrong-exception", "loading %s from a failing file system: %s", t.name, describe(l.o).c_str());
        if (!mentionsErrno(l.o)) violation("no-errno", "loading %s from a failing file system: the message does not carry the errno: %s", t.name, describe(l.o).c_str());
        stat("faulty_load_reported");
      }
      dropResult(t, l);
      W.cur = nullptr;
      auto l2 = load(t, a);
      if (!l2.o.ok() || resultDigest(t, a, l2) != want) violation("no-recovery", "loading %s after the faults stopped: %s", t.name, describe(l2.o).c_str());
      dropResult(t, l2);
    }
  }
}

// ---------------------------------------------------------------------- C03
static void anyFault(Rng& r, Step& s, bool write) {
  int k = (int)r.below(12);
  if (k < 6) sysFault(r, s, write);
  else if (k == 6 && write && config.fallocate) s.fault(S_NOSPACE, 1, (i64)r.below(3));
  else if (k < 9) s.fault(S_ALLOC, (i64)r.logu(64), 0);
  else { int sites[] = {S_CTOR, S_COPY, S_SERIALIZE}; s.fault(sites[r.below(3)], (i64)r.logu(12), 0); }
}
void genC03(Plan& p, Rng& r) {
  int n = 2 + (int)r.below(8);
  for (int i = 0; i < n; i++) {
    int ty = r.chance(1, 2) ? pickType(r, 0, TF_PROBE) : pickType(r);
    int k = (int)r.below(3);
    auto& s = p.step(k == 0 ? "save" : k == 1 ? "load" : "loadin");
    s.set("f", (i64)r.below(2)).set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty)));
    if (k != 0) {
      // what the file holds: 0 the right data, 1 cut, 2 another type, 3 garbage, 4 missing
      s.set("content", r.chance(1, 2) ? 0 : (i64)r.below(5)).set("cut", (i64)r.below(4096));
    }
    if (r.chance(5, 6)) anyFault(r, s, k == 0);
    if (r.chance(1, 4)) anyFault(r, s, k == 0);
  }
}
void runC03(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    int f = (int)s.get("f");
    auto& t = typeById((int)s.get("t"));
    std::string where = std::string(s.op) + " of " + t.name;
    heap::budget = 64u << 20;
    {
      Obj o(t, (u64)s.get("v"), (int)s.get("z"));
      if (s.op == "save") {
        auto sv = save(t, o.p, SV_FILE, f, 0, 0);
        where += std::string(" (") + describe(sv.o) + ")";
        checkLedger(where.c_str());
      } else {
        Bytes b = reference(t, o.p);
        int c = (int)s.get("content");
        if (c == 1) b.resize((size_t)s.get("cut") % b.size());
        else if (c == 2) { Obj q(typeById(t.id == 9 ? 20 : 9), 1, 3); b = reference(*q.t, q.p); }
        else if (c == 3) { Rng r((u64)s.get("v")); if (b.size() < 64) b.resize(64); for (auto& x : b) x = (u8)r.u(); b[0] = 1; }
        if (c == 4) fs::remove(fileName(f)); else fs::install(fileName(f), b);
        LoadArgs a; a.file = f; a.via = s.op == "load" ? LV_FILE : LV_FILEIN;
        Obj target;
        if (s.op == "loadin") { target = Obj(t, (u64)s.get("v") + 5, (int)s.get("z")); a.target = target.p; }
        auto l = load(t, a);
        where += std::string(" (") + describe(l.o) + ")";
        checkLedger(where.c_str());
        if (c != 0) W.nontrivial = true;
        dropResult(t, l);
      }
      // the first attempt after the faults stop succeeds
      W.cur = nullptr; fs::beginStep();
      auto sv = save(t, o.p, SV_FILE, f, 0, 0);
      if (!sv.o.ok()) violation("no-recovery", "saving %s after the faults stopped: %s", t.name, describe(sv.o).c_str());
      checkLedger((std::string("fault-free save after ") + where).c_str());
      LoadArgs a; a.file = f; a.via = LV_FILE;
      auto l = load(t, a);
      if (!l.o.ok() || resultDigest(t, a, l) != o.digest()) violation("no-recovery", "loading %s after the faults stopped: %s", t.name, describe(l.o).c_str());
      checkLedger((std::string("fault-free load after ") + where).c_str());
      dropResult(t, l);
    }
  }
}

// ---------------------------------------------------------------------- C04
void genC04(Plan& p, Rng& r) {
  int n = 1 + (int)r.below(5);
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(10);
    if (k < 6) {
      int ty = r.chance(1, 5) ? pickType(r, 0, TF_BIG) : pickType(r);
      auto& s = p.step("cut");
      // how: 0 uniform position, 1 last bytes, 2 first bytes, 3 page boundary, 4 empty
      s.set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty))).set("how", (i64)r.below(5)).set("at", (i64)r.below(1 << 20)).set("in", (i64)r.below(2));
    } else if (k < 9) {
      int ty = r.chance(1, 2) ? pickType(r, TF_RECURSIVE, TF_BIG) : pickType(r, TF_RECURSIVE);
      auto& s = p.step("torn");
      s.set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty))).set("in", (i64)r.below(2)).set("old", (i64)r.below(3));
      s.fault(S_CRASH, (i64)r.below(10) + 1, (i64)(r.u() >> 1));
    } else {
      int ty = r.chance(1, 2) ? pickType(r, TF_RECURSIVE, TF_BIG) : pickType(r, TF_RECURSIVE);
      auto& s = p.step("torn");
      s.set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty))).set("in", (i64)r.below(2)).set("old", (i64)r.below(3));
      if (config.fallocate && r.chance(1, 2)) s.fault(S_NOSPACE, 1, (i64)r.below(3));
      else sysFault(r, s, true);
    }
  }
}
void runC04(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    auto& t = typeById((int)s.get("t"));
    u64 v = (u64)s.get("v");
    int z = (int)s.get("z");
    Baseline base;
    std::string where;
    {
      Obj o(t, v, z);
      u64 want = o.digest();
      Bytes full = reference(t, o.p);
      std::string name = fileName(0);
      bool mustThrow = false;
      if (s.op == "cut") {
        W.cur = nullptr;
        auto sv = save(t, o.p, SV_FILE, 0, 0, 0);
        if (!sv.o.ok()) violation("save-failed", "saving %s: %s", t.name, describe(sv.o).c_str());
        size_t n = sv.bytes.size(), at = 0;
        switch (s.get("how")) {
          case 0: at = (size_t)s.get("at") % n; break;
          case 1: at = n - 1 - std::min<size_t>(n - 1, (size_t)s.get("at") % 17); break;
          case 2: at = std::min<size_t>(n - 1, (size_t)s.get("at") % 25); break;
          case 3: at = n > 4096 ? 4096 * (1 + (size_t)s.get("at") % ((n - 1) / 4096)) : n - 1; break;
          default: at = 0;
        }
        Bytes b(sv.bytes.begin(), sv.bytes.begin() + at);
        fs::install(name, b);
        where = std::string(t.name) + " cut at byte " + std::to_string(at) + " of " + std::to_string(n);
        shape(0xC07, at * 64 / n);
        stat("cuts");
        W.nontrivial = true;
        mustThrow = true;
      } else {
        // an older, larger or smaller checkpoint may be there already
        if (s.get("old")) {
          Step const* c = W.cur; W.cur = nullptr;
          Obj q(typeById(s.get("old") == 1 ? 106 : 9), v + 3, z);
          save(*q.t, q.p, SV_FILE, 0, 0, 0);
          W.cur = c;
        }
        auto sv = save(t, o.p, SV_FILE, 0, 0, 0);
        if (fs::haveCrashImage()) { fs::takeCrashImage(); stat("torn_files"); }
        else if (sv.o.fired.empty()) { W.cur = nullptr; }
        W.cur = nullptr; fs::beginStep();
        Bytes now;
        bool have = fs::read(name, now);
        // nothing at all, or a beginning of the new checkpoint (an older complete one may legitimately still be there)
        mustThrow = !have || (now.size() < full.size() && std::equal(now.begin(), now.end(), full.begin()));
        where = std::string(t.name) + " from a file of " + std::to_string(now.size()) + " bytes left by an interrupted save of " + std::to_string(full.size()) + " bytes";
      }
      {
        LoadArgs a; a.file = 0; a.via = s.get("in") ? LV_FILEIN : LV_FILE;
        Obj target;
        if (s.get("in")) { target = Obj(t, v + 1, z); a.target = target.p; }
        W.cur = nullptr;
        heap::budget = (6u << 20) + 16 * (u64)full.size();   // a damaged size must not take all memory
        auto l = load(t, a);
        if (mustThrow && l.o.ok()) violation("short-accepted", "loading %s returned an object", where.c_str());
        if (l.o.kind == K_OTHER) violation("wrong-exception", "loading %s threw something that is no std::exception", where.c_str());
        stat(l.o.ok() ? "damaged_load_returned" : "damaged_load_threw");
        dropResult(t, l);
        checkLedger(where.c_str());
      }
      heap::budget = 512u << 20;
      auto sv = save(t, o.p, SV_FILE, 0, 0, 0);
      if (!sv.o.ok()) violation("no-recovery", "saving %s over a damaged file: %s", t.name, describe(sv.o).c_str());
      Rng r(v);
      loadExpect(t, 0, false, want, "after saving over a damaged file", r);
    }
    base.check(("loading " + where).c_str());
  }
}
} // namespace sim
