// C10-C12, C15, C16: loading.
#include "rt.h"
#include "fam.h"
#include "users.h"
#include <sys/mman.h>

namespace sim {

static std::vector<int> const READ_SYS = {S_OPEN, S_FSTAT, S_MMAP, S_MUNMAP, S_CLOSE};
static void loadFault(Rng& r, Step& s, int via) {
  int w = (int)r.below(10);
  if (w < 4) s.fault(S_ALLOC, (i64)r.logu(100), 0);
  else if (w < 8) { int sites[] = {S_CTOR, S_COPY, S_SERIALIZE}; s.fault(sites[r.below(3)], (i64)r.logu(16), 0); }
  else if (loadFile(via)) { int site = READ_SYS[r.below(READ_SYS.size())]; s.fault(site, 1, pickErrno(r, site)); }
  else if (loadStream(via)) s.fault(r.chance(1, 2) ? S_STREAM_EOF : r.chance(1, 2) ? S_STREAM_ERR : S_STREAM_THROW, 1, (i64)r.logu(600) - 1);
  else s.fault(S_ALLOC, (i64)r.logu(8), 0);
}

// ---------------------------------------------------------------------- C10
void genC10(Plan& p, Rng& r) {
  int n = 1 + (int)r.below(5);
  for (int i = 0; i < n; i++) {
    int ty = r.chance(3, 5) ? pickType(r, 0, TF_PROBE) : pickType(r);
    int via = (int)r.below(LV_N);
    auto& s = p.step("load");
    s.set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty))).set("via", via);
    s.set("chunk", r.chance(1, 3) ? 0 : (i64)r.logu(100)).set("mis", (i64)r.below(16)).set("ex", r.chance(1, 5) ? (i64)r.below(8) : 0);
    // source: 0 right, 1 cut, 2 another type
    int c = r.chance(2, 3) ? 0 : 1 + (int)r.below(2);
    if (c == 1 && loadMem(via)) c = 0;
    s.set("content", c).set("cut", (i64)r.below(1 << 16));
    if (c == 0 || r.chance(1, 4)) { loadFault(r, s, via); if (r.chance(1, 6)) loadFault(r, s, via); }
  }
}
void runC10(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    auto& t = typeById((int)s.get("t"));
    u64 v = (u64)s.get("v"); int z = (int)s.get("z");
    int via = (int)s.get("via"), c = (int)s.get("content");
    Step const* cur = W.cur; W.cur = nullptr;
    Obj o(t, v, z);
    u64 want = o.digest();
    Bytes good = reference(t, o.p), src = good;
    if (c == 1) src.resize((size_t)s.get("cut") % good.size());
    if (c == 2) { auto& q = typeById(t.id == 9 ? 20 : 9); Obj x(q, v, 3); src = reference(q, x.p); }
    W.cur = cur;
    std::string what = std::string("load of ") + t.name + " via " + load_name[via];
    Baseline base;
    {
      if (loadFile(via)) fs::install(fileName(0), src);
      LoadArgs a; a.via = via; a.bytes = &src; a.mis = (size_t)s.get("mis"); a.streamSeed = v; a.chunk = (size_t)s.get("chunk"); a.exmask = (int)s.get("ex");
      Obj target;
      if (loadInPlace(via)) { target = Obj(t, v + 9, z); a.target = target.p; }
      auto l = load(t, a);
      what += c == 1 ? ", source cut" : c == 2 ? ", source of another type" : "";
      what += " (" + describe(l.o) + ")";
      if (l.o.ok()) {
        if (c != 0) violation("bad-accepted", "%s returned an object", what.c_str());
        if (resultDigest(t, a, l) != want) violation("differs", "%s returned a different object", what.c_str());
      } else {
        stat("failed_loads");
        bool expl = explained(l.o);
        if (c == 1) expl = expl || l.o.kind == K_RUNTIME || l.o.kind == K_IOS || (src.empty() && l.o.kind == K_RUNTIME);
        if (c == 2) expl = expl || l.o.kind == K_SER;
        if (!expl) violation("wrong-exception", "%s", what.c_str());
        if (c != 0) W.nontrivial = true;
      }
      if (l.mem.raw && !l.mem.guardsIntact()) violation("overrun", "%s wrote outside of the caller's memory", what.c_str());
      // memory of the caller is still the caller's: this faults if the library released it
      if (l.mem.raw && !l.placed) memset(l.mem.p, 0x3C, l.mem.n);
      dropResult(t, l);
      if (!loadInPlace(via)) base.check(what.c_str());
      // the same load succeeds once the fault is gone
      W.cur = nullptr; fs::beginStep();
      if (loadFile(via)) fs::install(fileName(0), good);
      a.bytes = &good; a.exmask = 0;
      auto l2 = load(t, a);
      if (!l2.o.ok()) violation("no-recovery", "retry after %s: %s", what.c_str(), describe(l2.o).c_str());
      if (resultDigest(t, a, l2) != want) violation("differs", "retry after %s returned a different object", what.c_str());
      dropResult(t, l2);
    }
    base.check(what.c_str());
  }
}

// ---------------------------------------------------------------------- C11
void genC11(Plan& p, Rng& r) {
  int ty = r.chance(1, 2) ? pickType(r, TF_SCALAR) : pickType(r, TF_SCALAR, TF_PROBE);
  auto& t = typeById(ty);
  bool fixed = (t.flags & TF_POLY) != 0;
  int z0 = (int)r.below(7);
  p.setKnob("t", ty);
  p.setKnob("z", z0);
  p.setKnob("v", (i64)(r.u() >> 1));
  int n = 3 + (int)r.below(12), slots = 1 + (int)r.below(4);
  auto z = [&] { return fixed ? (i64)z0 : (i64)pickSize(r, t); };
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(10);
    if (k < 3) p.step("modify").set("v", (i64)(r.u() >> 1)).set("z", z());
    else if (k < 5) p.step("checkpoint").set("slot", (i64)r.below(slots)).set("via", (i64)r.below(3));
    else if (k < 8) p.step("rollback").set("slot", (i64)r.below(slots)).set("chunk", (i64)r.below(40));
    else {
      auto& s = p.step("rollback").set("slot", (i64)r.below(slots)).set("chunk", (i64)r.below(40));
      int vias[] = {LV_IN, LV_FILEIN, LV_STREAMIN};
      loadFault(r, s, vias[r.below(3)]);
      if (r.chance(1, 2)) p.step("rollback").set("slot", (i64)r.below(slots)).set("chunk", 7);
    }
  }
  p.step("rollback").set("slot", (i64)r.below(slots)).set("chunk", 3);
}
void runC11(Plan const& p) {
  auto& t = typeById((int)p.knob("t"));
  int z = (int)p.knob("z");
  struct Slot { bool have = false; int via = 0; Bytes b; u64 want = 0; };
  std::map<int, Slot> slots;
  Baseline base;
  {
    Obj target(t, (u64)p.knob("v"), z);
    bool known = true;       // the target holds a definite value
    u64 state = target.digest();
    for (size_t i = 0; i < p.steps.size(); i++) {
      beginStep(p, i);
      auto& s = p.steps[i];
      int slot = (int)s.get("slot");
      if (s.op == "modify") {
        target.assign((u64)s.get("v"), (int)s.get("z", z));
        state = target.digest(); known = true;
      } else if (s.op == "checkpoint") {
        if (!known) continue;
        Slot& c = slots[slot];
        c.via = (int)s.get("via"); c.want = state; c.have = true;
        auto r = save(t, target.p, c.via == 0 ? SV_LIB : c.via == 1 ? SV_FILE : SV_STREAM, slot, 5, 13);
        if (!r.o.ok()) violation("save-failed", "saving %s: %s", t.name, describe(r.o).c_str());
        c.b = r.bytes;
        if (target.digest() != state) violation("object-changed", "saving %s changed it", t.name);
      } else if (s.op == "rollback") {
        auto it = slots.find(slot);
        if (it == slots.end() || !it->second.have) continue;
        Slot& c = it->second;
        LoadArgs a; a.via = c.via == 0 ? LV_IN : c.via == 1 ? LV_FILEIN : LV_STREAMIN;
        a.file = slot; a.bytes = &c.b; a.target = target.p; a.chunk = (size_t)s.get("chunk"); a.streamSeed = (u64)i;
        auto l = load(t, a);
        if (l.o.ok()) {
          if (target.digest() != c.want) violation("differs", "rolling %s back via %s does not restore the saved state%s", t.name, load_name[a.via], known ? "" : " (after an earlier failed rollback)");
          state = c.want; known = true;
          stat("rollbacks"); W.nontrivial = true;
        } else {
          if (l.o.fired.empty()) violation("load-failed", "rolling %s back via %s: %s", t.name, load_name[a.via], describe(l.o).c_str());
          if (!explained(l.o)) violation("wrong-exception", "rolling %s back via %s: %s", t.name, load_name[a.via], describe(l.o).c_str());
          known = false;
          stat("failed_rollbacks");
        }
      }
    }
  }
  slots.clear();
  base.check((std::string("history of rollbacks of ") + t.name).c_str());
}

// ---------------------------------------------------------------------- C12
void genC12(Plan& p, Rng& r) {
  int n = 2 + (int)r.below(6);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 3)) {      // types of the same layout
      int x = (int)r.below(FAMALL), y = r.chance(1, 3) ? (int)r.below(FAMALL) : x < FAM ? (x + FAM / 2) % FAM : FAM + (x - FAM + TWINS) % (2 * TWINS);
      p.step("fam").set("t", x).set("as", y).set("v", (i64)(r.u() >> 1)).set("via", (i64)r.below(3));
      continue;
    }
    if (r.chance(1, 4)) {      // the members of an object were saved as something else
      u64 from = r.chance(1, 4) ? 0 : r.u() >> 1, to = r.chance(1, 4) ? 0 : r.u() >> 1;
      p.step("version").set("t", r.chance(1, 3) ? 192 : 193).set("from", (i64)from).set("to", (i64)to).set("v", (i64)(r.u() >> 1)).set("z", (i64)r.below(7))
        .set("z2", (i64)r.below(5)).set("via", (i64)r.below(LV_N)).set("save", (i64)r.below(SV_N)).set("mis", (i64)r.below(16)).set("chunk", r.chance(1, 3) ? 0 : (i64)r.logu(60));
      continue;
    }
    int a = pickType(r), b = pickType(r);
    auto& s = p.step("load");
    s.set("t", a).set("as", b).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(a))).set("z2", (i64)r.below(6)).set("via", (i64)r.below(LV_N));
    s.set("kind", r.chance(3, 5) ? 0 : 1 + (i64)r.below(3)).set("mis", (i64)r.below(16)).set("chunk", r.chance(1, 3) ? 0 : (i64)r.logu(60)).set("save", (i64)r.below(SV_N));
  }
}
static void famStep(Step const& s) {
  size_t x = (size_t)s.get("t") % FAMALL, y = (size_t)s.get("as") % FAMALL;
  u64 v = (u64)s.get("v");
  int via = (int)s.get("via");
  if (x == y) return;
  W.nontrivial = true;
  auto bytesOf = [&](size_t k) {
    checkpoint::SerializedReturnType ret;
    auto o = attempt([&] { ret = fam()[k].ser(v); }, false);
    if (!o.ok()) violation("save-failed", "saving same-layout type %zu: %s", k, describe(o).c_str());
    return Bytes((u8*)ret->getBuffer(), (u8*)ret->getBuffer() + ret->getSize());
  };
  Bytes src = bytesOf(x), good = bytesOf(y);
  u64 after = 0;
  auto loadIt = [&](Bytes const& b) {
    after = famDigest(v + 9);
    if (via == 2) fs::install(fileName(0), b);
    Block m(b, 16, v % 16);
    shape(0xFA3, x * 1000 + y);
    return attempt([&] {
      if (via == 0) fam()[y].load(m.c(), &after);
      else if (via == 1) fam()[y].loadIn(m.c(), v + 9, &after);
      else fam()[y].fileIn(fileName(0), v + 9, &after);
    });
  };
  auto o = loadIt(src);
  if (o.ok()) violation("wrong-type-accepted", "data of same-layout type %zu was loaded as type %zu", x, y);
  if (o.kind != K_SER) violation("wrong-exception", "data of same-layout type %zu loaded as type %zu: %s", x, y, describe(o).c_str());
  if (after != famDigest(v + 9)) violation("target-touched", "data of same-layout type %zu loaded as type %zu changed the target", x, y);
  o = loadIt(good);
  if (!o.ok() || after != famDigest(v)) violation("no-recovery", "right data of same-layout type %zu: %s", y, describe(o).c_str());
  stat("refused");
}
// The member types of a record differ between the versions that save and load it. With error
// checking on, every member is identified, however deep it sits.
static void versionStep([[maybe_unused]] Step const& s) {
#ifdef SERIALIZATION_ERROR_CHECKING
  u64 from = (u64)s.get("from"), to = (u64)s.get("to"), v = (u64)s.get("v");
  if (app::sameLayout(from, to)) return;
  struct Restore { ~Restore() { app::g_version = 0; } } restore;
  auto& t = typeById((int)s.get("t"));
  int via = (int)s.get("via"), how = (int)s.get("save");
  W.nontrivial = true;
  Baseline base;
  std::string what = std::string(t.name) + " of another version via " + load_name[via];
  {
    Obj o(t, v, (int)s.get("z"));
    app::g_version = from;
    auto r = save(t, o.p, how, 1, v, 16);
    if (!r.o.ok()) violation("save-failed", "%s: %s", t.name, describe(r.o).c_str());
    app::g_version = to;
    Bytes good = reference(t, o.p);
    u64 want = o.digest();
    shape(0xC12E, from * 31 + to);
    if (loadFile(via)) fs::install(fileName(0), r.bytes);
    LoadArgs a; a.via = via; a.bytes = &r.bytes; a.mis = (size_t)s.get("mis"); a.chunk = (size_t)s.get("chunk"); a.streamSeed = v;
    Obj target;
    if (loadInPlace(via)) { target = Obj(t, v + 4, (int)s.get("z2")); a.target = target.p; }
    auto l = load(t, a);
    if (l.o.ok()) violation("wrong-member-accepted", "%s returned", what.c_str());
    if (l.o.kind != K_SER) violation("wrong-exception", "%s: %s", what.c_str(), describe(l.o).c_str());
    if (l.mem.raw && !l.mem.guardsIntact()) violation("overrun", "%s wrote outside of the caller's memory", what.c_str());
    dropResult(t, l);
    if (loadFile(via)) fs::install(fileName(0), good);
    a.bytes = &good;
    auto l2 = load(t, a);
    if (!l2.o.ok() || resultDigest(t, a, l2) != want) violation("no-recovery", "after %s, loading the right data: %s", what.c_str(), describe(l2.o).c_str());
    dropResult(t, l2);
    stat("versions_refused");
  }
  base.check(what.c_str());
#endif
}
void runC12(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    if (s.op == "version") { versionStep(s); continue; }
    if (s.op == "fam") { Baseline b; famStep(s); b.check("same-layout types"); continue; }
    auto& ta = typeById((int)s.get("t"));
    auto& tb = typeById((int)s.get("as"));
    u64 v = (u64)s.get("v");
    int kind = (int)s.get("kind"), via = (int)s.get("via");
    if (kind == 0 && ta.id == tb.id) continue;
    W.nontrivial = true;
    Baseline base;
    std::string what;
    {
      Obj oa(ta, v, (int)s.get("z")), ob(tb, v + 2, (int)s.get("z2"));
      Bytes src, good = reference(tb, ob.p);
      if (kind == 0) { auto r = save(ta, oa.p, (int)s.get("save"), 1, v, 16); src = r.bytes; }
      else {
        Rng r(v);
        src.resize(64 + good.size());
        for (auto& x : src) x = (u8)r.u();
        if (kind == 2) { src[0] = 0xAD; src[1] = (u8)(0xF0 + r.below(16)); src[2] = 0xFF; src[3] = 0xDE; }   // looks like a type tag, but none of this program
        else if (kind == 3) { memcpy(&src[0], &good[0], std::min<size_t>(good.size(), 64)); src[3] ^= (u8)(1 + r.below(255)); }
        else if (src[0] == 0xAD) src[0] = 0;
      }
      what = std::string(kind ? "garbage" : ta.name) + " loaded as " + tb.name + " via " + load_name[via];
      shape(0xC12, (u64)kind * 1000 + (u64)tb.id);
      if (loadFile(via)) fs::install(fileName(0), src);
      LoadArgs a; a.via = via; a.bytes = &src; a.mis = (size_t)s.get("mis"); a.chunk = (size_t)s.get("chunk"); a.streamSeed = v;
      Obj target;
      u64 before = 0;
      if (loadInPlace(via)) { target = Obj(tb, v + 4, (int)s.get("z2")); a.target = target.p; before = target.digest(); }
      auto l = load(tb, a);
      if (l.o.ok()) violation("wrong-type-accepted", "%s returned", what.c_str());
      if (l.o.kind != K_SER) violation("wrong-exception", "%s: %s", what.c_str(), describe(l.o).c_str());
      if (loadInPlace(via) && target.digest() != before) violation("target-touched", "%s changed the target", what.c_str());
      if (l.mem.raw && !l.mem.guardsIntact()) violation("overrun", "%s wrote outside of the caller's memory", what.c_str());
      dropResult(tb, l);
      if (loadFile(via)) fs::install(fileName(0), good);
      a.bytes = &good;
      auto l2 = load(tb, a);
      if (!l2.o.ok() || resultDigest(tb, a, l2) != ob.digest()) violation("no-recovery", "after %s, loading the right data: %s", what.c_str(), describe(l2.o).c_str());
      dropResult(tb, l2);
      stat("refused");
    }
    base.check(what.c_str());
  }
}

// ---------------------------------------------------------------------- C15
void genC15(Plan& p, Rng& r) {
  int n = 4 + (int)r.below(20), sent = 0;
  for (int i = 0; i < n; i++) {
    int k = (int)r.below(12);
    if (k < 3 || !sent) {
      int ty = pickType(r, TF_SCALAR);
      p.step("send").set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty))).set("via", (i64)r.below(SV_N));
      sent++;
    } else if (k < 8) p.step("deliver").set("msg", (i64)r.below(sent)).set("via", (i64)r.below(LV_N)).set("mis", (i64)r.below(16)).set("chunk", (i64)r.below(50)).set("direct", r.chance(1, 2) ? 1 : 0);
    else if (k < 9 && r.chance(1, 3)) p.step("drop_buffer").set("msg", (i64)r.below(sent));
    else if (k < 9) p.step("mutate_sender").set("msg", (i64)r.below(sent)).set("v", (i64)(r.u() >> 1));
    else if (k < 10) p.step("drop_sender").set("msg", (i64)r.below(sent));
    else if (k < 11) p.step("mutate_copy").set("i", (i64)r.below(1 << 20)).set("v", (i64)(r.u() >> 1));
    else p.step("drop_copy").set("i", (i64)r.below(1 << 20));
  }
}
void runC15(Plan const& p) {
  struct Msg { TypeOps const* t; Bytes b, orig; u64 want; int z; Obj sender; KeptBuffer kept; };
  struct Copy { int msg; Obj o; Block mem; bool placed; u64 want; };
  Baseline base;
  {
    std::vector<Msg> msgs;
    std::vector<Copy> copies;
    auto verify = [&](char const* after) {
      for (auto& c : copies) {
        u64 d = c.placed ? msgs[(size_t)c.msg].t->digest(c.mem.p) : c.o.digest();
        if (d != c.want) violation("shared-state", "a delivered %s changed after %s", msgs[(size_t)c.msg].t->name, after);
      }
      for (auto& m : msgs) {
        if (m.b != m.orig) violation("source-modified", "the bytes of a message changed after %s", after);
        if (!m.kept.ret) continue;
        if (m.kept.ret->getSize() != m.orig.size() || memcmp(m.kept.ret->getBuffer(), m.orig.data(), m.orig.size())) violation("buffer-changed", "the buffer returned by saving %s changed after %s", m.t->name, after);
        if (m.kept.mem.raw && !m.kept.mem.guardsIntact()) violation("overrun", "memory next to the caller's buffer of %s changed after %s", m.t->name, after);
      }
    };
    auto dropCopy = [&](Copy& c) {
      if (c.placed) { msgs[(size_t)c.msg].t->destruct(c.mem.p); c.placed = false; }
      c.o.drop();
    };
    for (size_t i = 0; i < p.steps.size(); i++) {
      beginStep(p, i);
      auto& s = p.steps[i];
      size_t mi = (size_t)s.get("msg");
      if (s.op == "send") {
        auto& t = typeById((int)s.get("t"));
        Obj o(t, (u64)s.get("v"), (int)s.get("z"));
        u64 w = o.digest();
        KeptBuffer kept;
        auto r = save(t, o.p, (int)s.get("via"), (int)msgs.size() + 10, (u64)i, 32, &kept);
        if (!r.o.ok()) violation("save-failed", "saving %s: %s", t.name, describe(r.o).c_str());
        msgs.push_back(Msg{&t, r.bytes, r.bytes, w, (int)s.get("z"), std::move(o), std::move(kept)});
        verify("another message was saved");
      } else if (s.op == "deliver" && mi < msgs.size()) {
        Msg& m = msgs[mi];
        LoadArgs a; a.via = (int)s.get("via"); a.bytes = &m.b; a.mis = (size_t)s.get("mis"); a.chunk = (size_t)s.get("chunk"); a.streamSeed = (u64)i; a.file = 30;
        if (s.get("direct") && loadMem(a.via) && m.kept.ret) { a.kept = &m.kept; stat("direct_deliveries"); }
        if (loadFile(a.via)) fs::install(fileName(30), m.b);
        Obj target;
        if (loadInPlace(a.via)) { target = Obj(*m.t, (u64)i * 77, m.z); a.target = target.p; }
        auto l = load(*m.t, a);
        if (!l.o.ok()) violation("load-failed", "delivery of %s via %s: %s", m.t->name, load_name[a.via], describe(l.o).c_str());
        if (resultDigest(*m.t, a, l) != m.want) violation("differs", "a delivery of %s via %s differs from what was sent", m.t->name, load_name[a.via]);
        Copy c{(int)mi, loadInPlace(a.via) ? std::move(target) : std::move(l.fresh), std::move(l.mem), l.placed, m.want};
        copies.push_back(std::move(c));
        // what it was loaded from is gone already: buffer freed, stream closed
        if (loadFile(a.via)) { Bytes junk(m.b.size() + 10, 0xEE); fs::install(fileName(30), junk); }
        stat("deliveries");
        W.nontrivial = true;
        verify("its buffer was released");
      } else if (s.op == "mutate_sender" && mi < msgs.size() && msgs[mi].sender.p) {
        msgs[mi].sender.assign((u64)s.get("v"), msgs[mi].z);
        verify("the sender changed its object");
      } else if (s.op == "drop_sender" && mi < msgs.size()) {
        msgs[mi].sender.drop();
        verify("the sender destroyed its object");
      } else if (s.op == "drop_buffer" && mi < msgs.size() && msgs[mi].kept.ret) {
        msgs[mi].kept.drop();
        verify("the buffer of a message was destroyed");
      } else if (s.op == "mutate_copy" && !copies.empty()) {
        Copy& c = copies[(size_t)s.get("i") % copies.size()];
        auto& m = msgs[(size_t)c.msg];
        void* q = c.placed ? (void*)c.mem.p : c.o.p;
        m.t->destruct(q);
        m.t->emplace(q, (u64)s.get("v"), m.z);
        c.want = m.t->digest(q);
        verify("another delivered copy was changed");
      } else if (s.op == "drop_copy" && !copies.empty()) {
        size_t k = (size_t)s.get("i") % copies.size();
        dropCopy(copies[k]);
        copies.erase(copies.begin() + (i64)k);
        verify("another delivered copy was destroyed");
      }
    }
    for (auto& c : copies) dropCopy(c);
    for (auto& m : msgs) m.kept.drop();
  }
  base.check("sending and delivering messages");
}

// ---------------------------------------------------------------------- C16
namespace {
// write-protected memory
struct Protected {
  static constexpr size_t CAP = 64u << 20;
  u8* base; u8* p; size_t n;
  static u8* arena() {
    static u8* a = (u8*)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return a;
  }
  Protected(Bytes const& b, size_t mis) {
    base = arena();
    if (b.size() + 64 > CAP) harnessError("object too large for the protected arena");
    mprotect(base, CAP, PROT_READ | PROT_WRITE);
    p = base + mis; n = b.size();
    memcpy(p, b.data(), n);
    mprotect(base, CAP, PROT_READ);
  }
  ~Protected() { mprotect(base, CAP, PROT_READ | PROT_WRITE); }
};
struct ConstBuf : std::streambuf {
  ConstBuf(u8 const* b, size_t n) { char* c = (char*)const_cast<u8*>(b); setg(c, c, c + n); }
};
}
void genC16(Plan& p, Rng& r) {
  int ty = r.chance(1, 2) ? pickType(r, TF_SCALAR) : pickType(r, 0, TF_PROBE);
  p.setKnob("t", ty); p.setKnob("v", (i64)(r.u() >> 1)); p.setKnob("z", pickSize(r, typeById(ty))); p.setKnob("mis", (i64)r.below(16));
  int n = 2 + (int)r.below(7);
  for (int i = 0; i < n; i++) {
    int via = (int)r.below(LV_N);
    auto& s = p.step("load").set("via", via).set("wrong", r.chance(1, 5) ? 1 : 0);
    if (r.chance(1, 3)) loadFault(r, s, via);
  }
}
void runC16(Plan const& p) {
  auto& t = typeById((int)p.knob("t"));
  int z = (int)p.knob("z");
  Obj o(t, (u64)p.knob("v"), z);
  u64 want = o.digest();
  Bytes src = reference(t, o.p);
  auto& q = typeById(t.id == 9 ? 20 : 9);
  Protected prot(src, (size_t)p.knob("mis"));
  fs::install(fileName(1), src);
  fs::readOnly = true;
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    int via = (int)s.get("via");
    bool wrong = s.get("wrong") != 0;
    auto& lt = wrong ? q : t;
    shape(0xC16 + (u64)wrong, (u64)via * 1000 + (u64)t.id);
    W.nontrivial = true;
    Obj target, fresh; Block mem(lt.size, lt.align);
    if (loadInPlace(via)) target = Obj(lt, (u64)i + 3, z);
    void* res = nullptr;
    bool placed = false;
    struct Holder : checkpoint::SerializedInfo {
      char* b; size_t n;
      Holder(u8* x, size_t m) : b((char*)x), n(m) {}
      checkpoint::SerialByteType* getBuffer() const override { return b; }
      checkpoint::SerialSizeType getSize() const override { return n; }
    };
    checkpoint::SerializedReturnType ret(new Holder(prot.p, prot.n));
    ConstBuf sb(prot.p, prot.n);
    StreamFor sf(&sb, i & 1);
    auto& is = *sf.s;
    std::string f = fileName(1);
    auto out = attempt([&] {
      switch (via) {
        case LV_BUF: res = lt.deser((char*)prot.p); break;
        case LV_OBJ: lt.deserObj((char*)prot.p, mem.c()); placed = true; break;
        case LV_RET: res = lt.deserRet(std::move(ret)); break;
        case LV_IN: lt.deserIn((char*)prot.p, target.p); break;
        case LV_FILE: res = lt.fromFile(f); break;
        case LV_FILEIN: lt.fromFileIn(f, target.p); break;
        case LV_STREAM: res = lt.fromStream(is); break;
        default: lt.fromStreamIn(is, target.p); break;
      }
    });
    if (res) fresh = Obj(lt, res);
    if (wrong && out.ok()) violation("wrong-type-accepted", "%s loaded as %s", t.name, lt.name);
    if (!wrong) {
      if (!out.ok() && out.fired.empty()) violation("load-failed", "loading %s from a read-only source via %s: %s", t.name, load_name[via], describe(out).c_str());
      if (out.ok()) {
        u64 d = loadInPlace(via) ? target.digest() : placed ? lt.digest(mem.p) : fresh.digest();
        if (d != want) violation("differs", "load %zu of %s from the same source via %s differs", i, t.name, load_name[via]);
        stat("read_only_loads");
      }
    }
    if (placed) lt.destruct(mem.p);
    if (memcmp(prot.p, src.data(), src.size())) violation("source-modified", "loading %s via %s changed the source", t.name, load_name[via]);
    Bytes now;
    if (!fs::read(f, now) || now != src) violation("source-modified", "loading %s via %s changed the file", t.name, load_name[via]);
  }
  fs::readOnly = false;
}
} // namespace sim
