// C14: polymorphic objects keep their concrete type and every level of their hierarchy.
#include "rt.h"
#include "users.h"

namespace sim {
using namespace app;

// all types whose objects contain virtually serializable classes
static bool polyType(TypeOps const& t) { return (t.flags & TF_POLY) || (t.id >= 130 && t.id <= 139); }
static int pickPoly(Rng& r) {
  for (;;) { auto& t = zoo()[r.below(zoo().size())]; if (polyType(t)) return t.id; }
}

void genC14(Plan& p, Rng& r) {
  int n = 2 + (int)r.below(10);
  for (int i = 0; i < n; i++) {
    int ty = pickPoly(r);
    int what = (int)r.below(8);
    auto& s = p.step(what == 0 ? "size" : what == 1 ? "footprint" : "trip");
    s.set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", (i64)r.below(8)).set("sv", (i64)r.below(SV_N)).set("lv", (i64)r.below(LV_N)).set("chunk", r.chance(1, 2) ? 0 : (i64)r.logu(100));
    if (r.chance(1, 4)) addFaults(r, s, {S_ALLOC, S_CTOR, S_COPY, S_SERIALIZE}, 1);
  }
}

namespace {
void zeroCalls() { memset(levelCalls, 0, sizeof levelCalls); }
// every level has run `k` times its expected number, for one k >= minK
void checkLevels(int mode, u64 const* want, bool exactlyOnce, TypeOps const& t, char const* what) {
  static char const* const mname[] = {"sizing", "packing", "unpacking", "footprinting"};
  u64 k = 0;
  for (int l = 0; l < LEVELS; l++) if (want[l]) { k = levelCalls[mode][l] / want[l]; break; }
  if (exactlyOnce || k == 0) k = 1;
  for (int l = 0; l < LEVELS; l++)
    if (levelCalls[mode][l] != k * want[l])
      violation("level-count", "%s of %s: the serializer of hierarchy level %d ran %llu times while %s, expected %llu", what, t.name, l,
                (unsigned long long)levelCalls[mode][l], mname[mode], (unsigned long long)(k * want[l]));
}
}

// one traversal or round trip of an object
void stepC14(Plan const& p, size_t i) {
  do {
    auto& s = p.steps[i];
    auto& t = typeById((int)s.get("t"));
    int z = (int)s.get("z");
    Obj o(t, (u64)s.get("v"), z);
    memset(levelWant, 0, sizeof levelWant);
    u64 want = o.digest();
    u64 lv[LEVELS];
    memcpy(lv, levelWant, sizeof lv);
    for (int l = 0; l < LEVELS; l++) if (lv[l]) { shape(0xC1400 + (u64)l, lv[l]); W.nontrivial = true; }
    shape(0xC14, (u64)t.id);
    zeroCalls();
    if (s.op == "size" || s.op == "footprint") {
      size_t n = 0;
      auto out = attempt([&] { n = s.op == "size" ? t.getSize(o.p) : t.footprint(o.p); });
      if (!out.ok() && !explained(out)) violation("size-failed", "%s of %s: %s", s.op.c_str(), t.name, describe(out).c_str());
      if (out.ok()) checkLevels(s.op == "size" ? 0 : 3, lv, false, t, s.op.c_str());
      if (o.digest() != want) violation("object-changed", "%s of %s changed it", s.op.c_str(), t.name);
      stat("traversals_counted");
      continue;
    }
    int sv = (int)s.get("sv"), lvia = (int)s.get("lv");
    auto r = save(t, o.p, sv, 0, (u64)i, (size_t)s.get("chunk"));
    if (o.digest() != want) violation("object-changed", "saving %s via %s changed it", t.name, save_name[sv]);
    if (!r.o.ok()) {
      if (!explained(r.o)) violation("save-failed", "saving %s via %s: %s", t.name, save_name[sv], describe(r.o).c_str());
      // without the fault everything works
      W.cur = nullptr; fs::beginStep();
      zeroCalls();
      r = save(t, o.p, sv, 0, (u64)i, (size_t)s.get("chunk"));
      if (!r.o.ok()) violation("save-failed", "saving %s via %s after the faults stopped: %s", t.name, save_name[sv], describe(r.o).c_str());
    }
    checkLevels(1, lv, true, t, save_name[sv]);
    checkLevels(0, lv, false, t, save_name[sv]);
    for (int again = 0; again < 2; again++) {
      LoadArgs a; a.via = lvia; a.bytes = &r.bytes; a.streamSeed = (u64)i; a.chunk = (size_t)s.get("chunk"); a.file = 1;
      if (loadFile(lvia)) fs::install(fileName(1), r.bytes);
      Obj target;
      if (loadInPlace(lvia)) { target = Obj(t, (u64)s.get("v") + 1, z); a.target = target.p; }
      zeroCalls();
      auto l = load(t, a);
      if (!l.o.ok()) {
        if (!explained(l.o) || again) violation("load-failed", "loading %s via %s: %s", t.name, load_name[lvia], describe(l.o).c_str());
        W.cur = nullptr; fs::beginStep();
        continue;
      }
      checkLevels(2, lv, true, t, load_name[lvia]);
      if (resultDigest(t, a, l) != want) violation("differs", "%s saved via %s and loaded via %s has another dynamic type or state", t.name, save_name[sv], load_name[lvia]);
      // what came back can be saved again, with the same bytes
      if (!loadInPlace(lvia) && !l.placed) {
        Bytes b = reference(t, l.fresh.p);
        if (b != r.bytes && t.id != 0) violation("bytes-differ", "%s loaded via %s saves to other bytes than the original", t.name, load_name[lvia]);
      }
      dropResult(t, l);
      stat("polymorphic_round_trips");
      break;
    }
  } while (false);
}

void runC14(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    stepC14(p, i);
  }
}
} // namespace sim
