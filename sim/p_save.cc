// C07-C09: what saving produces, objects changing while they are saved, failing saves.
#include "rt.h"
#include "users.h"

namespace sim {

// ---------------------------------------------------------------------- C07
void genC07(Plan& p, Rng& r) {
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) {
    int ty = r.chance(1, 8) ? pickType(r, 0, TF_BIG) : pickType(r);
    i64 v = (i64)(r.u() >> 1); int z = pickSize(r, typeById(ty));
    int m = 2 + (int)r.below(6);
    for (int j = 0; j < m; j++)
      p.step("save").set("t", ty).set("v", v).set("z", z).set("via", (i64)r.below(SV_N)).set("seed", (i64)(r.u() >> 1))
        .set("chunk", r.chance(1, 3) ? 0 : (i64)r.logu(200)).set("old", (i64)r.below(4)).set("garbage", (i64)r.below(256)).set("pre", (i64)r.below(30));
  }
}
void runC07(Plan const& p) {
  int curT = -1; i64 curV = 0, curZ = 0;
  Obj o; Bytes first; size_t reported = 0; std::string firstVia;
  u64 digest = 0;
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    auto& t = typeById((int)s.get("t"));
    W.garbage = (u8)s.get("garbage");
    bool fresh = curT != t.id || curV != s.get("v") || curZ != s.get("z");
    if (fresh) {
      curT = t.id; curV = s.get("v"); curZ = s.get("z");
      o = Obj(t, (u64)curV, (int)curZ);
      digest = o.digest();
      auto so = attempt([&] { reported = t.getSize(o.p); });
      if (!so.ok()) violation("size-failed", "sizing %s: %s", t.name, describe(so).c_str());
    }
    int via = (int)s.get("via");
    Bytes got;
    if (via == SV_FILE && s.get("old")) {
      Rng r((u64)s.get("seed"));
      Bytes old(s.get("old") == 1 ? reported : s.get("old") == 2 ? reported * 3 + 5000 : reported / 2 + 1);
      for (auto& b : old) b = (u8)r.u();
      fs::install(fileName((int)i % 2), old);
    }
    if (via == SV_STREAM && s.get("pre")) {
      // the stream already carries something
      SimStreambuf sb((u64)s.get("seed"), (size_t)s.get("chunk"), false);
      StreamFor sf(&sb, o.digest() & 1);
      auto& os = *sf.s;
      std::string pre((size_t)s.get("pre"), 'p');
      os.write(pre.data(), (std::streamsize)pre.size());
      shape(0x5A0E00 + (u64)via, (u64)t.id);
      auto so = attempt([&] { t.toStream(o.p, os); os.flush(); });
      if (!so.ok() || !os.good()) violation("save-failed", "saving %s to a stream: %s", t.name, describe(so).c_str());
      if (sb.data.size() < pre.size() || memcmp(sb.data.data(), pre.data(), pre.size())) violation("overrun", "saving %s changed what the stream held before", t.name);
      got.assign(sb.data.begin() + (i64)pre.size(), sb.data.end());
    } else {
      auto r = save(t, o.p, via, (int)i % 2, (u64)s.get("seed"), (size_t)s.get("chunk"));
      if (!r.o.ok()) violation("save-failed", "saving %s via %s: %s", t.name, save_name[via], describe(r.o).c_str());
      if (via == SV_STREAM && !r.streamGood) violation("save-failed", "saving %s left a healthy stream in a failed state", t.name);
      if (via == SV_USER || via == SV_NULLCB) {
        if (r.callbacks != 1) violation("callback-count", "saving %s invoked the allocation callback %d times", t.name, r.callbacks);
        if (r.announced != reported) violation("size-mismatch", "the callback for %s was asked for %zu bytes, reported size is %zu", t.name, r.announced, reported);
      }
      if (!r.reportedOk) violation("size-mismatch", "the returned buffer of %s reports another size than the callback was asked for", t.name);
      got = r.bytes;
    }
    if (got.size() != reported) violation("size-mismatch", "%s via %s carries %zu bytes, reported size is %zu", t.name, save_name[via], got.size(), reported);
    if (firstVia.empty() || fresh) { first = got; firstVia = save_name[via]; }
    else {
      W.nontrivial = true;
      for (size_t k = 0; k < got.size(); k++)
        if (got[k] != first[k]) violation("bytes-differ", "%s: byte %zu of %zu is %02x via %s but %02x via %s", t.name, k, got.size(), got[k], save_name[via], first[k], firstVia.c_str());
    }
    if (o.digest() != digest) violation("object-changed", "saving %s via %s changed it", t.name, save_name[via]);
    stat("transports_compared");
    // and they really are the object
    if (s.get("pre") % 5 == 0) {
      LoadArgs a; a.via = LV_BUF; a.bytes = &got;
      auto l = load(t, a);
      if (!l.o.ok() || resultDigest(t, a, l) != digest) violation("differs", "the bytes of %s via %s do not load back: %s", t.name, save_name[via], describe(l.o).c_str());
      dropResult(t, l);
    }
  }
}

// ---------------------------------------------------------------------- C08
} // namespace sim
namespace app {
// An object with yield points between its members: other tasks may run there.
struct Shared {
  Probe y0; std::vector<u64> v; Probe y1; std::string s; Probe y2; std::map<int, std::string> m; Probe y3;
  std::list<std::string> l; Probe y4; std::optional<std::string> o; Probe y5; std::unique_ptr<std::vector<int>> p; Probe y6;
  std::vector<Intr> w; Probe y7;
  static constexpr int MEMBERS = 7;
  template <typename S> void serialize(S& x) { x | y0 | v | y1 | s | y2 | m | y3 | l | y4 | o | y5 | p | y6 | w | y7; }
};
} // namespace app
namespace sim {
template <> struct V<app::Shared> {
  static app::Shared make(Gen& g) {
    app::Shared x;
    x.v = sim::make<std::vector<u64>>(g); x.s = sim::make<std::string>(g); x.m = sim::make<std::map<int, std::string>>(g);
    x.l = sim::make<std::list<std::string>>(g); x.o = sim::make<std::optional<std::string>>(g);
    x.p = sim::make<std::unique_ptr<std::vector<int>>>(g); x.w = sim::make<std::vector<app::Intr>>(g);
    return x;
  }
  static void dig(Dig& d, app::Shared const& x) {
    sim::dig(d, x.v); sim::dig(d, x.s); sim::dig(d, x.m); sim::dig(d, x.l); sim::dig(d, x.o); sim::dig(d, x.p); sim::dig(d, x.w);
  }
};
static TypeOps const& sharedOps() { static TypeOps o = opsFor<app::Shared>("app::Shared", TF_PROBE); o.id = 500; return o; }

// What another task does to one member; changes the bytes it needs or keeps them.
static void mutateMember(app::Shared& x, int member, int how, u64 seed) {
  Rng r(seed);
  auto str = [&](size_t n) { std::string s; for (size_t i = 0; i < n; i++) s.push_back((char)r.u()); return s; };
  size_t k = 1 + r.logu(r.chance(1, 4) ? 2000 : 12);
  bool grow = how == 0, shrink = how == 1;
  switch (member) {
    case 0: if (grow) for (size_t i = 0; i < k; i++) x.v.push_back(r.u()); else if (shrink) { while (k-- && !x.v.empty()) x.v.pop_back(); } else for (auto& e : x.v) e = r.u(); break;
    case 1: if (grow) x.s += str(k); else if (shrink) x.s.resize(x.s.size() > k ? x.s.size() - k : 0); else for (auto& c : x.s) c = (char)r.u(); break;
    case 2: if (grow) for (size_t i = 0; i < k; i++) x.m[(int)r.u()] = str(3); else if (shrink) { if (!x.m.empty()) x.m.erase(x.m.begin()); } else for (auto& e : x.m) for (auto& c : e.second) c = (char)r.u(); break;
    case 3: if (grow) for (size_t i = 0; i < k; i++) x.l.push_back(str(2)); else if (shrink) { if (!x.l.empty()) x.l.pop_front(); } else for (auto& e : x.l) for (auto& c : e) c = (char)r.u(); break;
    case 4: if (grow) x.o = str(k) + (x.o ? *x.o : ""); else if (shrink) x.o.reset(); else if (x.o) for (auto& c : *x.o) c = (char)r.u(); break;
    case 5: if (grow) { if (!x.p) x.p = std::make_unique<std::vector<int>>(); for (size_t i = 0; i < k; i++) x.p->push_back((int)r.u()); } else if (shrink) x.p.reset(); else if (x.p) for (auto& e : *x.p) e = (int)r.u(); break;
    default: if (grow) { x.w.emplace_back(); x.w.back().s = str(k); } else if (shrink) { if (!x.w.empty()) x.w.pop_back(); } else for (auto& e : x.w) e.i = (int)r.u(); break;
  }
}

void genC08(Plan& p, Rng& r) {
  int n = 1 + (int)r.below(5);
  for (int i = 0; i < n; i++) {
    auto& s = p.step("save");
    s.set("v", (i64)(r.u() >> 1)).set("z", (i64)r.below(10)).set("via", (i64)r.below(SV_STREAM)).set("member", (i64)r.below(7)).set("how", (i64)r.below(3));
    s.set("chunk", 0);
    s.fault(S_MUTATE, (i64)r.below(16) + 1, (i64)(r.u() >> 1));
  }
}
void runC08(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    auto& t = sharedOps();
    u64 v = (u64)s.get("v"); int z = (int)s.get("z");
    int member = (int)s.get("member"), how = (int)s.get("how"), via = (int)s.get("via");
    Fault const* mf = nullptr;
    for (auto& f : s.faults) if (f.site == S_MUTATE) mf = &f;
    u64 mseed = mf ? (u64)mf->arg : 0;
    Obj pre(t, v, z), post(t, v, z), o(t, v, z);
    mutateMember(*(app::Shared*)post.p, member, how, mseed);
    // vector capacities differ between a mutated and a copied object only in value, not in size
    size_t sizePre = reference(t, pre.p).size(), sizePost = reference(t, post.p).size();
    int points = 0, at = -1;
    g_mutator = [&] { mutateMember(*(app::Shared*)o.p, member, how, mseed); };
    (void)points;
    auto r = save(t, o.p, via, 0, 0, 0);
    g_mutator = nullptr;
    bool fired = firedIn(r.o, S_MUTATE);
    // Each pass over the object has 8 yield points; the n-th one belongs to pass (n-1)/8 and
    // lies before member (n-1)%8.  Passes: sizing, then packing.
    if (fired) at = (int)((mf->nth - 1) % 8);
    int pass = fired ? (int)((mf->nth - 1) / 8) : 2;
    if (pass > 1) pass = 2;
    bool before = at <= member;
    size_t announced = pass == 0 && before ? sizePost : sizePre;
    bool packedPost = fired && (pass == 0 || (pass == 1 && before));
    size_t needed = packedPost ? sizePost : sizePre;
    shape(0xC08, (u64)pass * 1000 + (u64)at * 10 + (u64)how);
    if ((via == SV_USER || via == SV_NULLCB) && r.callbacks == 1 && r.announced != announced)
      harnessError("announced %zu, model says %zu (pass %d at %d member %d)", r.announced, announced, pass, at, member);
    if (announced != needed) {
      stat("size_changed_during_save");
      if (r.o.ok()) violation("mismatch-accepted", "the object changed while saving via %s: %zu bytes announced, %zu needed, but the save returned", save_name[via], announced, needed);
      if (r.o.kind == K_OTHER || r.o.kind == K_BADALLOC) violation("wrong-exception", "object changed while saving: %s", describe(r.o).c_str());
    } else {
      if (!r.o.ok()) violation("spurious-failure", "%zu bytes announced and needed, but saving via %s: %s", announced, save_name[via], describe(r.o).c_str());
      if (r.bytes.size() != announced) violation("size-mismatch", "%zu bytes announced, %zu arrived via %s", announced, r.bytes.size(), save_name[via]);
      W.cur = nullptr;
      LoadArgs a; a.via = LV_BUF; a.bytes = &r.bytes;
      auto l = load(t, a);
      if (!l.o.ok()) violation("load-failed", "what was saved while the object changed does not load: %s", describe(l.o).c_str());
      if (resultDigest(t, a, l) != (packedPost ? post : pre).digest()) violation("differs", "what was saved while the object changed loads as something else");
      dropResult(t, l);
    }
  }
}

// ---------------------------------------------------------------------- C09
static std::vector<int> const FILE_SYS = {S_OPEN, S_FALLOCATE, S_FTRUNCATE, S_FSYNC, S_MMAP, S_MSYNC, S_MUNMAP, S_CLOSE};
void genC09(Plan& p, Rng& r) {
  int n = 1 + (int)r.below(6);
  int ty = r.chance(2, 3) ? pickType(r, 0, TF_PROBE) : pickType(r);
  i64 v = (i64)(r.u() >> 1); int z = pickSize(r, typeById(ty));
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 5)) { ty = pickType(r); v = (i64)(r.u() >> 1); z = pickSize(r, typeById(ty)); }
    int k = (int)r.below(8);
    int via = (int)r.below(SV_N);
    auto& s = p.step(k == 0 ? "size" : k == 1 ? "footprint" : "save");
    s.set("t", ty).set("v", v).set("z", z).set("via", via).set("seed", (i64)(r.u() >> 1)).set("chunk", r.chance(1, 3) ? 0 : (i64)r.logu(100));
    int nf = r.chance(1, 8) ? 0 : 1 + (int)r.below(2);
    for (int j = 0; j < nf; j++) {
      int w = (int)r.below(10);
      if (w < 3) s.fault(S_ALLOC, (i64)r.logu(20), 0);
      else if (w < 6) s.fault(S_SERIALIZE, (i64)r.logu(12), 0);
      else if (via == SV_FILE) { int site = FILE_SYS[r.below(FILE_SYS.size())]; s.fault(site, 1, pickErrno(r, site)); }
      else if (via == SV_STREAM) s.fault(r.chance(1, 2) ? S_STREAM_ERR : r.chance(1, 2) ? S_STREAM_THROW : S_STREAM_EOF, 1, (i64)r.logu(600) - 1);
      else if (via == SV_USER || via == SV_NULLCB) s.fault(S_CALLBACK, 1, 0);
      else s.fault(S_ALLOC, (i64)r.logu(4), 0);
    }
  }
}
void runC09(Plan const& p) {
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    auto& t = typeById((int)s.get("t"));
    Obj o(t, (u64)s.get("v"), (int)s.get("z"));
    u64 want = o.digest();
    Step const* cur = W.cur; W.cur = nullptr;
    Bytes ref = reference(t, o.p);
    size_t foot0 = 0;
    attempt([&] { foot0 = t.footprint(o.p); });
    W.cur = cur;
    int via = (int)s.get("via");
    std::string what = s.op + " of " + t.name + (s.op == "save" ? std::string(" via ") + save_name[via] : "");
    Baseline base;
    {
      Outcome out;
      size_t n = 0;
      if (s.op == "size" || s.op == "footprint") {
        out = attempt([&] { n = s.op == "size" ? t.getSize(o.p) : t.footprint(o.p); });
        size_t w = s.op == "size" ? ref.size() : foot0;
        if (out.ok() && n != w) violation("wrong-result", "%s: %zu instead of %zu", what.c_str(), n, w);
      } else {
        auto r = save(t, o.p, via, 0, (u64)s.get("seed"), (size_t)s.get("chunk"));
        out = r.o;
        bool complete = out.ok() && (via != SV_STREAM || r.streamGood);
        if (complete && r.bytes != ref) violation("bytes-differ", "%s returned success with other bytes than an undisturbed save (%s)", what.c_str(), describe(out).c_str());
      }
      if (!out.ok()) {
        stat("failed_saves");
        if (!explained(out)) violation("wrong-exception", "%s: %s", what.c_str(), describe(out).c_str());
      }
      what += " (" + describe(out) + ")";
    }
    if (o.digest() != want) violation("object-changed", "%s changed the object", what.c_str());
    base.check(what.c_str());
    W.cur = nullptr; fs::beginStep();
    auto again = save(t, o.p, via, 0, (u64)s.get("seed"), (size_t)s.get("chunk"));
    if (!again.o.ok()) violation("no-recovery", "retry after %s: %s", what.c_str(), describe(again.o).c_str());
    if (again.bytes != ref) violation("bytes-differ", "retry after %s produced other bytes than an undisturbed save", what.c_str());
    size_t sz = 0;
    attempt([&] { sz = t.getSize(o.p); });
    if (sz != ref.size()) violation("size-mismatch", "after %s the reported size is %zu instead of %zu", what.c_str(), sz, ref.size());
    if (o.digest() != want) violation("object-changed", "the retry of %s changed the object", what.c_str());
    base.check(what.c_str());
  }
}
} // namespace sim
