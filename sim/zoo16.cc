#include "users.h"
// Elements that are plain pointers for the compiler, but not for their serializer: whoever
// copies their bytes instead of calling it sends an address.
namespace app {
struct Cell { u64 x = 0; };
struct Ref {
  Cell* c = nullptr;
  template <typename S> void serialize(S& s) {
    u64 x = c ? c->x : 0;
    s | x;
    if (s.isUnpacking()) { if (!c) c = new Cell; c->x = x; }
  }
};
static_assert(std::is_trivially_copyable<Ref>::value, "");
struct RefSet {
  std::vector<Ref> v; std::array<Ref, 3> a{}; Ref one; std::pair<int, Ref> p; u32 end = 0;
  RefSet() = default;
  RefSet(RefSet&& o) noexcept { swap(o); }
  RefSet& operator=(RefSet&& o) noexcept { swap(o); return *this; }
  ~RefSet() { drop(); }
  void swap(RefSet& o) { v.swap(o.v); a.swap(o.a); std::swap(one, o.one); std::swap(p, o.p); std::swap(end, o.end); }
  template <typename F> void each(F f) { for (auto& r : v) f(r); for (auto& r : a) f(r); f(one); f(p.second); }
  void drop() { each([](Ref& r) { delete r.c; r.c = nullptr; }); }
  template <typename S> void serialize(S& s) {
    if (s.isUnpacking()) { drop(); v.clear(); }
    s | v | a | one | p | end;
  }
};
template <typename T> struct Slots {      // keeps a cache next to what is saved
  struct Slot { T key{}; Slot const* self = nullptr; u32 used = 0;
    template <typename S> void serialize(S& s) { s | key; if (s.isUnpacking()) { self = this; used = 0; } } };
  std::array<Slot, 5> s5;
  Slots() { for (auto& x : s5) x.self = &x; }
  Slots(Slots const& o) : Slots() { for (int i = 0; i < 5; i++) { s5[(size_t)i].key = o.s5[(size_t)i].key; s5[(size_t)i].used = o.s5[(size_t)i].used; } }
  Slots& operator=(Slots const& o) { for (int i = 0; i < 5; i++) s5[(size_t)i].key = o.s5[(size_t)i].key; return *this; }
  template <typename S> void serialize(S& s) { s | s5; }
};
}
namespace sim {
using namespace app;
template <> struct V<RefSet> {
  MK(RefSet) {
    RefSet x; x.v.resize(g.count()); x.p.first = (int)g.r.u(); x.end = (u32)g.r.u();
    x.each([&](Ref& r) { r.c = new Cell; r.c->x = g.r.u(); });
    return x;
  }
  DG(RefSet) { d.add(t.v.size()); const_cast<RefSet&>(t).each([&](Ref& r) { d.add(r.c ? r.c->x : 0); }); d.add((u64)t.p.first); d.add(t.end); }
};
template <typename T> struct V<Slots<T>> {
  MK(Slots<T>) { Slots<T> x; for (auto& e : x.s5) { e.key = sim::make<T>(g); e.used = (u32)g.r.u(); } return x; }
  DG(Slots<T>) { for (auto& e : t.s5) { sim::dig(d, e.key); d.add(e.self == &e ? 1 : 2); } }
};
}
namespace {
ZOO(184, 0, app::RefSet)
ZOO(185, 0, std::vector<app::RefSet>)
ZOO(186, 0, app::Slots<int>)
ZOO(187, 0, std::map<int, app::RefSet>)
}
