// Class hierarchies of the simulated application that are spread over dynamically loaded
// modules.  The host knows none of these types.
#pragma once
#include "users.h"

namespace modapp {
using sim::Gen; using sim::Dig; using sim::u64; using sim::u32; using sim::u8;
using app::level;
// makers of concrete objects, registered by the modules that define the classes
enum { KP = 0, KQ = 1, KR = 2, KINDS = 6 };
using Maker = void* (*)(Gen&);
extern Maker makers[3][KINDS];
extern u32 usable[3];          // kinds objects may be made of
void add(int family, int kind, Maker m);
void* makeKind(int family, Gen& g);
void want(int level);

// ---- P: CRTP
struct PBase : checkpoint::SerializableBase<PBase> {
  u32 id = 0; std::string label;
  virtual ~PBase() = default;
  virtual int kind() const = 0;
  virtual void digestTo(Dig& d) const { want(0); d.add((u64)kind()); d.add(id); sim::dig(d, label); }
  void fill(Gen& g) { id = (u32)g.r.u(); label = sim::make<std::string>(g); }
  template <typename S> void serialize(S& s) { level(s, 0); s | id | label; }
};
struct PA : checkpoint::SerializableDerived<PA, PBase> {
  std::vector<int> v;
  int kind() const override { return 1; }
  void digestTo(Dig& d) const override { PBase::digestTo(d); want(1); sim::dig(d, v); }
  template <typename S> void serialize(S& s) { level(s, 1); s | v; }
};
struct PB : checkpoint::SerializableDerived<PB, PA> {
  std::map<int, std::string> m;
  int kind() const override { return 2; }
  void digestTo(Dig& d) const override { PA::digestTo(d); want(2); sim::dig(d, m); }
  template <typename S> void serialize(S& s) { level(s, 2); s | m; }
};
struct PC : checkpoint::SerializableDerived<PC, PBase> {
  app::Probe pr; std::unique_ptr<PBase> inner;
  int kind() const override { return 3; }
  void digestTo(Dig& d) const override { PBase::digestTo(d); want(3); d.add(pr.val); d.add(inner ? 1 : 0); if (inner) inner->digestTo(d); }
  template <typename S> void serialize(S& s) { level(s, 3); s | pr | inner; }
};
// ---- Q: macros, usable by value
struct QRoot {
  virtual ~QRoot() = default;
  checkpoint_virtual_serialize_root()
  int w = 0; std::string n;
  virtual int kind() const { return 11; }
  virtual void digestTo(Dig& d) const { want(4); d.add((u64)kind()); d.add((u64)w); sim::dig(d, n); }
  void fill(Gen& g) { w = (int)g.r.u(); n = sim::make<std::string>(g); }
  template <typename S> void serialize(S& s) { level(s, 4); s | w | n; }
};
struct QLeaf : QRoot {
  checkpoint_virtual_serialize_derived_from(QRoot)
  std::vector<std::string> tags;
  int kind() const override { return 12; }
  void digestTo(Dig& d) const override { QRoot::digestTo(d); want(5); sim::dig(d, tags); }
  template <typename S> void serialize(S& s) { level(s, 5); s | tags; }
};
struct QDeep : QLeaf {
  checkpoint_virtual_serialize_derived_from(QLeaf)
  std::array<u64, 3> arr{};
  QDeep() = default;
  explicit QDeep(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  int kind() const override { return 13; }
  void digestTo(Dig& d) const override { QLeaf::digestTo(d); want(6); sim::dig(d, arr); }
  template <typename S> void serialize(S& s) { level(s, 6); s | arr; }
};
// ---- R: four levels, base with members of another hierarchy
struct R0 : checkpoint::SerializableBase<R0> {
  u8 a = 0; std::unique_ptr<QRoot> q;
  virtual ~R0() = default;
  virtual int kind() const { return 20; }
  virtual void digestTo(Dig& d) const { want(7); d.add((u64)kind()); d.add(a); d.add(q ? 1 : 0); if (q) q->digestTo(d); }
  template <typename S> void serialize(S& s) { level(s, 7); s | a | q; }
};
struct R1 : checkpoint::SerializableDerived<R1, R0> {
  u32 b = 0;
  int kind() const override { return 21; }
  void digestTo(Dig& d) const override { R0::digestTo(d); want(8); d.add(b); }
  template <typename S> void serialize(S& s) { level(s, 8); s | b; }
};
struct R2 : checkpoint::SerializableDerived<R2, R1> {
  std::string c;
  int kind() const override { return 22; }
  void digestTo(Dig& d) const override { R1::digestTo(d); want(9); sim::dig(d, c); }
  template <typename S> void serialize(S& s) { level(s, 9); s | c; }
};
struct R3 : checkpoint::SerializableDerived<R3, R2> {
  app::Probe e; std::vector<std::unique_ptr<R0>> kids;
  int kind() const override { return 23; }
  void digestTo(Dig& d) const override { R2::digestTo(d); want(10); d.add(e.val); d.add(kids.size()); for (auto& k : kids) { d.add(k ? 1 : 0); if (k) k->digestTo(d); } }
  template <typename S> void serialize(S& s) { level(s, 10); s | e | kids; }
};
template <typename B> struct FamilyOf;
template <> struct FamilyOf<PBase> { static constexpr int v = KP; };
template <> struct FamilyOf<QRoot> { static constexpr int v = KQ; };
template <> struct FamilyOf<R0> { static constexpr int v = KR; };
template <typename B> std::unique_ptr<B> makeAny(Gen& g) { return std::unique_ptr<B>(static_cast<B*>(makeKind(FamilyOf<B>::v, g))); }

template <typename B> struct RawHolder {      // raw pointer as documented
  B* p = nullptr; int tail = 0;
  RawHolder() = default;
  RawHolder(RawHolder&& o) noexcept : p(o.p), tail(o.tail) { o.p = nullptr; }
  RawHolder& operator=(RawHolder&& o) noexcept { std::swap(p, o.p); tail = o.tail; return *this; }
  ~RawHolder() { delete p; }
  template <typename S> void serialize(S& s) {
    bool is_null = p == nullptr;
    s | is_null;
    if (!is_null) { checkpoint::reconstructPointedToObjectIfNeeded(s, p); s | *p; }
    else if (s.isUnpacking()) { delete p; p = nullptr; }
    s | tail;
  }
};
struct Mixed {
  std::unique_ptr<PBase> a; std::unique_ptr<QRoot> b; std::unique_ptr<R0> c; int end = 0;
  template <typename S> void serialize(S& s) { s | a | b | c | end; }
};
} // namespace modapp

namespace sim {
using namespace modapp;
#define MODV(B) \
template <> struct V<std::unique_ptr<B>> { \
  static std::unique_ptr<B> make(Gen& g) { return makeAny<B>(g); } \
  static void dig(Dig& d, std::unique_ptr<B> const& t) { d.add(t ? 1 : 0); if (t) t->digestTo(d); } \
}; \
template <> struct V<RawHolder<B>> { \
  static RawHolder<B> make(Gen& g) { RawHolder<B> h; h.p = makeAny<B>(g).release(); h.tail = (int)g.r.u(); return h; } \
  static void dig(Dig& d, RawHolder<B> const& t) { d.add(t.p ? 1 : 0); if (t.p) t.p->digestTo(d); d.add((u64)t.tail); } \
}; \
template <> struct V<std::vector<std::unique_ptr<B>>> { \
  using T = std::vector<std::unique_ptr<B>>; \
  static T make(Gen& g) { T v; size_t n = g.fixedCount(); int z = g.sz; Deeper x(g); for (size_t i = 0; i < n; i++) { g.sz = z + (int)i; v.push_back(makeAny<B>(g)); } g.sz = z; return v; } \
  static void dig(Dig& d, T const& t) { d.add(t.size()); for (auto& e : t) sim::dig(d, e); } \
};
MODV(PBase)
MODV(QRoot)
MODV(R0)
template <> struct V<QRoot> { MK(QRoot) { QRoot x; x.fill(g); return x; } DG(QRoot) { t.digestTo(d); } };
template <> struct V<QLeaf> { MK(QLeaf) { QLeaf x; x.fill(g); x.tags = sim::make<std::vector<std::string>>(g); return x; } DG(QLeaf) { t.digestTo(d); } };
template <> struct V<Mixed> {
  MK(Mixed) { Mixed x; x.a = makeAny<PBase>(g); x.b = makeAny<QRoot>(g); x.c = makeAny<R0>(g); x.end = (int)g.r.u(); return x; }
  DG(Mixed) { sim::dig(d, t.a); sim::dig(d, t.b); sim::dig(d, t.c); d.add((u64)t.end); }
};
} // namespace sim

namespace modapp {
inline void* mkPA(Gen& g) { auto p = new PA; p->fill(g); p->v = sim::make<std::vector<int>>(g); return static_cast<PBase*>(p); }
inline void* mkPB(Gen& g) { auto p = new PB; p->fill(g); p->v = sim::make<std::vector<int>>(g); p->m = sim::make<std::map<int, std::string>>(g); return static_cast<PBase*>(p); }
inline void* mkPC(Gen& g) { auto p = new PC; p->fill(g); p->pr = app::Probe(g.r.u()); if (g.depth < 4) p->inner = makeAny<PBase>(g); return static_cast<PBase*>(p); }
inline void* mkQRoot(Gen& g) { auto p = new QRoot; p->fill(g); return p; }
inline void* mkQLeaf(Gen& g) { auto p = new QLeaf; p->fill(g); p->tags = sim::make<std::vector<std::string>>(g); return static_cast<QRoot*>(p); }
inline void* mkQDeep(Gen& g) { auto p = new QDeep; p->fill(g); p->tags = sim::make<std::vector<std::string>>(g); for (auto& e : p->arr) e = g.r.u(); return static_cast<QRoot*>(p); }
inline void fillR0(R0* p, Gen& g) { p->a = (u8)g.r.u(); p->q = makeAny<QRoot>(g); }
inline void* mkR0(Gen& g) { auto p = new R0; fillR0(p, g); return p; }
inline void* mkR2(Gen& g) { auto p = new R2; fillR0(p, g); p->b = (u32)g.r.u(); p->c = sim::make<std::string>(g); return static_cast<R0*>(p); }
inline void* mkR3(Gen& g) {
  auto p = new R3; fillR0(p, g); p->b = (u32)g.r.u(); p->c = sim::make<std::string>(g); p->e = app::Probe(g.r.u());
  if (g.depth < 3) p->kids = sim::make<std::vector<std::unique_ptr<R0>>>(g);
  return static_cast<R0*>(p);
}
} // namespace modapp
