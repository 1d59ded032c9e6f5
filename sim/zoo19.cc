#include "users.h"
// A class with another base in front of its serializable one: pointers to it and to the
// root of the hierarchy differ.
namespace app {
struct Front { u64 f = 0x46; virtual ~Front() = default; virtual u64 front() const { return f; } };
struct Multi : Front, checkpoint::SerializableDerived<Multi, Shape> {
  std::vector<int> in; Probe pr;
  int kind() const override { return 7; }
  void digestTo(Dig& d) const override { Shape::digestTo(d); d.add(f); sim::dig(d, in); d.add(pr.val); d.add(front()); }
  template <typename S> void serialize(S& s) { level(s, 11); s | f | in | pr; }
};
std::unique_ptr<Shape> makeMulti(Gen& g) {
  auto p = std::make_unique<Multi>();
  p->f = g.r.u(); p->in = sim::make<std::vector<int>>(g); p->pr = Probe(g.r.u());
  return p;
}

// A hierarchy that is serialized from outside, with an abstract root.
struct N0 {
  checkpoint_virtual_serialize_root()
  explicit N0(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  explicit N0(int x) : a(x) {}
  virtual ~N0() = default;
  virtual int kind() const = 0;
  virtual void digestTo(Dig& d) const { seenKind(kind()); d.add((u64)a); sim::dig(d, s0); }
  int a = 0; std::string s0;
};
struct N1 : N0 {
  checkpoint_virtual_serialize_derived_from(N0)
  explicit N1(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : N0(t) {}
  explicit N1(int x) : N0(x) {}
  int kind() const override { return 20; }
  void digestTo(Dig& d) const override { N0::digestTo(d); sim::dig(d, b); }
  std::list<std::string> b;
};
struct N2 : N1 {
  checkpoint_virtual_serialize_derived_from(N1)
  explicit N2(checkpoint::SERIALIZE_CONSTRUCT_TAG t) : N1(t) {}
  explicit N2(int x) : N1(x) {}
  int kind() const override { return 21; }
  void digestTo(Dig& d) const override { N1::digestTo(d); d.add(c.val); d.add(next ? (u64)next->kind() : 9); if (next) next->digestTo(d); }
  Probe c; std::unique_ptr<N0> next;
};
template <typename S> void serialize(S& s, N0& n) { level(s, 12); s | n.a | n.s0; }
template <typename S> void serialize(S& s, N1& n) { level(s, 13); s | n.b; }
template <typename S> void serialize(S& s, N2& n) { level(s, 14); s | n.c | n.next; }
struct SharedPoly {            // shared, polymorphic pointees
  std::shared_ptr<Shape> a; std::shared_ptr<N0> b; std::vector<std::shared_ptr<Node>> v;
  template <typename S, typename T> static void one(S& s, std::shared_ptr<T>& p) {
    bool null = !p;
    s | null;
    if (null) { if (s.isUnpacking()) p.reset(); return; }
    T* raw = p.get();
    checkpoint::reconstructPointedToObjectIfNeeded(s, raw);
    if (s.isUnpacking() && raw != p.get()) p = std::shared_ptr<T>(raw);
    s | *p;
  }
  template <typename S> void serialize(S& s) {
    one(s, a); one(s, b);
    std::size_t n = v.size();
    s | n;
    if (s.isUnpacking()) v.resize(n);
    for (auto& p : v) one(s, p);
  }
};
// The older way to serialize a class next to its parent.
struct SplitParent { int p = 1; Probe pr; template <typename S> void serialize(S& s) { s | p | pr; } };
struct Split : SplitParent {
  int a = 1; std::string b;
  template <typename S> void serialize(S& s) { s | a; }
  template <typename S> void serializeParent(S& s) { SplitParent::serialize(s); }
  template <typename S> void serializeThis(S& s) { s | b; }
};
}
namespace sim {
using namespace app;
static std::unique_ptr<N0> makeN(Gen& g, int which) {
  std::unique_ptr<N0> r;
  Deeper x(g);
  if (which == 0) return nullptr;
  if (which == 1) { auto p = std::make_unique<N1>((int)g.r.u()); p->b = sim::make<std::list<std::string>>(g); r = std::move(p); }
  else { auto p = std::make_unique<N2>((int)g.r.u()); p->b = sim::make<std::list<std::string>>(g); p->c = Probe(g.r.u()); if (g.depth < 5) p->next = makeN(g, (g.sz + g.depth) % 3); r = std::move(p); }
  r->s0 = sim::make<std::string>(g);
  return r;
}
template <> struct V<std::unique_ptr<N0>> {
  static std::unique_ptr<N0> make(Gen& g) { return makeN(g, (g.sz + g.depth) % 3); }
  static void dig(Dig& d, std::unique_ptr<N0> const& t) { d.add(t ? (u64)t->kind() : 77); if (t) t->digestTo(d); }
};
template <> struct FixedShape<std::unique_ptr<N0>> : std::true_type {};
template <> struct V<SharedPoly> {
  MK(SharedPoly) {
    SharedPoly x; x.a = makeShape(g, (g.sz + g.depth) % SHAPES); x.b = makeN(g, (g.sz + g.depth) % 3);
    size_t n = g.fixedCount();
    for (size_t i = 0; i < n; i++) x.v.push_back(makeNode(g, (int)((size_t)g.sz + i) % 5));
    return x;
  }
  template <typename T> static void one(Dig& d, T const& t) { d.add(t ? (u64)t->kind() : 77); if (t) { t->digestTo(d); d.add((u64)t.use_count()); } }
  DG(SharedPoly) { one(d, t.a); one(d, t.b); d.add(t.v.size()); for (auto& p : t.v) one(d, p); }
};
template <> struct V<Split> {
  MK(Split) { Split x; x.p = (int)g.r.u(); x.pr = Probe(g.r.u()); x.a = (int)g.r.u(); x.b = sim::make<std::string>(g); return x; }
  DG(Split) { d.add((u64)t.p); d.add(t.pr.val); d.add((u64)t.a); sim::dig(d, t.b); }
};
}
namespace {
ZOO(196, TF_PROBE, app::Split)
ZOO(197, TF_PROBE, std::vector<app::Split>)
ZOO(200, TF_POLY | TF_PROBE, std::unique_ptr<app::N0>)
ZOO(201, TF_POLY | TF_PROBE, std::vector<std::unique_ptr<app::N0>>)
ZOO(202, TF_POLY | TF_PROBE, app::SharedPoly)
}
