// User-defined types of the simulated application.
#pragma once
#include "zoo.h"

namespace app {
using sim::u64; using sim::u32; using sim::i64; using sim::u8; using sim::Gen; using sim::Dig; using sim::Deeper;

extern u64 g_version;               // of the application: decides the layout of some records
bool sameLayout(u64 from, u64 to);
// ---------------------------------------------------------------- probes ---
// An instance-tracked member whose constructors, copies and serialize() are fault and
// yield points.
#ifdef SIM_THREADS
#define SIM_TL thread_local
#else
#define SIM_TL
#endif
struct Probe {
  static SIM_TL i64 liveCount;
  u64 magic;
  Probe const* self;
  u64 val = 0;
  static constexpr u64 LIVE = 0x11fe11fe11fe11feull, DEAD = 0xdeaddeaddeaddeadull;
  Probe() { sim::userSite(sim::S_CTOR); born(); }
  explicit Probe(u64 v) : val(v) { born(); }          // used by the simulator itself
  Probe(Probe const& o) : val(o.val) { o.check(); sim::userSite(sim::S_COPY); born(); }
  Probe(Probe&& o) noexcept : val(o.val) { o.check(); born(); }
  Probe& operator=(Probe const& o) { check(); o.check(); sim::userSite(sim::S_COPY); val = o.val; return *this; }
  Probe& operator=(Probe&& o) noexcept { check(); o.check(); val = o.val; return *this; }
  ~Probe() { check(); magic = DEAD; self = nullptr; --liveCount; }
  void born() { magic = LIVE; self = this; ++liveCount; }
  void check() const {
    if (magic != LIVE || self != this)
      sim::violation("object-lifetime", "user object used or destroyed while not alive (%s)", magic == DEAD ? "already destroyed" : "never constructed or moved bitwise");
  }
  template <typename S> void serialize(S& s) {
    check();
    sim::userSerializePoint();
    s | val;
  }
};

struct Intr {
  int i = 0; double d = 0; std::string s; std::vector<int> v;
  template <typename S> void serialize(S& x) { x | i | d | s | v; }
};
struct NonIntr { u32 a = 0; std::string b; };
template <typename S> void serialize(S& s, NonIntr& n) { s | n.a | n.b; }

struct Blob { int a; char b; double c; u8 d[7]; using isByteCopyable = std::true_type; };

enum struct Color : u8 { R, G, B };
enum Plain : int { PA, PB };
enum struct Wide : u64 { X };

struct Tagged {
  std::string s; u64 v;
  Tagged(u64 x, std::string t) : s(std::move(t)), v(x) {}
  explicit Tagged(checkpoint::SERIALIZE_CONSTRUCT_TAG) : v(0) {}
  template <typename S> void serialize(S& x) { x | s | v; }
};
struct Recon {
  std::vector<u32> v; int k;
  explicit Recon(int x) : k(x) {}
  static Recon& reconstruct(void* buf) { return *new (buf) Recon(-1); }
  template <typename S> void serialize(S& x) { x | k | v; }
};
struct NonIntRecon {
  std::string v; int k;
  explicit NonIntRecon(int x) : k(x) {}
  template <typename S> void serialize(S& x) { x | v | k; }
};
inline void reconstruct(NonIntRecon*& t, void* buf) { t = new (buf) NonIntRecon(-2); }
struct SpecRecon {
  std::list<int> v; int k;
  explicit SpecRecon(int x) : k(x) {}
  template <typename S> void serialize(S& x) { x | v | k; }
};
struct MoveOnly {            // default constructible, not copyable
  std::unique_ptr<std::string> p; u32 k = 0;
  MoveOnly() = default;
  MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default;
  template <typename S> void serialize(S& x) { x | k | p; }
};
struct MoveOnlyTag {         // neither
  std::unique_ptr<u64> p; std::string s;
  MoveOnlyTag(std::unique_ptr<u64> q, std::string t) : p(std::move(q)), s(std::move(t)) {}
  explicit MoveOnlyTag(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  MoveOnlyTag(MoveOnlyTag&&) = default; MoveOnlyTag& operator=(MoveOnlyTag&&) = default;
  template <typename S> void serialize(S& x) { x | p | s; }
};
struct ProbeTag {            // tracked, not default constructible, copyable
  Probe p; std::string s;
  ProbeTag(u64 v, std::string t) : p(v), s(std::move(t)) {}
  explicit ProbeTag(checkpoint::SERIALIZE_CONSTRUCT_TAG) : p() {}
  template <typename S> void serialize(S& x) { x | s | p; }
};
struct ProbeMo {             // tracked, move only, tag constructed
  Probe p; std::unique_ptr<Probe> q;
  ProbeMo(u64 v, std::unique_ptr<Probe> x) : p(v), q(std::move(x)) {}
  explicit ProbeMo(checkpoint::SERIALIZE_CONSTRUCT_TAG) : p() {}
  ProbeMo(ProbeMo&&) = default; ProbeMo& operator=(ProbeMo&&) = default;
  template <typename S> void serialize(S& x) { x | p | q; }
};
struct ProbeKey {            // usable as a key
  Probe p;
  ProbeKey() = default;
  explicit ProbeKey(u64 v) : p(v) {}
  bool operator<(ProbeKey const& o) const { return p.val < o.p.val; }
  bool operator==(ProbeKey const& o) const { return p.val == o.p.val; }
  template <typename S> void serialize(S& x) { x | p; }
};
struct ProbeKeyHash { size_t operator()(ProbeKey const& k) const { return (size_t)(k.p.val * 31 + 7); } };

struct Tree {
  Probe p; std::string name; std::vector<Tree> kids;
  template <typename S> void serialize(S& x) { x | p | name | kids; }
};
struct Link {
  int v = 0; std::unique_ptr<Link> next;
  template <typename S> void serialize(S& x) { x | v | next; }
};
struct Mid {                 // probes around payload
  Probe a; std::vector<u64> v; Probe b; std::map<int, std::string> m; Probe c; std::string s; std::optional<Probe> o; Probe e;
  template <typename S> void serialize(S& x) { x | a | v | b | m | c | s | o | e; }
};
struct Big {                 // several pages, probes in between
  std::vector<u64> v; Probe a; std::string s; Probe b; std::vector<u8> w;
  template <typename S> void serialize(S& x) { x | v | a | s | b | w; }
};
struct RawOwner {            // owning raw pointer, as documented for reconstructPointedToObjectIfNeeded
  Intr* p = nullptr; std::string tail;
  RawOwner() = default;
  RawOwner(RawOwner&& o) noexcept : p(o.p), tail(std::move(o.tail)) { o.p = nullptr; }
  RawOwner& operator=(RawOwner&& o) noexcept { std::swap(p, o.p); tail = std::move(o.tail); return *this; }
  ~RawOwner() { delete p; }
  template <typename S> void serialize(S& s) {
    bool is_null = p == nullptr;
    s | is_null;
    if (is_null) { if (s.isUnpacking()) { delete p; p = nullptr; } }
    else {
      checkpoint::reconstructPointedToObjectIfNeeded(s, p);
      s | *p;
    }
    s | tail;
  }
};
struct SharedOwner {
  std::shared_ptr<Intr> p; int k = 0;
  template <typename S> void serialize(S& s) {
    bool is_null = p == nullptr;
    s | is_null;
    if (is_null) { if (s.isUnpacking()) p = nullptr; }
    else {
      Intr* raw = p.get();
      checkpoint::reconstructPointedToObjectIfNeeded(s, raw);
      if (s.isUnpacking() && raw != p.get()) p = std::shared_ptr<Intr>(raw);
      s | *p;
    }
    s | k;
  }
};
struct CArr {                // built-in arrays
  int a[5] = {}; std::string s[3]; Probe p[2]; short m[2][3] = {};
  template <typename S> void serialize(S& x) {
    using checkpoint::dispatch::serializeArray;
    serializeArray(x, a, 5); serializeArray(x, s, 3); serializeArray(x, p, 2); serializeArray(x, &m[0][0], 6);
  }
};
struct DynArr {              // array on the heap, serialized through dispatch::serializeArray
  u32 n = 0; std::unique_ptr<double[]> d; std::unique_ptr<std::string[]> t;
  template <typename S> void serialize(S& x) {
    x | n;
    if (x.isUnpacking()) { d.reset(new double[n + 1]); t.reset(new std::string[n + 1]); }
    if (n) { checkpoint::dispatch::serializeArray(x, d.get(), n); checkpoint::dispatch::serializeArray(x, t.get(), n); }
  }
};
struct Empty0 { int unused = 0; template <typename S> void serialize(S&) {} };

// ------------------------------------------------------------ polymorphic ---
// serialize calls per traversal mode and hierarchy level, and what the object's dynamic type
// demands (counted by the simulator's own traversal)
constexpr int LEVELS = 16;
extern SIM_TL u64 levelCalls[4][LEVELS];   // sizing, packing, unpacking, footprinting
extern SIM_TL u64 levelWant[LEVELS];
void seenKind(int kind);
template <typename S> void level(S& s, int l) {
  levelCalls[s.isSizing() ? 0 : s.isPacking() ? 1 : s.isUnpacking() ? 2 : 3][l]++;
  sim::userSerializePoint();
}
struct Shape : checkpoint::SerializableBase<Shape> {
  u32 id = 0; std::string label;
  virtual ~Shape() = default;
  virtual int kind() const = 0;
  virtual void digestTo(Dig& d) const { seenKind(kind()); d.add(id); d.bytes(label.data(), label.size()); }
  template <typename S> void serialize(S& s) { level(s, 0); s | id | label; }
};
struct Circle : checkpoint::SerializableDerived<Circle, Shape> {
  double r = 0; std::vector<int> pts;
  int kind() const override { return 1; }
  void digestTo(Dig& d) const override { Shape::digestTo(d); sim::dig(d, r); sim::dig(d, pts); }
  template <typename S> void serialize(S& s) { level(s, 1); s | r | pts; }
};
struct Poly : checkpoint::SerializableDerived<Poly, Shape> {
  std::map<int, std::string> m;
  int kind() const override { return 2; }
  void digestTo(Dig& d) const override { Shape::digestTo(d); sim::dig(d, m); }
  template <typename S> void serialize(S& s) { level(s, 2); s | m; }
};
struct Square : checkpoint::SerializableDerived<Square, Poly> {
  Probe side; u64 q = 0;
  int kind() const override { return 3; }
  void digestTo(Dig& d) const override { Poly::digestTo(d); d.add(side.val); d.add(q); }
  template <typename S> void serialize(S& s) { level(s, 3); s | side | q; }
};
struct Group : checkpoint::SerializableDerived<Group, Shape> {   // recursion through pointers
  std::unique_ptr<Shape> inner; u8 t = 0;
  int kind() const override { return 4; }
  void digestTo(Dig& d) const override {
    Shape::digestTo(d); d.add(t); d.add(inner ? (u64)inner->kind() : 99);
    if (inner) inner->digestTo(d);
  }
  template <typename S> void serialize(S& s) { level(s, 4); s | t | inner; }
};

// macro style, concrete base, usable by value
struct Node {
  virtual ~Node() = default;
  checkpoint_virtual_serialize_root()
  std::string n; int w = 0;
  virtual int kind() const { return 10; }
  virtual void digestTo(Dig& d) const { seenKind(kind()); sim::dig(d, n); d.add((u64)w); }
  template <typename S> void serialize(S& s) { level(s, 5); s | n | w; }
};
struct Leaf : Node {
  checkpoint_virtual_serialize_derived_from(Node)
  std::vector<std::string> tags;
  int kind() const override { return 11; }
  void digestTo(Dig& d) const override { Node::digestTo(d); sim::dig(d, tags); }
  template <typename S> void serialize(S& s) { level(s, 6); s | tags; }
};
struct HeavyLeaf : Leaf {
  checkpoint_virtual_serialize_derived_from(Leaf)
  Probe pr; std::array<u64, 4> arr{};
  int kind() const override { return 12; }
  void digestTo(Dig& d) const override { Leaf::digestTo(d); d.add(pr.val); sim::dig(d, arr); }
  template <typename S> void serialize(S& s) { level(s, 7); s | pr | arr; }
};
// tag-constructed derived class
struct TagLeaf : Node {
  checkpoint_virtual_serialize_derived_from(Node)
  std::string x;
  explicit TagLeaf(int) {}
  explicit TagLeaf(checkpoint::SERIALIZE_CONSTRUCT_TAG) {}
  int kind() const override { return 13; }
  void digestTo(Dig& d) const override { Node::digestTo(d); sim::dig(d, x); }
  template <typename S> void serialize(S& s) { level(s, 8); s | x; }
};

constexpr int SHAPES = 7;
std::unique_ptr<Shape> makeShape(Gen& g, int which);
std::unique_ptr<Shape> makePartA(Gen& g);
std::unique_ptr<Shape> makePartB(Gen& g);
std::unique_ptr<Shape> makeMulti(Gen& g);
std::unique_ptr<Node> makeNode(Gen& g, int which);
struct Scene {
  std::unique_ptr<Shape> one; std::vector<std::unique_ptr<Node>> nodes; int end = 0;
  template <typename S> void serialize(S& s) { s | one | nodes | end; }
};
struct RawPoly {             // raw pointer to a polymorphic object
  Node* p = nullptr;
  RawPoly() = default;
  RawPoly(RawPoly&& o) noexcept : p(o.p) { o.p = nullptr; }
  RawPoly& operator=(RawPoly&& o) noexcept { std::swap(p, o.p); return *this; }
  ~RawPoly() { delete p; }
  template <typename S> void serialize(S& s) {
    bool is_null = p == nullptr;
    s | is_null;
    if (!is_null) {
      checkpoint::reconstructPointedToObjectIfNeeded(s, p);
      s | *p;
    } else if (s.isUnpacking()) { delete p; p = nullptr; }
  }
};
} // namespace app

namespace checkpoint {
template <> struct CheckpointReconstructor<app::SpecRecon> {
  static void reconstruct(app::SpecRecon*& t, void* buf) { t = new (buf) app::SpecRecon(-3); }
};
}

// ------------------------------------------------------- values and digests ---
namespace sim {
using namespace app;
#define MK(T) static T make([[maybe_unused]] Gen& g)
#define DG(T) static void dig([[maybe_unused]] Dig& d, [[maybe_unused]] T const& t)
template <> struct V<Probe> {
  MK(Probe) { return Probe(g.r.u()); }
  DG(Probe) { t.check(); d.add(t.val); }
};
template <> struct V<Intr> {
  MK(Intr) { Intr x; x.i = sim::make<int>(g); x.d = sim::make<double>(g); x.s = sim::make<std::string>(g); x.v = sim::make<std::vector<int>>(g); return x; }
  DG(Intr) { sim::dig(d, t.i); sim::dig(d, t.d); sim::dig(d, t.s); sim::dig(d, t.v); }
};
template <> struct V<NonIntr> {
  MK(NonIntr) { NonIntr x; x.a = sim::make<u32>(g); x.b = sim::make<std::string>(g); return x; }
  DG(NonIntr) { sim::dig(d, t.a); sim::dig(d, t.b); }
};
template <> struct V<Blob> {
  MK(Blob) { Blob x; memset(&x, 0, sizeof x); x.a = (int)g.r.u(); x.b = (char)g.r.u(); x.c = sim::make<double>(g); for (auto& e : x.d) e = (u8)g.r.u(); return x; }
  DG(Blob) { sim::dig(d, t.a); sim::dig(d, t.b); sim::dig(d, t.c); d.bytes(t.d, 7); }
};
template <> struct V<Tagged> {
  MK(Tagged) { u64 v = g.r.u(); return Tagged(v, sim::make<std::string>(g)); }
  DG(Tagged) { sim::dig(d, t.s); sim::dig(d, t.v); }
};
template <> struct V<Recon> {
  MK(Recon) { Recon x((int)g.r.u()); x.v = sim::make<std::vector<u32>>(g); return x; }
  DG(Recon) { sim::dig(d, t.k); sim::dig(d, t.v); }
};
template <> struct V<NonIntRecon> {
  MK(NonIntRecon) { NonIntRecon x((int)g.r.u()); x.v = sim::make<std::string>(g); return x; }
  DG(NonIntRecon) { sim::dig(d, t.k); sim::dig(d, t.v); }
};
template <> struct V<SpecRecon> {
  MK(SpecRecon) { SpecRecon x((int)g.r.u()); x.v = sim::make<std::list<int>>(g); return x; }
  DG(SpecRecon) { sim::dig(d, t.k); sim::dig(d, t.v); }
};
template <> struct V<MoveOnly> {
  MK(MoveOnly) { MoveOnly x; x.k = sim::make<u32>(g); x.p = sim::make<std::unique_ptr<std::string>>(g); return x; }
  DG(MoveOnly) { sim::dig(d, t.k); sim::dig(d, t.p); }
};
template <> struct V<MoveOnlyTag> {
  MK(MoveOnlyTag) { auto p = sim::make<std::unique_ptr<u64>>(g); return MoveOnlyTag(std::move(p), sim::make<std::string>(g)); }
  DG(MoveOnlyTag) { sim::dig(d, t.p); sim::dig(d, t.s); }
};
template <> struct V<ProbeTag> {
  MK(ProbeTag) { u64 v = g.r.u(); return ProbeTag(v, sim::make<std::string>(g)); }
  DG(ProbeTag) { t.p.check(); d.add(t.p.val); sim::dig(d, t.s); }
};
template <> struct V<ProbeMo> {
  MK(ProbeMo) { u64 v = g.r.u(); return ProbeMo(v, sim::make<std::unique_ptr<Probe>>(g)); }
  DG(ProbeMo) { t.p.check(); d.add(t.p.val); sim::dig(d, t.q); }
};
template <> struct V<ProbeKey> {
  MK(ProbeKey) { return ProbeKey(g.r.below(1000)); }
  DG(ProbeKey) { t.p.check(); d.add(t.p.val); }
};
template <> struct V<Tree> {
  MK(Tree) { Tree x; x.p = Probe(g.r.u()); x.name = sim::make<std::string>(g); if (g.depth < 4) x.kids = sim::make<std::vector<Tree>>(g); return x; }
  DG(Tree) { t.p.check(); d.add(t.p.val); sim::dig(d, t.name); sim::dig(d, t.kids); }
};
template <> struct V<Link> {
  MK(Link) { Link x; x.v = sim::make<int>(g); size_t n = g.count(); Link* c = &x; for (size_t i = 0; i < n; i++) { c->next = std::make_unique<Link>(); c = c->next.get(); c->v = sim::make<int>(g); } return x; }
  DG(Link) { for (Link const* c = &t; c; c = c->next.get()) { sim::dig(d, c->v); d.add(c->next != nullptr); } }
};
template <> struct V<Mid> {
  MK(Mid) { Mid x; x.a = Probe(g.r.u()); x.v = sim::make<std::vector<u64>>(g); x.b = Probe(g.r.u()); x.m = sim::make<std::map<int, std::string>>(g); x.c = Probe(g.r.u());
            x.s = sim::make<std::string>(g); x.o = sim::make<std::optional<Probe>>(g); x.e = Probe(g.r.u()); return x; }
  DG(Mid) { sim::dig(d, t.a); sim::dig(d, t.v); sim::dig(d, t.b); sim::dig(d, t.m); sim::dig(d, t.c); sim::dig(d, t.s); sim::dig(d, t.o); sim::dig(d, t.e); }
};
template <> struct V<Big> {
  MK(Big) { Big x; size_t n = 300 + g.r.below(200 * (g.sz + 1)); for (size_t i = 0; i < n; i++) x.v.push_back(g.r.u()); x.a = Probe(g.r.u());
            x.s.assign(g.r.below(9000), 'x'); for (size_t i = 0; i < x.s.size(); i += 97) x.s[i] = (char)g.r.u(); x.b = Probe(g.r.u());
            x.w.resize(g.r.below(6000)); for (auto& e : x.w) e = (u8)g.r.u(); return x; }
  DG(Big) { sim::dig(d, t.v); sim::dig(d, t.a); sim::dig(d, t.s); sim::dig(d, t.b); sim::dig(d, t.w); }
};
template <> struct V<RawOwner> {
  MK(RawOwner) { RawOwner x; if (!g.r.chance(1, 4)) x.p = new Intr(sim::make<Intr>(g)); x.tail = sim::make<std::string>(g); return x; }
  DG(RawOwner) { d.add(t.p != nullptr); if (t.p) sim::dig(d, *t.p); sim::dig(d, t.tail); }
};
template <> struct V<SharedOwner> {
  MK(SharedOwner) { SharedOwner x; if (!g.r.chance(1, 4)) x.p = std::make_shared<Intr>(sim::make<Intr>(g)); x.k = sim::make<int>(g); return x; }
  DG(SharedOwner) { d.add(t.p != nullptr); if (t.p) sim::dig(d, *t.p); sim::dig(d, t.k); }
};
template <> struct V<CArr> {
  MK(CArr) { CArr x; for (auto& e : x.a) e = (int)g.r.u(); for (auto& e : x.s) e = sim::make<std::string>(g); for (auto& e : x.p) e = Probe(g.r.u()); for (auto& q : x.m) for (auto& e : q) e = (short)g.r.u(); return x; }
  DG(CArr) { for (auto& e : t.a) sim::dig(d, e); for (auto& e : t.s) sim::dig(d, e); for (auto& e : t.p) { e.check(); d.add(e.val); } for (auto& q : t.m) for (auto& e : q) sim::dig(d, e); }
};
template <> struct V<DynArr> {
  MK(DynArr) { DynArr x; x.n = (u32)g.count(); x.d.reset(new double[x.n + 1]); x.t.reset(new std::string[x.n + 1]); for (u32 i = 0; i < x.n; i++) { x.d[i] = sim::make<double>(g); x.t[i] = sim::make<std::string>(g); } return x; }
  DG(DynArr) { d.add(t.n); for (u32 i = 0; i < t.n; i++) { sim::dig(d, t.d[i]); sim::dig(d, t.t[i]); } }
};
template <> struct V<Empty0> {
  MK(Empty0) { return Empty0{}; }
  DG(Empty0) { }
};

// polymorphic: the dynamic type depends on the size class and position only
template <> struct V<std::unique_ptr<Shape>> {
  static std::unique_ptr<Shape> make(Gen& g) { return makeShape(g, (g.sz + g.depth) % SHAPES); }
  static void dig(Dig& d, std::unique_ptr<Shape> const& t) { d.add(t ? (u64)t->kind() : 77); if (t) t->digestTo(d); }
};
template <> struct V<std::unique_ptr<Node>> {
  static std::unique_ptr<Node> make(Gen& g) { return makeNode(g, (g.sz + g.depth) % 5); }
  static void dig(Dig& d, std::unique_ptr<Node> const& t) { d.add(t ? (u64)t->kind() : 77); if (t) t->digestTo(d); }
};
template <> struct FixedShape<std::unique_ptr<Shape>> : std::true_type {};
template <> struct FixedShape<std::unique_ptr<Node>> : std::true_type {};
template <> struct FixedShape<RawPoly> : std::true_type {};
template <> struct V<std::vector<std::unique_ptr<Node>>> {
  using T = std::vector<std::unique_ptr<Node>>;
  static T make(Gen& g) { T v; size_t n = g.fixedCount(); Deeper x(g); for (size_t i = 0; i < n; i++) v.push_back(makeNode(g, (g.sz + (int)i) % 5)); return v; }
  static void dig(Dig& d, T const& t) { d.add(t.size()); for (auto& e : t) sim::dig(d, e); }
};
template <> struct V<std::vector<std::unique_ptr<Shape>>> {
  using T = std::vector<std::unique_ptr<Shape>>;
  static T make(Gen& g) { T v; size_t n = g.fixedCount(); Deeper x(g); for (size_t i = 0; i < n; i++) v.push_back(makeShape(g, (g.sz + (int)i) % SHAPES)); return v; }
  static void dig(Dig& d, T const& t) { d.add(t.size()); for (auto& e : t) sim::dig(d, e); }
};
template <> struct V<Scene> {
  MK(Scene) { Scene x; x.one = sim::make<std::unique_ptr<Shape>>(g); x.nodes = sim::make<std::vector<std::unique_ptr<Node>>>(g); x.end = sim::make<int>(g); return x; }
  DG(Scene) { sim::dig(d, t.one); sim::dig(d, t.nodes); sim::dig(d, t.end); }
};
template <> struct V<RawPoly> {
  MK(RawPoly) { RawPoly x; x.p = makeNode(g, (g.sz + g.depth) % 5).release(); return x; }
  DG(RawPoly) { d.add(t.p ? (u64)t.p->kind() : 77); if (t.p) t.p->digestTo(d); }
};
template <> struct V<Node> {
  MK(Node) { Node x; x.n = sim::make<std::string>(g); x.w = sim::make<int>(g); return x; }
  DG(Node) { t.digestTo(d); }
};
template <> struct V<Leaf> {
  MK(Leaf) { Leaf x; x.n = sim::make<std::string>(g); x.w = sim::make<int>(g); x.tags = sim::make<std::vector<std::string>>(g); return x; }
  DG(Leaf) { t.digestTo(d); }
};
} // namespace sim
