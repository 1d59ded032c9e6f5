// The objects the simulated tasks own: generation, digests, type-erased operations.
// The oracle never uses magistrate: a value is regenerated from (type, vseed, size) and
// compared through digests computed by the traversal below.
#pragma once
#include "core.h"
#include <checkpoint/checkpoint.h>

#include <array>
#include <chrono>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <stdexcept>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <algorithm>

namespace sim {

// exception thrown by simulated user code
struct InjectedError : std::exception {
  int site;
  explicit InjectedError(int s) : site(s) {}
  char const* what() const noexcept override { return "injected by the simulator"; }
};

void userSite(int site);         // fault / yield point inside user code
void userSerializePoint();       // called by every user serialize()

// ------------------------------------------------------------- digesting ---
struct Dig {
  u64 h = 0x1234567;
  void add(u64 v) { h = mix(h ^ mix(v)); }
  void bytes(void const* p, size_t n) {
    auto c = (u8 const*)p;
    u64 x = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) x = (x ^ c[i]) * 1099511628211ull;
    add(x); add(n);
  }
};

// value generator parameters
struct Gen {
  Rng r;
  int sz;        // size class; shape of polymorphic parts depends on it only
  int depth = 0;
  Gen(u64 seed, int size) : r(seed), sz(size) {}
  size_t count() { return depth > 2 ? r.below(2) : depth > 0 ? r.below((u64)sz / 2 + 2) : r.below((u64)sz + 1); }
  size_t fixedCount() { return depth > 0 ? (size_t)(sz % 3) : (size_t)(sz % 7); }
};
struct Deeper { Gen& g; explicit Deeper(Gen& x) : g(x) { g.depth++; } ~Deeper() { g.depth--; } };

template <typename T, typename E = void> struct V;   // V<T>::make(Gen&), V<T>::dig(Dig&, T const&)

template <typename T> T make(Gen& g) { return V<T>::make(g); }
template <typename T> void dig(Dig& d, T const& t) { V<T>::dig(d, t); }

template <typename T>
struct V<T, std::enable_if_t<std::is_integral<T>::value>> {
  static T make(Gen& g) { return (T)g.r.u(); }
  static void dig(Dig& d, T const& t) { d.add((u64)t); }
};
template <> struct V<bool> {
  static bool make(Gen& g) { return g.r.chance(1, 2); }
  static void dig(Dig& d, bool const& t) { d.add(t ? 7 : 3); }
};
template <typename T>
struct V<T, std::enable_if_t<std::is_floating_point<T>::value>> {
  static T make(Gen& g) { return (T)((i64)g.r.below(1u << 24) - (1 << 23)) / (T)8; }
  static void dig(Dig& d, T const& t) { d.add((u64)(i64)(t * 8)); d.add(t < 0); }
};
template <typename T>
struct V<T, std::enable_if_t<std::is_enum<T>::value>> {
  static T make(Gen& g) { return (T)(std::underlying_type_t<T>)g.r.u(); }
  static void dig(Dig& d, T const& t) { d.add((u64)(std::underlying_type_t<T>)t); }
};
template <typename R, typename P>
struct V<std::chrono::duration<R, P>> {
  using T = std::chrono::duration<R, P>;
  static T make(Gen& g) { return T(sim::make<R>(g)); }
  static void dig(Dig& d, T const& t) { sim::dig(d, (R)t.count()); }
};
template <> struct V<std::string> {
  static std::string make(Gen& g) {
    std::string s;
    size_t n = g.r.chance(1, 3) ? g.r.below(4 * g.sz + 40) : g.count();
    for (size_t i = 0; i < n; i++) s.push_back((char)g.r.u());
    return s;
  }
  static void dig(Dig& d, std::string const& t) { d.bytes(t.data(), t.size()); }
};
template <typename A, typename B>
struct V<std::pair<A, B>> {
  static std::pair<A, B> make(Gen& g) {
    auto a = sim::make<std::remove_const_t<A>>(g);
    return std::pair<A, B>(std::move(a), sim::make<B>(g));
  }
  static void dig(Dig& d, std::pair<A, B> const& t) { sim::dig<std::remove_const_t<A>>(d, t.first); sim::dig<B>(d, t.second); }
};
template <typename... A>
struct V<std::tuple<A...>> {
  static std::tuple<A...> make(Gen& g) { return std::tuple<A...>{sim::make<A>(g)...}; }
  static void dig(Dig& d, std::tuple<A...> const& t) {
    std::apply([&](auto const&... x) { (sim::dig<A>(d, x), ...); }, t);
  }
};
template <typename T, size_t N>
struct V<std::array<T, N>> {
  template <size_t... I> static std::array<T, N> mk(Gen& g, std::index_sequence<I...>) {
    return std::array<T, N>{{((void)I, sim::make<T>(g))...}};
  }
  static std::array<T, N> make(Gen& g) { Deeper x(g); return mk(g, std::make_index_sequence<N>{}); }
  static void dig(Dig& d, std::array<T, N> const& t) { for (auto& e : t) sim::dig<T>(d, e); }
};
template <typename T> struct FixedShape : std::false_type {};   // polymorphic inside: shape depends on size only

template <typename C, typename T>
struct SeqV {
  static C make(Gen& g) {
    C c;
    size_t n = FixedShape<T>::value ? g.fixedCount() : g.count();
    Deeper x(g);
    for (size_t i = 0; i < n; i++) c.push_back(sim::make<T>(g));
    return c;
  }
  static void dig(Dig& d, C const& t) { d.add(t.size()); for (auto const& e : t) sim::dig<T>(d, e); }
};
template <typename T> struct V<std::vector<T>> : SeqV<std::vector<T>, T> {
  static std::vector<T> make(Gen& g) {
    auto c = SeqV<std::vector<T>, T>::make(g);
    if (g.r.chance(1, 4)) c.reserve(c.size() + g.r.below(20));
    return c;
  }
};
template <> struct V<std::vector<bool>> {
  static std::vector<bool> make(Gen& g) {
    std::vector<bool> c;
    size_t n = g.count() * 3;
    for (size_t i = 0; i < n; i++) c.push_back(g.r.chance(1, 2));
    return c;
  }
  static void dig(Dig& d, std::vector<bool> const& t) { d.add(t.size()); for (bool e : t) d.add(e ? 7 : 3); }
};
template <typename T> struct V<std::list<T>> : SeqV<std::list<T>, T> {};
template <typename T> struct V<std::deque<T>> : SeqV<std::deque<T>, T> {};
template <typename T> struct V<std::queue<T>> {
  static std::queue<T> make(Gen& g) {
    std::queue<T> q; size_t n = g.count(); Deeper x(g);
    for (size_t i = 0; i < n; i++) q.push(sim::make<T>(g));
    return q;
  }
  struct Peek : std::queue<T> { using std::queue<T>::c; };
  static void dig(Dig& d, std::queue<T> const& t) {
    auto const& c = static_cast<Peek const&>(t).c;
    d.add(t.size());
    for (auto const& e : c) sim::dig<T>(d, e);
  }
};
template <typename C, bool Sorted>
struct AssocV {
  using T = typename C::value_type;
  static C make(Gen& g) {
    C c; size_t n = g.count(); Deeper x(g);
    for (size_t i = 0; i < n; i++) c.insert(sim::make<T>(g));
    return c;
  }
  static void dig(Dig& d, C const& t) {
    d.add(t.size());
    std::vector<u64> hs;
    for (auto const& e : t) { Dig x; sim::dig<T>(x, e); hs.push_back(x.h); }
    if (!Sorted) std::sort(hs.begin(), hs.end());
    for (auto h : hs) d.add(h);
  }
};
// equal keys of multi containers keep insertion order in ordered ones; digest the ordered ones in order
template <typename K, typename T, typename L> struct V<std::map<K, T, L>> : AssocV<std::map<K, T, L>, true> {};
template <typename K, typename T, typename L> struct V<std::multimap<K, T, L>> : AssocV<std::multimap<K, T, L>, true> {};
template <typename K, typename L> struct V<std::set<K, L>> : AssocV<std::set<K, L>, true> {};
template <typename K, typename L> struct V<std::multiset<K, L>> : AssocV<std::multiset<K, L>, true> {};
template <typename K, typename T, typename H> struct V<std::unordered_map<K, T, H>> : AssocV<std::unordered_map<K, T, H>, false> {};
template <typename K, typename T, typename H> struct V<std::unordered_multimap<K, T, H>> : AssocV<std::unordered_multimap<K, T, H>, false> {};
template <typename K, typename H> struct V<std::unordered_set<K, H>> : AssocV<std::unordered_set<K, H>, false> {};
template <typename K, typename H> struct V<std::unordered_multiset<K, H>> : AssocV<std::unordered_multiset<K, H>, false> {};

template <typename T> struct V<std::optional<T>> {
  static std::optional<T> make(Gen& g) { if (g.r.chance(1, 3)) return std::nullopt; Deeper x(g); return sim::make<T>(g); }
  static void dig(Dig& d, std::optional<T> const& t) { d.add(t.has_value()); if (t) sim::dig<T>(d, *t); }
};
template <typename... A> struct V<std::variant<A...>> {
  using T = std::variant<A...>;
  static T make(Gen& g) {
    size_t k = g.r.below(sizeof...(A)); size_t i = 0;
    std::optional<T> out;
    Deeper x(g);
    ((i++ == k ? (void)(out.emplace(sim::make<A>(g))) : (void)0), ...);
    return std::move(*out);
  }
  static void dig(Dig& d, T const& t) {
    d.add(t.index());
    if (!t.valueless_by_exception()) std::visit([&](auto const& x) { sim::dig<std::decay_t<decltype(x)>>(d, x); }, t);
  }
};
// default: non-polymorphic pointee
template <typename T> struct V<std::unique_ptr<T>> {
  static std::unique_ptr<T> make(Gen& g) {
    if (g.r.chance(1, 4) || g.depth > 5) return nullptr;
    Deeper x(g);
    return std::unique_ptr<T>(new T(sim::make<T>(g)));
  }
  static void dig(Dig& d, std::unique_ptr<T> const& t) { d.add(t != nullptr); if (t) sim::dig<T>(d, *t); }
};

// ------------------------------------------------------ erased operations ---
enum TypeFlags : unsigned {
  TF_POLY = 1,        // polymorphic parts: in-place targets need the same shape
  TF_PROBE = 2,       // contains user code with fault sites
  TF_RECURSIVE = 4,   // nesting depth decided by data
  TF_BIG = 8,         // spans several pages
  TF_NODEFAULT = 16,  // not default constructible
  TF_SCALAR = 32,     // trivially small
  TF_HUGE = 64,       // hundreds of kilobytes
};

struct TypeOps {
  int id = 0;              // stable number used in plans
  char const* name;
  unsigned flags;
  size_t size, align;
  void* (*make)(u64 vseed, int size);               // heap object
  void (*emplace)(void* mem, u64 vseed, int size);  // on given memory
  void (*destroy)(void*);                           // delete
  void (*destruct)(void*);                          // destructor only
  u64 (*digest)(void const*);
  checkpoint::SerializedReturnType (*ser)(void*, checkpoint::BufferCallbackType);
  void* (*deser)(char*);
  void* (*deserObj)(char*, char*);
  void* (*deserRet)(checkpoint::SerializedReturnType&&);
  void (*deserIn)(char*, void*);
  size_t (*getSize)(void*);
  size_t (*footprint)(void*);
  void (*toFile)(void*, std::string const&);
  void* (*fromFile)(std::string const&);
  void (*fromFileIn)(std::string const&, void*);
  void (*toStream)(void*, std::ostream&);
  void* (*fromStream)(std::istream&);
  void (*fromStreamIn)(std::istream&, void*);
};

std::vector<TypeOps>& zoo();
struct ZooEntry { int order; TypeOps ops; };
void zooAdd(int order, TypeOps const&);
void zooFreeze();   // sort by order: independent of link order
TypeOps const& typeById(int id);

// a concrete stream class of the application
struct DevStream : std::iostream { explicit DevStream(std::streambuf* b) : std::iostream(b) {} };
struct StreamFor {                 // a standard or concrete stream on a device
  std::unique_ptr<std::iostream> s;
  StreamFor(std::streambuf* b, bool concrete) {
    if (concrete) s.reset(new DevStream(b)); else s.reset(new std::iostream(b));
    if (concrete) return;          // the caller also writes text to it
    s->setf(std::ios::hex, std::ios::basefield); s->setf(std::ios::boolalpha | std::ios::showbase);
    s->width(3); s->fill('#');
  }
};

template <typename T>
TypeOps opsFor(char const* name, unsigned flags) {
  TypeOps o;
  o.name = name;
  o.flags = flags;
  o.size = sizeof(T);
  o.align = alignof(T);
  o.make = [](u64 s, int z) -> void* { Gen g(s, z); return new T(sim::make<T>(g)); };
  o.emplace = [](void* m, u64 s, int z) { Gen g(s, z); new (m) T(sim::make<T>(g)); };
  o.destroy = [](void* p) { delete static_cast<T*>(p); };
  o.destruct = [](void* p) { static_cast<T*>(p)->~T(); };
  o.digest = [](void const* p) -> u64 { Dig d; sim::dig<T>(d, *static_cast<T const*>(p)); return d.h; };
  o.ser = [](void* p, checkpoint::BufferCallbackType cb) { return checkpoint::serialize<T>(*static_cast<T*>(p), cb); };
  o.deser = [](char* b) -> void* { return checkpoint::deserialize<T>(b).release(); };
  o.deserObj = [](char* b, char* m) -> void* { return checkpoint::deserialize<T>(b, m); };
  o.deserRet = [](checkpoint::SerializedReturnType&& r) -> void* { return checkpoint::deserialize<T>(std::move(r)).release(); };
  o.deserIn = [](char* b, void* t) { checkpoint::deserializeInPlace<T>(b, static_cast<T*>(t)); };
  o.getSize = [](void* p) -> size_t { return checkpoint::getSize<T>(*static_cast<T*>(p)); };
  o.footprint = [](void* p) -> size_t { return checkpoint::getMemoryFootprint<T>(*static_cast<T*>(p)); };
  o.toFile = [](void* p, std::string const& f) { checkpoint::serializeToFile<T>(*static_cast<T*>(p), f); };
  o.fromFile = [](std::string const& f) -> void* { return checkpoint::deserializeFromFile<T>(f).release(); };
  o.fromFileIn = [](std::string const& f, void* t) { checkpoint::deserializeInPlaceFromFile<T>(f, static_cast<T*>(t)); };
  // through the standard classes, or through the concrete class of the stream as usually deduced
  o.toStream = [](void* p, std::ostream& s) {
    if (auto d = dynamic_cast<DevStream*>(&s)) checkpoint::serializeToStream(*static_cast<T*>(p), *d);
    else checkpoint::serializeToStream<T, std::ostream>(*static_cast<T*>(p), s);
  };
  o.fromStream = [](std::istream& s) -> void* {
    if (auto d = dynamic_cast<DevStream*>(&s)) return checkpoint::deserializeFromStream<T>(*d).release();
    return checkpoint::deserializeFromStream<T, std::istream>(s).release();
  };
  o.fromStreamIn = [](std::istream& s, void* t) {
    if (auto d = dynamic_cast<DevStream*>(&s)) checkpoint::deserializeInPlaceFromStream(*d, static_cast<T*>(t));
    else checkpoint::deserializeInPlaceFromStream<T, std::istream>(s, static_cast<T*>(t));
  };
  return o;
}

#define ZOO(ORDER, FLAGS, ...)                                                     \
  static bool const ZOO_CAT(zoo_reg_, __COUNTER__) =                               \
    (::sim::zooAdd(ORDER, ::sim::opsFor<__VA_ARGS__>(#__VA_ARGS__, ZOO_FL(FLAGS))), true);
#define ZOO_FL(x) ([]{ using namespace ::sim; return (unsigned)(x); }())
#define ZOO_CAT(a, b) ZOO_CAT2(a, b)
#define ZOO_CAT2(a, b) a##b

} // namespace sim
