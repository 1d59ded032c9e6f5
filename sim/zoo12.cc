#include "users.h"
namespace app {
// allocator with state of its own kind, memory from operator new
template <typename T> struct Arena {
  using value_type = T;
  Arena() = default;
  template <typename U> Arena(Arena<U> const&) {}
  T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, size_t) { ::operator delete(p); }
  template <typename U> bool operator==(Arena<U> const&) const { return true; }
  template <typename U> bool operator!=(Arena<U> const&) const { return false; }
};
struct NoCase {
  static std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
  size_t operator()(std::string const& s) const { return std::hash<std::string>()(low(s)); }
  bool operator()(std::string const& a, std::string const& b) const { return low(a) == low(b); }
};
struct Del { template <typename T> void operator()(T* p) const { delete p; } };
struct Extended : Intr {            // inherits without virtual functions
  Probe p; u64 z = 0;
  template <typename S> void serialize(S& s) { Intr::serialize(s); s | p | z; }
};
struct Matrix {                     // hands raw memory to the serializer
  u32 rows = 0, cols = 0; std::unique_ptr<double[]> d;
  template <typename S> void serialize(S& s) {
    s | rows | cols;
    if (s.isUnpacking()) d.reset(new double[(size_t)rows * cols + 1]);
    if (rows * cols) s.contiguousBytes(d.get(), sizeof(double), (size_t)rows * cols);
  }
};
struct Versioned {                  // content decides what is written
  u8 ver = 0; std::string a; std::optional<std::vector<int>> b;
  template <typename S> void serialize(S& s) { s | ver | a; if (ver & 1) s | b; else if (s.isUnpacking()) b.reset(); }
};
}
namespace sim {
using namespace app;
template <typename T> struct V<std::vector<T, Arena<T>>> : SeqV<std::vector<T, Arena<T>>, T> {};
template <> struct V<std::vector<bool, Arena<bool>>> {
  using T = std::vector<bool, Arena<bool>>;
  static T make(Gen& g) { T c; size_t n = g.count() * 3; for (size_t i = 0; i < n; i++) c.push_back(g.r.chance(1, 2)); return c; }
  static void dig(Dig& d, T const& t) { d.add(t.size()); for (bool e : t) d.add(e ? 7 : 3); }
};
template <> struct V<std::unordered_map<std::string, int, NoCase, NoCase>> : AssocV<std::unordered_map<std::string, int, NoCase, NoCase>, false> {};
template <typename T> struct V<std::unique_ptr<T, Del>> {
  static std::unique_ptr<T, Del> make(Gen& g) { if (g.r.chance(1, 4)) return nullptr; Deeper x(g); return std::unique_ptr<T, Del>(new T(sim::make<T>(g))); }
  static void dig(Dig& d, std::unique_ptr<T, Del> const& t) { d.add(t != nullptr); if (t) sim::dig<T>(d, *t); }
};
template <> struct V<Extended> {
  MK(Extended) { Extended x; static_cast<Intr&>(x) = sim::make<Intr>(g); x.p = Probe(g.r.u()); x.z = g.r.u(); return x; }
  DG(Extended) { sim::dig<Intr>(d, t); t.p.check(); d.add(t.p.val); d.add(t.z); }
};
template <> struct V<Matrix> {
  MK(Matrix) { Matrix x; x.rows = (u32)g.count(); x.cols = (u32)g.count(); size_t n = (size_t)x.rows * x.cols; x.d.reset(new double[n + 1]); for (size_t i = 0; i < n; i++) x.d[i] = sim::make<double>(g); return x; }
  DG(Matrix) { d.add(t.rows); d.add(t.cols); for (size_t i = 0; i < (size_t)t.rows * t.cols; i++) sim::dig(d, t.d[i]); }
};
template <> struct V<Versioned> {
  MK(Versioned) { Versioned x; x.ver = (u8)g.r.u(); x.a = sim::make<std::string>(g); if (x.ver & 1) x.b = sim::make<std::optional<std::vector<int>>>(g); return x; }
  DG(Versioned) { d.add(t.ver); sim::dig(d, t.a); sim::dig(d, t.b); }
};
}
namespace {
ZOO(160, 0, std::vector<std::vector<bool>>)
ZOO(161, 0, std::vector<int, app::Arena<int>>)
ZOO(162, 0, std::vector<std::string, app::Arena<std::string>>)
ZOO(163, 0, std::vector<bool, app::Arena<bool>>)
ZOO(164, 0, std::map<std::pair<int, std::string>, bool>)
ZOO(165, 0, std::unordered_map<std::string, int, app::NoCase, app::NoCase>)
ZOO(166, 0, std::optional<std::vector<bool>>)
ZOO(167, 0, std::variant<bool, sim::u8, std::vector<bool>, std::optional<std::string>>)
ZOO(168, TF_PROBE, std::unique_ptr<app::Probe, app::Del>)
ZOO(169, 0, std::tuple<bool, char, short, sim::i64, float, std::chrono::duration<double>>)
ZOO(180, TF_PROBE, app::Extended)
ZOO(181, 0, app::Matrix)
ZOO(182, 0, app::Versioned)
ZOO(183, TF_PROBE, std::vector<app::Extended>)
}
