// Many user types of the same layout, so that only the library's type check can tell their
// data apart: enough of them that the registry holds more than 256 types between two.
#include "rt.h"
#include "fam.h"
namespace app {
template <int N> struct Fam {
  sim::u32 a = 0; sim::u64 b = 0;
  template <typename S> void serialize(S& s) { s | a | b; }
};
template <int N> struct Filler {
  sim::u32 a = 0;
  template <typename S> void serialize(S& s) { s | a; }
};
}
namespace sim {
template <int N> static FamOps ops() { return opsOf<app::Fam<N>>(); }
u64 famDigest(u64 v) { return (u32)mix(v) * 31ull + mix(v + 1); }
static size_t touched = 0;
template <int N> static int fill() { app::Filler<N> f; touched += checkpoint::getSize(f); return 0; }
template <int... N> static void add(std::vector<FamOps>& v, std::integer_sequence<int, N...>) { (v.push_back(ops<N>()), ...); }
template <int... N> static void addHi(std::vector<FamOps>& v, std::integer_sequence<int, N...>) { (v.push_back(ops<N + FAM / 2>()), ...); }
template <int... N> static void fillAll(std::integer_sequence<int, N...>) { (fill<N>(), ...); }
std::vector<FamOps> const& fam() {
  static std::vector<FamOps>* v = [] {
    auto p = new std::vector<FamOps>;
    // the order of instantiation decides the order of registration
    add(*p, std::make_integer_sequence<int, FAM / 2>{});
    fillAll(std::make_integer_sequence<int, 256 - FAM / 2>{});
    addHi(*p, std::make_integer_sequence<int, FAM / 2>{});
    twinsA(*p); twinsB(*p);
    return p;
  }();
  return *v;
}
}
