#include <checkpoint/checkpoint.h>
#include <memory>
#include <vector>
#include <map>
#include "c13_types.h"
namespace app {
template <int N> struct Opaque { int a[N + 1]; std::unique_ptr<int> hidden; };   // no serialize()
template <int N> struct Around {
  sim::u64 v = 0; std::vector<Opaque<N>> many; Opaque<N>* one = nullptr; std::map<int, int> m;
  template <typename S> void serialize(S& s) {
    s | v | m;
    if (s.isFootprinting()) { s.countBytes(many); for (auto& o : many) s | o; }
  }
};
}
namespace sim {
template <int N> static size_t fp(u64 v) {
  app::Around<N> a;
  app::Opaque<N> o;
  { Untracked u; a.v = v; a.many.resize(v % 5); a.one = v % 3 ? &o : nullptr; for (u64 i = 0; i < v % 4; i++) a.m[(int)i] = 1; }
  size_t n = checkpoint::getMemoryFootprint(a);
  n = n * 31 + checkpoint::getMemoryFootprint(o);
  { Untracked u; a.many.clear(); a.many.shrink_to_fit(); a.m.clear(); }
  return n;
}
static OpaqueOps const ops[OPAQUE] = {{fp<0>}, {fp<1>}, {fp<2>}, {fp<3>}};
OpaqueOps const* opaque() { return ops; }
}
