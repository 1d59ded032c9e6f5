#include "users.h"
// Objects of several pages that are more than arrays of numbers.
namespace app {
struct BigPoly {
  std::vector<double> front; std::vector<std::unique_ptr<Node>> nodes; std::vector<u64> mid; std::vector<std::unique_ptr<Shape>> shapes; std::vector<u8> back;
  template <typename S> void serialize(S& s) { s | front | nodes | mid | shapes | back; }
};
struct BigBook {
  std::map<std::string, std::string> m; std::list<std::vector<u32>> l; std::optional<std::vector<u8>> o;
  template <typename S> void serialize(S& s) { s | m | l | o; }
};
}
namespace sim {
using namespace app;
template <typename T> static void some(Gen& g, std::vector<T>& v, size_t lo, size_t more) { v.resize(lo + g.r.below(more)); for (auto& e : v) e = (T)g.r.u(); }
template <> struct FixedShape<BigPoly> : std::true_type {};
template <> struct V<BigPoly> {
  MK(BigPoly) { BigPoly x; some(g, x.front, 100, 600); x.nodes = sim::make<std::vector<std::unique_ptr<Node>>>(g); some(g, x.mid, 0, 900);
                x.shapes = sim::make<std::vector<std::unique_ptr<Shape>>>(g); some(g, x.back, 0, 5000); return x; }
  DG(BigPoly) { sim::dig(d, t.front); sim::dig(d, t.nodes); sim::dig(d, t.mid); sim::dig(d, t.shapes); sim::dig(d, t.back); }
};
template <> struct V<BigBook> {
  MK(BigBook) {
    BigBook x; size_t n = 20 + g.r.below(60);
    for (size_t i = 0; i < n; i++) x.m[std::to_string(g.r.u() % 1000)] = std::string(g.r.below(200), (char)('a' + g.r.below(26)));
    n = g.r.below(20);
    for (size_t i = 0; i < n; i++) { x.l.emplace_back(); some(g, x.l.back(), 0, 120); }
    if (g.r.chance(1, 2)) { x.o.emplace(); some(g, *x.o, 0, 9000); }
    return x;
  }
  DG(BigBook) { sim::dig(d, t.m); sim::dig(d, t.l); sim::dig(d, t.o); }
};
}
namespace {
ZOO(190, TF_POLY | TF_PROBE | TF_BIG, app::BigPoly)
ZOO(191, TF_BIG, app::BigBook)
}
