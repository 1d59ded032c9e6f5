#include "users.h"
#include <queue>
// Objects of hundreds of kilobytes, in one piece or in many.
namespace app {
struct Huge {
  std::vector<u32> a; std::string b; std::vector<std::string> c; std::list<unsigned short> d; std::vector<bool> e; std::map<u32, u8> f; std::queue<u8> q; std::set<u32> s; u32 end = 0;
  template <typename S> void serialize(S& s) { s | a | b | c | d | e | f | q | this->s | end; }
};
// Objects that end exactly at, just before or just after a page or block boundary.
struct Exact {
  std::string b;
  template <typename S> void serialize(S& s) { s | b; }
};
}
namespace sim {
using namespace app;
template <> struct V<Huge> {
  MK(Huge) {
    Huge x;
    size_t n = 65000 + g.r.below(g.r.chance(1, 3) ? g.r.chance(1, 4) ? 500000 : 200000 : 1200);
    switch (g.r.below(7)) {
      case 0: x.a.resize(n); for (auto& e : x.a) e = (u32)g.r.u(); break;
      case 1: x.b.resize(n); for (auto& e : x.b) e = (char)g.r.u(); break;
      case 2: x.c.resize(n / 8); for (auto& e : x.c) e.assign(g.r.below(24), (char)g.r.u()); break;
      case 3: n = 65530 + g.r.below(20); for (size_t i = 0; i < n; i++) x.d.push_back((unsigned short)i); break;
      case 4: x.e.resize(n); for (size_t i = 0; i < n; i++) x.e[i] = g.r.chance(1, 2); break;
      case 6: n = 65530 + g.r.below(20); for (size_t i = 0; i < n; i++) x.q.push((u8)i); for (size_t i = 0; i < n; i++) x.s.insert(x.s.end(), (u32)i * 3); break;
      case 5: n = 4000 + g.r.below(9000); for (size_t i = 0; i < n; i++) x.f[(u32)g.r.u()] = (u8)i; break;
    }
    x.end = (u32)g.r.u();
    return x;
  }
  DG(Huge) { sim::dig(d, t.a); sim::dig(d, t.b); sim::dig(d, t.c); sim::dig(d, t.d); sim::dig(d, t.e); sim::dig(d, t.f); sim::dig(d, t.q); sim::dig(d, t.s); d.add(t.end); }
};
template <> struct V<Exact> {
  MK(Exact) {
    Exact x;
#ifdef SERIALIZATION_ERROR_CHECKING
    size_t const over = 56;        // bytes that are not of the string; only aims, nothing depends on it
#else
    size_t const over = 20;
#endif
    static size_t const at[] = {4096, 4096, 8192, 12288, 65536, 64, 128, 256, 512, 1024, 2048};
    size_t n = at[g.r.below(sizeof at / sizeof *at)];
    static int const off[] = {0, 0, 0, -1, 1, -8, 8};
    n = n + (size_t)(i64)off[g.r.below(7)] - over;
    x.b.assign(n, '\0');
    switch (g.r.below(4)) {
      case 0: break;                                                          // all zero
      case 1: for (size_t i = 0; i < n / 2; i++) x.b[i] = (char)g.r.u(); break;   // a zero tail
      case 2: for (size_t i = n / 2; i < n; i++) x.b[i] = (char)g.r.u(); break;
      default: for (auto& c : x.b) c = (char)g.r.u();
    }
    return x;
  }
  DG(Exact) { sim::dig(d, t.b); }
};
}
namespace {
ZOO(204, TF_BIG, app::Exact)
ZOO(203, TF_BIG | TF_HUGE, app::Huge)
}
