#include "users.h"
#include <variant>
#include <queue>
// Objects that contain objects of their own type through every kind of container.
namespace app {
struct Dir {
  std::string name; Probe p; std::map<u8, Dir> sub; std::multimap<short, Dir> old;
  template <typename S> void serialize(S& s) { s | name | sub | p | old; }
};
struct Menu {
  Menu() = default; Menu(Menu&&) = default; Menu& operator=(Menu&&) = default;
  u32 id = 0; std::list<std::unique_ptr<Menu>> items; std::unordered_map<u8, std::unique_ptr<Menu>> keys; Probe p;
  template <typename S> void serialize(S& s) { s | id | items | keys | p; }
};
struct Expr {
  Expr() = default; Expr(Expr&&) = default; Expr& operator=(Expr&&) = default;
  u8 op = 0; std::variant<int, std::string, std::unique_ptr<Expr>, std::vector<Expr>> arg; std::tuple<bool, std::unique_ptr<Expr>> next{};
  template <typename S> void serialize(S& s) { s | op | arg | next; }
};
struct Stage {
  std::string n; std::queue<Stage> q;
  template <typename S> void serialize(S& s) { s | n | q; }
};
struct Bag {
  u8 k = 0; std::set<Bag> in; std::multiset<Bag> more;
  bool operator<(Bag const& o) const { return k < o.k; }
  template <typename S> void serialize(S& s) { s | k | in | more; }
};
struct Chain { u32 v = 0; std::deque<Chain> d; std::tuple<u8, std::list<Chain>> t;
  template <typename S> void serialize(S& s) { s | v | d | t; }
};
}
namespace sim {
using namespace app;
template <> struct V<Dir> {
  MK(Dir) { Dir x; x.name = sim::make<std::string>(g); x.p = Probe(g.r.u()); if (g.depth < 3) { x.sub = sim::make<std::map<u8, Dir>>(g); if (g.depth < 1 || g.r.chance(1, 4)) x.old = sim::make<std::multimap<short, Dir>>(g); } return x; }
  DG(Dir) { sim::dig(d, t.name); t.p.check(); d.add(t.p.val); sim::dig(d, t.sub); sim::dig(d, t.old); }
};
template <> struct V<Menu> {
  MK(Menu) { Menu x; x.id = (u32)g.r.u(); x.p = Probe(g.r.u()); if (g.depth < 4) { if (g.r.chance(1, 2)) x.items = sim::make<std::list<std::unique_ptr<Menu>>>(g); else x.keys = sim::make<std::unordered_map<u8, std::unique_ptr<Menu>>>(g); } return x; }
  DG(Menu) { d.add(t.id); t.p.check(); d.add(t.p.val); sim::dig(d, t.items); sim::dig(d, t.keys); }
};
template <> struct V<Expr> {
  MK(Expr) {
    Expr x; x.op = (u8)g.r.u();
    Deeper deeper(g);
    switch (g.depth < 6 ? g.r.below(4) : g.r.below(2)) {
      case 0: x.arg = sim::make<int>(g); break;
      case 1: x.arg = sim::make<std::string>(g); break;
      case 2: x.arg = std::make_unique<Expr>(make(g)); break;
      default: { std::vector<Expr> v(g.r.below(4)); for (auto& e : v) e = make(g); x.arg = std::move(v); }
    }
    if (g.depth < 5 && g.r.chance(1, 3)) std::get<1>(x.next) = std::make_unique<Expr>(make(g));
    return x;
  }
  DG(Expr) {
    d.add(t.op); d.add(t.arg.index());
    switch (t.arg.index()) {
      case 0: d.add((u64)std::get<0>(t.arg)); break;
      case 1: sim::dig(d, std::get<1>(t.arg)); break;
      case 2: d.add(std::get<2>(t.arg) != nullptr); if (std::get<2>(t.arg)) dig(d, *std::get<2>(t.arg)); break;
      default: sim::dig(d, std::get<3>(t.arg));
    }
    auto& n = std::get<1>(t.next); d.add(n != nullptr); if (n) dig(d, *n);
  }
};
template <> struct V<Stage> {
  MK(Stage) { Stage x; x.n = sim::make<std::string>(g); if (g.depth < 4) { Deeper deeper(g); size_t n = g.r.below(4); while (n--) x.q.push(make(g)); } return x; }
  DG(Stage) { sim::dig(d, t.n); auto q = t.q; d.add(q.size()); while (!q.empty()) { dig(d, q.front()); q.pop(); } }
};
template <> struct V<Bag> {
  MK(Bag) { Bag x; x.k = (u8)g.r.u(); if (g.depth < 4) { Deeper deeper(g); size_t n = g.r.below(4); while (n--) x.in.insert(make(g)); n = g.r.below(3); while (n--) { auto b = make(g); b.k &= 3; x.more.insert(std::move(b)); } } return x; }
  DG(Bag) { d.add(t.k); d.add(t.in.size()); for (auto& b : t.in) dig(d, b); d.add(t.more.size()); for (auto& b : t.more) dig(d, b); }
};
template <> struct V<Chain> {
  MK(Chain) { Chain x; x.v = (u32)g.r.u(); if (g.depth < 4) { Deeper deeper(g); size_t n = g.r.below(3); while (n--) x.d.push_back(make(g)); n = g.r.below(3); while (n--) std::get<1>(x.t).push_back(make(g)); } std::get<0>(x.t) = (u8)g.r.u(); return x; }
  DG(Chain) { d.add(t.v); d.add(t.d.size()); for (auto& c : t.d) dig(d, c); d.add(std::get<0>(t.t)); d.add(std::get<1>(t.t).size()); for (auto& c : std::get<1>(t.t)) dig(d, c); }
};
}
namespace {
ZOO(220, TF_RECURSIVE | TF_PROBE, app::Dir)
ZOO(221, TF_RECURSIVE | TF_PROBE, app::Menu)
ZOO(222, TF_RECURSIVE, app::Expr)
ZOO(223, TF_RECURSIVE, app::Stage)
ZOO(224, TF_RECURSIVE, app::Bag)
ZOO(225, TF_RECURSIVE, app::Chain)
ZOO(226, TF_RECURSIVE | TF_PROBE, std::list<app::Menu>)
ZOO(227, TF_RECURSIVE | TF_PROBE, std::queue<app::Dir>)
}
