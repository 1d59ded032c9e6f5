#include "zoo23.h"
namespace app {
using Queue = std::vector<std::unique_ptr<Cmd>>;
template <int... N> static void low(std::vector<Make>& v, std::integer_sequence<int, N...>) { (v.push_back(&newT<Do<N>>), ...); }
template <int... N> static void high(std::vector<Make>& v, std::integer_sequence<int, N...>) { (v.push_back(&newT<Do<CMDS + N>>), ...); }
static std::unique_ptr<Cmd> newCmd(size_t k) {
  static std::vector<Make>* const f = [] {
    sim::Untracked u;
    auto v = new std::vector<Make>, o = new std::vector<Make>;
    low(*v, std::make_integer_sequence<int, CMDS>{});
    others<0>(*o); others1(*o); others2(*o); others3(*o);
    high(*v, std::make_integer_sequence<int, CMDS>{});
    return v;
  }();
  return (*f)[k % f->size()]();
}
struct Script { Queue q; u32 end = 0; template <typename S> void serialize(S& s) { s | q | end; } };
}
namespace sim {
using namespace app;
template <> struct V<Script> {
  MK(Script) {
    Script x; size_t n = g.fixedCount() + 1;
    for (size_t i = 0; i < n; i++) {
      auto c = newCmd((size_t)g.sz * 3 + i * 5);
      c->id = (u32)g.r.u(); c->set(g.r.u());
      x.q.push_back(std::move(c));
    }
    x.end = (u32)g.r.u();
    return x;
  }
  DG(Script) { d.add(t.q.size()); for (auto& c : t.q) { d.add((u64)c->no()); d.add(c->id); d.add(c->arg()); } d.add(t.end); }
};
}
namespace {
ZOO(230, TF_POLY, app::Script)
}
