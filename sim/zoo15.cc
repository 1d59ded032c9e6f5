// The other class named Part: see zoo14.cc
#include "users.h"
namespace app { namespace {
struct Part : checkpoint::SerializableDerived<Part, Poly> {
  std::vector<std::string> names; Probe pr;
  int kind() const override { return 6; }
  void digestTo(Dig& d) const override { Poly::digestTo(d); sim::dig(d, names); d.add(pr.val); }
  template <typename S> void serialize(S& s) { level(s, 10); s | names | pr; }
};
}
std::unique_ptr<Shape> makePartB(Gen& g) {
  auto p = std::make_unique<Part>();
  p->m = sim::make<std::map<int, std::string>>(g); p->names = sim::make<std::vector<std::string>>(g); p->pr = Probe(g.r.u());
  return p;
}
}
