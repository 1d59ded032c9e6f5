// Two classes of one hierarchy that share their name: see zoo15.cc
#include "users.h"
namespace app { namespace {
struct Part : checkpoint::SerializableDerived<Part, Shape> {
  std::uint16_t no = 0;
  int kind() const override { return 5; }
  void digestTo(Dig& d) const override { Shape::digestTo(d); d.add(no); }
  template <typename S> void serialize(S& s) { level(s, 9); s | no; }
};
}
std::unique_ptr<Shape> makePartA(Gen& g) { auto p = std::make_unique<Part>(); p->no = (std::uint16_t)g.r.u(); return p; }
}
