#include "users.h"
#include <sstream>
// User code that calls the library again while the library is calling it: members kept as
// checkpoints of their own inside the outer one, over another transport.
namespace app {
template <typename T, int How> struct Envelope {
  u8 tag = 0; T inner{}; u32 end = 0;
  std::vector<char> packed() {
    std::vector<char> blob;
    if constexpr (How == 0) {
      auto r = checkpoint::serialize(inner);
      blob.assign(r->getBuffer(), r->getBuffer() + r->getSize());
    } else if constexpr (How == 1) {
      checkpoint::serialize(inner, [&](std::size_t n) { blob.resize(n); return blob.data(); });
    } else {
      std::ostringstream os;
      os.exceptions(std::ios::badbit);
      checkpoint::serializeToStream(inner, os);
      auto s = os.str();
      blob.assign(s.begin(), s.end());
    }
    return blob;
  }
  void unpacked(std::vector<char>& blob) {
    if constexpr (How == 0) inner = std::move(*checkpoint::deserialize<T>(blob.data()));
    else if constexpr (How == 1) { T fresh{}; checkpoint::deserializeInPlace<T>(blob.data(), &fresh); inner = std::move(fresh); }
    else { std::istringstream is(std::string(blob.begin(), blob.end())); is.exceptions(std::ios::badbit); inner = std::move(*checkpoint::deserializeFromStream<T>(is)); }
  }
  template <typename S> void serialize(S& s) {
    s | tag;
    if (s.isFootprinting()) s | inner;
    else if (s.isUnpacking()) { std::vector<char> blob; s | blob; unpacked(blob); }
    else { auto blob = packed(); s | blob; }
    s | end;
  }
};
struct Journal {      // every save writes one member to a file of its own first
  std::map<u8, std::string> m; Probe p; std::vector<u32> v;
  template <typename S> void serialize(S& s) {
    if (s.isPacking()) checkpoint::serializeToFile(m, "simfs/journal");
    s | m | p | v;
  }
};
using Env0 = Envelope<std::vector<std::string>, 0>;
using Env1 = Envelope<std::map<u8, Probe>, 1>;
using Env2 = Envelope<std::list<std::pair<short, std::string>>, 2>;
using EnvP = Envelope<std::unique_ptr<Shape>, 0>;
using EnvN = Envelope<Envelope<std::vector<Probe>, 1>, 2>;
using EnvV = Envelope<std::vector<Envelope<std::string, 0>>, 1>;
}
namespace sim {
using namespace app;
template <typename T, int How> struct V<Envelope<T, How>> {
  static Envelope<T, How> make(Gen& g) { Envelope<T, How> x; x.tag = (u8)g.r.u(); x.inner = sim::make<T>(g); x.end = (u32)g.r.u(); return x; }
  static void dig(Dig& d, Envelope<T, How> const& t) { d.add(t.tag); sim::dig<T>(d, t.inner); d.add(t.end); }
};
template <> struct V<Journal> {
  MK(Journal) { Journal x; x.m = sim::make<std::map<u8, std::string>>(g); x.p = Probe(g.r.u()); x.v = sim::make<std::vector<u32>>(g); return x; }
  DG(Journal) { sim::dig(d, t.m); d.add(t.p.val); sim::dig(d, t.v); }
};
}
namespace {
ZOO(210, TF_RECURSIVE, app::Env0)
ZOO(211, TF_RECURSIVE | TF_PROBE, app::Env1)
ZOO(212, TF_RECURSIVE, app::Env2)
ZOO(213, TF_RECURSIVE | TF_PROBE, app::EnvP)
ZOO(214, TF_RECURSIVE | TF_PROBE, app::EnvN)
ZOO(215, TF_RECURSIVE, app::EnvV)
ZOO(216, TF_HUGE | TF_PROBE, app::Journal)
}
