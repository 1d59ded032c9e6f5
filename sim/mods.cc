// One dynamically loaded module of the simulated application; MOD selects which.  The modules
// define different classes of the same hierarchies and use transports in different orders.
#include "mods.h"
#include <sstream>
namespace modapp {
namespace {
#if MOD == 1 || MOD == 4 || MOD == 6
// modules may use the same name for classes of their own
struct Part : checkpoint::SerializableDerived<Part, PBase> {
#if MOD == 1
  u32 x = 0;
#elif MOD == 4
  std::vector<std::string> x;
#else
  std::string x;
#endif
  int kind() const override { return 30 + MOD; }
  void digestTo(Dig& d) const override { PBase::digestTo(d); want(10 + MOD - MOD / 4 * 2); sim::dig(d, x); }
  template <typename S> void serialize(S& s) { level(s, 10 + MOD - MOD / 4 * 2); s | x; }
};
void* mkPart(Gen& g) { auto p = new Part; p->fill(g); p->x = sim::make<decltype(p->x)>(g); return static_cast<PBase*>(p); }
#endif
#if MOD == 1      // streams first, base class only
__attribute__((used)) void firstUse(std::istream& is, std::ostream& os) {
  auto p = checkpoint::deserializeFromStream<std::unique_ptr<PBase>, std::istream>(is);
  checkpoint::serializeToStream<std::unique_ptr<PBase>, std::ostream>(*p, os);
}
ZOO(200, TF_POLY | TF_PROBE, std::unique_ptr<PBase>)
ZOO(201, TF_POLY | TF_PROBE, std::vector<std::unique_ptr<PBase>>)
bool const reg = (add(KP, 0, mkPA), add(KP, 3, mkPart), true);
#elif MOD == 2    // files first, most derived class
__attribute__((used)) void firstUse(RawHolder<PBase>& h) {
  h = std::move(*checkpoint::deserializeFromFile<RawHolder<PBase>>("none"));
  checkpoint::serializeToFile(h, "none");
}
ZOO(205, TF_POLY | TF_PROBE, RawHolder<PBase>)
bool const reg = (add(KP, 1, mkPB), true);
#elif MOD == 3    // memory first, by value
__attribute__((used)) void firstUse(QLeaf& q, char* b) {
  auto p = checkpoint::deserialize<QLeaf>(b);
  checkpoint::serialize(q);
}
ZOO(210, TF_POLY | TF_PROBE, std::unique_ptr<QRoot>)
ZOO(211, TF_PROBE, QLeaf)
ZOO(212, TF_PROBE, std::vector<QRoot>)
bool const reg = (add(KQ, 0, mkQRoot), add(KQ, 1, mkQLeaf), true);
#elif MOD == 4    // footprints first, derived classes of two hierarchies
__attribute__((used)) size_t firstUse(QDeep& q, PC& c) { return checkpoint::getMemoryFootprint(q) + checkpoint::getSize(c); }
ZOO(215, TF_POLY | TF_PROBE, RawHolder<QRoot>)
ZOO(216, TF_POLY | TF_PROBE, std::vector<std::unique_ptr<QRoot>>)
bool const reg = (add(KP, 2, mkPC), add(KP, 4, mkPart), add(KQ, 2, mkQDeep), true);
#elif MOD == 5    // mixes hierarchies; in place from a caller's buffer first
__attribute__((used)) void firstUse(Mixed& m, char* b) {
  checkpoint::deserializeInPlace<Mixed>(b, &m);
  checkpoint::serialize(m, [=](std::size_t) { return b; });
}
ZOO(220, TF_POLY | TF_PROBE, std::unique_ptr<R0>)
ZOO(221, TF_POLY | TF_PROBE, Mixed)
bool const reg = (add(KR, 0, mkR3), true);
#elif MOD == 6    // the same types as others, used in another order
__attribute__((used)) void firstUse(std::istream& is, QRoot& q, PBase* p, std::string const& f) {
  checkpoint::deserializeInPlaceFromStream<QRoot, std::istream>(is, &q);
  RawHolder<PBase> h; h.p = p;
  checkpoint::getMemoryFootprint(h);
  checkpoint::deserializeInPlaceFromFile<RawHolder<PBase>>(f, &h);
  h.p = nullptr;
}
ZOO(225, TF_POLY | TF_PROBE, RawHolder<R0>)
ZOO(226, TF_POLY | TF_PROBE, std::unique_ptr<QRoot>)
ZOO(227, TF_POLY | TF_PROBE, std::unique_ptr<PBase>)
bool const reg = (add(KR, 1, mkR0), add(KR, 2, mkR2), add(KP, 0, mkPA), add(KP, 5, mkPart), add(KQ, 0, mkQRoot), true);
#endif
}
} // namespace modapp
