// Classes that share their name with those of another translation unit. No include guard.
#include "rt.h"
#include "fam.h"
namespace app { namespace {
template <int N> struct Unit {
  sim::u32 a = 0; sim::u64 b = 0;
  template <typename S> void serialize(S& s) { s | a | b; }
};
struct Plain { sim::u32 a = 0; sim::u64 b = 0; };
template <typename S> void serialize(S& s, Plain& p) { s | p.a | p.b; }
template <int... N> void addUnits(std::vector<sim::FamOps>& v, std::integer_sequence<int, N...>) { (v.push_back(sim::opsOf<Unit<N>>()), ...); }
void twins(std::vector<sim::FamOps>& v) {
  addUnits(v, std::make_integer_sequence<int, sim::TWINS - 1>{});
  v.push_back(sim::opsOf<Plain>());
}
}}
