#pragma once
#include "zoo.h"
namespace sim {
constexpr int FAM = 48;      // the first and the second half are 256 registrations apart
constexpr int TWINS = 8;     // then pairs of classes that share their name
constexpr int FAMALL = FAM + 2 * TWINS;
struct FamOps {
  checkpoint::SerializedReturnType (*ser)(u64 v);
  void (*load)(char* buf, u64* after);
  void (*loadIn)(char* buf, u64 before, u64* after);
  void (*fileIn)(std::string const&, u64 before, u64* after);
};
std::vector<FamOps> const& fam();
void twinsA(std::vector<FamOps>&);
void twinsB(std::vector<FamOps>&);
u64 famDigest(u64 v);
template <typename T> static FamOps opsOf() {
  FamOps o;
  o.ser = [](u64 v) { T t; t.a = (u32)mix(v); t.b = mix(v + 1); return checkpoint::serialize<T>(t); };
  o.loadIn = [](char* buf, u64 before, u64* after) {
    T t; t.a = (u32)mix(before); t.b = mix(before + 1);
    auto done = [&] { *after = t.a * 31ull + t.b; };
    try { checkpoint::deserializeInPlace<T>(buf, &t); } catch (...) { done(); throw; }
    done();
  };
  o.load = [](char* buf, u64* after) { auto p = checkpoint::deserialize<T>(buf); *after = p->a * 31ull + p->b; };
  o.fileIn = [](std::string const& f, u64 before, u64* after) {
    T t; t.a = (u32)mix(before); t.b = mix(before + 1);
    auto done = [&] { *after = t.a * 31ull + t.b; };
    try { checkpoint::deserializeInPlaceFromFile<T>(f, &t); } catch (...) { done(); throw; }
    done();
  };
  return o;
}
}
