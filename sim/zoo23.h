#pragma once
#include "users.h"
// A hierarchy of several hundred classes: commands of an application.
namespace app {
constexpr int CMDS = 8;          // classes before and after the others
#if defined(SIM_THREADS) || defined(SIM_RESTART) || defined(SIM_MODULES)
constexpr int OTHERS = 1;        // of each of four translation units
#else
constexpr int OTHERS = 62;
#endif
struct Cmd : checkpoint::SerializableBase<Cmd> {
  u32 id = 0;
  virtual ~Cmd() = default;
  virtual int no() const = 0;
  virtual u64 arg() const = 0;
  virtual void set(u64) = 0;
  template <typename S> void serialize(S& s) { s | id; }
};
template <int N> struct Do : checkpoint::SerializableDerived<Do<N>, Cmd> {
  u64 a = 0;
  int no() const override { return N; }
  u64 arg() const override { return a; }
  void set(u64 x) override { a = x; }
  template <typename S> void serialize(S& s) { s | a; }
};
// The classes in between are part of the hierarchy, but no object of them is ever saved: they need
// not be known to every transport (which keeps the build short).
#undef checkpoint_serializer_variadic_args
#define checkpoint_serializer_variadic_args() ::checkpoint::Sizer
template <int N> struct Other : Cmd {
  checkpoint_virtual_serialize_derived_from(Cmd)
  int no() const override { return -1; }
  u64 arg() const override { return 0; }
  void set(u64) override { }
  template <typename S> void serialize(S&) { }
};
using Make = std::unique_ptr<Cmd> (*)();
template <typename T> static std::unique_ptr<Cmd> newT() { return std::make_unique<T>(); }
template <int B, int... N> static void otherT(std::vector<Make>& v, std::integer_sequence<int, N...>) { (v.push_back(&newT<Other<B + N>>), ...); }
template <int B> static void others(std::vector<Make>& v) { otherT<B * OTHERS>(v, std::make_integer_sequence<int, OTHERS>{}); }
void others1(std::vector<Make>&); void others2(std::vector<Make>&); void others3(std::vector<Make>&);
}
