#include "users.h"
#include <array>
#include <optional>
#include <variant>
// All the ways of asking for a plain byte copy, and of opting out of one again.
namespace app {
struct Rgb {                       // opted in from outside of the class
  u8 c[3] = {0, 0, 0};
  bool operator<(Rgb const& o) const { return memcmp(c, o.c, 3) < 0; }
};
struct Point3 : checkpoint::SerdesByteCopy { u32 x = 0, y = 0, z = 0; };   // opted in by its base
struct Label : Point3 {            // derived from a byte copied class, not itself one
  using isByteCopyable = std::false_type;
  std::string text;
  template <typename S> void serialize(S& s) { s | static_cast<Point3&>(*this) | text; }
};
enum Level { L0, L1 = 7, L2 = 300 };
enum class Span : long long { Lo = -5, Hi = (1ll << 40) };
enum class Toggle : bool { Off, On };
struct Palette {                   // C arrays and enumerations as members
  Rgb rgb[4]; Level k = L0; Span w[2] = {Span::Lo, Span::Hi}; Toggle f = Toggle::Off; std::string names[2]; char text[9] = {};
  template <typename S> void serialize(S& s) {
    checkpoint::dispatch::serializeArray(s, rgb, 4);
    s | k;
    for (auto& e : w) s | e;
    s | f;
    checkpoint::dispatch::serializeArray(s, names, 2);
    checkpoint::dispatch::serializeArray(s, text, 9);
  }
};
}
namespace checkpoint {
template <> struct ByteCopyNonIntrusive<app::Rgb> { using isByteCopyable = std::true_type; };
}
namespace sim {
using namespace app;
template <> struct V<Rgb> {
  MK(Rgb) { Rgb x; for (auto& e : x.c) e = (u8)g.r.u(); return x; }
  DG(Rgb) { d.bytes(t.c, 3); }
};
template <> struct V<Point3> {
  MK(Point3) { Point3 x; x.x = (u32)g.r.u(); x.y = (u32)g.r.u(); x.z = (u32)g.r.u(); return x; }
  DG(Point3) { d.add(t.x); d.add(t.y); d.add(t.z); }
};
template <> struct V<Label> {
  MK(Label) { Label x; static_cast<Point3&>(x) = sim::make<Point3>(g); x.text = sim::make<std::string>(g); return x; }
  DG(Label) { sim::dig<Point3>(d, t); sim::dig(d, t.text); }
};
template <> struct V<Level> { MK(Level) { Level o[] = {L0, L1, L2}; return o[g.r.below(3)]; } DG(Level) { d.add((u64)t); } };
template <> struct V<Span> { MK(Span) { return g.r.below(2) ? Span::Lo : Span::Hi; } DG(Span) { d.add((u64)t); } };
template <> struct V<Toggle> { MK(Toggle) { return g.r.below(2) ? Toggle::On : Toggle::Off; } DG(Toggle) { d.add((u64)t); } };
template <> struct V<Palette> {
  MK(Palette) {
    Palette x; for (auto& e : x.rgb) e = sim::make<Rgb>(g); x.k = sim::make<Level>(g);
    for (auto& e : x.w) e = sim::make<Span>(g); x.f = sim::make<Toggle>(g);
    for (auto& e : x.names) e = sim::make<std::string>(g); for (auto& e : x.text) e = (char)g.r.u();
    return x;
  }
  DG(Palette) {
    for (auto& e : t.rgb) sim::dig(d, e); sim::dig(d, t.k); for (auto& e : t.w) sim::dig(d, e);
    sim::dig(d, t.f); for (auto& e : t.names) sim::dig(d, e); d.bytes(t.text, 9);
  }
};
}
namespace {
using namespace app;
ZOO(231, 0, std::vector<Rgb>)
ZOO(232, 0, std::map<Rgb, std::optional<Point3>>)
ZOO(233, 0, std::vector<Label>)
ZOO(234, 0, std::variant<Rgb, Toggle, sim::u8>)
ZOO(235, 0, std::list<Palette>)
ZOO(236, 0, std::tuple<Level, Span, Toggle, Label, std::array<Rgb, 3>>)
ZOO(237, 0, std::unordered_map<sim::u32, Label>)
ZOO(238, 0, std::deque<std::pair<Rgb, std::vector<Span>>>)
}
