#include "users.h"
#include <stack>
#include <thread>
#include <atomic>
// Records whose layout depends on the version of the application that saves or loads them:
// members in another order, left out, or of another type. Version 0 is the plain layout.
namespace app {
u64 g_version = 0;
constexpr int REC = 7;
struct Layout { int n = 0; int m[REC]; bool alt[REC] = {}; };
static Layout layoutOf(u64 version) {
  Layout l;
  for (int i = 0; i < REC; i++) l.m[l.n++] = i;
  if (!version) return l;
  sim::Rng r(version);
  int kind = (int)r.below(4);
  if (kind == 0 || kind == 3) { int a = (int)r.below(REC), b = (int)r.below(REC); std::swap(l.m[a], l.m[b]); }
  if (kind == 1 || kind == 3) { int k = 1 + (int)r.below(2); while (k--) { int a = (int)r.below((u64)l.n); for (int i = a; i + 1 < l.n; i++) l.m[i] = l.m[i + 1]; l.n--; } }
  if (kind == 2 || kind == 3) l.alt[r.below(REC)] = true;
  return l;
}
bool sameLayout(u64 v, u64 w) {
  Layout a = layoutOf(v), b = layoutOf(w);
  if (a.n != b.n) return false;
  for (int i = 0; i < a.n; i++) if (a.m[i] != b.m[i] || a.alt[a.m[i]] != b.alt[b.m[i]]) return false;
  return true;
}
template <typename As, typename S, typename T> void through(S& s, T& t) {   // saved as another type
  As x(t.begin(), t.end());
  s | x;
  if (s.isUnpacking()) t.assign(x.begin(), x.end());
}
template <typename As, typename S, typename T> void convert(S& s, T& t) { As x = (As)t; s | x; if (s.isUnpacking()) t = (T)x; }
struct Rec {
  int a = 0; double b = 0; std::string c; std::vector<u8> d; u32 e = 0; std::list<u64> f; std::map<u64, u32> g;
  template <typename S> void serialize(S& s) {
    Layout l = layoutOf(g_version);
    if (s.isUnpacking()) g.clear();
    for (int i = 0; i < l.n; i++) {
      bool alt = l.alt[l.m[i]];
      switch (l.m[i]) {
        case 0: if (alt) convert<i64>(s, a); else s | a; break;
        case 1: if (alt) convert<float>(s, b); else s | b; break;
        case 2: if (alt) through<std::vector<char>>(s, c); else s | c; break;
        case 3: if (alt) through<std::vector<int>>(s, d); else s | d; break;
        case 4: if (alt) convert<Wide>(s, e); else s | e; break;
        case 5: if (alt) through<std::deque<u64>>(s, f); else s | f; break;
        case 6: if (alt) { std::unordered_map<u64, u32> x(g.begin(), g.end()); s | x; if (s.isUnpacking()) g = {x.begin(), x.end()}; } else s | g; break;
      }
    }
  }
};
struct Doc {       // the records sit deep inside
  u8 kind = 0; std::vector<Rec> v; std::optional<std::pair<short, Rec>> o; std::map<int, std::vector<Rec>> m; std::unique_ptr<Rec> p; std::tuple<u8, Rec> last; u32 end = 0;
  template <typename S> void serialize(S& s) { if (s.isUnpacking()) m.clear(); s | kind | v | o | m | p | last | end; }
};
}
namespace sim {
using namespace app;
template <> struct V<Rec> {
  MK(Rec) { Rec x; x.a = sim::make<int>(g); x.b = sim::make<double>(g); x.c = sim::make<std::string>(g); x.d = sim::make<std::vector<u8>>(g); x.e = (u32)g.r.u();
            x.f = sim::make<std::list<u64>>(g); x.g = sim::make<std::map<u64, u32>>(g); return x; }
  DG(Rec) {
    Layout l = layoutOf(g_version);
    for (int i = 0; i < l.n; i++) switch (l.m[i]) {
      case 0: sim::dig(d, t.a); break; case 1: sim::dig(d, t.b); break; case 2: sim::dig(d, t.c); break; case 3: sim::dig(d, t.d); break;
      case 4: sim::dig(d, t.e); break; case 5: sim::dig(d, t.f); break; case 6: sim::dig(d, t.g); break;
    }
  }
};
template <> struct V<Doc> {
  MK(Doc) { Doc x; x.kind = (u8)g.r.u(); x.v = sim::make<std::vector<Rec>>(g); x.o = sim::make<std::optional<std::pair<short, Rec>>>(g);
            x.m = sim::make<std::map<int, std::vector<Rec>>>(g); x.p = sim::make<std::unique_ptr<Rec>>(g); x.last = sim::make<std::tuple<u8, Rec>>(g); x.end = (u32)g.r.u(); return x; }
  DG(Doc) { d.add(t.kind); sim::dig(d, t.v); sim::dig(d, t.o); sim::dig(d, t.m); sim::dig(d, t.p); sim::dig(d, t.last); d.add(t.end); }
};
}
namespace {
ZOO(192, 0, app::Rec)
ZOO(193, 0, app::Doc)
}
// Members that can only be footprinted, next to what is saved: caches rebuilt after a load.
namespace app {
struct Opaque { int x = 0; double y = 0; };
struct Cell2 { int x = 0; template <typename S> void serialize(S& s) { s | x; } };
struct Board {
  u64 seed = 0; std::string name;
  std::shared_ptr<Intr> shared; std::vector<std::shared_ptr<std::string>> parts; std::function<u64(u64)> fn; std::atomic<u64> hits{0};
  std::thread th; void* any = nullptr; FILE* file = nullptr; Opaque op;
  std::priority_queue<int> prio; std::stack<std::string> stack; std::queue<Cell2> wait;
  struct Cell1 { u64 x = 0; template <typename S> void serialize(S& s) { s | x; } };
  Cell1* ptr = nullptr;
  Board() = default;
  Board(Board&& o) { *this = std::move(o); }
  Board& operator=(Board&& o) noexcept {
    seed = o.seed; name.swap(o.name); shared.swap(o.shared); parts.swap(o.parts); fn.swap(o.fn); hits = o.hits.load(); std::swap(ptr, o.ptr); prio.swap(o.prio); stack.swap(o.stack); wait.swap(o.wait);
    any = o.any ? this : nullptr; op = o.op;
    return *this;
  }
  ~Board() { delete ptr; }
  void rebuild() {
    shared = std::make_shared<Intr>(); shared->i = (int)seed; shared->s = name; shared->v = {(int)seed, 2};
    parts.assign(seed % 3, std::make_shared<std::string>(name));
    u64 k = seed; fn = [k](u64 x) { return x ^ k; };
    hits = seed * 3;
    prio = {}; stack = {}; wait = {};
    for (u64 i = 0; i < seed % 5; i++) { prio.push((int)(seed >> i)); stack.push(name); wait.push(Cell2{(int)i}); }
    any = this; op.x = (int)seed; op.y = (double)(seed % 1000);
    if (!ptr) ptr = new Cell1;
    ptr->x = seed + 1;
  }
  template <typename S> void serialize(S& s) {
    s | seed | name;
    if constexpr (checkpoint::is_footprinter_v<S>) s | shared | parts | fn | hits | th | ptr | any | file | op | prio | stack | wait;
    if (s.isUnpacking()) rebuild();
  }
};
}
namespace sim {
using namespace app;
template <> struct V<Board> {
  MK(Board) { Board x; x.seed = g.r.u(); x.name = sim::make<std::string>(g); x.rebuild(); return x; }
  DG(Board) {
    d.add(t.seed); sim::dig(d, t.name); d.add(t.shared != nullptr);
    if (t.shared) { sim::dig(d, *t.shared); d.add((u64)t.shared.use_count()); }
    d.add(t.parts.size());
    for (auto& p : t.parts) { sim::dig(d, *p); d.add((u64)p.use_count()); }
    d.add(t.fn ? t.fn(5) : 0); d.add(t.hits); d.add(t.any == &t); d.add((u64)t.op.x); d.add((u64)t.op.y); d.add(t.ptr ? t.ptr->x : 0);
    d.add(t.prio.size()); if (!t.prio.empty()) d.add((u64)t.prio.top()); d.add(t.stack.size()); if (!t.stack.empty()) sim::dig(d, t.stack.top());
    d.add(t.wait.size()); if (!t.wait.empty()) { d.add((u64)t.wait.front().x); d.add((u64)t.wait.back().x); }
    d.add(t.file != nullptr); d.add(t.th.joinable());
  }
};
}
namespace {
ZOO(194, 0, app::Board)
ZOO(195, 0, std::list<app::Board>)
}
