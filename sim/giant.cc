#include "giant.h"
#include "fs.h"
#include <checkpoint/checkpoint.h>
#include <istream>
#include <memory>
#include <ostream>
#include <streambuf>

namespace sim::giant {
namespace {
constexpr u8 MID = 0x5A;
constexpr size_t EDGE = 64 << 10;
}
// ------------------------------------------------------------------ objects
template <typename T> struct GA {
  using value_type = T;
  GA() = default;
  template <typename U> GA(GA<U> const&) {}
  T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, size_t) { ::operator delete(p); }
  template <typename U> void construct(U*) {}              // fresh memory is good enough
  template <typename U> void construct(U* p, U const& v) { *p = v; }
  template <typename U> void destroy(U*) {}
  bool operator==(GA const&) const { return true; }
  bool operator!=(GA const&) const { return false; }
};
template <typename T> struct Giant {
  u64 tag = 0;
  std::vector<T, GA<T>> v;
  std::string name;
  template <typename S> void serialize(S& s) { s | tag | v | name; }
};
template <typename T> static size_t count(int how) {
  // just beyond 2^32 bytes, beyond 2^32 by more than the rest of the object, or beyond 2^31
  return (how == 0 ? (1ull << 32) + 77 * 8 : how == 1 ? (1ull << 32) + (5ull << 20) + 24 : (1ull << 31) + 4096 * 3 + 8) / sizeof(T);
}
static u8 edge(u64 seed, size_t i) { return (u8)mix(seed * 1315423911u + i / 8) >> (i % 8); }
template <typename T> static void fill(Giant<T>& g, int how, u64 seed) {
  g.tag = mix(seed);
  g.name = "giant " + std::to_string(seed);
  g.v.resize(count<T>(how));
  u8* p = (u8*)g.v.data();
  size_t n = g.v.size() * sizeof(T);
  memset(p, MID, 3 * BLK);
  memset(p + n - 3 * BLK, MID, 3 * BLK);
  for (size_t i = 0; i < EDGE; i++) { p[i] = edge(seed, i); p[n - 1 - i] = edge(seed + 1, i); }
}
template <typename T> static void verify(Giant<T> const& g, int how, u64 seed, char const* what) {
  if (g.v.size() != count<T>(how)) violation("giant-differs", "%s: an array of %zu elements came back with %zu", what, count<T>(how), g.v.size());
  if (g.tag != mix(seed) || g.name != "giant " + std::to_string(seed)) violation("giant-differs", "%s: a member beside an array of 2^31 bytes or more changed", what);
  u8 const* p = (u8 const*)g.v.data();
  size_t n = g.v.size() * sizeof(T);
  bool ok = true;
  for (size_t i = 0; i < EDGE && ok; i++) ok = p[i] == edge(seed, i) && p[n - 1 - i] == edge(seed + 1, i);
  for (size_t i = EDGE; i < 2 * BLK && ok; i++) ok = p[i] == MID;
  for (size_t i = EDGE; i < 2 * BLK && ok; i++) ok = p[n - 1 - i] == MID;
  if (!ok) violation("giant-differs", "%s: the content of an array of %zu bytes changed", what, n);
}

// ------------------------------------------------------------------ streams
struct Device : std::streambuf {
  u64 total = 0, limit = ~0ull, rd = 0;
  std::vector<u8> head, tail;              // first and last EDGE*2 bytes; all others are MID
  static constexpr size_t KEEP = 2 * EDGE;
  bool bad = false;
  void put(char const* p, size_t n) {
    size_t h = std::min(n, KEEP > head.size() ? KEEP - head.size() : 0);
    head.insert(head.end(), p, p + h);
    if (n >= KEEP) tail.assign(p + n - KEEP, p + n);
    else { tail.insert(tail.end(), p, p + n); if (tail.size() > KEEP) tail.erase(tail.begin(), tail.end() - KEEP); }
    total += n;
  }
  std::streamsize xsputn(char const* p, std::streamsize n) override {
    if (n < 0) { bad = true; return 0; }
    put(p, (size_t)n);
    return n;
  }
  int_type overflow(int_type c) override { if (c == traits_type::eof()) return 0; char x = (char)c; put(&x, 1); return c; }
  std::streamsize xsgetn(char* p, std::streamsize n) override {
    if (n < 0) { bad = true; return 0; }
    u64 avail = std::min(limit, total) - rd, m = std::min<u64>(avail, (u64)n), i = 0;
    for (; i < m && rd + i < head.size(); i++) p[i] = (char)head[rd + i];
    u64 t0 = total - tail.size();
    if (rd + i < t0) { u64 k = std::min(m - i, t0 - (rd + i)); memset(p + i, MID, k); i += k; }
    for (; i < m; i++) p[i] = (char)tail[rd + i - t0];
    rd += m;
    return (std::streamsize)m;
  }
  char one;
  int_type underflow() override {
    if (rd >= std::min(limit, total)) return traits_type::eof();
    if (xsgetn(&one, 1) != 1) return traits_type::eof();
    setg(&one, &one, &one + 1);
    return (unsigned char)one;
  }
};

// --------------------------------------------------------------------- runs
static char const* const kinds[] = {"buffer", "callback", "file", "short file", "stream", "short stream", "file in place"};
bool has(std::string const& p) { return p == "C01" || p == "C02" || p == "C03" || p == "C04" || p == "C05" || p == "C06" || p == "C07" || p == "C10" || p == "C11" || p == "C15"; }
void gen(Plan& p, Rng& r) {
  auto add = [&](int k) { p.step("giant").set("k", k).set("n", (i64)r.below(3)).set("w", (i64)r.below(2)).set("vs", (i64)r.below(1000)).set("cut", (i64)(1 + (r.below(2) ? r.below(60) : r.logu(1ull << 30)))); };
  std::string const& id = p.prop;
  if (id == "C01" || id == "C02" || id == "C03") add(2);
  else if (id == "C04") { add(3); }
  else if (id == "C05") add(4);
  else if (id == "C06") add(5);
  else if (id == "C07") { add(0); add(1); add(4); add(2); }
  else if (id == "C10") add(0);
  else if (id == "C11") add(6);
  else { add(1); }
}

template <typename T> static void one(Step const& st) {
  int k = (int)st.get("k"), how = (int)st.get("n");
  u64 seed = (u64)st.get("vs");
  char const* w = kinds[k];
  Giant<T> x;
  fill(x, how, seed);
  size_t raw = x.v.size() * sizeof(T);
  auto size = checkpoint::getSize(x);
  if (size < raw) violation("giant-size", "an object with %zu bytes of data has a reported size of %zu", raw, (size_t)size);
  ev(0x61A27, size);
  auto loaded = [&](Giant<T>* y) { verify(*y, how, seed, w); };
  auto clean = [&] {
    if (file.fd != -1) violation("giant-leak", "%s: the descriptor of the file is still open", w);
    if (file.mapped) violation("giant-leak", "%s: the file is still mapped", w);
  };
  auto saveFile = [&] {
    file = File{};
    checkpoint::serializeToFile(x, "simfs/giant");
    clean();
    if (file.size != size) violation("giant-size", "a file of %llu bytes was written for an object of %zu", (unsigned long long)file.size, (size_t)size);
    if (file.synced < file.size || file.durable != file.size) violation("giant-lost", "saving to a file returned before all of it was durable");
  };
  auto fails = [&](auto f) {
    bool thrown = false;
    try { f(); } catch (std::exception const&) { thrown = true; }
    if (!thrown) violation("giant-short", "%s: the end of an object is missing, but loading it succeeded", w);
  };
  u64 cut = std::min<u64>((u64)st.get("cut", 1), size - 1);
  if (k == 0) {
    auto r = checkpoint::serialize(x);
    if (r->getSize() != size) violation("giant-size", "a buffer of %zu bytes was returned for an object of %zu", (size_t)r->getSize(), (size_t)size);
    std::unique_ptr<Giant<T>> y(checkpoint::deserialize<Giant<T>>(r->getBuffer()));
    loaded(y.get());
  } else if (k == 1) {
    char* mem = nullptr; u64 asked = 0; int calls = 0;
    checkpoint::serialize(x, [&](std::size_t n) { asked = n; calls++; mem = (char*)alloc(std::max<size_t>(n, size)); return mem; });
    if (calls != 1 || asked != size) violation("giant-size", "the allocation callback was asked for %llu bytes for an object of %zu", (unsigned long long)asked, (size_t)size);
    Giant<T> y; y.name = "before";
    checkpoint::deserializeInPlace<Giant<T>>(mem, &y);
    loaded(&y);
    free(mem);
  } else if (k == 2) {
    saveFile();
    auto y = checkpoint::deserializeFromFile<Giant<T>>("simfs/giant");
    clean();
    loaded(y.get());
  } else if (k == 6) {
    saveFile();
    Giant<T> y; y.v.resize(100); y.name = "before";
    checkpoint::deserializeInPlaceFromFile<Giant<T>>("simfs/giant", &y);
    clean();
    loaded(&y);
  } else if (k == 3) {
    saveFile();
    file.size -= cut;
    fails([&] { auto y = checkpoint::deserializeFromFile<Giant<T>>("simfs/giant"); });
    clean();
  } else {
    Device d;
    std::ostream os(&d);
    checkpoint::serializeToStream(x, os);
    if (!os || d.bad) violation("giant-size", "saving to a stream failed although the device takes everything");
    if (d.total != size) violation("giant-size", "%llu bytes were written to a stream for an object of %zu", (unsigned long long)d.total, (size_t)size);
    std::istream is(&d);
    if (k == 5) {
      d.limit = size - cut;
      fails([&] { auto y = checkpoint::deserializeFromStream<Giant<T>>(is); });
    } else {
      auto y = checkpoint::deserializeFromStream<Giant<T>>(is);
      if (d.rd != d.total) violation("giant-size", "loading consumed %llu of %llu bytes", (unsigned long long)d.rd, (unsigned long long)d.total);
      loaded(y.get());
    }
  }
}

void run(Plan const& p) {
  if (!available()) { stat("giant_unavailable"); return; }
  for (auto& st : p.steps) {
    if (st.op != "giant" || st.get("k") < 0 || st.get("k") > 6) continue;
    W.step = (int)(&st - p.steps.data()); W.cur = &st; W.armed = true;
    shape(0x61A27, (u64)st.get("k") * 16 + (u64)st.get("n") * 2 + (u64)st.get("w"));
    on = true;
    try {
      if (st.get("w")) one<u64>(st); else one<u8>(st);
    } catch (std::exception const& e) {
      violation("giant-fails", "%s: an operation on an object of more than 2^31 bytes failed: %s", kinds[st.get("k")], e.what());
    }
    if (!regions.empty() && !(regions.size() == 1 && regions[0].p == file.base)) violation("giant-leak", "%s: memory of the operation was not released", kinds[st.get("k")]);
    stat("giant_objects");
    W.nontrivial = true;
    reset();
  }
}
}
