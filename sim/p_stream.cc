// C05, C06: sequences of objects on streams.
#include "rt.h"
#include <sstream>

namespace sim {

// A bidirectional stream over a simulated device, or a std::stringstream.
struct Channel {
  std::unique_ptr<SimStreambuf> sb;
  std::unique_ptr<std::iostream> io;
  std::stringstream* ss = nullptr;
  Channel(i64 kind, u64 seed, i64 chunk, bool readSide) {
    if (kind == 1) {
      ss = new std::stringstream(std::ios::in | std::ios::out | std::ios::binary);
      io.reset(ss);
    } else {
      sb = std::make_unique<SimStreambuf>(seed, (size_t)chunk, readSide);
      io = std::move(StreamFor(sb.get(), seed & 1).s);
    }
  }
  size_t produced() { return sb ? sb->produced() : (size_t)ss->tellp(); }
  size_t consumed() { return sb ? sb->consumed() : (size_t)ss->tellg(); }
  void flush() { io->flush(); }
  Bytes all() { if (sb) { io->flush(); return sb->data; } auto s = ss->str(); return Bytes(s.begin(), s.end()); }
};

void genC05(Plan& p, Rng& r) {
  p.setKnob("kind", r.chance(1, 5) ? 1 : 0);
  p.setKnob("chunk", r.chance(1, 4) ? 0 : (i64)r.logu(300));
  p.setKnob("seed", (i64)(r.u() >> 1));
  p.setKnob("ex", r.chance(1, 4) ? (i64)(std::ios::badbit | std::ios::failbit) : 0);
  int n = 2 + (int)r.below(12), pending = 0;
  if (r.chance(1, 2)) { p.step("raw").set("n", (i64)r.below(40)).set("v", (i64)(r.u() >> 1)); pending++; }
  bool inter = r.chance(1, 2);
  for (int i = 0; i < n; i++) {
    if (inter && pending && r.chance(1, 3)) { p.step("get").set("in", (i64)r.below(3)).set("v", (i64)(r.u() >> 1)); pending--; continue; }
    if (r.chance(1, 4)) p.step("raw").set("n", (i64)r.below(40)).set("v", (i64)(r.u() >> 1));
    else {
      int ty = r.chance(1, 12) ? pickType(r, 0, TF_BIG) : pickType(r);
      p.step("put").set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty)));
    }
    pending++;
  }
  while (pending--) p.step("get").set("in", (i64)r.below(3)).set("v", (i64)(r.u() >> 1));
}

void runC05(Plan const& p) {
  Channel ch(p.knob("kind"), (u64)p.knob("seed"), p.knob("chunk"), true);
  if (p.knob("ex")) ch.io->exceptions((std::ios::iostate)p.knob("ex"));
  if (p.knob("kind") == 0) W.nontrivial = true;
  shape(0xC4, (u64)p.knob("chunk"));
  struct Item { int t; u64 want; size_t size; Bytes raw; int z; };
  std::vector<Item> q;
  size_t head = 0, written = 0, readPos = 0;
  for (size_t i = 0; i < p.steps.size(); i++) {
    beginStep(p, i);
    auto& s = p.steps[i];
    if (s.op == "raw") {
      Rng r((u64)s.get("v"));
      Item it{0, 0, (size_t)s.get("n"), {}, 0};
      for (size_t k = 0; k < it.size; k++) it.raw.push_back((u8)r.u());
      ch.io->write((char const*)it.raw.data(), (std::streamsize)it.size);
      written += it.size;
      q.push_back(it);
    } else if (s.op == "put") {
      auto& t = typeById((int)s.get("t"));
      Obj o(t, (u64)s.get("v"), (int)s.get("z"));
      size_t sz = 0;
      auto so = attempt([&] { sz = t.getSize(o.p); });
      if (!so.ok()) violation("size-failed", "sizing %s: %s", t.name, describe(so).c_str());
      auto out = attempt([&] { t.toStream(o.p, *ch.io); });
      if (!out.ok() || !ch.io->good()) violation("save-failed", "saving %s to a healthy stream: %s", t.name, describe(out).c_str());
      if (ch.produced() != written + sz) violation("size-mismatch", "saving %s produced %zu bytes on the stream, reported size is %zu", t.name, ch.produced() - written, sz);
      written += sz;
      q.push_back(Item{t.id, o.digest(), sz, {}, (int)s.get("z")});
    } else if (s.op == "get" && head < q.size()) {
      ch.flush();
      auto& it = q[head++];
      if (it.t == 0) {
        std::string b(it.size, 0);
        ch.io->read(b.data(), (std::streamsize)it.size);
        if (!ch.io->good() || memcmp(b.data(), it.raw.data(), it.size)) violation("out-of-step", "the caller's own %zu bytes at stream position %zu do not come back", it.size, readPos);
      } else {
        auto& t = typeById(it.t);
        void* res = nullptr;
        Obj target;
        bool in = s.get("in") == 1;
        if (in) target = Obj(t, (u64)s.get("v"), it.z);
        auto o = attempt([&] { if (in) t.fromStreamIn(*ch.io, target.p); else res = t.fromStream(*ch.io); });
        if (!o.ok()) violation("load-failed", "loading %s from a healthy stream: %s", t.name, describe(o).c_str());
        Obj fresh;
        if (res) fresh = Obj(t, res);
        if ((in ? target : fresh).digest() != it.want) violation("differs", "%s does not come back equal from the stream", t.name);
        size_t c = ch.io->eof() ? written : ch.consumed();
        if (c != readPos + it.size) violation("consumed", "loading %s consumed %zu bytes, its save produced %zu", t.name, c - readPos, it.size);
      }
      readPos += it.size;
      stat("objects_read_back");
    }
  }
}

// ---------------------------------------------------------------------- C06
void genC06(Plan& p, Rng& r) {
  bool rd = r.chance(3, 5);
  p.setKnob("read", rd);
  p.setKnob("chunk", r.chance(1, 3) ? 0 : (i64)r.logu(200));
  p.setKnob("seed", (i64)(r.u() >> 1));
  p.setKnob("ex", r.chance(1, 3) ? (i64)(r.below(7) + 1) : 0);
  p.setKnob("at", (i64)r.below(1000000));
  p.setKnob("how", (i64)r.below(4));
  p.setKnob("fault", (i64)r.below(3));
  int n = 1 + (int)r.below(4);
  for (int i = 0; i < n; i++) {
    int ty = r.chance(1, 10) ? pickType(r, 0, TF_BIG) : pickType(r);
    p.step("obj").set("t", ty).set("v", (i64)(r.u() >> 1)).set("z", pickSize(r, typeById(ty))).set("in", (i64)r.below(2));
  }
}

void runC06(Plan const& p) {
  bool rd = p.knob("read") != 0;
  struct Item { TypeOps const* t; Obj o; u64 want; size_t from, to; bool in; };
  std::vector<Item> items;
  Bytes all;
  std::vector<Step> local(p.steps.size());
  for (size_t i = 0; i < p.steps.size(); i++) {
    auto& s = p.steps[i];
    W.step = (int)i; W.cur = nullptr;
    auto& t = typeById((int)s.get("t"));
    Obj o(t, (u64)s.get("v"), (int)s.get("z"));
    Bytes b = reference(t, o.p);
    u64 w = o.digest();
    size_t from = all.size();
    all.insert(all.end(), b.begin(), b.end());
    items.push_back(Item{&t, std::move(o), w, from, all.size(), s.get("in") != 0});
  }
  if (items.empty()) return;
  // where the stream breaks
  size_t n = all.size(), at = (size_t)p.knob("at") % n;
  auto& pick = items[(size_t)p.knob("at") % items.size()];
  if (p.knob("how") == 1) at = pick.to - 1;
  else if (p.knob("how") == 2) at = pick.from;
  else if (p.knob("how") == 3) at = pick.to - 1 - (size_t)p.knob("at") / 7 % std::min<size_t>(pick.to - pick.from, 9);
  int site = p.knob("fault") == 0 ? S_STREAM_EOF : p.knob("fault") == 1 ? S_STREAM_ERR : S_STREAM_THROW;
  Step step; step.op = "stream";
  step.fault(site, 1, (i64)at);
  W.cur = &step; W.fired.clear();
  shape(0xC06 + (u64)rd, at * 97 / n);
  Baseline base;
  if (rd) {
    SimStreambuf sb((u64)p.knob("seed"), (size_t)p.knob("chunk"), true);
    bool truncated = site == S_STREAM_EOF && p.knob("ex") % 2 == 0;
    sb.data = all;
    if (truncated) sb.data.resize(at);
    StreamFor sf(&sb, p.knob("seed") & 1);
    auto& is = *sf.s;
    bool cleared = false;
    if (p.knob("ex")) { is.exceptions((std::ios::iostate)p.knob("ex")); }
    for (size_t i = 0; i < items.size(); i++) {
      W.step = (int)i;
      auto& it = items[i];
      void* res = nullptr;
      Obj target;
      if (it.in) target = Obj(*it.t, (u64)p.steps[i].get("v") + 1, (int)p.steps[i].get("z"));
      auto o = attempt([&] { if (it.in) it.t->fromStreamIn(is, target.p); else res = it.t->fromStream(is); });
      Obj fresh;
      if (res) fresh = Obj(*it.t, res);
      W.nontrivial = true;
      if (it.to <= at) {
        // A buffered device may break while reading ahead of a complete object; the bytes
        // before the break are still delivered, so the object must load.
        if (!o.ok()) violation("complete-lost", "%s ends at byte %zu, the stream breaks at %zu, but loading it: %s", it.t->name, it.to, at, describe(o).c_str());
        if ((it.in ? target : fresh).digest() != it.want) violation("differs", "%s before the break does not come back equal", it.t->name);
      } else {
        if (o.ok()) violation("short-accepted", "%s needs bytes %zu..%zu, the stream breaks at %zu, but an object was returned", it.t->name, it.from, it.to, at);
        if (o.kind == K_OTHER || o.kind == K_BADALLOC || o.kind == K_SER) violation("wrong-exception", "loading %s from a broken stream: %s", it.t->name, describe(o).c_str());
        stat("broken_reads");
        break;
      }
    }
    (void)cleared;
  } else {
    SimStreambuf sb((u64)p.knob("seed"), (size_t)p.knob("chunk"), false);
    StreamFor sf(&sb, p.knob("seed") & 1);
    auto& os = *sf.s;
    if (p.knob("ex")) os.exceptions((std::ios::iostate)p.knob("ex"));
    bool threw = false;
    for (size_t i = 0; i < items.size() && !threw; i++) {
      W.step = (int)i;
      auto& it = items[i];
      auto o = attempt([&] { it.t->toStream(it.o.p, os); });
      W.nontrivial = true;
      if (it.o.digest() != it.want) violation("object-changed", "saving %s to a broken stream changed it", it.t->name);
      if (!o.ok()) {
        threw = true;
        if (o.kind == K_OTHER || o.kind == K_BADALLOC) violation("wrong-exception", "saving %s to a broken stream: %s", it.t->name, describe(o).c_str());
        if (o.fired.empty() && W.fired.empty()) violation("spurious-failure", "saving %s to a stream that did not break: %s", it.t->name, describe(o).c_str());
      }
      else if (!firedSite(site) && !os.good()) violation("spurious-failure", "saving %s left a healthy stream in a failed state", it.t->name);
    }
    os.exceptions(std::ios::goodbit);
    attempt([&] { try { os.flush(); } catch (std::ios_base::failure const&) {} });
    if (!threw && os.good()) violation("failure-lost", "the stream refused bytes from %zu on, the saves returned and the stream claims to be good", at);
    if (sb.data.size() > at && site != S_STREAM_ERR) violation("harness", "device accepted bytes behind the break");
    if (sb.data.size() > all.size() || memcmp(sb.data.data(), all.data(), sb.data.size())) violation("not-a-prefix", "what reached the stream is no prefix of the objects' bytes");
    stat("broken_writes");
  }
  W.cur = nullptr;
  items.clear();
}
} // namespace sim
