#include "rt.h"
#include "users.h"
#include <cxxabi.h>

namespace sim {

char const* const kind_name[] = {"ok", "serialization_error", "ios_failure", "runtime_error", "bad_alloc", "injected", "std_exception", "other"};
char const* const save_name[] = {"library buffer", "user buffer", "null callback", "file", "stream"};
char const* const load_name[] = {"buffer", "buffer to caller memory", "returned buffer", "buffer in place", "file", "file in place", "stream", "stream in place"};

Config const config = {
#ifdef SERIALIZATION_ERROR_CHECKING
  true,
#else
  false,
#endif
#ifdef checkpoint_has_fallocate
  true,
#else
  false,
#endif
#ifdef checkpoint_has_mmap64
  true
#else
  false
#endif
};

std::function<void()> g_mutator;

void userSite(int site) {
  if (!W.armed) return;
  Untracked u;
  if (hit(site)) throw InjectedError(site);
}
void userSerializePoint() {
  if (!W.armed) return;
  Untracked u;
  ev(0x5E1A);
  if (hit(S_MUTATE) && g_mutator) g_mutator();
  if (hit(S_SERIALIZE)) throw InjectedError(S_SERIALIZE);
}

Outcome attempt(std::function<void()> const& f, bool armed) {
  Outcome o;
  size_t before = W.fired.size();
  u64 lim = stats()["memory_limit_hit"];
  ev(0xBE61);
  auto fail = [&](Kind k, char const* w) { t_track = 0; W.armed = false; o.kind = k; o.what = w; };
  // where no fault may fire the device is not full either: saving may write a file of its own
#ifndef SIM_THREADS
  i64 left = fs::freePages;
  if (!armed) fs::freePages = -1;
#endif
  W.armed = armed;
  t_track = 1;
  try { f(); t_track = 0; W.armed = false; }
  catch (checkpoint::dispatch::serialization_error const& e) { fail(K_SER, e.what()); }
  catch (std::ios_base::failure const& e) { fail(K_IOS, e.what()); }
  catch (std::bad_alloc const& e) { fail(K_BADALLOC, e.what()); }
  catch (InjectedError const& e) { fail(K_INJECTED, e.what()); o.what = site_name[e.site]; }
  catch (std::runtime_error const& e) { fail(K_RUNTIME, e.what()); }
  catch (std::exception const& e) { fail(K_STD, e.what()); }
  catch (...) { fail(K_OTHER, "?"); }
#ifndef SIM_THREADS
  if (!armed) fs::freePages = left;
#endif
  for (size_t i = before; i < W.fired.size(); i++) o.fired.push_back(W.fired[i]);
  o.limit = stats()["memory_limit_hit"] != lim;
  shape(0xE4D0, (u64)o.kind);
  note("outcome %s %s", kind_name[o.kind], o.what.c_str());
  return o;
}
bool firedIn(Outcome const& o, int site) {
  for (auto& f : o.fired) if (f.site == site) return true;
  return false;
}
bool isSyscallSite(int s) { return s >= S_OPEN && s <= S_NOSPACE; }
static bool firedSyscall(Outcome const& o) {
  for (auto& f : o.fired) if (isSyscallSite(f.site)) return true;
  return false;
}
bool explained(Outcome const& o) {
  switch (o.kind) {
    case K_OK: return true;
    case K_BADALLOC: return firedIn(o, S_ALLOC) || o.limit;
    case K_INJECTED: return firedIn(o, S_CTOR) || firedIn(o, S_COPY) || firedIn(o, S_SERIALIZE) || firedIn(o, S_CALLBACK);
    case K_RUNTIME: return firedSyscall(o) || firedIn(o, S_STREAM_EOF) || firedIn(o, S_STREAM_ERR) || firedIn(o, S_STREAM_THROW);
    case K_IOS: return firedIn(o, S_STREAM_EOF) || firedIn(o, S_STREAM_ERR) || firedIn(o, S_STREAM_THROW);
    default: return false;
  }
}
static bool hasNumber(std::string const& s, long n) {
  std::string d = std::to_string(n);
  for (size_t i = s.find(d); i != std::string::npos; i = s.find(d, i + 1)) {
    bool l = i == 0 || !isdigit((unsigned char)s[i - 1]);
    bool r = i + d.size() >= s.size() || !isdigit((unsigned char)s[i + d.size()]);
    if (l && r) return true;
  }
  return false;
}
bool mentionsErrno(Outcome const& o) {
  for (auto& f : o.fired) {
    if (!isSyscallSite(f.site)) continue;
    int e = f.site == S_NOSPACE ? ENOSPC : (int)f.arg;
    if (hasNumber(o.what, e) || o.what.find(strerror(e)) != std::string::npos) return true;
  }
  return false;
}
std::string describe(Outcome const& o) {
  std::string s = kind_name[o.kind];
  if (!o.what.empty()) s += " '" + o.what.substr(0, 200) + "'";
  s += " after";
  if (o.fired.empty()) s += " no fault";
  for (auto& f : o.fired) s += std::string(" ") + site_name[f.site] + "#" + std::to_string(f.nth) + "(" + std::to_string(f.arg) + ")";
  return s;
}

// ------------------------------------------------------------------ objects
Obj::Obj(TypeOps const& ty, u64 vseed, int size) : t(&ty) {
  bool a = W.armed; W.armed = false;
  p = ty.make(vseed, size);
  W.armed = a;
}
void Obj::drop() { if (p) { void* q = p; p = nullptr; t->destroy(q); } }
u64 Obj::digest() const { return t->digest(p); }
void Obj::assign(u64 vseed, int size) { t->destruct(p); t->emplace(p, vseed, size); }
u64 wantDigest(TypeOps const& t, u64 vseed, int size) { Obj o(t, vseed, size); return o.digest(); }

static constexpr size_t GUARD = 64;
Block::Block(size_t size, size_t align, size_t mis) : n(size) {
  if (align < 16) align = 16;
  size_t lead = (GUARD + align - 1) / align * align + mis;
  raw = (u8*)aligned_alloc(align, (lead + size + GUARD + align - 1) / align * align);
  memset(raw, 0xB7, lead + size + GUARD);
  p = raw + lead;
  memset(p, W.garbage, size);
}
Block::Block(Bytes const& b, size_t align, size_t mis) : Block(b.size(), align, mis) {
  if (!b.empty()) memcpy(p, b.data(), b.size());
}
bool Block::guardsIntact() const {
  for (u8 const* q = raw; q < p; q++) if (*q != 0xB7) return false;
  for (size_t i = 0; i < GUARD; i++) if (p[n + i] != 0xB7) return false;
  return true;
}

std::string fileName(int i) {
  // short and long names, directories, and names that are related to others
  if (i == 2) return "simfs/f0.tmp";
  if (i % 2 == 0) return "simfs/f" + std::to_string(i);
  std::string d = "simfs/a directory/";
  for (int k = 0; k < 3; k++) d += std::string(90, (char)('a' + (i + k) % 26)) + (k == 1 ? ".d/" : "/");
  return d + "checkpoint " + std::to_string(i) + ".\xc3\xa9.bin";
}

SaveResult save(TypeOps const& t, void* obj, int via, int file, u64 streamSeed, size_t chunk, KeptBuffer* keep) {
  SaveResult r;
  note("save %s via %s", t.name, save_name[via]);
  shape(0x5A0E00 + (u64)via, (u64)t.id);
  stat((std::string("save:") + save_name[via]).c_str());
  switch (via) {
    case SV_LIB: case SV_USER: case SV_NULLCB: {
      Block mem;
      size_t asked = 0; int calls = 0;
      checkpoint::SerializedReturnType ret;
      auto cb = [&](std::size_t n) -> char* {
        Untracked u;
        asked = n; calls++;
        ev(0xCB, n);
        if (hit(S_CALLBACK)) throw InjectedError(S_CALLBACK);
        if (via == SV_NULLCB) return nullptr;
        if (n > (64u << 20)) return nullptr;
        mem = Block(n, 16, streamSeed % 16);
        return mem.c();
      };
      r.o = attempt([&] { ret = t.ser(obj, via == SV_LIB ? checkpoint::BufferCallbackType(nullptr) : checkpoint::BufferCallbackType(cb)); });
      r.callbacks = calls;
      r.announced = asked;
      if (mem.raw && !mem.guardsIntact()) violation("overrun", "saving %s wrote outside of the caller's buffer of %zu bytes", t.name, mem.n);
      if (r.o.ok()) {
        if (!ret) violation("no-buffer", "saving %s returned no buffer", t.name);
        if (via == SV_LIB) r.announced = ret->getSize();
        else if (ret->getSize() != asked) r.reportedOk = false;
        if (via == SV_USER && ret->getBuffer() != mem.c()) violation("wrong-buffer", "saving %s did not use the caller's buffer", t.name);
        char const* b = ret->getBuffer();
        r.bytes.assign((u8 const*)b, (u8 const*)b + ret->getSize());
      }
      if (keep && r.o.ok()) { keep->ret = std::move(ret); keep->mem = std::move(mem); break; }
      { Tracked tr; ret.reset(); }
      if (mem.raw && !mem.guardsIntact()) violation("overrun", "saving %s wrote outside of the caller's buffer", t.name);
      break;
    }
    case SV_FILE: {
      std::string f = fileName(file);
      r.o = attempt([&] { t.toFile(obj, f); });
      if (r.o.ok() && !fs::read(f, r.bytes)) violation("no-file", "saving %s to a file created no file", t.name);
      break;
    }
    case SV_STREAM: {
      SimStreambuf sb(streamSeed, chunk, false);
      StreamFor sf(&sb, streamSeed & 1);
      auto& os = *sf.s;
      r.o = attempt([&] { t.toStream(obj, os); os.flush(); });
      r.streamGood = os.good();
      r.bytes = sb.data;
      break;
    }
  }
  return r;
}

LoadResult load(TypeOps const& t, LoadArgs const& a) {
  LoadResult r;
  note("load %s via %s", t.name, load_name[a.via]);
  shape(0x10AD00 + (u64)a.via, (u64)t.id);
  stat((std::string("load:") + load_name[a.via]).c_str());
  void* res = nullptr;
  switch (a.via) {
    case LV_BUF: {
      Block b(*a.bytes, 16, a.mis);
      char* from = a.kept ? a.kept->ret->getBuffer() : b.c();
      r.o = attempt([&] { res = t.deser(from); });
      if (memcmp(b.p, a.bytes->data(), b.n) || !b.guardsIntact()) violation("source-modified", "loading %s changed the bytes it was loaded from", t.name);
      break;
    }
    case LV_OBJ: {
      Block b(*a.bytes, 16, a.mis);
      char* from = a.kept ? a.kept->ret->getBuffer() : b.c();
      r.mem = Block(t.size, t.align);
      r.o = attempt([&] { res = t.deserObj(from, r.mem.c()); });
      if (memcmp(b.p, a.bytes->data(), b.n) || !b.guardsIntact()) violation("source-modified", "loading %s changed the bytes it was loaded from", t.name);
      if (r.o.ok()) {
        if (res != (void*)r.mem.p) violation("wrong-memory", "loading %s into the caller's memory returned another address", t.name);
        if (!r.mem.guardsIntact()) violation("overrun", "loading %s wrote outside of the caller's memory", t.name);
        r.placed = true;
      }
      res = nullptr;
      break;
    }
    case LV_RET: {
      if (a.kept) {
        r.o = attempt([&] { res = t.deserRet(std::move(a.kept->ret)); });
        a.kept->drop();
        break;
      }
      // the buffer as it is returned by serialize(), holding these bytes
      struct Holder : checkpoint::SerializedInfo {
        Block b;
        checkpoint::SerialByteType* getBuffer() const override { return b.c(); }
        checkpoint::SerialSizeType getSize() const override { return b.n; }
      };
      auto h = new Holder;
      h->b = Block(*a.bytes, 16, 0);
      checkpoint::SerializedReturnType ret(h);
      r.o = attempt([&] { res = t.deserRet(std::move(ret)); });
      ret.reset();
      break;
    }
    case LV_IN: {
      Block b(*a.bytes, 16, a.mis);
      char* from = a.kept ? a.kept->ret->getBuffer() : b.c();
      r.o = attempt([&] { t.deserIn(from, a.target); });
      if (memcmp(b.p, a.bytes->data(), b.n) || !b.guardsIntact()) violation("source-modified", "loading %s changed the bytes it was loaded from", t.name);
      break;
    }
    case LV_FILE: {
      std::string f = fileName(a.file);
      r.o = attempt([&] { res = t.fromFile(f); });
      break;
    }
    case LV_FILEIN: {
      std::string f = fileName(a.file);
      r.o = attempt([&] { t.fromFileIn(f, a.target); });
      break;
    }
    case LV_STREAM: case LV_STREAMIN: {
      SimStreambuf sb(a.streamSeed, a.chunk, true);
      sb.data = *a.bytes;
      StreamFor sf(&sb, a.streamSeed & 1);
      auto& is = *sf.s;
      if (a.exmask) is.exceptions((std::ios_base::iostate)a.exmask);
      r.o = attempt([&] { if (a.via == LV_STREAM) res = t.fromStream(is); else t.fromStreamIn(is, a.target); });
      if (r.o.ok() && sb.consumed() != a.bytes->size() && !a.exmask)
        violation("consumed", "loading %s consumed %zu of %zu bytes of the stream", t.name, sb.consumed(), a.bytes->size());
      break;
    }
  }
  if (res) r.fresh = Obj(t, res);
  if (r.o.ok() && !loadInPlace(a.via) && !r.placed && !res) violation("null-result", "loading %s returned null", t.name);
  return r;
}
u64 resultDigest(TypeOps const& t, LoadArgs const& a, LoadResult const& r) {
  return loadInPlace(a.via) ? t.digest(a.target) : r.placed ? t.digest(r.mem.p) : r.fresh.digest();
}
void dropResult(TypeOps const& t, LoadResult& r) {
  if (r.placed) { t.destruct(r.mem.p); r.placed = false; }
  r.fresh.drop();
}

Bytes reference(TypeOps const& t, void* obj) {
  checkpoint::SerializedReturnType ret;
  Bytes b;
  auto o = attempt([&] { ret = t.ser(obj, nullptr); }, false);
  if (!o.ok()) violation("save-failed", "saving %s without any fault failed: %s", t.name, describe(o).c_str());
  b.assign((u8*)ret->getBuffer(), (u8*)ret->getBuffer() + ret->getSize());
  { Tracked tr; ret.reset(); }
  return b;
}

Baseline::Baseline() : live(heap::live()), serial(heap::tracked()), probes(app::Probe::liveCount) {}
void Baseline::check(char const* where) const {
  i64 p = app::Probe::liveCount;
  if (p > probes) violation("not-destroyed", "%s: %lld user objects were constructed but never destroyed", where, (long long)(p - probes));
  if (p < probes) violation("destroyed-twice", "%s: user objects were destroyed more often than constructed", where);
  if (heap::live() > live) {
    if (g_verbose) heap::dump(serial);
    throw LeakSuspect{std::string(where) + ": " + std::to_string(heap::live() - live) + " allocation(s) never released"};
  }
}
void checkLedger(char const* where) {
  if (!fs::ledgerErrors.empty()) violation("descriptor-misuse", "%s: %s", where, fs::ledgerErrors[0].c_str());
  if (fs::openFds()) violation("fd-leak", "%s: %d descriptor(s) left open", where, fs::openFds());
  if (fs::mappings()) violation("mapping-leak", "%s: %d file mapping(s) left", where, fs::mappings());
}

// -------------------------------------------------------------- generators
int pickType(Rng& r, unsigned forbid, unsigned require) {
  auto& z = zoo();
  for (int i = 0; i < 10000; i++) {
    auto& t = z[r.below(z.size())];
    if ((t.flags & forbid) || (t.flags & require) != require) continue;
    if ((t.flags & TF_SCALAR) && !r.chance(1, 4)) continue;
    if ((t.flags & TF_HUGE) && !r.chance(1, 6)) continue;
    return t.id;
  }
  harnessError("no type satisfies the filter");
}
int pickSize(Rng& r, TypeOps const& t) {
  int s = (int)r.below(8);
  if (r.chance(1, 6) && !(t.flags & (TF_RECURSIVE | TF_POLY))) s = 8 + (int)r.below(40);
  return s;
}
int pickErrno(Rng& r, int site) {
  static std::map<int, std::vector<int>> const e = {
    {S_OPEN, {EACCES, EMFILE, ENFILE, ENOENT, EROFS, ENOSPC, EINTR, ENOMEM, EDQUOT, EISDIR, ELOOP, ENAMETOOLONG, ETXTBSY}},
    {S_FSTAT, {EIO, ENOMEM, EOVERFLOW, ESTALE}},
    {S_FALLOCATE, {EOPNOTSUPP, ENOSPC, EIO, EDQUOT, EFBIG, EINTR, ENOSYS, EPERM}},
    {S_FTRUNCATE, {EIO, EFBIG, EINTR, EPERM, EROFS}},
    {S_FSYNC, {EIO, ENOSPC, EDQUOT, EROFS}},
    {S_MMAP, {ENOMEM, EACCES, EAGAIN, ENFILE, EPERM, ENODEV}},
    {S_MSYNC, {EIO, EBUSY, ENOMEM}},
    {S_MUNMAP, {ENOMEM}},
    {S_CLOSE, {EIO, EINTR, ENOSPC, EDQUOT}},
    {S_WRITE, {EIO, ENOSPC, EINTR, EDQUOT, -1, -77}},
    {S_READ, {EIO, EINTR, -1, -77}},
    {S_LSEEK, {EIO}}, {S_RENAME, {EIO, ENOSPC, EACCES}}, {S_UNLINK, {EIO}}};
  auto it = e.find(site);
  if (it == e.end()) return 0;
  // now and then any other error, except those that mean "not supported" for preallocation
  static int const any[] = {EPERM, EIO, ENXIO, EBADF, EAGAIN, ENOMEM, EACCES, EFAULT, EBUSY, EEXIST, ENODEV, ENOTDIR, EINVAL, ENFILE, EMFILE, EFBIG, ENOSPC, ESPIPE, EROFS, EMLINK, EPIPE, ERANGE, EDEADLK, ESTALE, EDQUOT, ECANCELED, ETIMEDOUT, EREMOTEIO, EINTR};
  if (site != S_WRITE && site != S_READ && r.chance(1, 4)) return any[r.below(sizeof any / sizeof *any)];
  return it->second[r.below(it->second.size())];
}
void addFaults(Rng& r, Step& s, std::vector<int> const& sites, int count) {
  for (int i = 0; i < count; i++) {
    int site = sites[r.below(sites.size())];
    i64 nth = 1, arg = 0;
    if (site == S_ALLOC) nth = (i64)r.logu(64);
    else if (site == S_CTOR || site == S_COPY || site == S_SERIALIZE) nth = (i64)r.logu(16);
    else if (isSyscallSite(site)) { nth = r.chance(1, 5) ? 2 : 1; arg = pickErrno(r, site); }
    else if (site == S_STREAM_EOF || site == S_STREAM_ERR || site == S_STREAM_THROW) arg = (i64)r.below(400);
    if (site == S_NOSPACE) { nth = 1; arg = (i64)r.below(4); }
    s.fault(site, nth, arg);
  }
}
void beginStep(Plan const& p, size_t i) {
  W.step = (int)i;
  W.cur = &p.steps[i];
  for (auto& c : W.counter) c = 0;
  W.fired.clear();
  fs::beginStep();
  shape(0x57E9, hstr(p.steps[i].op.c_str()));
}
} // namespace sim
