// Runtime of the simulated tasks: outcomes of library calls, transports, checks shared by
// the properties.
#pragma once
#include "zoo.h"
#include "fs.h"
#include "stream.h"
#include <functional>
#include <cerrno>

namespace sim {
using fs::Bytes;

enum Kind { K_OK, K_SER, K_IOS, K_RUNTIME, K_BADALLOC, K_INJECTED, K_STD, K_OTHER };
extern char const* const kind_name[];
struct Outcome {
  Kind kind = K_OK;
  std::string what;
  std::vector<FiredFault> fired;   // faults that fired during the call
  bool limit = false;              // memory limit of the simulated machine was hit
  bool ok() const { return kind == K_OK; }
};
// Runs a library operation with faults armed.
Outcome attempt(std::function<void()> const& f, bool armed = true);
// Does the exception correspond to something that went wrong?
bool explained(Outcome const& o);
bool mentionsErrno(Outcome const& o);
bool firedIn(Outcome const& o, int site);
bool isSyscallSite(int s);
std::string describe(Outcome const& o);

struct Config { bool errorChecking, fallocate, mmap64; };
extern Config const config;

// owned object of the zoo, made by the simulator
struct Obj {
  TypeOps const* t = nullptr;
  void* p = nullptr;
  Obj() = default;
  Obj(TypeOps const& ty, u64 vseed, int size);
  Obj(TypeOps const& ty, void* q) : t(&ty), p(q) {}
  Obj(Obj&& o) noexcept : t(o.t), p(o.p) { o.p = nullptr; }
  Obj& operator=(Obj&& o) noexcept { if (this != &o) { drop(); t = o.t; p = o.p; o.p = nullptr; } return *this; }
  ~Obj() { drop(); }
  void drop();
  u64 digest() const;
  void assign(u64 vseed, int size);     // destroy and rebuild on the same memory
};
u64 wantDigest(TypeOps const& t, u64 vseed, int size);   // of a freshly generated value

// memory block of exact size on the C heap (not operator new), with guard bytes
struct Block {
  u8* raw = nullptr; u8* p = nullptr; size_t n = 0;
  Block() = default;
  Block(size_t size, size_t align, size_t mis = 0);
  Block(Bytes const& b, size_t align, size_t mis = 0);
  Block(Block&& o) noexcept : raw(o.raw), p(o.p), n(o.n) { o.raw = nullptr; }
  Block& operator=(Block&& o) noexcept { std::swap(raw, o.raw); std::swap(p, o.p); std::swap(n, o.n); return *this; }
  ~Block() { free(raw); }
  char* c() const { return (char*)p; }
  bool guardsIntact() const;
};

// ------------------------------------------------------------- transports ---
enum SaveVia { SV_LIB, SV_USER, SV_NULLCB, SV_FILE, SV_STREAM, SV_N };
enum LoadVia { LV_BUF, LV_OBJ, LV_RET, LV_IN, LV_FILE, LV_FILEIN, LV_STREAM, LV_STREAMIN, LV_N };
extern char const* const save_name[];
extern char const* const load_name[];
inline bool loadInPlace(int lv) { return lv == LV_IN || lv == LV_FILEIN || lv == LV_STREAMIN; }
inline bool loadFile(int lv) { return lv == LV_FILE || lv == LV_FILEIN; }
inline bool loadStream(int lv) { return lv == LV_STREAM || lv == LV_STREAMIN; }
inline bool loadMem(int lv) { return lv <= LV_IN; }

std::string fileName(int i);

struct SaveResult { Outcome o; Bytes bytes; size_t announced = 0; int callbacks = 0; bool reportedOk = true; bool streamGood = true; };
// Save over a transport; bytes are what arrived there.
// The buffer object of a save to memory, still alive, and the caller's memory it refers to (if any).
struct KeptBuffer { checkpoint::SerializedReturnType ret; Block mem; void drop() { { Tracked tr; ret.reset(); } mem = Block(); } };
SaveResult save(TypeOps const& t, void* obj, int via, int file, u64 streamSeed, size_t chunk, KeptBuffer* keep = nullptr);

// A source of bytes for loading: file content must have been installed by the caller.
struct LoadArgs {
  int via = 0;
  int file = 0;
  Bytes const* bytes = nullptr;    // memory and stream
  size_t mis = 0;                  // misalignment of the memory
  u64 streamSeed = 0; size_t chunk = 64; int exmask = 0;
  void* target = nullptr;          // in place
  KeptBuffer* kept = nullptr;            // from memory: from this buffer itself, not a copy
};
struct LoadResult { Outcome o; Obj fresh; Block mem; bool placed = false; };
// After success of a non in-place load the result is in `fresh` (heap) or placed on `mem`.
LoadResult load(TypeOps const& t, LoadArgs const& a);
u64 resultDigest(TypeOps const& t, LoadArgs const& a, LoadResult const& r);
void dropResult(TypeOps const& t, LoadResult& r);

// clean bytes of an object, through the library buffer without faults
Bytes reference(TypeOps const& t, void* obj);

// leak accounting
struct Baseline {
  u64 live, serial; i64 probes;
  Baseline();
  void check(char const* where) const;      // throws LeakSuspect / violation
};
void checkLedger(char const* where);

inline char const* tname(TypeOps const& t) { return t.name; }

// ------------------------------------------------------ plan building blocks ---
struct TypeFilter { unsigned forbid = 0, require = 0; };
int pickType(Rng& r, unsigned forbid = 0, unsigned require = 0);
int pickSize(Rng& r, TypeOps const& t);
int pickErrno(Rng& r, int site);
void addFaults(Rng& r, Step& s, std::vector<int> const& sites, int count);

extern std::function<void()> g_mutator;

// ---------------------------------------------------------------- registry ---
struct Property {
  char const* id;
  void (*gen)(Plan&, Rng&);
  void (*run)(Plan const&);
};
Property const* findProperty(std::string const&);
void beginStep(Plan const& p, size_t i);

#define DECL(X) void gen##X(Plan&, Rng&); void run##X(Plan const&);
DECL(C01) DECL(C02) DECL(C03) DECL(C04) DECL(C05) DECL(C06) DECL(C07) DECL(C08) DECL(C09)
DECL(C10) DECL(C11) DECL(C12) DECL(C13) DECL(C14) DECL(C15) DECL(C16) DECL(C17)
#undef DECL
} // namespace sim
