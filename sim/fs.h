// Simulated operating system: a POSIX file system with page cache, durable state,
// descriptors and memory mappings.  Paths below "simfs/" live here; everything else
// goes to the real system.
#pragma once
#include "core.h"

namespace sim::fs {

constexpr size_t PG = 4096;
constexpr int FD0 = 5000;      // simulated descriptors start here and are never reused

using Bytes = std::vector<u8>;

struct Meta { u64 epoch; u64 size; };

struct Inode {
  Bytes data;                                   // page cache view
  std::set<size_t> alloc;                       // pages with blocks on the device
  std::set<size_t> dirty;                       // changed since last durable
  int mode = 0600;
  u64 epoch = 1;
  Meta durMeta{0, 0};                           // what a crash finds at least
  std::vector<Meta> pending;                    // later metadata states, oldest first
  std::map<u64, std::map<size_t, Bytes>> dur;   // durable pages by epoch
  std::map<u64, Bytes> oldCache;                // content when an epoch was truncated away
};

struct State {
  std::map<int, Inode> inodes;
  std::map<std::string, int> cur, dur;          // directory: live and durable
  int nextIno = 1;
  void crash(u64 seed);                         // keep only what is durable + a seeded subset
};

extern State S;
extern bool readOnly;                           // whole file system mounted read-only
extern std::vector<std::string> ledgerErrors;   // double close, unmap of unknown range ...
extern u64 opens, closes, maps, unmaps;

void reset();
int openFds();
int mappings();
void closeAllDead();                            // the simulated process died
extern i64 freePages;                           // what is left of the device, -1: without limit
void beginStep();                               // reset per-step device capacity
bool haveCrashImage();
void takeCrashImage();                          // make the crash image the current state
void crashNow(u64 seed);
void crashPoint();                              // a place where a crash may hit

bool exists(std::string const&);
bool read(std::string const&, Bytes&);          // live view
void install(std::string const&, Bytes const&); // create with durable content
void remove(std::string const&);
bool noAccessMappings();

char const* describeAddr(void const*);          // for signal reports
} // namespace sim::fs
