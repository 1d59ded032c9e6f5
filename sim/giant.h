// Objects of more than four gigabytes without using that much memory: regions whose middle is
// the same few megabytes mapped over and over.  Only for contents that are constant there.
#pragma once
#include "core.h"

namespace sim::giant {
constexpr size_t MIN = 1ull << 31;        // smaller allocations are ordinary ones
constexpr size_t MAX = 1ull << 35;        // larger ones are what damaged data asks for
constexpr size_t BLK = 8u << 20;
struct Region { char* p; size_t total; int fd; };
extern std::vector<Region> regions;
extern bool on;                           // allocations of that size are expected in this run
bool available();
void* alloc(size_t n);
void free(void* p);
bool owns(void const* p);

// one file of that kind, "simfs/giant"
struct File {
  int fd = -1; bool writable = false;
  u64 size = 0, durable = 0, synced = 0; // size, size at the last sync, length of the synced range
  char* base = nullptr; size_t cap = 0;
  size_t mapped = 0;                      // length of the mapping, 0: none
};
extern File file;
void reset();
void gen(Plan&, Rng&);
void run(Plan const&);
bool has(std::string const& prop);
}
