#include "giant.h"
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
extern "C" int __real_munmap(void*, size_t);

namespace sim::giant {
std::vector<Region> regions;
bool on = false;
File file;

bool available() {
  int fd = memfd_create("giant", 0);
  if (fd < 0) return false;
  close(fd);
  void* p = mmap(nullptr, 4ull << 32, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return false;
  __real_munmap(p, 4ull << 32);
  return true;
}
void* alloc(size_t n) {
  Untracked u;
  size_t blocks = std::max<size_t>((n + BLK - 1) / BLK, 4), total = blocks * BLK;
  int fd = memfd_create("giant", 0);
  if (fd < 0 || ftruncate(fd, 4 * BLK)) harnessError("no memory for a giant object");
  char* p = (char*)mmap(nullptr, total + BLK, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) harnessError("no address space for a giant object");
  for (size_t b = 0; b < blocks; b++) {
    off_t o = (off_t)(b == 0 ? 0 : b == blocks - 1 ? 3 * BLK : b == blocks - 2 ? 2 * BLK : BLK);
    if (mmap(p + b * BLK, BLK, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, o) == MAP_FAILED) harnessError("cannot map a giant object");
  }
  regions.push_back(Region{p, total, fd});
  return p;
}
static void drop(size_t i) {
  __real_munmap(regions[i].p, regions[i].total + BLK);
  close(regions[i].fd);
  regions.erase(regions.begin() + (long)i);
}
bool owns(void const* p) {
  for (auto& r : regions) if (r.p == p) return true;
  return false;
}
void free(void* p) {
  Untracked u;
  for (size_t i = 0; i < regions.size(); i++) if (regions[i].p == p) { drop(i); return; }
  violation("bad-free", "a giant block was released twice");
}
void reset() {
  while (!regions.empty()) drop(regions.size() - 1);
  file = File{};
  on = false;
}

}
