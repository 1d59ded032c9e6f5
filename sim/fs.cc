#include "fs.h"
#include "giant.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define POISON(a, n) ASAN_POISON_MEMORY_REGION(a, n)
#define UNPOISON(a, n) ASAN_UNPOISON_MEMORY_REGION(a, n)
#else
#define POISON(a, n) ((void)0)
#define UNPOISON(a, n) ((void)0)
#endif

extern "C" {
int __real_open(char const*, int, ...);
int __real_close(int);
int __real_fstat(int, struct stat*);
int __real_stat(char const*, struct stat*);
int __real_access(char const*, int);
int __real_fallocate(int, int, off_t, off_t);
int __real_posix_fallocate(int, off_t, off_t);
int __real_ftruncate(int, off_t);
int __real_fsync(int);
int __real_fdatasync(int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_msync(void*, size_t, int);
int __real_madvise(void*, size_t, int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, void const*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, void const*, size_t, off_t);
off_t __real_lseek(int, off_t, int);
int __real_rename(char const*, char const*);
int __real_unlink(char const*);
int __real_fchmod(int, mode_t);
int __real_flock(int, int);
int __real_fcntl(int, int, ...);
int __real_posix_fadvise(int, off_t, off_t, int);
}

namespace sim::fs {

#ifdef SIM_NO_FALLOCATE
static constexpr bool KNOWS_FALLOCATE = false;   // the library is built for a platform without it
#else
static constexpr bool KNOWS_FALLOCATE = true;
#endif
State S;
bool readOnly = false;
i64 freePages = -1;
std::vector<std::string> ledgerErrors;
u64 opens, closes, maps, unmaps;

namespace {
struct Fd { int ino; int flags; u64 pos; };
struct Map {
  char* base; size_t total;      // whole reserved region including guards
  char* addr; size_t len;        // user range, len as requested
  size_t span;                   // len rounded up to pages
  int ino; u64 off; int prot; bool shared;
};
std::map<int, Fd> fds;
std::map<int, bool> dirFds;
int nextFd = FD0;
std::vector<Map> mmaps;
std::vector<std::pair<char*, size_t>> graveyard;
bool crashSet = false;
State crashImage;
int fullErrno = ENOSPC;

bool ours(char const* p) { return strncmp(p, "simfs/", 6) == 0; }
// a process without standard input gets descriptor 0 for its files
bool lowFds() { return W.plan && W.plan->knob("fd0"); }
bool ours(int fd) { return fd >= FD0 || (fd == 0 && lowFds()); }
int newFd() { return lowFds() && !fds.count(0) && !dirFds.count(0) ? 0 : nextFd++; }

void pullOne(Map const& m) {
  if (!(m.prot & PROT_WRITE) || !m.shared) return;
  auto it = S.inodes.find(m.ino);
  if (it == S.inodes.end()) return;
  Inode& i = it->second;
  for (size_t p = 0; p * PG < m.span; p++) {
    size_t foff = m.off + p * PG;
    if (foff >= i.data.size()) break;
    size_t n = std::min(PG, i.data.size() - foff);
    size_t pg = foff / PG;
    if (!i.alloc.count(pg)) continue;   // unbacked page (no space): inaccessible
    if (memcmp(&i.data[foff], m.addr + p * PG, n) != 0) {
      memcpy(&i.data[foff], m.addr + p * PG, n);
      i.dirty.insert(pg);
    }
  }
}
void pull() {
  for (auto& m : mmaps) {
    // reading the tail page must not trip over the poisoned bytes behind EOF
    pullOne(m);
  }
}
void pushMeta(Inode& i) {
  Meta m{i.epoch, i.data.size()};
  i.pending.push_back(m);
}
void syncPages(Inode& i, size_t from, size_t to) {   // [from,to) pages
  for (auto it = i.dirty.begin(); it != i.dirty.end();) {
    if (*it >= from && *it < to) {
      size_t o = *it * PG;
      if (o < i.data.size()) {
        size_t n = std::min(PG, i.data.size() - o);
        i.dur[i.epoch][*it] = Bytes(i.data.begin() + o, i.data.begin() + o + n);
      }
      it = i.dirty.erase(it);
    } else ++it;
  }
}
void dropDirty(Inode& i, size_t from, size_t to) {   // failed write-back: data lost, page clean
  for (auto it = i.dirty.begin(); it != i.dirty.end();)
    if (*it >= from && *it < to) it = i.dirty.erase(it); else ++it;
}
void syncMeta(int ino, Inode& i) {
  i.durMeta = Meta{i.epoch, i.data.size()};
  i.pending.clear();
  for (auto it = i.dur.begin(); it != i.dur.end();) if (it->first != i.epoch) it = i.dur.erase(it); else ++it;
  i.oldCache.clear();
  for (auto& n : S.cur) if (n.second == ino) S.dur[n.first] = ino;
  // names that no longer refer to this inode but durably do: rename/unlink not implied
}
bool allocPage(Inode& i, size_t p) {
  if (i.alloc.count(p)) return true;
  if (freePages == 0) return false;
  if (freePages > 0) freePages--;
  i.alloc.insert(p);
  return true;
}
bool allocRange(Inode& i, u64 a, u64 b) {
  u64 need = 0;
  for (size_t p = a / PG; p * PG < b; p++) if (!i.alloc.count(p)) need++;
  if (freePages >= 0 && need > (u64)freePages) return false;
  for (size_t p = a / PG; p * PG < b; p++) allocPage(i, p);
  return true;
}
void resize(Inode& i, u64 n) {
  if (n < i.data.size()) {
    size_t keep = (n + PG - 1) / PG;
    for (auto it = i.alloc.begin(); it != i.alloc.end();) if (*it >= keep) { if (freePages >= 0) freePages++; it = i.alloc.erase(it); } else ++it;
    for (auto it = i.dirty.begin(); it != i.dirty.end();) if (*it >= keep) it = i.dirty.erase(it); else ++it;
    if (n % PG) i.dirty.insert(n / PG);
  }
  i.data.resize(n, 0);
}
void truncateAway(Inode& i) {
  i.oldCache[i.epoch] = i.data;
  if (freePages >= 0) freePages += (i64)i.alloc.size();
  i.data.clear(); i.alloc.clear(); i.dirty.clear();
  i.epoch++;
  pushMeta(i);
}
int ledger(char const* what) { Untracked u; ledgerErrors.push_back(what); ev(hstr(what)); note("ledger: %s", what); return 0; }
int err(int e) { errno = e; return -1; }
Fd* getFd(int fd, char const* call) {
  auto it = fds.find(fd);
  if (it == fds.end()) { ledger(call); return nullptr; }
  return &it->second;
}
// common prologue of a system call: trace, crash point, fault decision
bool fails(int site, u64 tag, int& e) {
  ev(0x5C000 + site, tag);
  crashPoint();
  if (Fault const* f = hit(site)) { e = (int)f->arg; return true; }
  return false;
}
} // anon

void State::crash(u64 seed) {
  Rng r(seed);
  int mode = seed == 0 ? 0 : (int)r.below(4);   // 0: nothing more reaches the disk, 1: everything, 2..3: a subset
  std::map<std::string, int> dir = dur;
  std::set<std::string> names;
  for (auto& n : cur) names.insert(n.first);
  for (auto& n : dur) names.insert(n.first);
  for (auto& n : names) {
    auto c = cur.find(n), d = dur.find(n);
    int ci = c == cur.end() ? 0 : c->second, di = d == dur.end() ? 0 : d->second;
    int pick = ci == di ? ci : (mode != 0 && r.chance(1, 2) ? ci : di);
    if (pick) dir[n] = pick; else dir.erase(n);
  }
  std::map<int, Inode> ni;
  for (auto& kv : inodes) {
    bool named = false;
    for (auto& n : dir) if (n.second == kv.first) named = true;
    Inode& i = kv.second;
    size_t j = mode == 0 ? 0 : mode == 1 ? i.pending.size() : r.below(i.pending.size() + 1);
    Meta m = j == 0 ? i.durMeta : i.pending[j - 1];
    Bytes out(m.size, 0);
    auto de = i.dur.find(m.epoch);
    Bytes const* cache = nullptr;
    if (m.epoch == i.epoch) cache = &i.data;
    else { auto o = i.oldCache.find(m.epoch); if (o != i.oldCache.end()) cache = &o->second; }
    for (size_t p = 0; p * PG < m.size; p++) {
      size_t o = p * PG, n = std::min<size_t>(PG, m.size - o);
      if (de != i.dur.end()) {
        auto pg = de->second.find(p);
        if (pg != de->second.end()) memcpy(&out[o], pg->second.data(), std::min(n, pg->second.size()));
      }
      bool mayFlush = cache && o < cache->size() && (m.epoch != i.epoch || i.dirty.count(p));
      if (mayFlush && mode != 0) {
        size_t cn = std::min(n, cache->size() - o);
        int how = mode == 1 ? 1 : (int)r.below(4);
        if (how == 1 || how == 2) memcpy(&out[o], &(*cache)[o], cn);
        else if (how == 3) {   // torn page: a prefix or suffix of its sectors
          size_t cut = 512 * (1 + r.below(7));
          if (cut > cn) cut = cn;
          if (r.chance(1, 2)) memcpy(&out[o], &(*cache)[o], cut);
          else memcpy(&out[o + cut], &(*cache)[o + cut], cn - cut);
        }
      }
    }
    if (!named) continue;
    Inode x;
    x.data = out;
    x.epoch = i.epoch + 1;
    x.durMeta = Meta{x.epoch, out.size()};
    for (size_t p = 0; p * PG < out.size(); p++) {
      x.alloc.insert(p);
      x.dur[x.epoch][p] = Bytes(out.begin() + p * PG, out.begin() + std::min(out.size(), (p + 1) * PG));
    }
    ni[kv.first] = x;
  }
  inodes = ni;
  cur = dur = dir;
}

void reset() {
  closeAllDead();
  S = State{};
  readOnly = false;
  ledgerErrors.clear();
  nextFd = FD0;
  opens = closes = maps = unmaps = 0;
  crashSet = false; crashImage = State{};
  freePages = -1;
}
int openFds() { return (int)(fds.size() + dirFds.size()); }
int mappings() { return (int)mmaps.size(); }

static void dropMap(Map const& m, bool reuse) {
  UNPOISON(m.addr, m.span);
  if (reuse) __real_munmap(m.base, m.total);
  else { mprotect(m.base, m.total, PROT_NONE); graveyard.emplace_back(m.base, m.total); }
}
void closeAllDead() {
  for (auto& m : mmaps) dropMap(m, true);
  for (auto& g : graveyard) __real_munmap(g.first, g.second);
  graveyard.clear();
  mmaps.clear();
  fds.clear(); dirFds.clear();
}
void beginStep() {
  crashSet = false;
  freePages = -1; fullErrno = ENOSPC;
  if (W.cur) for (auto& f : W.cur->faults) if (f.site == S_NOSPACE && (KNOWS_FALLOCATE || W.cur->get("full_without_prealloc"))) freePages = f.arg;
}
bool haveCrashImage() { return crashSet; }
void takeCrashImage() {
  closeAllDead();
  S = crashImage;
  crashImage = State{};
  crashSet = false;
  stat("crashes"); shape(0xC4A5);
}
void crashNow(u64 seed) {
  pull();
  closeAllDead();
  S.crash(seed);
  stat("crashes"); shape(0xC4A5);
  W.nontrivial = true;
}
void crashPoint() {
  if (Fault const* f = hit(S_CRASH)) {
    Untracked u;
    pull();
    crashImage = S;
    crashImage.crash((u64)f->arg);
    crashSet = true;
  }
}
bool exists(std::string const& n) { return S.cur.count(n) != 0; }
bool read(std::string const& n, Bytes& out) {
  pull();
  auto it = S.cur.find(n);
  if (it == S.cur.end()) return false;
  out = S.inodes[it->second].data;
  return true;
}
void install(std::string const& n, Bytes const& b) {
  int ino = S.nextIno++;
  Inode i;
  i.data = b;
  i.durMeta = Meta{i.epoch, b.size()};
  for (size_t p = 0; p * PG < b.size(); p++) {
    i.alloc.insert(p);
    i.dur[i.epoch][p] = Bytes(b.begin() + p * PG, b.begin() + std::min(b.size(), (p + 1) * PG));
  }
  S.inodes[ino] = i;
  S.cur[n] = S.dur[n] = ino;
}
void remove(std::string const& n) {
  S.cur.erase(n); S.dur.erase(n);
}
char const* describeAddr(void const* a) {
  auto c = (char const*)a;
  for (auto& m : mmaps) {
    if (c >= m.addr && c < m.addr + m.span) return c < m.addr + m.len ? "inside a file mapping (no backing or wrong protection)" : "file mapping, behind end of file";
    if (c >= m.base && c < m.base + m.total) return "outside the bounds of a file mapping";
  }
  for (auto& g : graveyard) if (c >= g.first && c < g.first + g.second) return "a file mapping already removed";
  return "not in a file mapping";
}

// ------------------------------------------------------------ system calls
// the one file that is larger than memory (giant.h)
static giant::File& G = giant::file;
static bool inGiant(void* a) { return G.base && a >= (void*)G.base && a < (void*)(G.base + G.cap); }
static int doOpen(char const* path, int flags, int mode = 0666) {
  Untracked u;
  int e = 0;
  note("open %s flags=%x", path, flags);
  if (fails(S_OPEN, hstr(path) ^ (u64)(flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL)), e)) return err(e);
  std::string n = path;
  while (n.size() > 6 && n.back() == '/') n.pop_back();
  if (n == "simfs/" || n == "simfs/." || (flags & O_DIRECTORY)) {
    int fd = newFd();
    dirFds[fd] = true; opens++;
    return fd;
  }
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (giant::on && n == "simfs/giant") {
    if (G.fd != -1) violation("giant-leak", "the file was opened while an earlier descriptor is still open");
    if (flags & O_TRUNC) G.size = G.synced = 0;
    G.fd = newFd(); G.writable = wr; opens++;
    return G.fd;
  }
  auto it = S.cur.find(n);
  if (it == S.cur.end()) {
    if (!(flags & O_CREAT)) return err(ENOENT);
    if (readOnly) return err(EROFS);
    int ino = S.nextIno++;
    Inode i; i.durMeta = Meta{1, 0};
    i.mode = mode & 0777 & ~022;               // the umask of an ordinary user
    S.inodes[ino] = i;
    S.cur[n] = ino;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
    if (readOnly && (wr || (flags & O_TRUNC))) return err(EROFS);
    // the simulated process is an ordinary user: what it may do with its file
    // is what the mode says that the file was created with
    int m = S.inodes[it->second].mode;
    if ((flags & O_ACCMODE) != O_WRONLY && !(m & 0400)) return err(EACCES);
    if ((wr || (flags & O_TRUNC)) && !(m & 0200)) return err(EACCES);
    pull();
    if (flags & O_TRUNC) truncateAway(S.inodes[it->second]);
  }
  int fd = newFd();
  fds[fd] = Fd{S.cur[n], flags, 0};
  opens++;
  return fd;
}
static int doClose(int fd) {
  Untracked u;
  note("close %d", fd);
  ev(0x5C000 + S_CLOSE);
  crashPoint();
  if (dirFds.erase(fd)) { closes++; return 0; }
  if (fd == G.fd) { G.fd = -1; closes++; return 0; }
  if (!getFd(fd, "close of a descriptor that is not open")) return err(EBADF);
  fds.erase(fd); closes++;     // released even if close reports an error
  if (Fault const* f = hit(S_CLOSE)) return err((int)f->arg);
  return 0;
}
static int doFchmod(int fd, mode_t m) {
  Untracked u;
  Fd* f = getFd(fd, "fchmod of a descriptor that is not open");
  if (!f) return err(EBADF);
  S.inodes[f->ino].mode = (int)(m & 0777);
  return 0;
}
static int doFcntl(int fd, int cmd) {
  Untracked u;
  Fd* f = getFd(fd, "fcntl of a descriptor that is not open");
  if (!f) return err(EBADF);
  if (cmd == F_GETFL) return f->flags;
  if (cmd == F_GETFD || cmd == F_SETFD || cmd == F_SETFL || cmd == F_SETLK || cmd == F_SETLKW) return 0;
  return err(EINVAL);
}
static void fillStat(struct stat* st, Inode const& i) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | (mode_t)i.mode;
  st->st_size = (off_t)i.data.size();
  st->st_blksize = 4096;
  st->st_blocks = (blkcnt_t)(i.alloc.size() * 8);
  st->st_nlink = 1;
}
static int doFstat(int fd, struct stat* st) {
  Untracked u;
  int e = 0;
  if (fails(S_FSTAT, 0, e)) return err(e);
  if (fd == G.fd) { fillStat(st, Inode{}); st->st_size = (off_t)G.size; return 0; }
  Fd* f = getFd(fd, "fstat of a descriptor that is not open");
  if (!f) return err(EBADF);
  pull();
  fillStat(st, S.inodes[f->ino]);
  return 0;
}
static int doStat(char const* path, struct stat* st) {
  Untracked u;
  int e = 0;
  if (fails(S_FSTAT, hstr(path), e)) return err(e);
  auto it = S.cur.find(path);
  if (it == S.cur.end()) return err(ENOENT);
  pull();
  fillStat(st, S.inodes[it->second]);
  return 0;
}
static int doFallocate(int fd, int mode, off_t off, off_t len, bool posix) {
  Untracked u;
  int e = 0;
  note("fallocate len=%lld", (long long)len);
  if (fails(S_FALLOCATE, (u64)len, e)) {
    // Known finding: a full device that cannot preallocate kills the process.  Only the plan
    // that demonstrates it combines the two.
    if ((e == EOPNOTSUPP || e == ENOSYS) && !(W.cur && W.cur->get("full_without_prealloc"))) freePages = -1;
    // what could not be allocated ahead cannot be allocated by writing either
    // (with threads the device would be full for all of them)
#ifndef SIM_THREADS
    if (e == ENOSPC || e == EDQUOT || e == EIO) { freePages = 0; fullErrno = e; }
#endif
    return posix ? e : err(e);
  }
  auto bad = [&](int x) { return posix ? x : err(x); };
  if (fd == G.fd) { if (len <= 0 || off < 0) return bad(EINVAL); if (!(mode & 1)) G.size = std::max(G.size, (u64)(off + len)); return 0; }
  Fd* f = getFd(fd, "fallocate on a descriptor that is not open");
  if (!f) return bad(EBADF);
  if ((f->flags & O_ACCMODE) == O_RDONLY) return bad(EBADF);
  if (len <= 0 || off < 0) return bad(EINVAL);
  Inode& i = S.inodes[f->ino];
  pull();
  if (!allocRange(i, (u64)off, (u64)(off + len))) {
    if (Fault const* nf = configured(S_NOSPACE)) markFired(*nf);
    return bad(fullErrno);
  }
  if (!(mode & 1) && i.data.size() < (u64)(off + len)) { resize(i, (u64)(off + len)); pushMeta(i); }
  return 0;
}
static int doFtruncate(int fd, off_t len) {
  Untracked u;
  int e = 0;
  note("ftruncate len=%lld", (long long)len);
  if (fails(S_FTRUNCATE, (u64)len, e)) return err(e);
  if (fd == G.fd) { if (len < 0) return err(EINVAL); G.size = (u64)len; return 0; }
  Fd* f = getFd(fd, "ftruncate on a descriptor that is not open");
  if (!f) return err(EBADF);
  if ((f->flags & O_ACCMODE) == O_RDONLY || len < 0) return err(EINVAL);
  Inode& i = S.inodes[f->ino];
  pull();
  if (i.data.size() != (u64)len) {
    if (len == 0) truncateAway(i);
    else { resize(i, (u64)len); pushMeta(i); }
  }
  return 0;
}
static int doFsync(int fd) {
  Untracked u;
  int e = 0;
  note("fsync");
  ev(0x5C000 + S_FSYNC);
  crashPoint();
  W.simTimeNs += 5'000'000;
  if (fd == G.fd) { G.durable = G.synced = G.size; return 0; }
  if (dirFds.count(fd)) {
    if (Fault const* f = hit(S_FSYNC)) return err((int)f->arg);
    S.dur = S.cur;
    return 0;
  }
  Fd* f = getFd(fd, "fsync of a descriptor that is not open");
  if (!f) return err(EBADF);
  Inode& i = S.inodes[f->ino];
  pull();
  if (Fault const* x = hit(S_FSYNC)) {
    e = (int)x->arg;
    if (e == EIO || e == ENOSPC || e == EDQUOT) dropDirty(i, 0, ~(size_t)0);
    return err(e);
  }
  syncPages(i, 0, ~(size_t)0);
  syncMeta(f->ino, i);
  return 0;
}
static void* doMmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
  Untracked u;
  int e = 0;
  note("mmap len=%zu prot=%d", len, prot);
  if (fails(S_MMAP, len, e)) { errno = e; return MAP_FAILED; }
  if (fd == G.fd) {
    if (len == 0 || off != 0 || len > (1ull << 40)) { errno = EINVAL; return MAP_FAILED; }
    if (!G.base) { G.cap = (size_t)std::max<u64>(G.size, len); G.base = (char*)giant::alloc(G.cap); }
    if (G.mapped || len > G.cap) { errno = ENOMEM; return MAP_FAILED; }
    size_t live = (std::min<u64>(len, G.size) + PG - 1) / PG * PG, all = (G.cap + PG - 1) / PG * PG;
    mprotect(G.base, all, PROT_NONE);
    mprotect(G.base, live, (prot & PROT_WRITE) ? PROT_READ | PROT_WRITE : PROT_READ);
    G.mapped = len; maps++;
    return G.base;
  }
  Fd* f = getFd(fd, "mmap of a descriptor that is not open");
  if (!f) { errno = EBADF; return MAP_FAILED; }
  if (len == 0 || (off % (off_t)PG) != 0 || addr != nullptr || len > (1ull << 40)) { errno = EINVAL; return MAP_FAILED; }
  bool shared = (flags & 0x0f) == MAP_SHARED || (flags & 0x0f) == 3;
  if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EACCES; return MAP_FAILED; }
  if (shared && (prot & PROT_WRITE) && (f->flags & O_ACCMODE) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
  Inode& i = S.inodes[f->ino];
  pull();
  size_t span = (len + PG - 1) / PG * PG;
  size_t total = span + 2 * 16 * PG;
  char* base = (char*)__real_mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) { errno = ENOMEM; return MAP_FAILED; }
  if (g_freshMemory) g_freshMemory(base, total);
  Map m{base, total, base + 16 * PG, len, span, f->ino, (u64)off, prot, shared};
  bool noBacking = false;
  for (size_t p = 0; p * PG < span; p++) {
    size_t fo = (size_t)off + p * PG;
    if (fo >= i.data.size()) break;   // behind EOF: stays inaccessible (SIGBUS)
    size_t n = std::min(PG, i.data.size() - fo);
    if (shared && (prot & PROT_WRITE) && !allocPage(i, fo / PG)) { noBacking = true; continue; }
    mprotect(m.addr + p * PG, PG, PROT_READ | PROT_WRITE);
    memcpy(m.addr + p * PG, &i.data[fo], n);
    // user visible protection
    int pr = (prot & PROT_WRITE) ? (PROT_READ | PROT_WRITE) : (prot & PROT_READ) ? PROT_READ : PROT_NONE;
    if (!(shared && (prot & PROT_WRITE)) || pr != (PROT_READ | PROT_WRITE)) mprotect(m.addr + p * PG, PG, pr);
    if (n < PG) POISON(m.addr + p * PG + n, PG - n);
  }
  if (noBacking) if (Fault const* nf = configured(S_NOSPACE)) markFired(*nf);
  mmaps.push_back(m);
  maps++;
  return m.addr;
}
static Map* findMap(void const* a) {
  for (auto& m : mmaps) if ((char const*)a >= m.addr && (char const*)a < m.addr + m.span) return &m;
  return nullptr;
}
static bool inGrave(void const* a) {
  for (auto& g : graveyard) if ((char const*)a >= g.first && (char const*)a < g.first + g.second) return true;
  return false;
}
static int doMsync(void* addr, size_t len, int flags) {
  Untracked u;
  note("msync len=%zu flags=%d", len, flags);
  ev(0x5C000 + S_MSYNC, len);
  crashPoint();
  W.simTimeNs += 5'000'000;
  if (inGiant(addr)) {
    if ((char*)addr != G.base || len > G.mapped || !G.mapped) { ledger("msync of memory that is not mapped"); return err(ENOMEM); }
    if (flags & MS_SYNC) G.synced = std::max<u64>(G.synced, len);
    return 0;
  }
  Map* m = findMap(addr);
  if (!m) { ledger("msync of memory that is not mapped"); return err(ENOMEM); }
  if ((u64)((char*)addr - m->addr) % PG || ((flags & MS_SYNC) && (flags & MS_ASYNC)) || (flags & ~(MS_SYNC | MS_ASYNC | MS_INVALIDATE))) return err(EINVAL);
  if ((char*)addr + len > m->addr + m->span) return err(ENOMEM);
  Inode& i = S.inodes[m->ino];
  pull();
  size_t a = (m->off + (size_t)((char*)addr - m->addr)) / PG;
  size_t b = a + (len + PG - 1) / PG;
  if (Fault const* x = hit(S_MSYNC)) {
    int e = (int)x->arg;
    if (e == EIO) dropDirty(i, a, b);
    return err(e);
  }
  if (m->shared && (flags & MS_SYNC)) syncPages(i, a, b);
  return 0;
}
static int doMunmap(void* addr, size_t len) {
  Untracked u;
  note("munmap len=%zu", len);
  ev(0x5C000 + S_MUNMAP, len);
  crashPoint();
  if (inGiant(addr)) {
    if ((char*)addr != G.base || len == 0 || (len + PG - 1) / PG != (G.mapped + PG - 1) / PG) { ledger("munmap of a range that does not match a mapping"); return err(EINVAL); }
    mprotect(G.base, (G.cap + PG - 1) / PG * PG, PROT_NONE);
    G.mapped = 0; unmaps++;
    return 0;
  }
  Map* m = findMap(addr);
  if (!m || addr != m->addr || len == 0 || (len + PG - 1) / PG * PG != m->span) {
    ledger(m ? "munmap of a range that does not match a mapping" : "munmap of memory that is not mapped");
    return err(EINVAL);
  }
  if (Fault const* x = hit(S_MUNMAP)) { m->ino = m->ino; 
    // the kernel refused; the mapping stays, which is not the caller's leak
    pull();
    Map mm = *m;
    mmaps.erase(mmaps.begin() + (m - mmaps.data()));
    unmaps++;
    dropMap(mm, false);
    return err((int)x->arg);
  }
  pull();
  Map mm = *m;
  mmaps.erase(mmaps.begin() + (m - mmaps.data()));
  unmaps++;
  dropMap(mm, false);
  return 0;
}
static ssize_t doPwrite(int fd, void const* buf, size_t n, i64 off) {
  Untracked u;
  ev(0x5C000 + S_WRITE, n);
  crashPoint();
  Fd* f = getFd(fd, "write to a descriptor that is not open");
  if (!f) return err(EBADF);
  if ((f->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
  if (Fault const* x = hit(S_WRITE)) {
    if (x->arg > 0) return err((int)x->arg);
    if (n > 1) n = 1 + (size_t)(-x->arg) % (n - 1);     // short write
  }
  Inode& i = S.inodes[f->ino];
  pull();
  u64 pos = off >= 0 ? (u64)off : (f->flags & O_APPEND) ? i.data.size() : f->pos;
  if (n == 0) return 0;
  if (!allocRange(i, pos, pos + n)) {
    if (Fault const* nf = configured(S_NOSPACE)) markFired(*nf);
    return err(fullErrno);
  }
  if (pos + n > i.data.size()) { i.data.resize(pos + n, 0); pushMeta(i); }
  memcpy(&i.data[pos], buf, n);
  for (size_t p = pos / PG; p * PG < pos + n; p++) i.dirty.insert(p);
  if (off < 0) f->pos = pos + n;
  return (ssize_t)n;
}
static ssize_t doPread(int fd, void* buf, size_t n, i64 off) {
  Untracked u;
  ev(0x5C000 + S_READ, n);
  Fd* f = getFd(fd, "read of a descriptor that is not open");
  if (!f) return err(EBADF);
  if ((f->flags & O_ACCMODE) == O_WRONLY) return err(EBADF);
  if (Fault const* x = hit(S_READ)) {
    if (x->arg > 0) return err((int)x->arg);
    if (n > 1) n = 1 + (size_t)(-x->arg) % (n - 1);     // short read
  }
  Inode& i = S.inodes[f->ino];
  pull();
  u64 pos = off >= 0 ? (u64)off : f->pos;
  if (pos >= i.data.size()) return 0;
  n = std::min<u64>(n, i.data.size() - pos);
  memcpy(buf, &i.data[pos], n);
  if (off < 0) f->pos = pos + n;
  return (ssize_t)n;
}
static off_t doLseek(int fd, off_t o, int wh) {
  Untracked u;
  Fd* f = getFd(fd, "lseek on a descriptor that is not open");
  if (!f) return err(EBADF);
  if (Fault const* x = hit(S_LSEEK)) return err((int)x->arg);
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->pos : (i64)S.inodes[f->ino].data.size();
  if (b + o < 0) return err(EINVAL);
  f->pos = (u64)(b + o);
  return (off_t)f->pos;
}
static int doRename(char const* a, char const* b) {
  Untracked u;
  int e = 0;
  if (fails(S_RENAME, hstr(a) ^ hstr(b), e)) return err(e);
  auto it = S.cur.find(a);
  if (it == S.cur.end()) return err(ENOENT);
  int ino = it->second;
  S.cur.erase(it);
  S.cur[b] = ino;
  return 0;
}
static int doUnlink(char const* a) {
  Untracked u;
  int e = 0;
  if (fails(S_UNLINK, hstr(a), e)) return err(e);
  if (!S.cur.erase(a)) return err(ENOENT);
  return 0;
}
} // namespace sim::fs

using namespace sim::fs;
extern "C" {
#define OPEN_BODY(real)                                       \
  int mode = 0;                                               \
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
  if (!ours(path)) return real(path, flags, mode);            \
  return doOpen(path, flags, mode);
int __wrap_open(char const* path, int flags, ...) { OPEN_BODY(__real_open) }
int __wrap_open64(char const* path, int flags, ...) { OPEN_BODY(__real_open) }
int __wrap_openat(int, char const* path, int flags, ...) { OPEN_BODY(__real_open) }
int __wrap_openat64(int, char const* path, int flags, ...) { OPEN_BODY(__real_open) }
int __wrap___open_2(char const* path, int flags) { return ours(path) ? doOpen(path, flags) : __real_open(path, flags); }
int __wrap_creat(char const* path, mode_t m) { return ours(path) ? doOpen(path, O_CREAT | O_WRONLY | O_TRUNC, (int)m) : __real_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_close(int fd) { return ours(fd) ? doClose(fd) : __real_close(fd); }
int __wrap_fstat(int fd, struct stat* s) { return ours(fd) ? doFstat(fd, s) : __real_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat* s) { return ours(fd) ? doFstat(fd, s) : __real_fstat(fd, s); }
int __wrap_stat(char const* p, struct stat* s) { return ours(p) ? doStat(p, s) : __real_stat(p, s); }
int __wrap_stat64(char const* p, struct stat* s) { return ours(p) ? doStat(p, s) : __real_stat(p, s); }
int __wrap_lstat(char const* p, struct stat* s) { return ours(p) ? doStat(p, s) : __real_stat(p, s); }
int __wrap_access(char const* p, int m) { struct stat s; return ours(p) ? doStat(p, &s) : __real_access(p, m); }
int __wrap_fallocate(int fd, int m, off_t o, off_t l) { return ours(fd) ? doFallocate(fd, m, o, l, false) : __real_fallocate(fd, m, o, l); }
int __wrap_fallocate64(int fd, int m, off_t o, off_t l) { return ours(fd) ? doFallocate(fd, m, o, l, false) : __real_fallocate(fd, m, o, l); }
int __wrap_posix_fallocate(int fd, off_t o, off_t l) { return ours(fd) ? doFallocate(fd, 0, o, l, true) : __real_posix_fallocate(fd, o, l); }
int __wrap_posix_fallocate64(int fd, off_t o, off_t l) { return ours(fd) ? doFallocate(fd, 0, o, l, true) : __real_posix_fallocate(fd, o, l); }
int __wrap_ftruncate(int fd, off_t l) { return ours(fd) ? doFtruncate(fd, l) : __real_ftruncate(fd, l); }
int __wrap_ftruncate64(int fd, off_t l) { return ours(fd) ? doFtruncate(fd, l) : __real_ftruncate(fd, l); }
int __wrap_fsync(int fd) { return ours(fd) ? doFsync(fd) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return ours(fd) ? doFsync(fd) : __real_fdatasync(fd); }
int __wrap_syncfs(int fd) { return ours(fd) ? doFsync(fd) : 0; }
void* __wrap_mmap(void* a, size_t l, int p, int f, int fd, off_t o) { return ours(fd) ? doMmap(a, l, p, f, fd, o) : __real_mmap(a, l, p, f, fd, o); }
void* __wrap_mmap64(void* a, size_t l, int p, int f, int fd, off_t o) { return ours(fd) ? doMmap(a, l, p, f, fd, o) : __real_mmap(a, l, p, f, fd, o); }
// memory the simulator never handed out: an error of the caller in a simulated program
int __wrap_munmap(void* a, size_t l) { return doMunmap(a, l); }
int __wrap_msync(void* a, size_t l, int f) { return doMsync(a, l, f); }
int __wrap_madvise(void* a, size_t l, int ad) { return findMap(a) || inGrave(a) ? 0 : __real_madvise(a, l, ad); }
int __wrap_posix_madvise(void*, size_t, int) { return 0; }
int __wrap_posix_fadvise(int fd, off_t o, off_t l, int ad) { return ours(fd) ? 0 : __real_posix_fadvise(fd, o, l, ad); }
ssize_t __wrap_write(int fd, void const* b, size_t n) { return ours(fd) ? doPwrite(fd, b, n, -1) : __real_write(fd, b, n); }
ssize_t __wrap_read(int fd, void* b, size_t n) { return ours(fd) ? doPread(fd, b, n, -1) : __real_read(fd, b, n); }
ssize_t __wrap_pwrite(int fd, void const* b, size_t n, off_t o) { return ours(fd) ? doPwrite(fd, b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, void const* b, size_t n, off_t o) { return ours(fd) ? doPwrite(fd, b, n, o) : __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { return ours(fd) ? doPread(fd, b, n, o) : __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return ours(fd) ? doPread(fd, b, n, o) : __real_pread(fd, b, n, o); }
off_t __wrap_lseek(int fd, off_t o, int w) { return ours(fd) ? doLseek(fd, o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return ours(fd) ? doLseek(fd, o, w) : __real_lseek(fd, o, w); }
int __wrap_rename(char const* a, char const* b) { return ours(a) ? doRename(a, b) : __real_rename(a, b); }
int __wrap_fchmod(int fd, mode_t m) { return ours(fd) ? doFchmod(fd, m) : __real_fchmod(fd, m); }
int __wrap_flock(int fd, int op) { return ours(fd) ? 0 : __real_flock(fd, op); }
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
  return ours(fd) ? doFcntl(fd, cmd) : __real_fcntl(fd, cmd, a);
}
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap);
  return ours(fd) ? doFcntl(fd, cmd) : __real_fcntl(fd, cmd, a);
}
int __wrap_unlink(char const* a) { return ours(a) ? doUnlink(a) : __real_unlink(a); }
}
