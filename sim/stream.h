// Simulated stream device: one sequence of bytes with independent read and write
// positions, seeded transfer sizes, and failures at chosen byte positions.
#pragma once
#include "fs.h"
#include <ios>
#include <streambuf>
#include <istream>
#include <ostream>

namespace sim {

struct StreamError : std::ios_base::failure {
  StreamError() : std::ios_base::failure("simulated device error") {}
};

struct SimStreambuf : std::streambuf {
  fs::Bytes data;            // what reached the device
  size_t rpos = 0;           // device read position (data handed to the get area)
  Rng r;
  size_t chunk;              // largest piece of a transfer; 0: unbuffered
  bool once = false;         // transient error already delivered
  bool readSide;
  bool positions;            // false: like a pipe or a socket
  std::vector<char> gbuf, pbuf;

  SimStreambuf(u64 seed, size_t chunk_, bool readSide_) : r(seed), chunk(chunk_), readSide(readSide_), positions(mix(seed + 77) & 1) {
    gbuf.resize(chunk ? chunk : 1);
    pbuf.resize(chunk ? chunk : 1);
    setg(gbuf.data(), gbuf.data(), gbuf.data());
    newPut();
  }
  void newPut() {
    size_t n = chunk ? 1 + r.below(chunk) : 0;
    setp(pbuf.data(), pbuf.data() + n);
  }
  // bytes the reader has consumed
  size_t consumed() const { return rpos - (size_t)(egptr() - gptr()); }
  size_t produced() const { return data.size() + (size_t)(pptr() - pbase()); }

  // limit of the device: 0 none, else fault to apply at byte position arg
  Fault const* faultAt(size_t pos, bool rd, size_t want, size_t& allowed) {
    allowed = want;
    if (rd != readSide) return nullptr;
    Fault const* best = nullptr;
    for (int s : {S_STREAM_EOF, S_STREAM_ERR, S_STREAM_THROW}) {
      Fault const* f = configured(s);
      if (!f) continue;
      if (s == S_STREAM_ERR && once) continue;
      size_t at = (size_t)f->arg;
      if (pos + want > at) {
        size_t a = at > pos ? at - pos : 0;
        if (a <= allowed) { allowed = a; best = f; }
      }
    }
    return best;
  }
  void fire(Fault const* f) {
    if (!firedSite(f->site)) markFired(*f);
    if (f->site == S_STREAM_ERR) once = true;
    if (f->site == S_STREAM_THROW) throw StreamError{};
  }

  int_type underflow() override {
    Untracked u;
    size_t want = chunk ? 1 + r.below(chunk) : 1;
    size_t av = data.size() - rpos;
    size_t allowed;
    size_t n = want < av ? want : av;
    if (n == 0) { ev(0x57E0F); return traits_type::eof(); }
    Fault const* f = faultAt(rpos, true, n, allowed);
    if (f && allowed == 0) { fire(f); return traits_type::eof(); }
    n = allowed;
    memcpy(gbuf.data(), &data[rpos], n);
    rpos += n;
    ev(0x57E00, n);
    setg(gbuf.data(), gbuf.data(), gbuf.data() + n);
    return traits_type::to_int_type(*gptr());
  }
  bool flushPut() {
    size_t n = (size_t)(pptr() - pbase());
    size_t allowed = n;
    Fault const* f = n ? faultAt(data.size(), false, n, allowed) : nullptr;
    data.insert(data.end(), (u8*)pbase(), (u8*)pbase() + allowed);
    ev(0x57E01, allowed);
    newPut();
    if (f) { fire(f); return false; }
    return true;
  }
  int_type overflow(int_type c) override {
    Untracked u;
    if (!flushPut()) return traits_type::eof();
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (epptr() > pptr()) { *pptr() = traits_type::to_char_type(c); pbump(1); return c; }
    char ch = traits_type::to_char_type(c);
    size_t allowed;
    Fault const* f = faultAt(data.size(), false, 1, allowed);
    if (f && allowed == 0) { fire(f); return traits_type::eof(); }
    data.push_back((u8)ch);
    return c;
  }
  std::streamsize xsputn(char const* s, std::streamsize n) override {
    Untracked u;
    if (chunk) return std::streambuf::xsputn(s, n);     // piecewise through overflow()
    size_t allowed;
    Fault const* f = n ? faultAt(data.size(), false, (size_t)n, allowed) : nullptr;
    if (!f) allowed = (size_t)n;
    data.insert(data.end(), (u8 const*)s, (u8 const*)s + allowed);
    ev(0x57E02, allowed);
    if (f) fire(f);
    return (std::streamsize)allowed;
  }
  // what can be read without waiting: nothing is known, or some of it
  std::streamsize showmanyc() override {
    size_t av = data.size() - rpos;
    return av && chunk && positions ? (std::streamsize)std::min(av, chunk) : 0;
  }
  int sync() override { Untracked u; return flushPut() ? 0 : -1; }
  pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode which) override {
    Untracked u;
    if (!positions) return pos_type(off_type(-1));
    if (which & std::ios_base::in) {
      i64 base = way == std::ios_base::beg ? 0 : way == std::ios_base::cur ? (i64)consumed() : (i64)data.size();
      i64 t = base + off;
      if (t < 0 || t > (i64)data.size()) return pos_type(off_type(-1));
      if (!(way == std::ios_base::cur && off == 0)) {
        rpos = (size_t)t;
        setg(gbuf.data(), gbuf.data(), gbuf.data());
      }
      return pos_type(t);
    }
    if (way == std::ios_base::cur && off == 0) return pos_type((off_type)produced());
    return pos_type(off_type(-1));
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode which) override {
    return seekoff(off_type(p), std::ios_base::beg, which);
  }
};
} // namespace sim
