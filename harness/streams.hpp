// The other kinds of stream the documentation allows: standard ones, a custom
// one with nothing but read/write and operator bool, and a constexpr stream.
#pragma once
#include "glue.hpp"
#include <fstream>
#include <sstream>
#include <string>

namespace vf {
class MinIn {                      // exactly the documented minimum
  const char* p; std::size_t n, i = 0; bool good = true;
public:
  explicit MinIn(const std::string& s, bool live = true) : p(s.data()), n(s.size()), good(live) {}
  MinIn& read(char* d, std::streamsize k) {
    if (!good) return *this;
    for (std::streamsize x = 0; x < k; ++x) { if (i >= n) { good = false; return *this; } d[x] = p[i++]; }
    return *this;
  }
  explicit operator bool() const { return good; }
  std::size_t at() const { return i; }
};
class MinOut {
  std::string& o; std::size_t cap; bool good = true;
public:
  MinOut(std::string& s, std::size_t limit) : o(s), cap(limit), good(limit != DEAD) {}
  MinOut& write(const char* s, std::size_t n) {
    if (!good) return *this;
    AllocPause p;
    std::size_t k = n < cap - o.size() ? n : cap - o.size();
    o.append(s, k);
    if (k < n) good = false;
    return *this;
  }
  explicit operator bool() const { return good; }
};
class CxIn : public s2s::constexpr_stream {       // the documented constexpr stream, over a view
  const char* p; std::size_t n, i = 0; bool good = true;
public:
  constexpr CxIn(const char* d, std::size_t k, bool live = true) : p(d), n(k), good(live) {}
  template <std::size_t N> constexpr CxIn& read(std::array<char, N>& d, std::size_t k) {
    if (!good) return *this;
    for (std::size_t x = 0; x < k; ++x) { if (i >= n) { good = false; return *this; } d[x] = p[i++]; }
    return *this;
  }
  constexpr explicit operator bool() const { return good; }
  constexpr std::size_t at() const { return i; }
};
class LimBuf : public std::streambuf {            // a device that fills up
  std::string& o; std::size_t cap;
public:
  LimBuf(std::string& s, std::size_t limit) : o(s), cap(limit) {}
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    AllocPause p;
    std::size_t k = std::size_t(n) < cap - o.size() ? std::size_t(n) : cap - o.size();
    o.append(s, k);
    return std::streamsize(k);
  }
  int overflow(int c) override { if (c == EOF) return 0; char x = char(c); return xsputn(&x, 1) == 1 ? c : EOF; }
};
template <std::size_t M> class CxOut : public s2s::constexpr_stream {
public:
  bool good = true;
  std::array<char, M> buf{};
  std::size_t used = 0, cap = M;
  template <std::size_t N> constexpr CxOut& write(const std::array<char, N>& s, std::size_t k) {
    if (!good) return *this;
    for (std::size_t x = 0; x < k; ++x) { if (used >= cap) { good = false; return *this; } buf[used++] = s[x]; }
    return *this;
  }
  constexpr explicit operator bool() const { return good; }
};

class CxSink : public s2s::constexpr_stream {     // the same at run time, of any size
  std::string& out;
  std::size_t cap;
  bool good;
public:
  CxSink(std::string& o, std::size_t limit) : out(o), cap(limit), good(limit != DEAD) { out.clear(); out.reserve(1 << 12); }
  template <std::size_t N> CxSink& write(const std::array<char, N>& s, std::size_t k) {
    if (!good) return *this;
    for (std::size_t x = 0; x < k; ++x) { if (out.size() >= cap) { good = false; return *this; } out.push_back(s[x]); }
    return *this;
  }
  explicit operator bool() const { return good; }
};

template <typename S, int kind> Extra make_extra() {   // 0: standard streams only, 1: every kind at run time, 2: constexpr streams too
  Extra e{};
  e.any_istream = [](bool be, std::istream& in) { return read_from<S>(be, in); };
  e.any_ostream = [](bool be, const Obj& o, std::ostream& out) { return static_cast<const ObjImpl<S>&>(o).write_to(be, out); };
  if constexpr (kind == 0) return e;
  else {
  e.sstream = [](bool be, const std::string& in, std::size_t& pos) {
    std::stringstream s(in, std::ios::in | std::ios::binary);
    if (pos == DEAD) s.setstate(std::ios::failbit);
    Res r = read_from<S>(be, s);
    if (r.ok) pos = std::size_t(s.tellg());
    return r;
  };
  e.fstream = [](bool be, const std::string& in, std::size_t& pos, const char* path) {
    { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(in.data(), std::streamsize(in.size())); }
    std::ifstream s(path, std::ios::binary);
    if (pos == DEAD) s.setstate(std::ios::badbit);
    Res r = read_from<S>(be, s);
    if (r.ok) pos = std::size_t(s.tellg());
    return r;
  };
  e.minimal = [](bool be, const std::string& in, std::size_t& pos) {
    MinIn s(in, pos != DEAD);
    Res r = read_from<S>(be, s);
    pos = s.at();
    return r;
  };
  e.w_sstream = [](bool be, const Obj& o, std::string& out, std::size_t limit) {
    if (limit != std::size_t(-1)) {
      LimBuf b(out, limit);
      std::ostream s(&b);
      if (limit == DEAD) s.setstate(std::ios::failbit);
      return static_cast<const ObjImpl<S>&>(o).write_to(be, s);
    }
    std::stringstream s(std::ios::out | std::ios::binary);
    Res r = static_cast<const ObjImpl<S>&>(o).write_to(be, s);
    out = s.str();
    return r;
  };
  e.w_fstream = [](bool be, const Obj& o, std::string& out, const char* path) {
    Res r;
    { std::ofstream s(path, std::ios::binary | std::ios::trunc); r = static_cast<const ObjImpl<S>&>(o).write_to(be, s); }
    std::ifstream f(path, std::ios::binary);
    out.assign(std::istreambuf_iterator<char>(f), {});
    return r;
  };
  e.w_minimal = [](bool be, const Obj& o, std::string& out, std::size_t limit) { MinOut s(out, limit); return static_cast<const ObjImpl<S>&>(o).write_to(be, s); };
  if constexpr (kind == 2) {
    e.cxstream = [](bool be, const std::string& in, std::size_t& pos) {
      CxIn s(in.data(), in.size(), pos != DEAD);
      Res r = read_from<S>(be, s);
      pos = s.at();
      return r;
    };
    e.w_cxstream = [](bool be, const Obj& o, std::string& out, std::size_t limit) {
      CxSink s(out, limit);
      return static_cast<const ObjImpl<S>&>(o).write_to(be, s);
    };
  }
  return e;
  }
}
}  // namespace vf
