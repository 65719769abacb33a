// The same case evaluated by the compiler and by the machine.
#pragma once
#include "streams.hpp"
#include <cstdio>

#ifdef VF_NOCONST
#define VF_CONST const
#else
#define VF_CONST constexpr
#endif
namespace vf {
template <typename S> struct cglue;       // emitted per record type: each(), mix()
struct Digest {
  bool ok = false, wok = false, mok = false;
  int reason = -1, wreason = -1, mreason = -1;
  u64 at = 0, pos = 0, value = 0, wat = 0, wn = 0, wbytes = 0, mat = 0, mn = 0, mbytes = 0;
  constexpr bool operator==(const Digest&) const = default;
};
constexpr void add(u64& h, u64 v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
template <typename T> struct fs_len { static constexpr std::size_t value = 0; };
template <std::size_t N> struct fs_len<s2s::fixed_string<N>> { static constexpr std::size_t value = N + 1; };
template <typename T> constexpr void add_val(u64& h, const T& v) {
  if constexpr (fs_len<T>::value != 0) { for (std::size_t i = 0; i < fs_len<T>::value; ++i) add(h, u64((unsigned char)v.data()[i])); } else
  if constexpr (std::is_same_v<T, f32>) add(h, std::bit_cast<u32>(v));
  else if constexpr (std::is_same_v<T, f64>) add(h, std::bit_cast<u64>(v));
  else if constexpr (std::is_integral_v<T>) add(h, u64(v));
  else if constexpr (std::is_array_v<T>) { for (auto& x : v) add_val(h, x); }
  else if constexpr (requires { v.has_value(); }) { add(h, v.has_value()); if (v.has_value()) add_val(h, *v); }
  else if constexpr (requires { v.valueless_by_exception(); }) { add(h, v.index()); std::visit([&](const auto& x) { add_val(h, x); }, v); }
  else if constexpr (requires { v.begin(); v.end(); }) { add(h, u64(v.end() - v.begin())); for (auto& x : v) add_val(h, x); }
  else cglue<T>::each(v, [&](const auto& x) { add_val(h, x); });
}
template <typename T> constexpr void copy_into(T& a, const T& b) {
  if constexpr (std::is_array_v<T>) { for (std::size_t i = 0; i < std::extent_v<T>; ++i) copy_into(a[i], b[i]); } else a = b;
}
template <typename S, s2s::fixed_string id> constexpr void each_one(const S& s, auto& f) {
  if constexpr (readable_const<S, id>) f(s[s2s::field_accessor<id>{}]);
}
template <typename S, s2s::fixed_string id> constexpr void mix_one(S& a, const S& b) {
  if constexpr ((access_of<S, id>() & 4) != 0) copy_into(a[s2s::field_accessor<id>{}], b[s2s::field_accessor<id>{}]);
}
constexpr u64 hash_sv(std::string_view s) { u64 h = 14695981039346656037ull; for (char c : s) add(h, u64((unsigned char)c)); return h; }

class RtIn {
  const char* p; std::size_t n, i = 0; bool good = true;
public:
  RtIn(const char* d, std::size_t k) : p(d), n(k) {}
  RtIn& read(char* d, std::streamsize k) {
    for (std::streamsize x = 0; x < k; ++x) { if (i >= n) { good = false; return *this; } d[x] = p[i++]; }
    return *this;
  }
  explicit operator bool() const { return good; }
  std::size_t at() const { return i; }
};
template <std::size_t M> class RtOut {
  bool good = true;
public:
  std::array<char, M> buf{};
  std::size_t used = 0;
  RtOut& write(const char* s, std::size_t k) {
    for (std::size_t x = 0; x < k; ++x) { if (used >= M) { good = false; return *this; } buf[used++] = s[x]; }
    return *this;
  }
  explicit operator bool() const { return good; }
};
template <typename S, typename In> constexpr auto cast_in(bool be, In& in) {
  if constexpr (glue<S>::le_only) return s2s::struct_cast_le<S>(in);
  else return be ? s2s::struct_cast_be<S>(in) : s2s::struct_cast_le<S>(in);
}
template <typename S, typename Out> constexpr auto cast_out(bool be, Out& o, const S& s) {
  if constexpr (glue<S>::le_only) return s2s::stream_cast_le<S>(o, s);
  else return be ? s2s::stream_cast_be<S>(o, s) : s2s::stream_cast_le<S>(o, s);
}
template <typename S, typename In, typename Out>
constexpr Digest run(bool be, std::string_view a, std::string_view b, u64 mask) {
  Digest d;
  In in(a.data(), a.size());
  auto r = cast_in<S>(be, in);
  d.ok = r.has_value();
  if (!d.ok) { d.reason = int(r.error().failure_reason); d.at = hash_sv(r.error().failed_at); return d; }
  d.pos = in.at();
  d.value = 14695981039346656037ull;
  add_val(d.value, *r);
  {
    Out o;
    auto w = cast_out<S>(be, o, *r);
    d.wok = w.has_value();
    if (!d.wok) { d.wreason = int(w.error().failure_reason); d.wat = hash_sv(w.error().failed_at); }
    d.wn = o.used;
    d.wbytes = hash_sv(std::string_view(o.buf.data(), o.used));
  }
  In in2(b.data(), b.size());
  auto q = cast_in<S>(be, in2);
  if (q.has_value()) {
    cglue<S>::mix(*r, *q, mask);
    Out o;
    auto w = cast_out<S>(be, o, *r);
    d.mok = w.has_value();
    if (!d.mok) { d.mreason = int(w.error().failure_reason); d.mat = hash_sv(w.error().failed_at); }
    d.mn = o.used;
    d.mbytes = hash_sv(std::string_view(o.buf.data(), o.used));
  }
  return d;
}
inline void report(const char* schema, int i, bool be, const char* hex, const Digest& c, const Digest& r) {
  std::printf("%s schema=%s case=%d %s in=%s constant:ok=%d/%d/%d,%d/%d/%d n=%llu/%llu run:ok=%d/%d/%d,%d/%d/%d n=%llu/%llu\n", c == r ? "SAME" : "DIFF", schema, i, be ? "be" : "le", hex, c.ok, c.wok, c.mok, c.reason, c.wreason, c.mreason,
              (unsigned long long)c.wn, (unsigned long long)c.mn, r.ok, r.wok, r.mok, r.reason, r.wreason, r.mreason, (unsigned long long)r.wn, (unsigned long long)r.mn);
}
}  // namespace vf
