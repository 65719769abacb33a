// Binds the library under test to the dynamic world of the model. Only the
// public interface is used: struct_cast_*, stream_cast_*, operator[].
#pragma once
#include "s2s.hpp"
#include "model.hpp"
#include <array>
#include <bit>
#include <cstdint>
#include <exception>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

using namespace s2s_literals;
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;
using f32 = float; using f64 = double;
namespace vf { using ull = unsigned long long; using sll = long long; }

#include "mon.hpp"

namespace vf {
using model::Val;

// ------------------------------------------------------------ values <-> C++
template <typename T> struct glue;          // emitted per record type

template <typename T> struct conv {         // integers, floats, records
  static Val to(const T& v) {
    if constexpr (std::is_floating_point_v<T>) {
      if constexpr (sizeof(T) == 4) return Val::integer(model::i128(std::bit_cast<u32>(v)));
      else return Val::integer(model::i128(std::bit_cast<u64>(v)));
    } else if constexpr (std::is_integral_v<T>) return Val::integer(model::i128(v));
    else return glue<T>::get(v);
  }
  static void from(T& o, const Val& v) {
    if constexpr (std::is_floating_point_v<T>) {
      if constexpr (sizeof(T) == 4) o = std::bit_cast<T>(u32(v.i)); else o = std::bit_cast<T>(u64(v.i));
    } else if constexpr (std::is_integral_v<T>) o = static_cast<T>(v.i);
    else glue<T>::set(o, v, std::size_t(-1));
  }
};
template <typename T> Val to_val(const T& v) { return conv<T>::to(v); }
template <typename T> void from_val(T& o, const Val& v) { conv<T>::from(o, v); }
template <typename T, std::size_t N> struct conv<T[N]> {
  static Val to(const T (&a)[N]) { Val v = Val::list(); for (auto& x : a) v.l.push_back(to_val(x)); return v; }
  static void from(T (&a)[N], const Val& v) { for (std::size_t i = 0; i < N; ++i) from_val(a[i], v.l[i]); }
};
template <typename T, std::size_t N> struct conv<std::array<T, N>> {
  static Val to(const std::array<T, N>& a) { Val v = Val::list(); for (auto& x : a) v.l.push_back(to_val(x)); return v; }
  static void from(std::array<T, N>& a, const Val& v) { for (std::size_t i = 0; i < N; ++i) from_val(a[i], v.l[i]); }
};
template <std::size_t N> struct conv<s2s::fixed_string<N>> {
  static Val to(const s2s::fixed_string<N>& s) { return Val::bytes(std::string(s.data(), N + 1)); }
  static void from(s2s::fixed_string<N>& s, const Val& v) { for (std::size_t i = 0; i <= N; ++i) s.data()[i] = v.b[i]; }
};
template <> struct conv<std::string> {
  static Val to(const std::string& s) { return Val::bytes(s); }
  static void from(std::string& s, const Val& v) { s = v.b; }
};
template <typename T> struct conv<std::vector<T>> {
  static Val to(const std::vector<T>& a) { Val v = Val::list(); v.l.reserve(a.size()); for (auto& x : a) v.l.push_back(to_val(x)); return v; }
  static void from(std::vector<T>& a, const Val& v) { a.clear(); a.resize(v.l.size()); for (std::size_t i = 0; i < a.size(); ++i) from_val(a[i], v.l[i]); }
};
template <typename T> struct conv<std::optional<T>> {
  static Val to(const std::optional<T>& o) { return o ? Val::some(to_val(*o)) : Val::none(); }
  static void from(std::optional<T>& o, const Val& v) { if (v.l.empty()) o.reset(); else { o.emplace(); from_val(*o, v.l[0]); } }
};
template <typename... A> struct conv<std::variant<A...>> {
  static Val to(const std::variant<A...>& v) { if (v.valueless_by_exception()) return Val::valueless(); return std::visit([&](const auto& x) { return Val::var(v.index(), to_val(x)); }, v); }
  template <std::size_t I> static void put(std::variant<A...>& o, const Val& v) {
    if constexpr (I < sizeof...(A)) { if (v.idx == I) from_val(o.template emplace<I>(), v.l[0]); else put<I + 1>(o, v); }
  }
  // an emplacement that throws; alternatives the library never leaves empty stay as they are
  struct Thrower { template <typename T> operator T() const { throw 1; } };
  template <std::size_t I> static void lose(std::variant<A...>& o) {
    if constexpr (I < sizeof...(A)) {
      using T = std::variant_alternative_t<I, std::variant<A...>>;
      if constexpr (std::is_class_v<T> && requires { o.template emplace<I>(Thrower{}); }) { try { o.template emplace<I>(Thrower{}); } catch (int) {} }
      if (!o.valueless_by_exception()) lose<I + 1>(o);
    }
  }
  static void from(std::variant<A...>& o, const Val& v) { if (v.lost()) lose<0>(o); else put<0>(o, v); }
};

// ------------------------------------------------------------ access policy
template <typename S, s2s::fixed_string id> constexpr bool readable_mut = requires(S& s) { s[s2s::field_accessor<id>{}]; };
template <typename S, s2s::fixed_string id> constexpr bool readable_const = requires(const S& s) { s[s2s::field_accessor<id>{}]; };
template <typename S, s2s::fixed_string id> constexpr int access_of() {
  int r = 0;
  if constexpr (readable_const<S, id>) r |= 1;
  if constexpr (readable_mut<S, id>) {
    r |= 2;
    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(std::declval<S&>()[s2s::field_accessor<id>{}])>>) r |= 4;
  }
  return r;  // 0 hidden, 3 read only, 7 assignable
}
// a const object must never hand out a mutable reference
template <typename S, s2s::fixed_string id> constexpr bool const_safe() {
  if constexpr (readable_const<S, id>)
    return std::is_const_v<std::remove_reference_t<decltype(std::declval<const S&>()[s2s::field_accessor<id>{}])>>;
  else return true;
}
template <typename S, s2s::fixed_string id> Val get_one(const S& s) {
  if constexpr (readable_const<S, id>) return to_val(s[s2s::field_accessor<id>{}]); else return Val::hid();
}
template <typename S, s2s::fixed_string id> void set_one(S& s, const Val& v) {
  if constexpr ((access_of<S, id>() & 4) != 0) from_val(s[s2s::field_accessor<id>{}], v);
}
template <typename S, s2s::fixed_string id> const void* addr_one(const S& s) {
  if constexpr (readable_const<S, id>) return static_cast<const void*>(&s[s2s::field_accessor<id>{}]); else return nullptr;
}
// the mutable and the const accessor show one value
template <typename S, s2s::fixed_string id> bool agree_one(S& s) {
  if constexpr (readable_const<S, id> && readable_mut<S, id>) {
    auto&& a = s[s2s::field_accessor<id>{}];
    auto&& b = std::as_const(s)[s2s::field_accessor<id>{}];
    return static_cast<const void*>(&a) == static_cast<const void*>(&b) || model::same(to_val(a), to_val(b));
  } else return true;
}

// ------------------------------------------------------------ type-erased object
template <typename S> struct ObjImpl final : Obj {
  S s;
  ObjImpl() : s{} {}
  explicit ObjImpl(const S& o) : s(o) {}
  explicit ObjImpl(S&& o) : s(std::move(o)) {}
  std::unique_ptr<Obj> clone() const override { return std::make_unique<ObjImpl>(s); }
  std::unique_ptr<Obj> take() override { return std::make_unique<ObjImpl>(std::move(s)); }
  void assign(const Obj& o) override { s = static_cast<const ObjImpl&>(o).s; }
  Val get() const override { return glue<S>::get(s); }
  void set(const Val& v, std::size_t only) override { glue<S>::set(s, v, only); }
  Res write(bool be, MonOut& o) const override { return write_to(be, o); }
  template <typename St> Res write_to(bool be, St& o) const {
    Res r;
    AllocScope scope(r.alloc);
    s2s::cast_result c;
    if constexpr (glue<S>::le_only) c = s2s::stream_cast_le<S>(o, s);
    else c = be ? s2s::stream_cast_be<S>(o, s) : s2s::stream_cast_le<S>(o, s);
    scope.stop();
    r.ok = c.has_value();
    if (!r.ok) { r.reason = int(c.error().failure_reason); r.view = c.error().failed_at; r.at = std::string(r.view); }
    return r;
  }
  std::string raw() const override { return std::string(reinterpret_cast<const char*>(&s), sizeof s); }
  std::vector<const void*> addrs() const override { return glue<S>::addrs(s); }
  std::vector<bool> agree() override { return glue<S>::agree(s); }
};
template <typename S, typename St> Res read_from(bool be, St& in) {
  Res r;
  AllocScope scope(r.alloc);
  auto c = [&] {
    if constexpr (glue<S>::le_only) return s2s::struct_cast_le<S>(in);
    else return be ? s2s::struct_cast_be<S>(in) : s2s::struct_cast_le<S>(in);
  }();
  scope.stop();
  r.ok = c.has_value();
  if (r.ok) r.obj = std::make_unique<ObjImpl<S>>(std::move(*c));
  else { r.reason = int(c.error().failure_reason); r.view = c.error().failed_at; r.at = std::string(r.view); }
  return r;
}
template <typename S> Res read_mon(bool be, MonIn& in) { return read_from<S>(be, in); }
template <typename S> std::unique_ptr<Obj> make_obj() { return std::make_unique<ObjImpl<S>>(); }

// constraint functors with a model counterpart
struct not_an_option { int x = 0; };
struct c_yes { constexpr auto operator()(const auto&) const -> bool { return true; } };
template <auto K> struct c_szle { constexpr auto operator()(const auto& v) const -> bool { return v.size() <= std::size_t(K); } };
template <auto K> struct c_szge { constexpr auto operator()(const auto& v) const -> bool { return v.size() >= std::size_t(K); } };
template <auto K> struct c_lastne {
  constexpr auto operator()(const auto& v) const -> bool { return v.empty() || v.back() != std::remove_cvref_t<decltype(v.back())>(K); }
};
template <auto K> struct c_firstne {
  static constexpr bool ne(const auto& x) { if constexpr (requires { x[0]; }) return ne(x[0]); else return x != std::remove_cvref_t<decltype(x)>(K); }
  constexpr auto operator()(const auto& v) const -> bool {
    if constexpr (requires { v.empty(); }) { if (v.empty()) return true; }
    return ne(v);
  }
};
struct c_even { constexpr auto operator()(const auto& v) const -> bool { return v % 2 == 0; } };
template <s2s::fixed_string id, auto K> struct c_reclt {
  constexpr auto operator()(const auto& v) const -> bool { return std::cmp_less(v[s2s::field_accessor<id>{}], K); }
};
template <s2s::fixed_string id, auto K> struct c_allreclt {
  constexpr auto operator()(const auto& v) const -> bool { for (auto& e : v) if (!std::cmp_less(e[s2s::field_accessor<id>{}], K)) return false; return true; }
};
template <auto K> struct c_idxne { constexpr auto operator()(const auto& v) const -> bool { return v.index() != std::size_t(K); } };
constexpr std::uint64_t U(auto v) { return static_cast<std::uint64_t>(v); }
constexpr std::uint64_t at(const auto& a, std::size_t i) { if constexpr (requires { a[i]; }) return U(a[i]); else return U(a.data()[i]); }
}  // namespace vf
