From be4a14baf19cc79194e0e4b045f00eadd5e34de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 01/12] fix: swap only the declared width of a narrow field in
 foreign byte order

A u32 declared 2_B was byteswapped as four bytes, so struct_cast_be read
0x1234 as 0x12340000 and stream_cast_be emitted 0000 for it, lengths
included.
---
 include/field_read/read_impl.hpp   |  2 +-
 include/field_write/write_impl.hpp |  2 +-
 include/stream/byte_order.hpp      | 19 +++++++++++++++++++
 single_header/s2s.hpp              | 23 +++++++++++++++++++++--
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 9e38ec8..73f1578 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -98,7 +98,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = swap_declared_width(obj, size_to_read);
     return {};
   }
   return res;
diff --git a/include/field_write/write_impl.hpp b/include/field_write/write_impl.hpp
index 0d7c730..97d8b9f 100644
--- a/include/field_write/write_impl.hpp
+++ b/include/field_write/write_impl.hpp
@@ -54,7 +54,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = swap_declared_width(obj, size_to_write);
   return write_native_impl(s, swapped, size_to_write);
 }
 
diff --git a/include/stream/byte_order.hpp b/include/stream/byte_order.hpp
index a2357e1..5ffd5d8 100644
--- a/include/stream/byte_order.hpp
+++ b/include/stream/byte_order.hpp
@@ -3,6 +3,8 @@
 
 
 #include <bit>
+#include <cstddef>
+#include <type_traits>
 
 #include "../lib/s2s_traits/type_traits.hpp"
 
@@ -25,6 +27,23 @@ constexpr auto byteswap_elements(T& obj) -> void {
 }
 
 
+// Swaps only the low `width` bytes, the ones that are on the wire: a u32
+// declared 2_B reads into, and is written from, the front two bytes of the
+// object, and swapping all four would move the value out of them.
+template <trivial T>
+constexpr auto swap_declared_width(T v, std::size_t width) -> T {
+  // A single byte has no narrower width, and bool has no unsigned counterpart.
+  if constexpr(sizeof(T) > 1) {
+    if(width < sizeof(T)) {
+      using bits = std::make_unsigned_t<T>;
+      const auto unused_bits = (sizeof(T) - width) * 8;
+      return static_cast<T>(std::byteswap(static_cast<bits>(static_cast<bits>(v) << unused_bits)));
+    }
+  }
+  return std::byteswap(v);
+}
+
+
 enum cast_endianness {
   host = 0,
   foreign = 1
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index f92c679..6d798f4 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3874,6 +3874,8 @@ constexpr auto as_byte_buffer(const T& obj) -> std::array<char, size> {
 #ifndef _BYTE_ORDER_HPP_
 #define _BYTE_ORDER_HPP_
  
+ 
+ 
 namespace s2s {
 // Single-byte elements have no byte order, and fixed_string exposes no
 // iterators, so both fall through untouched. Shared by the read and write
@@ -3892,6 +3894,23 @@ constexpr auto byteswap_elements(T& obj) -> void {
 }
 
 
+// Swaps only the low `width` bytes, the ones that are on the wire: a u32
+// declared 2_B reads into, and is written from, the front two bytes of the
+// object, and swapping all four would move the value out of them.
+template <trivial T>
+constexpr auto swap_declared_width(T v, std::size_t width) -> T {
+  // A single byte has no narrower width, and bool has no unsigned counterpart.
+  if constexpr(sizeof(T) > 1) {
+    if(width < sizeof(T)) {
+      using bits = std::make_unsigned_t<T>;
+      const auto unused_bits = (sizeof(T) - width) * 8;
+      return static_cast<T>(std::byteswap(static_cast<bits>(static_cast<bits>(v) << unused_bits)));
+    }
+  }
+  return std::byteswap(v);
+}
+
+
 enum cast_endianness {
   host = 0,
   foreign = 1
@@ -4002,7 +4021,7 @@ constexpr auto read_foreign_scalar(stream& s, T& obj, std::size_t size_to_read)
   auto res = read_native_impl(s, obj, size_to_read);
   if(res) {
     // todo rollout byteswap if freestanding compiler doesnt provide one
-    obj = std::byteswap(obj);
+    obj = swap_declared_width(obj, size_to_read);
     return {};
   }
   return res;
@@ -4787,7 +4806,7 @@ template <trivial T, output_stream_like stream>
 constexpr auto write_foreign_scalar(stream& s, const T& obj, std::size_t size_to_write) -> rw_result {
   // The source is const and belongs to the caller, so the swap lands in a
   // stack temporary rather than mutating it in place as the read path does.
-  T swapped = std::byteswap(obj);
+  T swapped = swap_declared_width(obj, size_to_write);
   return write_native_impl(s, swapped, size_to_write);
 }
 
-- 
2.43.0


From 8e389d16190c8c657042e203b86a6598484b8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:40 +0000
Subject: [PATCH 02/12] fix: compare fixed strings without looking for a
 terminator

A fixed_string or magic_string read off the wire need not hold a NUL in
its N + 1 bytes; comparing it through a NUL-terminated view read past the
end of the object.
---
 include/lib/containers/fixed_string.hpp | 6 ++++--
 single_header/s2s.hpp                   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lib/containers/fixed_string.hpp b/include/lib/containers/fixed_string.hpp
index 59bd5a3..036bd05 100644
--- a/include/lib/containers/fixed_string.hpp
+++ b/include/lib/containers/fixed_string.hpp
@@ -20,7 +20,7 @@ struct fixed_string {
   constexpr char* data() { return value.data(); }
   constexpr std::size_t size() const { return N; }
   constexpr auto to_sv() -> std::string_view const {
-    return std::string_view{data()};
+    return std::string_view{data(), std::find(value.begin(), value.end(), '\0')};
   }
 };
 
@@ -30,7 +30,9 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  // Every byte of both, rather than up to a NUL: a string read off the wire
+  // need not hold one, and looking for it would run past the end.
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 6d798f4..7c16846 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -40,7 +40,7 @@ struct fixed_string {
   constexpr char* data() { return value.data(); }
   constexpr std::size_t size() const { return N; }
   constexpr auto to_sv() -> std::string_view const {
-    return std::string_view{data()};
+    return std::string_view{data(), std::find(value.begin(), value.end(), '\0')};
   }
 };
 
@@ -50,7 +50,9 @@ fixed_string(const char (&)[N]) -> fixed_string<N - 1>;
 template <std::size_t N1, std::size_t N2>
 constexpr bool operator==(fixed_string<N1> lhs, fixed_string<N2> rhs) {
   if constexpr(N1 != N2) return false;
-  return std::string_view{lhs.data()} == std::string_view{rhs.data()};
+  // Every byte of both, rather than up to a NUL: a string read off the wire
+  // need not hold one, and looking for it would run past the end.
+  else return lhs.value == rhs.value;
 }
 
 template <std::size_t N1, std::size_t N2>
-- 
2.43.0


From 34378a767294b1efd3f066eae737371964caa78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:40 +0000
Subject: [PATCH 03/12] fix: constraints judge the field's value, not its
 conversion

lt{100} over a u32 holds an int, so 0xffffffff was judged as -1 and
accepted; magic_number<"m", u64, 8_B, 0xdead> accepted any value whose
low 32 bits matched.
---
 .../field_value_constraints.hpp               | 44 +++++++++++++++++++
 single_header/s2s.hpp                         | 44 +++++++++++++++++++
 2 files changed, 88 insertions(+)

diff --git a/include/field_validation/field_value_constraints.hpp b/include/field_validation/field_value_constraints.hpp
index 3b5df3b..5661407 100644
--- a/include/field_validation/field_value_constraints.hpp
+++ b/include/field_validation/field_value_constraints.hpp
@@ -39,6 +39,31 @@ template <typename T>
 concept inequality_comparable = comparable<T> && 
     (std::is_integral_v<T> || is_fixed_string_v<T>);
 
+// A constraint deduces its type from the literal it was written with, so
+// lt{100} over a u32 field holds an int, and so does the eq of a
+// magic_number<"m", u64, 8_B, 0xdead>. Converting the field's value to that
+// type would truncate or wrap it into a verdict about another value, so these
+// answer for the value itself. Equality is the language's own ==, under which
+// -1 still names the all-ones value of an unsigned field.
+template <typename U, typename T>
+concept other_integral = integral<U> && integral<T> && !std::is_same_v<U, T>;
+
+template <integral A, integral B>
+constexpr auto value_equal(A a, B b) -> bool {
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) == static_cast<common>(b);
+}
+
+template <integral A, integral B>
+constexpr auto value_less(A a, B b) -> bool {
+  if constexpr(std::is_signed_v<A> && !std::is_signed_v<B>)
+    return a < 0 || static_cast<std::make_unsigned_t<A>>(a) < b;
+  else if constexpr(!std::is_signed_v<A> && std::is_signed_v<B>)
+    return b >= 0 && a < static_cast<std::make_unsigned_t<B>>(b);
+  else
+    return a < b;
+}
+
 // Structs for predefined constraints
 template <equality_comparable T>
 struct eq {
@@ -46,6 +71,8 @@ struct eq {
   constexpr eq(T value) : v(value) {}
   constexpr eq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v == v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return value_equal(actual_v, v); }
 };
 
 // The one constraint that names a single legal value rather than a set of
@@ -69,6 +96,8 @@ struct neq {
   constexpr neq(T value) : v(value) {}
   constexpr neq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v != v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !value_equal(actual_v, v); }
 };
 
 template <comparable T>
@@ -77,6 +106,8 @@ struct lt {
   constexpr lt(T value) : v(value) {}
   constexpr lt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v < v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return value_less(actual_v, v); }
 };
 
 template <comparable T>
@@ -85,6 +116,8 @@ struct gt {
   constexpr gt(T value) : v(value) {}
   constexpr gt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v > v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return value_less(v, actual_v); }
 };
 
 template <typename T>
@@ -93,6 +126,8 @@ struct lte {
   constexpr lte(T value) : v(value) {}
   constexpr lte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v <= v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !value_less(v, actual_v); }
 };
 
 template <inequality_comparable T>
@@ -101,6 +136,8 @@ struct gte {
   constexpr gte(T value) : v(value) {}
   constexpr gte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v >= v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !value_less(actual_v, v); }
 };
 
 template <typename T>
@@ -122,6 +159,13 @@ struct any_of {
                      possible_values.end(), 
                      actual_v) != possible_values.end();
   }
+
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const {
+    return std::any_of(possible_values.begin(),
+                       possible_values.end(),
+                       [&](const T& v) { return value_equal(actual_v, v); });
+  }
 };
 
 // Range struct
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 7c16846..f6ce0ff 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -861,6 +861,31 @@ template <typename T>
 concept inequality_comparable = comparable<T> && 
     (std::is_integral_v<T> || is_fixed_string_v<T>);
 
+// A constraint deduces its type from the literal it was written with, so
+// lt{100} over a u32 field holds an int, and so does the eq of a
+// magic_number<"m", u64, 8_B, 0xdead>. Converting the field's value to that
+// type would truncate or wrap it into a verdict about another value, so these
+// answer for the value itself. Equality is the language's own ==, under which
+// -1 still names the all-ones value of an unsigned field.
+template <typename U, typename T>
+concept other_integral = integral<U> && integral<T> && !std::is_same_v<U, T>;
+
+template <integral A, integral B>
+constexpr auto value_equal(A a, B b) -> bool {
+  using common = std::common_type_t<A, B>;
+  return static_cast<common>(a) == static_cast<common>(b);
+}
+
+template <integral A, integral B>
+constexpr auto value_less(A a, B b) -> bool {
+  if constexpr(std::is_signed_v<A> && !std::is_signed_v<B>)
+    return a < 0 || static_cast<std::make_unsigned_t<A>>(a) < b;
+  else if constexpr(!std::is_signed_v<A> && std::is_signed_v<B>)
+    return b >= 0 && a < static_cast<std::make_unsigned_t<B>>(b);
+  else
+    return a < b;
+}
+
 // Structs for predefined constraints
 template <equality_comparable T>
 struct eq {
@@ -868,6 +893,8 @@ struct eq {
   constexpr eq(T value) : v(value) {}
   constexpr eq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v == v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return value_equal(actual_v, v); }
 };
 
 // The one constraint that names a single legal value rather than a set of
@@ -891,6 +918,8 @@ struct neq {
   constexpr neq(T value) : v(value) {}
   constexpr neq() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v != v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !value_equal(actual_v, v); }
 };
 
 template <comparable T>
@@ -899,6 +928,8 @@ struct lt {
   constexpr lt(T value) : v(value) {}
   constexpr lt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v < v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return value_less(actual_v, v); }
 };
 
 template <comparable T>
@@ -907,6 +938,8 @@ struct gt {
   constexpr gt(T value) : v(value) {}
   constexpr gt() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v > v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return value_less(v, actual_v); }
 };
 
 template <typename T>
@@ -915,6 +948,8 @@ struct lte {
   constexpr lte(T value) : v(value) {}
   constexpr lte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v <= v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !value_less(v, actual_v); }
 };
 
 template <inequality_comparable T>
@@ -923,6 +958,8 @@ struct gte {
   constexpr gte(T value) : v(value) {}
   constexpr gte() : v{} {}
   constexpr bool operator()(const T& actual_v) const { return actual_v >= v; }
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const { return !value_less(actual_v, v); }
 };
 
 template <typename T>
@@ -944,6 +981,13 @@ struct any_of {
                      possible_values.end(), 
                      actual_v) != possible_values.end();
   }
+
+  template <other_integral<T> U>
+  constexpr bool operator()(const U& actual_v) const {
+    return std::any_of(possible_values.begin(),
+                       possible_values.end(),
+                       [&](const T& v) { return value_equal(actual_v, v); });
+  }
 };
 
 // Range struct
-- 
2.43.0


From 08d7b75f119f50c61fb089e0aac78d2e9bd60d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:11 +0000
Subject: [PATCH 04/12] fix: write a negative switch discriminant

The width check asked for the bytes above the slot to be clear, which a
negative match_case value never satisfies, so a union that reads with one
failed to write with validation_failure.
---
 include/field_write/derived_value.hpp | 4 +++-
 single_header/s2s.hpp                 | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 406cc8c..debef06 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -297,7 +297,9 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    // At full width the conversion below is the whole question. Asking this
+    // one too would reject a negative discriminant, whose upper bytes are set.
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index f6ce0ff..4ed43c0 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4791,7 +4791,9 @@ private:
   static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
 
   static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    if constexpr(declared_width < sizeof(std::size_t)) {
+    // At full width the conversion below is the whole question. Asking this
+    // one too would reject a negative discriminant, whose upper bytes are set.
+    if constexpr(declared_width < sizeof(field_type)) {
       if((v >> (declared_width * 8)) != 0)
         return false;
     }
-- 
2.43.0


From 46b2d4ea7190242df01c9dcdae954dc69d9afe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:11 +0000
Subject: [PATCH 05/12] fix: reject a verified length its declared width cannot
 hold

A length whose container sits in a maybe or a union alternative was
compared in full and then written truncated, so a u32 declared 2_B over
0x10003 elements reached the stream as 3.
---
 include/field_write/derived_value.hpp | 46 +++++++++++++++++----------
 single_header/s2s.hpp                 | 46 +++++++++++++++++----------
 2 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index debef06..cc017c8 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -120,6 +120,11 @@ template <typename target, typename... choices, std::size_t... idx>
 struct union_len_obligation<field_choice_list<choices...>, target, std::index_sequence<idx...>> {
   static constexpr bool present = (... || obligates<choices, target>());
 
+  template <typename V>
+  static constexpr auto is_active(const V& variant) -> bool {
+    return (... || (obligates<choices, target>() && variant.index() == idx));
+  }
+
   template <typename V>
   static constexpr auto agrees(const V& variant, std::size_t value_on_the_wire) -> bool {
     bool ok{true};
@@ -167,6 +172,22 @@ inline constexpr bool has_conditional_len_obligation_v =
   has_conditional_len_obligation<target, F>::value;
 
 
+// The declared width, not sizeof(field_type): a u32 slot declared
+// 2_B puts two bytes on the wire, and a length needing
+// three must fail rather than reach the stream truncated.
+template <typename target>
+constexpr auto fits_declared_width(std::size_t v) -> bool {
+  using field_type = typename target::field_type;
+  constexpr auto declared_width = deduce_field_size<target::field_size>{}();
+  // At full width the conversion below is the whole question. Asking this
+  // one too would reject a negative discriminant, whose upper bytes are set.
+  if constexpr(declared_width < sizeof(field_type)) {
+    if((v >> (declared_width * 8)) != 0)
+      return false;
+  }
+  return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
+}
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -181,6 +202,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
   constexpr auto operator()(const S& field_list, std::size_t value_on_the_wire) const
     -> rw_result
   {
+    bool obligated{false};
     bool agreed{true};
 
     (([&] {
@@ -189,10 +211,12 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
         const auto is_active =
           producer.value.has_value() &&
           compute_impl<typename fields::field_presence_checker>{}(field_list);
+        obligated = obligated || is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
         using resolved = typename union_len_obligation_of<fields, target>::resolved;
+        obligated = obligated || resolved::is_active(producer.value);
         if(!resolved::agrees(producer.value, value_on_the_wire))
           agreed = false;
       }
@@ -200,6 +224,10 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
 
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
+    // A length somebody depends on has to survive the slot it is written to,
+    // exactly as a derived one does.
+    if(obligated && !fits_declared_width<target>(value_on_the_wire))
+      return std::unexpected(error_reason::validation_failure);
     return {};
   }
 };
@@ -285,26 +313,10 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     // agree on a value the declared slot cannot hold.
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
-    if(!fits_declared_width(derived))
+    if(!fits_declared_width<target>(derived))
       return std::unexpected(error_reason::validation_failure);
     return static_cast<field_type>(derived);
   }
-
-private:
-  // The declared width, not sizeof(field_type): a u32 slot declared
-  // 2_B puts two bytes on the wire, and a length needing
-  // three must fail rather than reach the stream truncated.
-  static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
-
-  static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    // At full width the conversion below is the whole question. Asking this
-    // one too would reject a negative discriminant, whose upper bytes are set.
-    if constexpr(declared_width < sizeof(field_type)) {
-      if((v >> (declared_width * 8)) != 0)
-        return false;
-    }
-    return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
-  }
 };
 } /* namespace s2s */
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 4ed43c0..df160b4 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4614,6 +4614,11 @@ template <typename target, typename... choices, std::size_t... idx>
 struct union_len_obligation<field_choice_list<choices...>, target, std::index_sequence<idx...>> {
   static constexpr bool present = (... || obligates<choices, target>());
 
+  template <typename V>
+  static constexpr auto is_active(const V& variant) -> bool {
+    return (... || (obligates<choices, target>() && variant.index() == idx));
+  }
+
   template <typename V>
   static constexpr auto agrees(const V& variant, std::size_t value_on_the_wire) -> bool {
     bool ok{true};
@@ -4661,6 +4666,22 @@ inline constexpr bool has_conditional_len_obligation_v =
   has_conditional_len_obligation<target, F>::value;
 
 
+// The declared width, not sizeof(field_type): a u32 slot declared
+// 2_B puts two bytes on the wire, and a length needing
+// three must fail rather than reach the stream truncated.
+template <typename target>
+constexpr auto fits_declared_width(std::size_t v) -> bool {
+  using field_type = typename target::field_type;
+  constexpr auto declared_width = deduce_field_size<target::field_size>{}();
+  // At full width the conversion below is the whole question. Asking this
+  // one too would reject a negative discriminant, whose upper bytes are set.
+  if constexpr(declared_width < sizeof(field_type)) {
+    if((v >> (declared_width * 8)) != 0)
+      return false;
+  }
+  return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
+}
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -4675,6 +4696,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
   constexpr auto operator()(const S& field_list, std::size_t value_on_the_wire) const
     -> rw_result
   {
+    bool obligated{false};
     bool agreed{true};
 
     (([&] {
@@ -4683,10 +4705,12 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
         const auto is_active =
           producer.value.has_value() &&
           compute_impl<typename fields::field_presence_checker>{}(field_list);
+        obligated = obligated || is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
       } else if constexpr(union_len_obligation_of<fields, target>::present) {
         using resolved = typename union_len_obligation_of<fields, target>::resolved;
+        obligated = obligated || resolved::is_active(producer.value);
         if(!resolved::agrees(producer.value, value_on_the_wire))
           agreed = false;
       }
@@ -4694,6 +4718,10 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
 
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
+    // A length somebody depends on has to survive the slot it is written to,
+    // exactly as a derived one does.
+    if(obligated && !fits_declared_width<target>(value_on_the_wire))
+      return std::unexpected(error_reason::validation_failure);
     return {};
   }
 };
@@ -4779,26 +4807,10 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     // agree on a value the declared slot cannot hold.
     if(!agreed)
       return std::unexpected(error_reason::found_contradicting_length);
-    if(!fits_declared_width(derived))
+    if(!fits_declared_width<target>(derived))
       return std::unexpected(error_reason::validation_failure);
     return static_cast<field_type>(derived);
   }
-
-private:
-  // The declared width, not sizeof(field_type): a u32 slot declared
-  // 2_B puts two bytes on the wire, and a length needing
-  // three must fail rather than reach the stream truncated.
-  static constexpr auto declared_width = deduce_field_size<target::field_size>{}();
-
-  static constexpr auto fits_declared_width(std::size_t v) -> bool {
-    // At full width the conversion below is the whole question. Asking this
-    // one too would reject a negative discriminant, whose upper bytes are set.
-    if constexpr(declared_width < sizeof(field_type)) {
-      if((v >> (declared_width * 8)) != 0)
-        return false;
-    }
-    return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
-  }
 };
 } /* namespace s2s */
 
-- 
2.43.0


From ebbb13df4ebf669d51ac064535a83291fd923a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:11 +0000
Subject: [PATCH 06/12] fix: let an optional container declare max_bytes

The length dependencies of a maybe were only found for a base field with
the default bound, so maybe<vec_field<..., max_bytes<N>>, ...> did not
compile.
---
 include/field_list/field_list_metadata.hpp | 6 +++---
 single_header/s2s.hpp                      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index aaf7f2d..ccaa2ab 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -75,13 +75,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index df160b4..caab134 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2579,13 +2579,13 @@ struct extract_length_dependencies<
   static constexpr auto value = deps_of(size_type_of<size>::req_field_list);
 };
 
-template <fixed_string id, typename T, auto size, auto constraint, 
+template <fixed_string id, typename T, auto size, auto constraint, auto bound,
           typename present_only_if, typename optional>
 struct extract_length_dependencies<
-  maybe_field<field<id, T, size, constraint>, present_only_if, optional>
+  maybe_field<field<id, T, size, constraint, bound>, present_only_if, optional>
 >
 {
-  using f = field<id, T, size, constraint>;
+  using f = field<id, T, size, constraint, bound>;
   static constexpr auto value = extract_length_dependencies<f>::value;
 };
 
-- 
2.43.0


From 2699288b4ed1443809f8018d2377ac13c3cadd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:11 +0000
Subject: [PATCH 07/12] fix: deduce a union from a discriminant that is also a
 length

The discriminant was read through operator[], which a length target does
not have, so such a schema did not compile.
---
 include/type_deduction/type/type_impl.hpp | 3 ++-
 single_header/s2s.hpp                     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 1ecf9a9..9e52960 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -31,7 +31,8 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    // Not operator[]: a discriminant that is also a length target has none.
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl));
   }
 };
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index caab134..ca2699f 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3759,7 +3759,8 @@ struct deduce_type<type<match_field<id>, _switch>> {
   template <auto metadata, typename... fields>
   constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(sfl[field_accessor<id>{}]); 
+    // Not operator[]: a discriminant that is also a length target has none.
+    return evaluate_switch<_switch>{}(field_value_of<field_accessor<id>>(sfl));
   }
 };
 
-- 
2.43.0


From a35ffb9b6399c95c96d46e9240df8c39e8a9b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:01:57 +0000
Subject: [PATCH 08/12] fix: read any nonzero byte as true

A bool was filled with whatever byte arrived, and looking at one other
than 0 or 1 is undefined behaviour.
---
 include/field_read/read_impl.hpp | 25 +++++++++++++++++++++++++
 single_header/s2s.hpp            | 25 +++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/include/field_read/read_impl.hpp b/include/field_read/read_impl.hpp
index 73f1578..17341aa 100644
--- a/include/field_read/read_impl.hpp
+++ b/include/field_read/read_impl.hpp
@@ -7,6 +7,7 @@
 #include <array>
 #include <limits>
 #include <type_traits>
+#include <vector>
 
 #include "../error/cast_error.hpp"
 #include "../field_size/field_size.hpp"
@@ -33,12 +34,34 @@ constexpr auto checked_byte_count(std::size_t len) -> std::expected<std::size_t,
   return len * sizeof(element);
 }
 
+// A bool off the wire. Any byte may arrive, but only 0 and 1 are values of a
+// bool, so nonzero has to become 1 before anyone looks at it as one.
+template <typename T>
+inline constexpr bool holds_bool_v = std::is_same_v<T, bool>;
+
+template <typename T, std::size_t N>
+inline constexpr bool holds_bool_v<std::array<T, N>> = holds_bool_v<T>;
+
+template <typename T, std::size_t N>
+inline constexpr bool holds_bool_v<T[N]> = holds_bool_v<T>;
+
+template <typename T>
+inline constexpr bool holds_bool_v<std::vector<T>> = holds_bool_v<T>;
+
+template <typename byte>
+constexpr auto normalize_bools(byte* bytes, std::size_t count) -> void {
+  for(std::size_t idx = 0; idx < count; ++idx)
+    bytes[idx] = bytes[idx] != 0;
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
   if(!s.read(as_byte_buffer_rep, size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(holds_bool_v<T>)
+    normalize_bools(as_byte_buffer_rep.data(), size_to_read);
   if constexpr(std::is_array_v<T>) {
     // bit_cast cannot yield a C array — it returns by value. The buffer goes
     // to the equivalent std::array instead and the elements are assigned.
@@ -57,6 +80,8 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
   if(!s.read(byte_addressof<stream>(obj), size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(holds_bool_v<T>)
+    normalize_bools(byte_addressof<stream>(obj), size_to_read);
   return {};
 }
 
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index ca2699f..cb7e623 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3985,6 +3985,7 @@ constexpr cast_endianness deduce_byte_order() {
  
  
  
+ 
 namespace s2s {
 // The gate every wire-driven allocation passes through.
 //
@@ -4003,12 +4004,34 @@ constexpr auto checked_byte_count(std::size_t len) -> std::expected<std::size_t,
   return len * sizeof(element);
 }
 
+// A bool off the wire. Any byte may arrive, but only 0 and 1 are values of a
+// bool, so nonzero has to become 1 before anyone looks at it as one.
+template <typename T>
+inline constexpr bool holds_bool_v = std::is_same_v<T, bool>;
+
+template <typename T, std::size_t N>
+inline constexpr bool holds_bool_v<std::array<T, N>> = holds_bool_v<T>;
+
+template <typename T, std::size_t N>
+inline constexpr bool holds_bool_v<T[N]> = holds_bool_v<T>;
+
+template <typename T>
+inline constexpr bool holds_bool_v<std::vector<T>> = holds_bool_v<T>;
+
+template <typename byte>
+constexpr auto normalize_bools(byte* bytes, std::size_t count) -> void {
+  for(std::size_t idx = 0; idx < count; ++idx)
+    bytes[idx] = bytes[idx] != 0;
+}
+
 template <typename T, identified_as_constexpr_stream stream>
 constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) -> rw_result {
   auto as_byte_buffer_rep = as_byte_buffer<stream>(obj);
   if(!s.read(as_byte_buffer_rep, size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(holds_bool_v<T>)
+    normalize_bools(as_byte_buffer_rep.data(), size_to_read);
   if constexpr(std::is_array_v<T>) {
     // bit_cast cannot yield a C array — it returns by value. The buffer goes
     // to the equivalent std::array instead and the elements are assigned.
@@ -4027,6 +4050,8 @@ constexpr auto read_native_impl(stream& s, T& obj, std::size_t size_to_read) ->
   if(!s.read(byte_addressof<stream>(obj), size_to_read)) {
     return std::unexpected(error_reason::buffer_exhaustion);
   }
+  if constexpr(holds_bool_v<T>)
+    normalize_bools(byte_addressof<stream>(obj), size_to_read);
   return {};
 }
 
-- 
2.43.0


From 3f090cd6f357b1f0fd9edc4120f5cd33b93a1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:24 +0000
Subject: [PATCH 09/12] fix: compute from the values being written

A parse_if, len_from_fields, computed switch or ladder over a derived or
frozen field was evaluated on the stored slot during a write, while the
reader evaluates it on the bytes. A struct that disagreed with its own
stream was written without an error, and one that agreed was rejected.
---
 .../computation_from_fields_impl.hpp          | 20 +++-
 include/field_size/field_size_deduce.hpp      |  6 +-
 include/field_write/derived_value.hpp         | 26 +++++-
 include/field_write/field_writer.hpp          |  8 +-
 .../if_else_ladder/ladder_impl.hpp            | 20 ++--
 include/type_deduction/type/type_impl.hpp     | 12 +--
 single_header/s2s.hpp                         | 92 +++++++++++++------
 7 files changed, 132 insertions(+), 52 deletions(-)

diff --git a/include/field_compute/computation_from_fields_impl.hpp b/include/field_compute/computation_from_fields_impl.hpp
index 138970d..e72459d 100644
--- a/include/field_compute/computation_from_fields_impl.hpp
+++ b/include/field_compute/computation_from_fields_impl.hpp
@@ -44,6 +44,15 @@ concept can_eval_R_from_fields =
   >::res;
 
 
+// Where a computation takes its arguments from: what the struct holds, which
+// is what was read. The write path has its own answer, written_values.
+struct stored_values {
+  template <typename accessor, typename L>
+  static constexpr auto of(const L& flist) -> decltype(auto) {
+    return field_value_of<accessor>(flist);
+  }
+};
+
 // template <auto callable, typename R, field_name_list Fs>
 template <typename T>
 struct compute_impl;
@@ -51,14 +60,19 @@ struct compute_impl;
 // todo: static_vector over fixed_string list?
 template <auto callable, typename R, fixed_string... req_fields>
 struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
-  template <auto metadata, typename... fields>
+  template <auto metadata, typename... fields, typename values = stored_values>
     requires (can_eval_R_from_fields<
                 callable, 
                 R,
                 struct_field_list_impl<metadata, fields...>,
                 fixed_string_list<req_fields...>>)
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist, values = {}) const -> R {
+    return call(values::template of<field_accessor<req_fields>>(flist)...);
+  }
+
+private:
+  static constexpr auto call(const auto&... args) -> R {
+    return callable(args...);
   }
 };
 } /* namespace s2s */
diff --git a/include/field_size/field_size_deduce.hpp b/include/field_size/field_size_deduce.hpp
index e211532..9a3fef0 100644
--- a/include/field_size/field_size_deduce.hpp
+++ b/include/field_size/field_size_deduce.hpp
@@ -31,9 +31,9 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
-    return compute_impl<field_size_type>{}(struct_fields);
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields, values from = {}) const -> std::size_t {
+    return compute_impl<field_size_type>{}(struct_fields, from);
   }
 };
 } /* namespace s2s */
diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index cc017c8..38e82a5 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -188,6 +188,16 @@ constexpr auto fits_declared_width(std::size_t v) -> bool {
   return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
 }
 
+// What a computation over the fields being written has to see: the value that
+// goes on the wire, which for a derived or a frozen field is not the one the
+// struct holds. It is what the reader will compute from.
+struct written_values {
+  template <typename accessor, auto metadata, typename... fields>
+  static constexpr auto of(const struct_field_list_impl<metadata, fields...>& field_list)
+    -> decltype(auto);
+};
+
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -210,7 +220,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker>{}(field_list, written_values{});
         obligated = obligated || is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
@@ -318,6 +328,20 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<field_type>(derived);
   }
 };
+
+template <typename accessor, auto metadata, typename... fields>
+constexpr auto written_values::of(const struct_field_list_impl<metadata, fields...>& field_list)
+  -> decltype(auto)
+{
+  using S = struct_field_list_impl<metadata, fields...>;
+  using target = meta::type_of<lookup_field<metadata>(as_sv(accessor::field_id))->id>;
+  if constexpr(is_derived_target_v<target, S>)
+    return derive_value<target, S>{}(field_list).value_or(field_value_of<accessor>(field_list));
+  else if constexpr(is_frozen_target_v<target, S>)
+    return (frozen_value_of<target>);
+  else
+    return field_value_of<accessor>(field_list);
+}
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
diff --git a/include/field_write/field_writer.hpp b/include/field_write/field_writer.hpp
index b3cdd27..1d6c12f 100644
--- a/include/field_write/field_writer.hpp
+++ b/include/field_write/field_writer.hpp
@@ -87,7 +87,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -165,7 +165,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -191,7 +191,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker>{}(field_list, written_values{});
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -268,7 +268,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide>{}(field_list, written_values{});
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
diff --git a/include/type_deduction/if_else_ladder/ladder_impl.hpp b/include/type_deduction/if_else_ladder/ladder_impl.hpp
index 00b66c3..6485d3c 100644
--- a/include/type_deduction/if_else_ladder/ladder_impl.hpp
+++ b/include/type_deduction/if_else_ladder/ladder_impl.hpp
@@ -18,11 +18,11 @@ struct evalaute_ladder_impl;
 
 template <std::size_t idx, typename branch>
 struct evalaute_ladder_impl {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list, values from) const -> 
     type_deduction_idx
   {
-    if(compute_impl<typename branch::expression>{}(field_list)) 
+    if(compute_impl<typename branch::expression>{}(field_list, from)) 
       return idx;
     return std::nullopt;
   }
@@ -30,17 +30,18 @@ struct evalaute_ladder_impl {
 
 template <typename... branches>
 struct evaluate_ladder_helper {
-  template <auto metadata, typename... fields, std::size_t... idx>
+  template <auto metadata, typename... fields, std::size_t... idx, typename values>
   constexpr auto operator()(
     const struct_field_list_impl<metadata, fields...>& field_list, 
-    const std::index_sequence<idx...>&) const 
+    const std::index_sequence<idx...>&,
+    values from) const 
   -> type_deduction_idx
   {
     type_deduction_idx pipeline_seed = std::nullopt;
     return (
       pipeline_seed |
       ... |
-      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list); }
+      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list, from); }
     );
   }
 };
@@ -48,13 +49,14 @@ struct evaluate_ladder_helper {
 
 template <typename... branches>
 struct evaluate_ladder<type_if_else<branches...>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list, values from = {}) const -> 
     type_deduction_res
   {
     auto res = evaluate_ladder_helper<branches...>{}(
       field_list,
-      std::make_index_sequence<sizeof...(branches)>{}
+      std::make_index_sequence<sizeof...(branches)>{},
+      from
     );
     if(!res)
       return std::unexpected(error_reason::type_deduction_failure);
diff --git a/include/type_deduction/type/type_impl.hpp b/include/type_deduction/type/type_impl.hpp
index 9e52960..66a76d7 100644
--- a/include/type_deduction/type/type_impl.hpp
+++ b/include/type_deduction/type/type_impl.hpp
@@ -19,10 +19,10 @@ struct deduce_type;
 // todo constraints compute like
 template <typename eval_expression, typename _switch>
 struct deduce_type<type<eval_expression, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values from = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
+    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl, from)); 
   }
 };
 
@@ -39,10 +39,10 @@ struct deduce_type<type<match_field<id>, _switch>> {
 // todo constraints
 template <typename ladder>
 struct deduce_type<type<ladder>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values from = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_ladder<ladder>{}(sfl);
+    return evaluate_ladder<ladder>{}(sfl, from);
   }
 };
 } /* namespace s2s */
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index cb7e623..e7b8e64 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -3071,6 +3071,15 @@ concept can_eval_R_from_fields =
   >::res;
 
 
+// Where a computation takes its arguments from: what the struct holds, which
+// is what was read. The write path has its own answer, written_values.
+struct stored_values {
+  template <typename accessor, typename L>
+  static constexpr auto of(const L& flist) -> decltype(auto) {
+    return field_value_of<accessor>(flist);
+  }
+};
+
 // template <auto callable, typename R, field_name_list Fs>
 template <typename T>
 struct compute_impl;
@@ -3078,14 +3087,19 @@ struct compute_impl;
 // todo: static_vector over fixed_string list?
 template <auto callable, typename R, fixed_string... req_fields>
 struct compute_impl<compute_t<callable, R, fixed_string_list<req_fields...>>>{
-  template <auto metadata, typename... fields>
+  template <auto metadata, typename... fields, typename values = stored_values>
     requires (can_eval_R_from_fields<
                 callable, 
                 R,
                 struct_field_list_impl<metadata, fields...>,
                 fixed_string_list<req_fields...>>)
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist) const -> R {
-    return callable(field_value_of<field_accessor<req_fields>>(flist)...);
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& flist, values = {}) const -> R {
+    return call(values::template of<field_accessor<req_fields>>(flist)...);
+  }
+
+private:
+  static constexpr auto call(const auto&... args) -> R {
+    return callable(args...);
   }
 };
 } /* namespace s2s */
@@ -3124,9 +3138,9 @@ struct deduce_field_size<size> {
   using field_size_type =
     compute_t<size_type_of<size>::f, std::size_t, std::remove_cvref_t<decltype(size_type_of<size>::req_field_list)>>;
 
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields) const -> std::size_t {
-    return compute_impl<field_size_type>{}(struct_fields);
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& struct_fields, values from = {}) const -> std::size_t {
+    return compute_impl<field_size_type>{}(struct_fields, from);
   }
 };
 } /* namespace s2s */
@@ -3632,11 +3646,11 @@ struct evalaute_ladder_impl;
 
 template <std::size_t idx, typename branch>
 struct evalaute_ladder_impl {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list, values from) const -> 
     type_deduction_idx
   {
-    if(compute_impl<typename branch::expression>{}(field_list)) 
+    if(compute_impl<typename branch::expression>{}(field_list, from)) 
       return idx;
     return std::nullopt;
   }
@@ -3644,17 +3658,18 @@ struct evalaute_ladder_impl {
 
 template <typename... branches>
 struct evaluate_ladder_helper {
-  template <auto metadata, typename... fields, std::size_t... idx>
+  template <auto metadata, typename... fields, std::size_t... idx, typename values>
   constexpr auto operator()(
     const struct_field_list_impl<metadata, fields...>& field_list, 
-    const std::index_sequence<idx...>&) const 
+    const std::index_sequence<idx...>&,
+    values from) const 
   -> type_deduction_idx
   {
     type_deduction_idx pipeline_seed = std::nullopt;
     return (
       pipeline_seed |
       ... |
-      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list); }
+      [&]() { return evalaute_ladder_impl<idx, branches>{}(field_list, from); }
     );
   }
 };
@@ -3662,13 +3677,14 @@ struct evaluate_ladder_helper {
 
 template <typename... branches>
 struct evaluate_ladder<type_if_else<branches...>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list) const -> 
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& field_list, values from = {}) const -> 
     type_deduction_res
   {
     auto res = evaluate_ladder_helper<branches...>{}(
       field_list,
-      std::make_index_sequence<sizeof...(branches)>{}
+      std::make_index_sequence<sizeof...(branches)>{},
+      from
     );
     if(!res)
       return std::unexpected(error_reason::type_deduction_failure);
@@ -3747,10 +3763,10 @@ struct deduce_type;
 // todo constraints compute like
 template <typename eval_expression, typename _switch>
 struct deduce_type<type<eval_expression, _switch>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values from = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl)); 
+    return evaluate_switch<_switch>{}(compute_impl<eval_expression>{}(sfl, from)); 
   }
 };
 
@@ -3767,10 +3783,10 @@ struct deduce_type<type<match_field<id>, _switch>> {
 // todo constraints
 template <typename ladder>
 struct deduce_type<type<ladder>> {
-  template <auto metadata, typename... fields>
-  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl)
+  template <auto metadata, typename... fields, typename values = stored_values>
+  constexpr auto operator()(const struct_field_list_impl<metadata, fields...>& sfl, values from = {})
     -> std::expected<std::size_t, error_reason> const {
-    return evaluate_ladder<ladder>{}(sfl);
+    return evaluate_ladder<ladder>{}(sfl, from);
   }
 };
 } /* namespace s2s */
@@ -4708,6 +4724,16 @@ constexpr auto fits_declared_width(std::size_t v) -> bool {
   return static_cast<std::size_t>(static_cast<field_type>(v)) == v;
 }
 
+// What a computation over the fields being written has to see: the value that
+// goes on the wire, which for a derived or a frozen field is not the one the
+// struct holds. It is what the reader will compute from.
+struct written_values {
+  template <typename accessor, auto metadata, typename... fields>
+  static constexpr auto of(const struct_field_list_impl<metadata, fields...>& field_list)
+    -> decltype(auto);
+};
+
+
 template <typename target, typename F>
 struct verify_conditional_len;
 
@@ -4730,7 +4756,7 @@ struct verify_conditional_len<target, struct_field_list_impl<metadata, fields...
       if constexpr(conditionally_obligates<fields, target>()) {
         const auto is_active =
           producer.value.has_value() &&
-          compute_impl<typename fields::field_presence_checker>{}(field_list);
+          compute_impl<typename fields::field_presence_checker>{}(field_list, written_values{});
         obligated = obligated || is_active;
         if(is_active && producer.value->size() != value_on_the_wire)
           agreed = false;
@@ -4838,6 +4864,20 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     return static_cast<field_type>(derived);
   }
 };
+
+template <typename accessor, auto metadata, typename... fields>
+constexpr auto written_values::of(const struct_field_list_impl<metadata, fields...>& field_list)
+  -> decltype(auto)
+{
+  using S = struct_field_list_impl<metadata, fields...>;
+  using target = meta::type_of<lookup_field<metadata>(as_sv(accessor::field_id))->id>;
+  if constexpr(is_derived_target_v<target, S>)
+    return derive_value<target, S>{}(field_list).value_or(field_value_of<accessor>(field_list));
+  else if constexpr(is_frozen_target_v<target, S>)
+    return (frozen_value_of<target>);
+  else
+    return field_value_of<accessor>(field_list);
+}
 } /* namespace s2s */
 
 #endif // _DERIVED_VALUE_HPP_
@@ -5018,7 +5058,7 @@ struct write_field<T, F> {
       // An arbitrary N-ary callable has no inverse, so its source fields stay
       // ordinary data and the size they imply can only be checked against the
       // container, never used to repair it.
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     // For a len_from_field size there is nothing to check: the length slot was
@@ -5096,7 +5136,7 @@ struct write_field<T, F> {
     constexpr auto field_size = T::field_size;
 
     if constexpr(is_computed_size_v<size_type_of<field_size>>) {
-      if(deduce_field_size<field_size>{}(field_list) != value.size())
+      if(deduce_field_size<field_size>{}(field_list, written_values{}) != value.size())
         return std::unexpected(error_reason::found_contradicting_length);
     }
     for(const auto& record: value) {
@@ -5122,7 +5162,7 @@ struct write_field<T, F> {
     // nothing to derive here — only to check that the struct agrees with what
     // the reader will conclude from the very same sibling bytes.
     const auto should_be_present =
-      compute_impl<typename T::field_presence_checker>{}(field_list);
+      compute_impl<typename T::field_presence_checker>{}(field_list, written_values{});
     if(should_be_present != value.has_value())
       return std::unexpected(error_reason::validation_failure);
     if(!should_be_present)
@@ -5199,7 +5239,7 @@ struct write_field<T, F> {
     // alternative can only be checked against what the reader will conclude
     // from the same sibling bytes.
     if constexpr(!discriminant_obligation<T>::present) {
-      auto deduced = deduce_type<guide>{}(field_list);
+      auto deduced = deduce_type<guide>{}(field_list, written_values{});
       if(!deduced)
         return std::unexpected(deduced.error());
       if(*deduced != value.index())
-- 
2.43.0


From aec1825c24786c9c8de562151a6bdc925b1941ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:57 +0000
Subject: [PATCH 10/12] fix: move a parsed struct into the result instead of
 copying it

A copy of a struct holding a union allocates again, and when that
allocation fails libstdc++'s variant copy constructor runs into undefined
behaviour (a crash) instead of letting std::bad_alloc reach the caller.
---
 include/cast/struct_cast_impl.hpp   | 3 ++-
 include/field_read/field_reader.hpp | 4 ++--
 single_header/s2s.hpp               | 7 ++++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cast/struct_cast_impl.hpp b/include/cast/struct_cast_impl.hpp
index 3e42e1e..45938a9 100644
--- a/include/cast/struct_cast_impl.hpp
+++ b/include/cast/struct_cast_impl.hpp
@@ -3,6 +3,7 @@
 
 
 #include <expected>
+#include <utility>
 #include "../error/cast_error.hpp"
 #include "../field_list/field_list.hpp"
 #include "../field_read/field_reader.hpp"
@@ -46,7 +47,7 @@ struct struct_cast_impl<struct_field_list_impl<metadata, fields...>, stream, end
         return {};
       }
     );
-    return res ? R(field_list) : std::unexpected(res.error());
+    return res ? R(std::move(field_list)) : std::unexpected(res.error());
   }
 };
 
diff --git a/include/field_read/field_reader.hpp b/include/field_read/field_reader.hpp
index 97519eb..a582c5d 100644
--- a/include/field_read/field_reader.hpp
+++ b/include/field_read/field_reader.hpp
@@ -185,7 +185,7 @@ struct read_field<T, F> {
       auto err = res.error();
       return std::unexpected(err.failure_reason);
     }
-    field.value = *res;
+    field.value = std::move(*res);
     return {};
   }
 };
@@ -212,7 +212,7 @@ struct read_field<T, F> {
     auto res = reader.template read<endianness>(s);
     if(!res) 
       return std::unexpected(res.error());
-    field.value = base_field.value;
+    field.value = std::move(base_field.value);
     return {};
   }
 };
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index e7b8e64..b7551d9 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4335,7 +4335,7 @@ struct read_field<T, F> {
       auto err = res.error();
       return std::unexpected(err.failure_reason);
     }
-    field.value = *res;
+    field.value = std::move(*res);
     return {};
   }
 };
@@ -4362,7 +4362,7 @@ struct read_field<T, F> {
     auto res = reader.template read<endianness>(s);
     if(!res) 
       return std::unexpected(res.error());
-    field.value = base_field.value;
+    field.value = std::move(base_field.value);
     return {};
   }
 };
@@ -4474,6 +4474,7 @@ struct read_field<T, F> {
 #ifndef _STRUCT_CAST_IMPL_HPP_
 #define _STRUCT_CAST_IMPL_HPP_
  
+ 
 namespace s2s {
 
 template <typename F, typename stream, auto endianness>
@@ -4512,7 +4513,7 @@ struct struct_cast_impl<struct_field_list_impl<metadata, fields...>, stream, end
         return {};
       }
     );
-    return res ? R(field_list) : std::unexpected(res.error());
+    return res ? R(std::move(field_list)) : std::unexpected(res.error());
   }
 };
 
-- 
2.43.0


From 4f82ce407411d5c01b726dddb7279f31480d1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:05 +0000
Subject: [PATCH 11/12] fix: refuse to write a valueless union instead of
 reading past its cases

---
 include/field_write/derived_value.hpp | 13 +++++++++++--
 single_header/s2s.hpp                 | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/field_write/derived_value.hpp b/include/field_write/derived_value.hpp
index 38e82a5..165680a 100644
--- a/include/field_write/derived_value.hpp
+++ b/include/field_write/derived_value.hpp
@@ -303,6 +303,7 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     std::size_t derived{0};
     bool seen{false};
     bool agreed{true};
+    bool nameable{true};
 
     auto record = [&](std::size_t implied) {
       if(seen && implied != derived)
@@ -315,10 +316,18 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
       const auto& producer = static_cast<const fields&>(field_list);
       if constexpr(obligates<fields, target>())
         record(producer.value.size());
-      else if constexpr(discriminant_obligates<fields, target>())
-        record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      else if constexpr(discriminant_obligates<fields, target>()) {
+        // A variant an exception left valueless holds no case to name.
+        if(producer.value.valueless_by_exception())
+          nameable = false;
+        else
+          record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      }
     }()), ...);
 
+    if(!nameable)
+      return std::unexpected(error_reason::validation_failure);
+
     // Two distinct failures: the dependents contradict one another, or they
     // agree on a value the declared slot cannot hold.
     if(!agreed)
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index b7551d9..1fe6f84 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -4840,6 +4840,7 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
     std::size_t derived{0};
     bool seen{false};
     bool agreed{true};
+    bool nameable{true};
 
     auto record = [&](std::size_t implied) {
       if(seen && implied != derived)
@@ -4852,10 +4853,18 @@ struct derive_value<target, struct_field_list_impl<metadata, fields...>> {
       const auto& producer = static_cast<const fields&>(field_list);
       if constexpr(obligates<fields, target>())
         record(producer.value.size());
-      else if constexpr(discriminant_obligates<fields, target>())
-        record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      else if constexpr(discriminant_obligates<fields, target>()) {
+        // A variant an exception left valueless holds no case to name.
+        if(producer.value.valueless_by_exception())
+          nameable = false;
+        else
+          record(discriminant_obligation<fields>::value_at(producer.value.index()));
+      }
     }()), ...);
 
+    if(!nameable)
+      return std::unexpected(error_reason::validation_failure);
+
     // Two distinct failures: the dependents contradict one another, or they
     // agree on a value the declared slot cannot hold.
     if(!agreed)
-- 
2.43.0


From 797758dd985f0025ec1aed0f58381a9ddfadd71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 12/12] fix: reject a field whose length or presence depends on
 itself

---
 include/field_list/field_list_metadata.hpp | 2 +-
 single_header/s2s.hpp                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/field_list/field_list_metadata.hpp b/include/field_list/field_list_metadata.hpp
index ccaa2ab..81ca1bb 100644
--- a/include/field_list/field_list_metadata.hpp
+++ b/include/field_list/field_list_metadata.hpp
@@ -368,7 +368,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
diff --git a/single_header/s2s.hpp b/single_header/s2s.hpp
index 1fe6f84..4b971f7 100644
--- a/single_header/s2s.hpp
+++ b/single_header/s2s.hpp
@@ -2872,7 +2872,7 @@ constexpr bool is_dependencies_resolved(const field_table_t& field_table, const
       for(auto dep_field: dependencies) {
         auto dep_field_info = field_table[dep_field];
         auto dep_field_idx = dep_field_info->occurs_at_idx;
-        if(dep_field_idx > field_idx)
+        if(dep_field_idx >= field_idx)
           return false;
       }
     }
-- 
2.43.0

