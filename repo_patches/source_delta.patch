From 7fe537b7a2a83a4abc08a759cdd88ca777d2b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:08 +0000
Subject: [PATCH 01/18] fix: lazy contexts own their inputs instead of
 referring to dead temporaries

make_lazy_context(scalar(x), ...) kept references to the temporaries it was
given, so eval() read objects whose lifetime had ended (also inside grade,
take_grade, delta_product and the blade exponential).
---
 cpp/include/gatl/ga/core/lazy_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..4f45c0a 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -520,7 +520,7 @@ namespace ga {
 
         private:
 
-            input_type const &input_;
+            input_type input_;
         };
 
         template<std::size_t ReverseIndex, typename InputCoefficientType, typename InputExpression>
-- 
2.43.0


From 3674a0169fcacec1990c578ed5492e4b19de0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 02/18] fix: print one-time warnings once and without a data
 race

The flag was a plain static bool tested before printing and cleared after it:
threads making the same implicit conversion raced on it and could each print.
---
 cpp/include/gatl/ga/core.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core.hpp b/cpp/include/gatl/ga/core.hpp
index b83a5f4..bee3ed9 100644
--- a/cpp/include/gatl/ga/core.hpp
+++ b/cpp/include/gatl/ga/core.hpp
@@ -46,6 +46,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cassert>
 #include <cmath>
 #include <cstdint>
@@ -70,10 +71,9 @@
 
 #define _GA_ONE_TIME_WARNING(MESSAGE) \
     { \
-        static bool first_time = true; \
-        if (first_time) { \
+        static std::atomic<bool> first_time{ true }; \
+        if (first_time.exchange(false)) { \
             std::clog << "[WARNING]: " << (MESSAGE) << std::endl; \
-            first_time = false; \
         } \
     }
 
-- 
2.43.0


From 6d68b9cd2625e6da6924e0eed270e6998aa9f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 03/18] fix: let bad_checked_copy_exception reach the caller of
 an implicit conversion

The converting constructors call checked_trivial_copy, which throws when a
dropped coefficient is not zero, but were noexcept: the program terminated.
---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 4 ++--
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 63f2af0..21838b9 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -697,10 +697,10 @@ namespace ga {
         constexpr clifford_expression(clifford_expression &&) = default;
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other);
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
         template<typename... StorageTypes>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index d47356a..c0ee97d 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -478,7 +478,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the copy constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
@@ -486,7 +486,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the moving constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
-- 
2.43.0


From 0feefe01ecfd8135898752b25a64ff746518a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 04/18] fix: report output failures of write() and operator<<
 to the caller

Both were noexcept, so a stream with exceptions enabled, a throwing stream
buffer or a throwing coefficient inserter terminated the program.
---
 .../ga/extra/macro_for_algebra_overload.hpp   |  2 +-
 cpp/include/gatl/ga/extra/write.hpp           | 78 +++++++++----------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
index f085496..8b8d385 100644
--- a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
@@ -176,7 +176,7 @@
     } \
     \
     template<typename CoefficientType, typename Expression> \
-    std::ostream & operator <<(std::ostream &os, clifford_expression<CoefficientType, Expression> const &arg) GA_NOEXCEPT { \
+    std::ostream & operator <<(std::ostream &os, clifford_expression<CoefficientType, Expression> const &arg) { \
         return write(os, arg, BASIS_VECTORS_NAMES); \
     }
 
diff --git a/cpp/include/gatl/ga/extra/write.hpp b/cpp/include/gatl/ga/extra/write.hpp
index 2cd6300..1241d04 100644
--- a/cpp/include/gatl/ga/extra/write.hpp
+++ b/cpp/include/gatl/ga/extra/write.hpp
@@ -29,7 +29,7 @@ namespace ga {
     namespace detail {
 
         template<std::size_t N>
-        void write_basis_blade(std::ostream &os, bitset_t const arg, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+        void write_basis_blade(std::ostream &os, bitset_t const arg, std::array<std::string, N> const &basis_vectors) {
             if (arg == bitset_t(0)) {
                 os << "1";
             }
@@ -57,7 +57,7 @@ namespace ga {
         template<default_integral_t Value>
         struct write_expression<constant_value<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) {
                 os << "<" << Value << ">";
             }
         };
@@ -65,7 +65,7 @@ namespace ga {
         template<tag_t Tag, std::size_t Index>
         struct write_expression<get_value<Tag, Index> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) {
                 os << "{Tag: " << Tag << ", ValueIndex: " << Index << "}";
             }
         };
@@ -73,7 +73,7 @@ namespace ga {
         template<tag_t Tag, std::size_t Index>
         struct write_expression<get_map_values<Tag, Index> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) {
                 os << "[{Tag: " << Tag << ", MapValuesIndex: " << Index << "}]";
             }
         };
@@ -81,7 +81,7 @@ namespace ga {
         template<>
         struct write_expression<stored_value> {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) {
                 if ((*value_citr) >= 0) os << (*value_citr);
                 else os << "(" << (*value_citr) << ")";
                 std::advance(value_citr, 1);
@@ -91,7 +91,7 @@ namespace ga {
         template<bitset_t Bitset>
         struct write_expression<constant_bitset<Bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &basis_vectors) {
                 os << "<";
                 write_basis_blade(os, Bitset, basis_vectors);
                 os << ">";
@@ -101,7 +101,7 @@ namespace ga {
         template<tag_t Tag, std::size_t Index>
         struct write_expression<get_bitset<Tag, Index> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) {
                 os << "{Tag: " << Tag << ", BitsetIndex: " << Index << "}";
             }
         };
@@ -109,7 +109,7 @@ namespace ga {
         template<tag_t Tag, std::size_t Index>
         struct write_expression<get_map_bitsets<Tag, Index> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts const &, std::array<std::string, N> const &) {
                 os << "[{Tag: " << Tag << ", MapBitsetsIndex: " << Index << "}]";
             }
         };
@@ -117,7 +117,7 @@ namespace ga {
         template<>
         struct write_expression<stored_bitset> {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, std::array<std::string, N> const &basis_vectors) {
                 write_basis_blade(os, *bitset_citr, basis_vectors);
                 std::advance(bitset_citr, 1);
             }
@@ -134,7 +134,7 @@ namespace ga {
         template<typename Coefficient, typename BasisBlade>
         struct write_expression<component<Coefficient, BasisBlade> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 if (is_function_v<name_t::add, Coefficient>) os << "(";
                 write_expression<Coefficient>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 if (is_function_v<name_t::add, Coefficient>) os << ")";
@@ -146,7 +146,7 @@ namespace ga {
         template<bitset_t PossibleGrades>
         struct write_expression<component<stored_map_values, dynamic_basis_blade<PossibleGrades, stored_map_bitsets> > > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "[";
                 if (!map_citr->empty()) {
                     bool first = true;
@@ -172,7 +172,7 @@ namespace ga {
         template<typename Argument, typename... NextArguments>
         struct write_expression<add<Argument, NextArguments...> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 write_expression<Argument>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " + ";
                 write_expression<add<NextArguments...> >::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
@@ -182,7 +182,7 @@ namespace ga {
         template<typename LeftArgument, typename RightArgument>
         struct write_expression<add<LeftArgument, RightArgument> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 write_expression<LeftArgument>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " + ";
                 write_expression<RightArgument>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
@@ -192,7 +192,7 @@ namespace ga {
         template<typename Argument, typename... NextArguments>
         struct write_expression<mul<Argument, NextArguments...> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 write_expression<Argument>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " * ";
                 write_expression<mul<NextArguments...> >::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
@@ -202,7 +202,7 @@ namespace ga {
         template<typename LeftArgument, typename RightArgument>
         struct write_expression<mul<LeftArgument, RightArgument> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 write_expression<LeftArgument>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " * ";
                 write_expression<RightArgument>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
@@ -212,7 +212,7 @@ namespace ga {
         template<typename LeftArgument, typename RightArgument>
         struct write_expression<power<LeftArgument, RightArgument> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "pow(";
                 write_expression<LeftArgument>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ", ";
@@ -224,7 +224,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<absolute<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "abs(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -234,7 +234,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<exponential<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "exp(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -244,7 +244,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<logarithm<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "log(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -254,7 +254,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<cosine<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "cos(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -264,7 +264,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<sine<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "sin(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -274,7 +274,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<tangent<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "tan(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -284,7 +284,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<hyperbolic_cosine<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "cosh(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -294,7 +294,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<hyperbolic_sine<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "sinh(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -304,7 +304,7 @@ namespace ga {
         template<typename Value>
         struct write_expression<hyperbolic_tangent<Value> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "tanh(";
                 write_expression<Value>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -314,7 +314,7 @@ namespace ga {
         template<typename LeftBitset, typename RightBitset>
         struct write_expression<reordering_sign<LeftBitset, RightBitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "reordering_sign(";
                 write_expression<LeftBitset>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ", ";
@@ -326,7 +326,7 @@ namespace ga {
         template<typename Bitset>
         struct write_expression<count_one_bits<Bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "count_one_bits(";
                 write_expression<Bitset>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -336,7 +336,7 @@ namespace ga {
         template<typename LeftType, typename RightValue>
         struct write_expression<bitwise_left_shift<LeftType, RightValue> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " LSHIFTb ";
@@ -348,7 +348,7 @@ namespace ga {
         template<typename Bitset>
         struct write_expression<bitwise_uminus<Bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(-";
                 write_expression<Bitset>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << ")";
@@ -358,7 +358,7 @@ namespace ga {
         template<typename Bitset>
         struct write_expression<bitwise_dec<Bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<Bitset>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " - <1>)";
@@ -368,7 +368,7 @@ namespace ga {
         template<typename LeftType, typename RightType>
         struct write_expression<bitwise_and<LeftType, RightType> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " ANDb ";
@@ -380,7 +380,7 @@ namespace ga {
         template<typename LeftType, typename RightType>
         struct write_expression<bitwise_or<LeftType, RightType> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " ORb ";
@@ -392,7 +392,7 @@ namespace ga {
         template<typename LeftType, typename RightType>
         struct write_expression<bitwise_xor<LeftType, RightType> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " XORb ";
@@ -404,7 +404,7 @@ namespace ga {
         template<typename LeftType, typename RightType>
         struct write_expression<equal<LeftType, RightType> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " == ";
@@ -416,7 +416,7 @@ namespace ga {
         template<typename LeftType, typename RightType>
         struct write_expression<less_or_equal<LeftType, RightType> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " <= ";
@@ -428,7 +428,7 @@ namespace ga {
         template<typename LeftType, typename RightType>
         struct write_expression<logical_and<LeftType, RightType> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " AND ";
@@ -440,7 +440,7 @@ namespace ga {
         template<typename LeftType, typename RightType>
         struct write_expression<logical_or<LeftType, RightType> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<LeftType>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " OR ";
@@ -452,7 +452,7 @@ namespace ga {
         template<typename Test, typename TrueValue, typename FalseValue>
         struct write_expression<if_else<Test, TrueValue, FalseValue> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, std::size_t N>
-            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+            GA_ALWAYS_INLINE constexpr static void run(std::ostream &os, ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, std::array<std::string, N> const &basis_vectors) {
                 os << "(";
                 write_expression<Test>::run(os, value_citr, bitset_citr, map_citr, basis_vectors);
                 os << " ? ";
@@ -466,7 +466,7 @@ namespace ga {
     }
 
     template<typename CoefficientType, typename Expression, std::size_t N>
-    std::ostream & write(std::ostream &os, clifford_expression<CoefficientType, Expression> const &expression, std::array<std::string, N> const &basis_vectors) GA_NOEXCEPT {
+    std::ostream & write(std::ostream &os, clifford_expression<CoefficientType, Expression> const &expression, std::array<std::string, N> const &basis_vectors) {
         auto value_citr = expression.values().cbegin();
         auto bitset_citr = expression.bitsets().cbegin();
         auto map_citr = expression.maps().cbegin();
-- 
2.43.0


From 9e28cc86b1546525bbda1f4b5a7342a3cca9b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 05/18] fix: let same-type trivial copies report a failing
 coefficient copy

They were noexcept, unlike the overloads for different expression types, so a
coefficient type whose copy assignment throws terminated the program.
---
 cpp/include/gatl/ga/core/trivial_copy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index c0ee97d..712d567 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -433,12 +433,12 @@ namespace ga {
     }
 
     template<typename CoefficientType, typename Expression, typename ToleranceType>
-    constexpr void checked_trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result, ToleranceType const &tol) GA_NOEXCEPT {
+    constexpr void checked_trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result, ToleranceType const &tol) {
         result = input;
     }
 
     template<typename CoefficientType, typename Expression>
-    constexpr void checked_trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result) GA_NOEXCEPT {
+    constexpr void checked_trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result) {
         result = input;
     }
 
@@ -467,7 +467,7 @@ namespace ga {
     }
 
     template<typename CoefficientType, typename Expression>
-    constexpr void trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result) GA_NOEXCEPT {
+    constexpr void trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result) {
         result = input;
     }
 
-- 
2.43.0


From 6132473969b3a4b353a4b23ab4884fe9e8a50f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 06/18] fix: let exceptions of
 for_each_component/for_each_basis_vector callbacks propagate

The exception specification was noexcept(noexcept(f)), which is always true
because naming f never throws: a throwing callback terminated the program,
and so did the exceptions thrown by the library's own callbacks.
---
 cpp/include/gatl/ga/util/for_each_basis_vector.hpp |  6 +++---
 cpp/include/gatl/ga/util/for_each_component.hpp    | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cpp/include/gatl/ga/util/for_each_basis_vector.hpp b/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
index e875c9a..38756d8 100644
--- a/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
@@ -28,7 +28,7 @@ namespace ga {
 
     // Applies the given function object f to the result of dereferencing every basis vector in the given instance of ga::clifford_expression<CoefficientType, Expression> comprised by a single scaled basis blade or bitset. The list of parameters of the function is: ga::index_t const index, bool &keep_going. The keep_going parameter is always initialized to true.
     template<typename Function>
-    inline bool for_each_basis_vector(bitset_t arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(bitset_t arg, Function f) {
         bool keep_going = true;
         while (arg != bitset_t(0) && keep_going) {
             bitset_t const current_set_bit = detail::rightmost_set_bit(arg);
@@ -39,13 +39,13 @@ namespace ga {
     };
 
     template<typename CoefficientType, typename Coefficient, bitset_t BasisVectors, typename Function>
-    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::constant_basis_blade<BasisVectors> > > const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::constant_basis_blade<BasisVectors> > > const &, Function f) {
         static_assert(detail::can_be_stored_v<Coefficient>, "The ga::for_each_basis_vector() function does not allow lazy evaluation with arguments from a lazy context.");
         return for_each_basis_vector(BasisVectors, f);
     };
 
     template<typename CoefficientType, typename Coefficient, bitset_t PossibleGrades, typename Function>
-    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::dynamic_basis_blade<PossibleGrades, detail::stored_bitset> > > const &arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::dynamic_basis_blade<PossibleGrades, detail::stored_bitset> > > const &arg, Function f) {
         static_assert(detail::can_be_stored_v<Coefficient>, "The ga::for_each_basis_vector() function does not allow lazy evaluation with arguments from a lazy context.");
         return for_each_basis_vector(*arg.bitsets().cbegin(), f);
     };
diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index d4f9edf..1016b6b 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -41,7 +41,7 @@ namespace ga {
         template<typename ValueType, typename Coefficient, typename BasisBlade, typename... NextComponents>
         struct _for_each_component_impl<ValueType, add<component<Coefficient, BasisBlade>, NextComponents...> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function f) {
                 return _for_each_component_impl_inner_iteration<ValueType, Coefficient, BasisBlade>::run(value_citr, bitset_citr, map_citr, f)
                     && _for_each_component_impl<ValueType, add_t<NextComponents...> >::run(value_citr, bitset_citr, map_citr, f);
             }
@@ -57,7 +57,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
@@ -67,7 +67,7 @@ namespace ga {
         template<typename ValueType, bitset_t BasisVectors>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, constant_basis_blade<BasisVectors> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(BasisVectors, *value_citr, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -80,7 +80,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
@@ -91,7 +91,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, dynamic_basis_blade<PossibleGrades, stored_bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(*bitset_citr, *value_citr, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -103,7 +103,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_map_values, dynamic_basis_blade<PossibleGrades, stored_map_bitsets> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function f) {
                 bool keep_going = true;
                 for (auto const &pair : *map_citr) {
                     f(pair.first, pair.second, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, keep_going);
@@ -120,7 +120,7 @@ namespace ga {
 
     // Applies the given function object f to the result of dereferencing every component in the given instance of ga::clifford_expression<CoefficientType, Expression>. The list of parameters of the function is: bitset_t const basis_vectors, CoefficientType const &value, ga::entry_source_t const basis_vectors_source, ga::entry_source_t const value_source, bool &keep_going. The keep_going parameter is always initialized to true. This function does not allow lazy evaluation with arguments from a lazy context.
     template<typename CoefficientType, typename Expression, typename Function>
-    inline bool for_each_component(clifford_expression<CoefficientType, Expression> const &arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_component(clifford_expression<CoefficientType, Expression> const &arg, Function f) {
         static_assert(detail::can_be_stored_v<Expression>, "This function does not expect lazy expressions.");
         auto value_citr = arg.values().cbegin();
         auto bitset_citr = arg.bitsets().cbegin();
-- 
2.43.0


From 93ce7f8af0ba7947cc12433c85575ca7a8882895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 07/18] fix: for_each_component applies one function object to
 all components

Every component was given a fresh copy of the function object, so the state a
stateful callback keeps (a counter, a limit) was forgotten between components.
---
 cpp/include/gatl/ga/util/for_each_component.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index 1016b6b..ef4efc5 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -41,7 +41,7 @@ namespace ga {
         template<typename ValueType, typename Coefficient, typename BasisBlade, typename... NextComponents>
         struct _for_each_component_impl<ValueType, add<component<Coefficient, BasisBlade>, NextComponents...> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function f) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function &f) {
                 return _for_each_component_impl_inner_iteration<ValueType, Coefficient, BasisBlade>::run(value_citr, bitset_citr, map_citr, f)
                     && _for_each_component_impl<ValueType, add_t<NextComponents...> >::run(value_citr, bitset_citr, map_citr, f);
             }
@@ -57,7 +57,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function &f) {
                 bool keep_going = true;
                 f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
@@ -67,7 +67,7 @@ namespace ga {
         template<typename ValueType, bitset_t BasisVectors>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, constant_basis_blade<BasisVectors> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function f) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function &f) {
                 bool keep_going = true;
                 f(BasisVectors, *value_citr, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -80,7 +80,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function &f) {
                 bool keep_going = true;
                 f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
@@ -91,7 +91,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, dynamic_basis_blade<PossibleGrades, stored_bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function &f) {
                 bool keep_going = true;
                 f(*bitset_citr, *value_citr, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -103,7 +103,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_map_values, dynamic_basis_blade<PossibleGrades, stored_map_bitsets> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function f) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function &f) {
                 bool keep_going = true;
                 for (auto const &pair : *map_citr) {
                     f(pair.first, pair.second, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, keep_going);
-- 
2.43.0


From 544f7d6c4fa67edc44befc53d82129a2a0fce928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:28 +0000
Subject: [PATCH 08/18] fix: do not move from the caller's lvalues

Constructors and helpers taking forwarding references passed std::move of
their arguments on: 'auto b = a;', vector(x, y, z), scalar(x) and x * x left
the caller's a, x, y and z moved-from for coefficient types that own memory.
---
 .../gatl/ga/core/clifford_expression.hpp      |  6 +++---
 cpp/include/gatl/ga/core/constexpr.hpp        |  6 +++---
 cpp/include/gatl/ga/core/scalar.hpp           |  2 +-
 .../gatl/ga/core/type_traits_extension.hpp    | 11 +++++++++++
 .../ga/model/conformal/euclidean_vector.hpp   |  2 +-
 .../conformal/macro_for_algebra_overload.hpp  |  4 ++--
 cpp/include/gatl/ga/model/conformal/point.hpp |  2 +-
 .../signed/euclidean/euclidean_vector.hpp     |  2 +-
 .../euclidean/macro_for_algebra_overload.hpp  |  2 +-
 .../signed/homogeneous/euclidean_vector.hpp   |  2 +-
 .../macro_for_algebra_overload.hpp            |  4 ++--
 .../ga/model/signed/homogeneous/point.hpp     |  2 +-
 .../signed/minkowski/euclidean_vector.hpp     |  2 +-
 .../minkowski/macro_for_algebra_overload.hpp  |  4 ++--
 .../gatl/ga/model/signed/minkowski/point.hpp  |  4 ++--
 .../signed/plane_based/euclidean_vector.hpp   |  2 +-
 .../macro_for_algebra_overload.hpp            |  2 +-
 .../ga/util/macro_for_algebra_overload.hpp    |  2 +-
 cpp/include/gatl/ga/util/vector.hpp           | 19 ++++++++++++-------
 19 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 21838b9..ed01b37 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -182,7 +182,7 @@ namespace ga {
 
             template<typename... Args>
             constexpr sequential_storage(Args &&... args) GA_NOEXCEPT :
-                entries_{ std::move(args)... } {
+                entries_{ std::forward<Args>(args)... } {
                 static_assert(sizeof...(args) == Size, "The number of arguments must be equal to the number of stored data entries.");
             }
 
@@ -704,7 +704,7 @@ namespace ga {
 
         template<typename... StorageTypes>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
-            super(std::move(args)...) {
+            super(detail::move_or_copy<StorageTypes>(args)...) {
         }
 
         constexpr clifford_expression & operator=(clifford_expression const &) = default;
@@ -719,7 +719,7 @@ namespace ga {
     // Helper function to build a sequential storage of values, bitsets or maps.
     template<typename... Args>
     constexpr decltype(auto) make_sequential_storage(Args &&... args) GA_NOEXCEPT {
-        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::move(args)...);
+        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::forward<Args>(args)...);
     }
 
 }
diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index a72a5db..465708b 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -124,19 +124,19 @@ namespace ga {
 
         template<typename Type, std::enable_if_t<!std::is_integral_v<Type>, int> = 0>
         GA_ALWAYS_INLINE constexpr decltype(auto) cast_to_floating_point(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg);
+            return std::forward<Type>(arg);
         }
 
         // Returns the square of a given value.
         template<typename Type>
         GA_ALWAYS_INLINE constexpr decltype(auto) square(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg) * std::move(arg);
+            return arg * arg;
         }
 
         // Returns the cube of a given value.
         template<typename Type>
         GA_ALWAYS_INLINE constexpr decltype(auto) cube(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg) * std::move(arg) * std::move(arg);
+            return arg * arg * arg;
         }
 
         // Safe right-shifting operation.
diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index 5dc59be..fa74d64 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -41,7 +41,7 @@ namespace ga {
 
     template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<ValueType>, int> = 0>
     constexpr decltype(auto) scalar(ValueType &&arg) GA_NOEXCEPT {
-        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::move(arg)));
+        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::forward<ValueType>(arg)));
     }
 
     template<typename CoefficientType, typename Coefficient>
diff --git a/cpp/include/gatl/ga/core/type_traits_extension.hpp b/cpp/include/gatl/ga/core/type_traits_extension.hpp
index b9c543b..79bfd23 100644
--- a/cpp/include/gatl/ga/core/type_traits_extension.hpp
+++ b/cpp/include/gatl/ga/core/type_traits_extension.hpp
@@ -44,6 +44,17 @@ namespace ga {
         template<typename T>
         constexpr bool is_iterator_v = is_iterator<T>::value;
 
+        // Moves from a forwarded rvalue and copies from a forwarded lvalue, so that the caller's objects are never moved from.
+        template<typename Type>
+        GA_ALWAYS_INLINE constexpr decltype(auto) move_or_copy(std::remove_reference_t<Type> &arg) GA_NOEXCEPT {
+            if constexpr (std::is_lvalue_reference_v<Type>) {
+                return std::remove_cv_t<std::remove_reference_t<Type> >(static_cast<std::remove_reference_t<Type> const &>(arg));
+            }
+            else {
+                return static_cast<Type &&>(arg);
+            }
+        }
+
         // Helper function to convert a tuple into a list-initialization structure.
         template<typename Tuple, std::size_t... Indices>
         GA_ALWAYS_INLINE constexpr decltype(auto) _to_list_initialization(Tuple &&tuple, std::index_sequence<Indices...>) GA_NOEXCEPT {
diff --git a/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp b/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
index feff067..f8112b4 100644
--- a/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(conformal_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>, c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>, c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
index 2d39251..ca580b9 100644
--- a/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_CONFORMAL_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -72,7 +72,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/conformal/point.hpp b/cpp/include/gatl/ga/model/conformal/point.hpp
index 7db4d71..930ff1d 100644
--- a/cpp/include/gatl/ga/model/conformal/point.hpp
+++ b/cpp/include/gatl/ga/model/conformal/point.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types>
     constexpr decltype(auto) point(conformal_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<1>, ((std::move(coords) * std::move(coords)) + ... + c<0>) / c<2>);
+        return vector(mtr, std::forward<Types>(coords)..., c<1>, ((coords * coords) + ... + c<0>) / c<2>);
     }
 
     namespace detail {
diff --git a/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
index 86c5f0b..0dd19ee 100644
--- a/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t N, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(euclidean_metric_space<N> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)...);
+        return vector(mtr, std::forward<Types>(coords)...);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
index 25570a1..e140bb1 100644
--- a/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_EUCLIDEAN_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
index 1b63519..59dc550 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(homogeneous_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
index 89837ee..2ef1250 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_HOMOGENEOUS_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -57,7 +57,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
index ed17b79..660a7cb 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) point(homogeneous_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<1>);
+        return vector(mtr, std::forward<Types>(coords)..., c<1>);
     }
 
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
index a5c7543..dc901b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(minkowski_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>, c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>, c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
index 2d0215d..b7fdfb6 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_MINKOWSKI_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -72,7 +72,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/point.hpp b/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
index 2f57047..18d38fa 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
@@ -29,8 +29,8 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types>
     constexpr decltype(auto) point(minkowski_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        auto aux = ((std::move(coords) * std::move(coords)) + ... + c<0>);
-        return vector(mtr, std::move(coords)..., (aux - c<1>) / c<2>, (aux + c<1>) / c<2>);
+        auto aux = ((coords * coords) + ... + c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., (aux - c<1>) / c<2>, (aux + c<1>) / c<2>);
     }
 
     namespace detail {
diff --git a/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
index 52a8002..6da3b27 100644
--- a/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(plane_based_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
index ef5865f..cbc090b 100644
--- a/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_PLANE_BASED_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
index e0d5066..990259c 100644
--- a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
@@ -31,7 +31,7 @@
     \
     template<typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) vector(Types &&... coords) GA_NOEXCEPT { \
-        return ga::vector(SPACE, std::move(coords)...); \
+        return ga::vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template<typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/util/vector.hpp b/cpp/include/gatl/ga/util/vector.hpp
index bb275b4..4435058 100644
--- a/cpp/include/gatl/ga/util/vector.hpp
+++ b/cpp/include/gatl/ga/util/vector.hpp
@@ -81,7 +81,7 @@ namespace ga {
         struct make_vector_sequential_storage_simple {
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return make_sequential_storage(std::move(coords)...);
+                return make_sequential_storage(std::forward<Types>(coords)...);
             }
         };
 
@@ -109,12 +109,17 @@ namespace ga {
 
             template<typename CoordinateType, typename... NextTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(CoordinateType &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(std::make_tuple(std::move(coord)), make_values_tuple(std::move(next_coords)...));
+                return std::tuple_cat(std::make_tuple(std::forward<CoordinateType>(coord)), make_values_tuple(std::forward<NextTypes>(next_coords)...));
             }
 
             template<typename CoefficientType, typename Coefficient, typename... NextTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> const &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::move(next_coords)...));
+                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::forward<NextTypes>(next_coords)...));
+            }
+
+            template<typename CoefficientType, typename Coefficient, typename... NextTypes>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> const &coord, NextTypes &&... next_coords) GA_NOEXCEPT {
+                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::forward<NextTypes>(next_coords)...));
             }
 
             template<typename... ValueTypes, std::size_t... Indices>
@@ -131,7 +136,7 @@ namespace ga {
 
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return to_sequential_storage(make_values_tuple(std::move(coords)...));
+                return to_sequential_storage(make_values_tuple(std::forward<Types>(coords)...));
             }
         };
 
@@ -140,7 +145,7 @@ namespace ga {
         struct make_vector {
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static CliffordExpression run(Types &&... coords) GA_NOEXCEPT {
-                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple, detail::make_vector_sequential_storage_simple>::run(std::move(coords)...));
+                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple, detail::make_vector_sequential_storage_simple>::run(std::forward<Types>(coords)...));
             }
         };
 
@@ -158,7 +163,7 @@ namespace ga {
     template<typename MetricSpaceType, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) vector(metric_space<MetricSpaceType> const &, Types &&... coords) GA_NOEXCEPT {
         static_assert(MetricSpaceType::vector_space_dimensions == sizeof...(Types), "The number of coordinates must be equal to the number of dimensions of the vector space.");
-        return detail::make_vector<detail::deduce_vector_t<MetricSpaceType::vector_space_dimensions, std::remove_cv_t<std::remove_reference_t<Types> >...> >::run(std::move(coords)...);
+        return detail::make_vector<detail::deduce_vector_t<MetricSpaceType::vector_space_dimensions, std::remove_cv_t<std::remove_reference_t<Types> >...> >::run(std::forward<Types>(coords)...);
     }
 
     namespace detail {
@@ -166,7 +171,7 @@ namespace ga {
         // Helper function to adapt one vector() function to another.
         template<typename MetricSpaceType, typename IteratorType, std::size_t... Indices, typename... ExtraTypes>
         GA_ALWAYS_INLINE constexpr decltype(auto) make_vector_using_iterator(metric_space<MetricSpaceType> const &mtr, IteratorType begin, std::index_sequence<Indices...>, ExtraTypes &&... extra_coords) GA_NOEXCEPT {
-            return vector(mtr, *(begin + Indices)..., std::move(extra_coords)...);
+            return vector(mtr, *(begin + Indices)..., std::forward<ExtraTypes>(extra_coords)...);
         };
 
     }
-- 
2.43.0


From b039908c5bbb6208863f73d9207dfd121bf2b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 09/18] fix: keep components with different runtime basis
 blades apart during evaluation

The components of an addition were added up again after evaluation. Components
with different runtime-defined basis blades have the same type by then, so they
were collected into one: gp(e(i), v), e(i) + e(j) etc. gave wrong values, and the
evaluation wrote beyond the storage of its result.
---
 cpp/include/gatl/ga/core/lazy_context.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 4f45c0a..4e4f2f5 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -181,6 +181,25 @@ namespace ga {
             }
         };
 
+        // Puts evaluated arguments of an addition together. The components of the given addition are known to be distinct, but they may look the same after evaluation (e.g., after two different runtime-defined basis blades have been stored). Therefore, components must not be simplified again.
+        template<typename LeftExpression, typename RightExpression>
+        struct _eval_addition {
+            using type = addition_t<LeftExpression, RightExpression>; // default
+        };
+
+        template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
+        struct _eval_addition<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> > {
+            using type = add_t<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> >;
+        };
+
+        template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
+        struct _eval_addition<component<LeftCoefficient, LeftBasisBlade>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > {
+            using type = add_t<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade>, RightNextArguments...>;
+        };
+
+        template<typename LeftExpression, typename RightExpression>
+        using _eval_addition_t = typename _eval_addition<LeftExpression, RightExpression>::type;
+
         template<typename Expression>
         struct _eval_clifford_expression_do_nothing {
             template<typename... InputTypes>
@@ -364,7 +383,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, Argument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Argument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> >, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<Argument, NextArguments...> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
+                _eval_clifford_expression_move<LowerTag, UpperTag, _eval_addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
             > {
         };
 
@@ -374,7 +393,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, _eval_addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
             > {
         };
 
-- 
2.43.0


From 9c45c8e9b971861b1bc10ab1c71f4471d3ab2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 10/18] fix: write the one-time warning as one line

The text was sent to std::clog in three pieces, so the lines of two threads
that first make different conversions at the same time could be mixed.
---
 cpp/include/gatl/ga/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core.hpp b/cpp/include/gatl/ga/core.hpp
index bee3ed9..c6f16af 100644
--- a/cpp/include/gatl/ga/core.hpp
+++ b/cpp/include/gatl/ga/core.hpp
@@ -73,7 +73,7 @@
     { \
         static std::atomic<bool> first_time{ true }; \
         if (first_time.exchange(false)) { \
-            std::clog << "[WARNING]: " << (MESSAGE) << std::endl; \
+            std::clog << ("[WARNING]: " MESSAGE "\n") << std::flush; \
         } \
     }
 
-- 
2.43.0


From bf825f4e9be5711850cc23202a5c693e077268b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:54 +0000
Subject: [PATCH 11/18] fix: a failing std::clog does not make a conversion
 fail

With exceptions enabled in std::clog, the first implicit conversion of a kind
threw std::ios_base::failure instead of converting.
---
 cpp/include/gatl/ga/core.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core.hpp b/cpp/include/gatl/ga/core.hpp
index c6f16af..f0ca6c5 100644
--- a/cpp/include/gatl/ga/core.hpp
+++ b/cpp/include/gatl/ga/core.hpp
@@ -73,7 +73,12 @@
     { \
         static std::atomic<bool> first_time{ true }; \
         if (first_time.exchange(false)) { \
-            std::clog << ("[WARNING]: " MESSAGE "\n") << std::flush; \
+            try { \
+                std::clog << ("[WARNING]: " MESSAGE "\n") << std::flush; \
+            } \
+            catch (...) { \
+                /* The warning is lost, but the operation goes on. */ \
+            } \
         } \
     }
 
-- 
2.43.0


From 2f238c6422d44671338931d8283dc33c838c4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 12/18] fix: copying a non-const expression does not call the
 storage constructor

The constructor taking storages was the best match for a non-const lvalue, and
it is noexcept: a coefficient copy that threw ended the process, while the copy
of a const lvalue let the exception reach the caller.
---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index ed01b37..d0157e4 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -702,7 +702,7 @@ namespace ga {
         template<typename OtherCoefficientType, typename OtherExpression>
         clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
-        template<typename... StorageTypes>
+        template<typename... StorageTypes, std::enable_if_t<!std::disjunction_v<is_clifford_expression<std::remove_cv_t<std::remove_reference_t<StorageTypes> > >...>, int> = 0>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
             super(detail::move_or_copy<StorageTypes>(args)...) {
         }
-- 
2.43.0


From 08445d868d2f9ddbed54c317c49cee5660535004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 13/18] fix: a failing copy of the tolerance does not end the
 process

checked_trivial_copy wrapped the tolerance by the noexcept function scalar()
and read it by the noexcept conversion of scalar expressions, so that a
coefficient type whose copies throw called std::terminate in it.
---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 2 +-
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index d0157e4..5a0ca71 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -711,7 +711,7 @@ namespace ga {
         constexpr clifford_expression & operator=(clifford_expression &&) = default;
 
         template<typename Type, std::enable_if_t<!is_clifford_expression_v<Type> && detail::is_scalar_component_v<Expression> && detail::can_be_stored_v<Expression>, int> = 0>
-        constexpr operator Type() const GA_NOEXCEPT {
+        constexpr operator Type() const {
             return detail::_clifford_expression_to_native<Expression>::eval(super::values().cbegin());
         }
     };
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index 712d567..e359d86 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -424,7 +424,7 @@ namespace ga {
         auto result_bitset_itr = result.bitsets().begin();
         auto result_map_itr = result.maps().begin();
 
-        detail::_trivial_copy<true, InputExpression, ResultExpression>::run(input_value_itr, input_bitset_itr, input_map_itr, result_value_itr, result_bitset_itr, result_map_itr, scalar(tol));
+        detail::_trivial_copy<true, InputExpression, ResultExpression>::run(input_value_itr, input_bitset_itr, input_map_itr, result_value_itr, result_bitset_itr, result_map_itr, tol);
     }
 
     template<typename InputCoefficientType, typename InputExpression, typename ResultCoefficientType, typename ResultExpression>
-- 
2.43.0


From 6f7242e234dce88dbfd6a97add25db2fa2ebad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 14/18] fix: scalar() of a scalar expression returns a value

Every other operation returns a value. scalar(expr) returned a reference to
its argument, so that what was kept from scalar(a * b) or scalar(scalar(x))
referred to a temporary that no longer exists.
---
 cpp/include/gatl/ga/core/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index fa74d64..cd436b3 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -45,12 +45,12 @@ namespace ga {
     }
 
     template<typename CoefficientType, typename Coefficient>
-    constexpr decltype(auto) scalar(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) GA_NOEXCEPT {
+    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) GA_NOEXCEPT {
         return arg;
     }
 
     template<typename CoefficientType, typename Coefficient>
-    constexpr decltype(auto) scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) GA_NOEXCEPT {
+    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) GA_NOEXCEPT {
         return std::move(arg);
     }
 
-- 
2.43.0


From edc86e93e46ab42ea3572168e2da69e323c83d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 15/18] fix: a failing copy between equal types leaves no
 component with a new coefficient on its old basis blade

---
 cpp/include/gatl/ga/core/trivial_copy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index e359d86..5a1783a 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -434,12 +434,12 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr void checked_trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result, ToleranceType const &tol) {
-        result = input;
+        result = clifford_expression<CoefficientType, Expression>(input); // coefficients and basis blades change together, or not at all
     }
 
     template<typename CoefficientType, typename Expression>
     constexpr void checked_trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result) {
-        result = input;
+        result = clifford_expression<CoefficientType, Expression>(input); // coefficients and basis blades change together, or not at all
     }
 
     template<typename InputType, typename ResultCoefficientType, typename ResultExpression, typename ToleranceType>
@@ -468,7 +468,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     constexpr void trivial_copy(clifford_expression<CoefficientType, Expression> const &input, clifford_expression<CoefficientType, Expression> &result) {
-        result = input;
+        result = clifford_expression<CoefficientType, Expression>(input); // coefficients and basis blades change together, or not at all
     }
 
     template<typename InputType, typename ResultCoefficientType, typename ResultExpression>
-- 
2.43.0


From bbf36ed3095fc55e963fa29be53ab0afba099091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 16/18] fix: partial evaluation of if_else looks at both
 alternatives

The second alternative was taken for the first one, both when deciding whether
the whole can be stored and in the resulting expression. An expression of a lazy
argument and a stored tolerance (e.g., exp(x_), or dp(x_, y_)) lost a branch and
its evaluation wrote beyond the storage of the result.
---
 cpp/include/gatl/ga/core/lazy_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 4e4f2f5..0530fea 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -481,9 +481,9 @@ namespace ga {
         template<tag_t LowerTag, tag_t UpperTag, typename Test, typename TrueValue, typename FalseValue>
         struct eval_clifford_expression<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> > :
             std::conditional_t<
-                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> >,
+                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, FalseValue> >,
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, TrueValue> >, Test, TrueValue, FalseValue>
+                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, FalseValue> >, Test, TrueValue, FalseValue>
             > {
         };
         
-- 
2.43.0


From bd7a655392315a190845d9fb7db730fac795b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 17/18] fix: a failing copy of a native number does not end the
 process

trivial_copy and checked_trivial_copy of a native number make a scalar
expression of it by scalar(), make_sequential_storage() and the constructor of
sequential_storage, which were noexcept: a coefficient type whose copies throw
called std::terminate in them.
---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 4 ++--
 cpp/include/gatl/ga/core/scalar.hpp              | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 5a0ca71..637116a 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -181,7 +181,7 @@ namespace ga {
             constexpr sequential_storage(sequential_storage &&) = default;
 
             template<typename... Args>
-            constexpr sequential_storage(Args &&... args) GA_NOEXCEPT :
+            constexpr sequential_storage(Args &&... args) :
                 entries_{ std::forward<Args>(args)... } {
                 static_assert(sizeof...(args) == Size, "The number of arguments must be equal to the number of stored data entries.");
             }
@@ -718,7 +718,7 @@ namespace ga {
 
     // Helper function to build a sequential storage of values, bitsets or maps.
     template<typename... Args>
-    constexpr decltype(auto) make_sequential_storage(Args &&... args) GA_NOEXCEPT {
+    constexpr decltype(auto) make_sequential_storage(Args &&... args) {
         return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::forward<Args>(args)...);
     }
 
diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index cd436b3..2c59bbc 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -35,22 +35,22 @@ namespace ga {
 
     // Converts the given native value type to scalar Clifford expression.
     template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<ValueType>, int> = 0>
-    constexpr scaled_scalar_t<ValueType> scalar(ValueType const &arg) GA_NOEXCEPT {
+    constexpr scaled_scalar_t<ValueType> scalar(ValueType const &arg) {
         return scaled_scalar_t<ValueType>(make_sequential_storage(arg));
     }
 
     template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<ValueType>, int> = 0>
-    constexpr decltype(auto) scalar(ValueType &&arg) GA_NOEXCEPT {
+    constexpr decltype(auto) scalar(ValueType &&arg) {
         return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::forward<ValueType>(arg)));
     }
 
     template<typename CoefficientType, typename Coefficient>
-    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) GA_NOEXCEPT {
+    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) {
         return arg;
     }
 
     template<typename CoefficientType, typename Coefficient>
-    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) GA_NOEXCEPT {
+    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) {
         return std::move(arg);
     }
 
-- 
2.43.0


From feea3ea4e914b0afe50107ce24acb95da05616a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 18/18] fix: writing a basis vector without a name does not
 read past the names

---
 cpp/include/gatl/ga/extra/write.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/write.hpp b/cpp/include/gatl/ga/extra/write.hpp
index 1241d04..a942d1d 100644
--- a/cpp/include/gatl/ga/extra/write.hpp
+++ b/cpp/include/gatl/ga/extra/write.hpp
@@ -42,7 +42,9 @@ namespace ga {
 #pragma warning( disable : 4244 )
 
                     if (bitset != arg) os << "^";
-                    os << basis_vectors[ones(first_set_bit - std::make_signed_t<bitset_t>(1))];
+                    std::size_t const index = ones(first_set_bit - std::make_signed_t<bitset_t>(1));
+                    if (index < N) os << basis_vectors[index];
+                    else os << "e" + std::to_string(index + 1);
 
 #pragma warning( pop )
 
-- 
2.43.0

