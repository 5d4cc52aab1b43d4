From 3448fec60f0df5d975deb7e9b77e0924451458a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 01/18] fix: include the headers that floating_point.hpp and
 parse_utilities.hpp use

---
 include/ieme/floating_point.hpp  | 1 +
 include/ieme/parse_utilities.hpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..ed7a2bd 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -9,6 +9,7 @@
 
 #include <bit>
 #include <cstdint>
+#include <cstring>
 #include <limits>
 #include <string>
 #include <string_view>
diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..ca29da4 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -1,6 +1,8 @@
 #ifndef IEME_PARSE_UTILITIES_HPP
 #define IEME_PARSE_UTILITIES_HPP
 
+#include <ieme/numbers.hpp>
+
 #include <optional>
 #include <string_view>
 #include <utility>
-- 
2.43.0


From 0e0feae9df03d7854d8c8bac5730b66fe861f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 02/18] fix: ceil, floor and round of values between -1 and 0

---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..0b790d3 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                   : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || is_positive(value)) ? truncated
+                                                   : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 613a55ddad68ebce7275a33c9b50023b99330cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 03/18] fix: ordering of fractions with a negative denominator

---
 include/ieme/ops.hpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..effe7e0 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -733,6 +733,9 @@ template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return less(normalize_signs(left), right);
+
   return left.numerator < right * left.denominator && is_defined(left);
 }
 
@@ -740,6 +743,9 @@ template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return less(left, normalize_signs(right));
+
   return left * right.denominator < right.numerator && is_defined(right);
 }
 
@@ -760,6 +766,9 @@ template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return less_equal(normalize_signs(left), right);
+
   return left.numerator <= right * left.denominator && is_defined(left);
 }
 
@@ -767,6 +776,9 @@ template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return less_equal(left, normalize_signs(right));
+
   return left * right.denominator <= right.numerator && is_defined(right);
 }
 
@@ -984,6 +996,9 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if ((left.denominator < _0<Rep>) != (right.denominator < _0<Rep>))
+    return less(normalize_signs(left), normalize_signs(right));
+
   return left.numerator * right.denominator < right.numerator * left.denominator
          && is_defined(left) && is_defined(right);
 }
@@ -992,6 +1007,9 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return less(normalize_signs(left), right);
+
   return left.numerator < right * left.denominator && is_defined(left);
 }
 
@@ -999,6 +1017,9 @@ template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return less(left, normalize_signs(right));
+
   return left * right.denominator < right.numerator && is_defined(right);
 }
 
@@ -1006,6 +1027,9 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if ((left.denominator < _0<Rep>) != (right.denominator < _0<Rep>))
+    return less_equal(normalize_signs(left), normalize_signs(right));
+
   return left.numerator * right.denominator
            <= right.numerator * left.denominator
          && is_defined(left) && is_defined(right);
@@ -1015,6 +1039,9 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return less_equal(normalize_signs(left), right);
+
   return left.numerator <= right * left.denominator && is_defined(left);
 }
 
@@ -1022,6 +1049,9 @@ template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return less_equal(left, normalize_signs(right));
+
   return left * right.denominator <= right.numerator && is_defined(right);
 }
 
-- 
2.43.0


From 85eaa10d807f248c672ba4f5663a98af14455e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 04/18] fix: plus, minus and modulus trap on undefined operands
 and zero divisors

---
 include/ieme/ops.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index effe7e0..81c5075 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -550,6 +550,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -575,6 +578,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -647,6 +653,9 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -658,6 +667,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -665,6 +677,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -929,6 +944,9 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -938,6 +956,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -945,6 +966,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || is_zero(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
-- 
2.43.0


From c9665767c8fd0e3edd1c74944c1930c185284411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 05/18] fix: dividing by an undefined fraction yields a defined
 zero

---
 include/ieme/ops.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 81c5075..335b7ab 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -630,6 +630,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -645,6 +648,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -921,6 +927,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -936,6 +945,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
-- 
2.43.0


From 7f20140767260485772846afe3a7066d36f8df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 06/18] fix: equal fractions hash differently

---
 include/ieme/hash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..35cb85d 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -4,6 +4,7 @@
 #include <ieme/fraction.hpp>
 #include <ieme/mixed_number.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_math.hpp>
 
 #include <functional>
 
@@ -67,7 +68,7 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From cfb4e4a91b258dcee5cc7d533979f18b4eb5a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 07/18] fix: is_reduced accepts a negative denominator

---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From 8a2029971e6e3d2b85a4749f274186bfc11b7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 08/18] fix: to_fraction of zeros and infinities

---
 include/ieme/floating_point.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index ed7a2bd..345eae9 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -185,11 +185,14 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
+  if (auto const is_NaN_or_infinity
+      = exponent_part == make_repeating_1s(NumExponentBits);
+      is_NaN_or_infinity)
     return limits<fraction<Rep, Ops>>::undefined();
 
+  if (exponent_part == _0<UintRep> && mantissa_part == _0<UintRep>)
+    return _0<Rep>;
+
   auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
 
   static constexpr auto exponent_bias
-- 
2.43.0


From 328fd545ec54863a20f5deb7b79da173da3b0932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 09/18] fix: constructing a mixed number from an undefined
 fraction traps

---
 include/ieme/mixed_number.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ieme/mixed_number.hpp b/include/ieme/mixed_number.hpp
index 9562c6e..837f771 100644
--- a/include/ieme/mixed_number.hpp
+++ b/include/ieme/mixed_number.hpp
@@ -106,7 +106,7 @@ template <typename WRep, typename FRep, typename Ops>
 template <typename OtherFRep>
 constexpr mixed_number<WRep, FRep, Ops>::mixed_number(
   fraction<OtherFRep, ops_type> const& value) noexcept :
-  whole_ {whole_type(trunc(value))},
+  whole_ {is_defined(value) ? whole_type(trunc(value)) : _0<whole_type>},
   fractional_ {fractional_type(value - static_cast<OtherFRep>(whole_))}
 {
 }
@@ -152,6 +152,9 @@ constexpr auto mixed_number<WRep, FRep, Ops>::fractional() const noexcept
 template <typename WRep, typename FRep, typename Ops>
 constexpr void mixed_number<WRep, FRep, Ops>::fix() noexcept
 {
+  if (is_undefined(fractional_))
+    return;
+
   if (is_improper(fractional_))
   {
     auto const truncated_fractional = trunc(fractional_);
-- 
2.43.0


From a05bac6b5db1b65964386282f95051074718fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 10/18] fix: redenominating an undefined fraction traps

---
 include/ieme/fraction_math.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0b790d3..7818612 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -209,6 +209,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> trunc_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return value;
+
   return {trunc(value * denominator), denominator};
 }
 
@@ -216,6 +219,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> ceil_redenominate(fraction<Rep, Ops> const& value,
                                                Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return value;
+
   return {(denominator >= _0<Rep>) ? ceil(value * denominator)
                                    : -ceil(value * -denominator),
           denominator};
@@ -225,6 +231,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> floor_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return value;
+
   return {(denominator >= _0<Rep>) ? floor(value * denominator)
                                    : -floor(value * -denominator),
           denominator};
@@ -234,6 +243,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> round_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return value;
+
   return {round(value * denominator), denominator};
 }
 
-- 
2.43.0


From f96bf98e172bc035cb4791709fec256745f9ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 11/18] fix: accept floating point strings with an exponent and
 no radix separator

---
 include/ieme/parse_utilities.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index ca29da4..98f5103 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -66,7 +66,13 @@ scan_floating_point_string(std::string_view const string) noexcept
 
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
+
+  results.whole = remaining_string.substr(
+    0,
+    no_radix_separator
+      ? remaining_string.find_first_of((results.base == 10) ? "eE" : "pP")
+      : radix_separator_pos);
 
   auto const no_whole = results.whole.empty();
 
@@ -81,10 +87,8 @@ scan_floating_point_string(std::string_view const string) noexcept
     return std::nullopt;
   }
 
-  auto const no_radix_separator = radix_separator_pos == std::string_view::npos;
-
-  if (!no_radix_separator)
-    remaining_string.remove_prefix(radix_separator_pos + 1);
+  remaining_string.remove_prefix(no_radix_separator ? results.whole.size()
+                                                    : radix_separator_pos + 1);
 
   auto const exponent_separator_pos = [&]() {
     auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
-- 
2.43.0


From 3c882425b012805d3cabaf743d5274f46eabf82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 12/18] fix: the limits of mixed numbers do not compile

---
 include/ieme/limits.hpp | 107 ++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 53 deletions(-)

diff --git a/include/ieme/limits.hpp b/include/ieme/limits.hpp
index 4e0389a..8edfd1a 100644
--- a/include/ieme/limits.hpp
+++ b/include/ieme/limits.hpp
@@ -29,14 +29,14 @@ public:
   static constexpr fraction_type undefined() noexcept;
 };
 
-template <typename Rep, typename Ops>
-class limits<mixed_number<Rep, Ops>> {
+template <typename WRep, typename FRep, typename Ops>
+class limits<mixed_number<WRep, FRep, Ops>> {
 
 public:
-  using rep_type = Rep;
+  using rep_type = WRep;
   using ops_type = Ops;
-  using mixed_number_type = mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = mixed_number<WRep, FRep, Ops>;
+  using fraction_type = typename mixed_number_type::fractional_type;
 
   static constexpr mixed_number_type min() noexcept;
   static constexpr mixed_number_type max() noexcept;
@@ -93,12 +93,12 @@ public:
   static constexpr fraction_type denorm_min() noexcept;
 };
 
-template <typename Rep, typename Ops>
-class numeric_limits<ieme::mixed_number<Rep, Ops>> {
+template <typename WRep, typename FRep, typename Ops>
+class numeric_limits<ieme::mixed_number<WRep, FRep, Ops>> {
 
 public:
-  using mixed_number_type = ieme::mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = ieme::mixed_number<WRep, FRep, Ops>;
+  using fraction_type = typename mixed_number_type::fractional_type;
   using fraction_limits_type = numeric_limits<fraction_type>;
 
   static constexpr bool is_specialized = fraction_limits_type::is_specialized;
@@ -106,8 +106,9 @@ public:
   static constexpr bool is_integer = fraction_limits_type::is_integer;
   static constexpr bool is_exact = fraction_limits_type::is_exact;
   static constexpr bool has_infinity = fraction_limits_type::has_infinity;
-  static constexpr bool has_quiet_ = fraction_limits_type::has_quiet_;
-  static constexpr bool has_signaling_ = fraction_limits_type::has_signaling_;
+  static constexpr bool has_quiet_NaN = fraction_limits_type::has_quiet_NaN;
+  static constexpr bool has_signaling_NaN
+    = fraction_limits_type::has_signaling_NaN;
   static constexpr float_denorm_style has_denorm
     = fraction_limits_type::has_denorm;
   static constexpr bool has_denorm_loss = fraction_limits_type::has_denorm_loss;
@@ -172,29 +173,29 @@ constexpr auto limits<fraction<Rep, Ops>>::undefined() noexcept -> fraction_type
   return {_0<Rep>, _0<Rep>};
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::max() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::max() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::max();
+  return std::numeric_limits<WRep>::max();
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::min() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::min();
+  return std::numeric_limits<WRep>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::smallest() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::smallest() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::smallest();
 }
 
-template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::undefined() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr auto limits<mixed_number<WRep, FRep, Ops>>::undefined() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::undefined();
@@ -270,65 +271,65 @@ numeric_limits<ieme::fraction<Rep, Ops>>::denorm_min() noexcept
   return rep_limits_type::denorm_min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::min() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::lowest() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::lowest() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::min();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::max() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::max() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::max();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::max();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::epsilon() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::epsilon() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::smallest();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::smallest();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::round_error() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::round_error() noexcept
 {
   return fraction_limits_type::round_error();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::infinity() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::infinity() noexcept
 {
   return fraction_limits_type::infinity();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::quiet_NaN() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::quiet_NaN() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::undefined();
+  return ieme::limits<ieme::mixed_number<WRep, FRep, Ops>>::undefined();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::signaling_NaN() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::signaling_NaN() noexcept
 {
   return fraction_limits_type::signaling_NaN();
 }
 
-template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::denorm_min() noexcept
+template <typename WRep, typename FRep, typename Ops>
+constexpr ieme::mixed_number<WRep, FRep, Ops>
+numeric_limits<ieme::mixed_number<WRep, FRep, Ops>>::denorm_min() noexcept
 {
   return fraction_limits_type::denorm_min();
 }
-- 
2.43.0


From e645c6b58f5aef20853b028164db472e1684fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 13/18] fix: overflow when parsing the longest representable
 digit sequences

---
 include/ieme/parse_utilities.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 98f5103..ec264d8 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -191,25 +191,23 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto const c : sequence)
   {
-    if (*it == '\'')
+    if (c == '\'')
       continue;
 
     auto const digit_as_int = [&]() {
-      if (*it >= 'A' && *it <= 'F')
-        return static_cast<Int>(*it - 'A' + 10);
+      if (c >= 'A' && c <= 'F')
+        return static_cast<Int>(c - 'A' + 10);
 
-      if (*it >= 'a' && *it <= 'f')
-        return static_cast<Int>(*it - 'a' + 10);
+      if (c >= 'a' && c <= 'f')
+        return static_cast<Int>(c - 'a' + 10);
 
-      return static_cast<Int>(*it - '0');
+      return static_cast<Int>(c - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    result = result * base + digit_as_int;
   }
 
   return result;
-- 
2.43.0


From 9c9f6e6a343745ddc5c72d281fa38c79aaa46ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 14/18] fix: raw_fraction_math.hpp does not include the queries
 it uses

---
 include/ieme/raw_fraction_math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 4c6fd85..fd224ce 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -3,6 +3,7 @@
 
 #include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_queries.hpp>
 #include <ieme/reduce_mode.hpp>
 
 #include <numeric>
-- 
2.43.0


From 0f0a147ce25c42805631d84d991bb6c3ae41b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 15/18] fix: powers of number types narrower than int do not
 compile

---
 include/ieme/math_utilities.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ieme/math_utilities.hpp b/include/ieme/math_utilities.hpp
index 4d97345..c7f6a7d 100644
--- a/include/ieme/math_utilities.hpp
+++ b/include/ieme/math_utilities.hpp
@@ -44,11 +44,12 @@ constexpr Int pow(Int const base, Int const exponent) noexcept
     return _1<Int>;
 
   if (exponent % _2<Int> == _1<Int>)
-    return base * pow(base, exponent - _1<Int>);
+    return static_cast<Int>(
+      base * pow(base, static_cast<Int>(exponent - _1<Int>)));
 
-  auto const squareRoot = pow(base, exponent / _2<Int>);
+  auto const squareRoot = pow(base, static_cast<Int>(exponent / _2<Int>));
 
-  return squareRoot * squareRoot;
+  return static_cast<Int>(squareRoot * squareRoot);
 }
 
 
-- 
2.43.0


From 004641ac144b01fae907e7ff532d3063c8833aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 16/18] fix: rounding to nearest overflowed for large
 denominators

---
 include/ieme/fraction_math.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 7818612..0f803fa 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -178,11 +178,19 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 template <typename Rep, typename Ops>
 constexpr Rep round(fraction<Rep, Ops> const& value) noexcept
 {
-  auto const floored = floor(value);
+  auto const truncated = trunc(value);
+
+  // Comparing what was cut off with what is missing to the next whole number
+  // takes no intermediate result larger than the denominator
+  auto const cut_off = math_utilities::abs(
+    static_cast<Rep>(value.numerator() % value.denominator()));
+  auto const missing
+    = static_cast<Rep>(math_utilities::abs(value.denominator()) - cut_off);
+
+  if (is_negative(value))
+    return (cut_off > missing) ? truncated - _1<Rep> : truncated;
 
-  return (value - floored < fraction<Rep, Ops>(_1<Rep>, _2<Rep>))
-           ? floored
-           : floored + _1<Rep>;
+  return (cut_off < missing) ? truncated : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 70a579c55086ec104443488eda590b8f87f07e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 17/18] fix: round of fractions with the lowest denominator

---
 include/ieme/fraction_math.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0f803fa..a632c3a 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -181,16 +181,24 @@ constexpr Rep round(fraction<Rep, Ops> const& value) noexcept
   auto const truncated = trunc(value);
 
   // Comparing what was cut off with what is missing to the next whole number
-  // takes no intermediate result larger than the denominator
-  auto const cut_off = math_utilities::abs(
-    static_cast<Rep>(value.numerator() % value.denominator()));
-  auto const missing
-    = static_cast<Rep>(math_utilities::abs(value.denominator()) - cut_off);
+  // takes no intermediate result larger than the denominator, whose magnitude
+  // need not be representable
+  auto const denominator = value.denominator();
+  auto const cut_off = static_cast<Rep>(value.numerator() % denominator);
 
-  if (is_negative(value))
-    return (cut_off > missing) ? truncated - _1<Rep> : truncated;
+  if (is_negative(value)) {
+    auto const missing = static_cast<Rep>(denominator + cut_off);
 
-  return (cut_off < missing) ? truncated : truncated + _1<Rep>;
+    return ((denominator < _0<Rep>) ? -cut_off < missing : -cut_off > missing)
+             ? truncated - _1<Rep>
+             : truncated;
+  }
+
+  auto const missing = static_cast<Rep>(denominator - cut_off);
+
+  return ((denominator < _0<Rep>) ? cut_off > missing : cut_off < missing)
+           ? truncated
+           : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From c586f8b74ff3aff30a544be35d5e938a3de6dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:37 +0000
Subject: [PATCH 18/18] fix: malformed fractions in streams are not read

---
 include/ieme/raw_fraction.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ieme/raw_fraction.hpp b/include/ieme/raw_fraction.hpp
index 86f96c1..5e34a57 100644
--- a/include/ieme/raw_fraction.hpp
+++ b/include/ieme/raw_fraction.hpp
@@ -66,7 +66,10 @@ std::istream& operator>>(std::istream& stream,
                          raw_fraction<Rep>& value) noexcept
 {
   stream >> value.numerator;
-  stream.ignore(std::numeric_limits<std::streamsize>::max(), '/');
+
+  if (char separator {}; stream >> separator && separator != '/')
+    stream.setstate(std::ios_base::failbit);
+
   return stream >> value.denominator;
 }
 
-- 
2.43.0

