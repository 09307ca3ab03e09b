From ee464c2a3613e5436da1ce757aeb514d46d07e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 01/87] fix: expm1 accuracy near 0.125..0.25 and at large
 negative arguments

---
 include/ccmath/math/expo/impl/exp_double_impl.hpp | 9 ++++++++-
 include/ccmath/math/expo/impl/exp_float_impl.hpp  | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 44fd869..a3dc988 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -147,7 +147,8 @@ namespace ccm::internal::impl
 	constexpr double expm1_series(double x)
 	{
 		const double x2 = x * x;
-		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0)))))));
+		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0 +
+																															  x * (1.0 / 362880.0 + x * (1.0 / 3628800.0 + x * (1.0 / 39916800.0))))))))));
 	}
 
 	constexpr double expm1_kernel(double x)
@@ -220,6 +221,12 @@ namespace ccm::internal::impl
 
 		if (x == -std::numeric_limits<double>::infinity()) { return -1.0; }
 
+		// exp(x) is below half an ulp of 1 here and the kernel's large-argument path would drop the -1.
+		if (x <= -40.0) { return -1.0 + 0x1p-60; }
+
+		// The quadratic term is below half an ulp of x and would cancel a subnormal x in a directed rounding mode.
+		if (x < 0x1p-54 && x > -0x1p-54) { return x; }
+
 		if (x >= 0.25 || x <= -0.25) { return expm1_kernel(x); }
 
 		if (x > 0.0625 || x < -0.0625)
diff --git a/include/ccmath/math/expo/impl/exp_float_impl.hpp b/include/ccmath/math/expo/impl/exp_float_impl.hpp
index 96afdbe..c0bffb0 100644
--- a/include/ccmath/math/expo/impl/exp_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_float_impl.hpp
@@ -153,6 +153,9 @@ namespace ccm::internal::impl
 
 		if (x == -std::numeric_limits<float>::infinity()) { return -1.0F; }
 
+		// The quadratic term is below half an ulp of x and would cancel a subnormal x in a directed rounding mode.
+		if (x < 0x1p-25F && x > -0x1p-25F) { return x; }
+
 		if (x >= 0.25F || x <= -0.25F) { return expm1_kernel(x); }
 
 		if (x > 0.0625F || x < -0.0625F)
-- 
2.43.0


From 981c74e2b90707844727ac4d714df7490436cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 02/87] fix: log1p polynomial coefficients and overflow of 1 +
 x in directed rounding

---
 include/ccmath/math/expo/impl/log1p_impl.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index ad2e99b..5f3815a 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -32,13 +32,13 @@ namespace ccm::internal::impl
 	constexpr float log1p_lg3_f	   = 0x1.24924ap-2f;
 	constexpr float log1p_lg4_f	   = 0x1.f0a3d8p-3f;
 
-	constexpr double log1p_lg1_d = 0x1.5555555555555p-1;
-	constexpr double log1p_lg2_d = 0x1.9999999999999p-2;
-	constexpr double log1p_lg3_d = 0x1.2492492492492p-2;
-	constexpr double log1p_lg4_d = 0x1.c71c71c71c6d6p-3;
-	constexpr double log1p_lg5_d = 0x1.745d1745d0a63p-3;
-	constexpr double log1p_lg6_d = 0x1.3b13b13b0ff6ep-3;
-	constexpr double log1p_lg7_d = 0x1.111111111126ep-3;
+	constexpr double log1p_lg1_d = 0x1.5555555555593p-1;
+	constexpr double log1p_lg2_d = 0x1.999999997fa04p-2;
+	constexpr double log1p_lg3_d = 0x1.2492494229359p-2;
+	constexpr double log1p_lg4_d = 0x1.c71c51d8e78afp-3;
+	constexpr double log1p_lg5_d = 0x1.7466496cb03dep-3;
+	constexpr double log1p_lg6_d = 0x1.39a09d078c69fp-3;
+	constexpr double log1p_lg7_d = 0x1.2f112df3e5244p-3;
 
 	constexpr auto log1p_log_data_flt = ccm::internal::log_data<double>();
 	constexpr auto log1p_ln2_hi_d	  = log1p_log_data_flt.ln2hi;
@@ -48,6 +48,9 @@ namespace ccm::internal::impl
 	{
 		if (x > 0.414284F || x < -0.292893F)
 		{
+			// The sum could overflow for the largest x in a directed rounding mode; the 1 is negligible here.
+			if (x >= 0x1p30F) { return log_float_impl(x); }
+
 			const float u = 1.0F + x;
 			if (u == 1.0F) { return x; }
 
@@ -123,6 +126,9 @@ namespace ccm::internal::impl
 	{
 		if (x > 0.414284 || x < -0.292893)
 		{
+			// The sum could overflow for the largest x in a directed rounding mode; the 1 is negligible here.
+			if (x >= 0x1p60) { return log_double_impl(x); }
+
 			const double u = 1.0 + x;
 			if (u == 1.0) { return x; }
 
-- 
2.43.0


From 7ff672c5eeb09866d5411f1866f48643c62ccbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 03/87] fix: fmod is exact in constant evaluation, propagates a
 NaN divisor and promotes integer and mixed arguments

---
 include/ccmath/math/basic/fmod.hpp | 33 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 461a062..e43d9fd 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -15,9 +15,9 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
 
 #include <limits>
+#include <type_traits>
 
 namespace ccm
 {
@@ -40,7 +40,7 @@ namespace ccm
 				const FPBits_t y_bits(y);
 
 				// If x is ±0 and y is not zero, ±0 is returned.
-				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero()))
+				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero() && !y_bits.is_nan()))
 				{
 					// The standard specifies that plus or minus 0 is returned depending on the sign of x.
 					return x;
@@ -68,10 +68,31 @@ namespace ccm
 				}
 			}
 
-			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+			// Binary long division: every subtraction below is exact, so the remainder is too.
+			const bool x_is_neg = x < static_cast<T>(0);
+			const T divisor		= y < static_cast<T>(0) ? -y : y;
+			T rem				= x_is_neg ? -x : x;
+			T scaled			= divisor;
+
+			if (rem < divisor) { return x; }
+
+			while (rem - scaled >= scaled) { scaled += scaled; }
+			while (true)
+			{
+				if (rem >= scaled) { rem -= scaled; }
+				if (scaled == divisor) { break; }
+				scaled *= static_cast<T>(0.5);
+			}
+
+			// An exact multiple leaves a zero carrying the sign of x, whatever the rounding mode.
+			if (rem == static_cast<T>(0)) { rem = static_cast<T>(0); }
+			return x_is_neg ? -rem : rem;
 		}
 
-		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
+		template <typename T, typename U>
+		using fmod_promote_t = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
+
+		template <typename T, typename U, typename TC = fmod_promote_t<T, U>>
 		constexpr TC fmod_impl_type_check(T x, U y) noexcept
 		{ return fmod_impl_check(static_cast<TC>(x), static_cast<TC>(y)); }
 	} // namespace internal::impl
@@ -111,8 +132,8 @@ namespace ccm
 	 * @return The floating-point remainder of the division operation x/y.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmod
 	 */
-	template <typename T, typename U>
-	constexpr auto fmod(T x, T y)
+	template <typename T, typename U, std::enable_if_t<std::is_arithmetic_v<T> && std::is_arithmetic_v<U> && !std::is_same_v<T, U>, bool> = true>
+	constexpr auto fmod(T x, U y)
 	{ return internal::impl::fmod_impl_type_check(x, y); }
 
 	/**
-- 
2.43.0


From 734342ff1559246a95500373a9934d561bce38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 04/87] fix: remainder rounds the quotient to nearest and
 accepts an infinite divisor in constant evaluation

---
 include/ccmath/math/basic/remainder.hpp | 36 +++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remainder.hpp b/include/ccmath/math/basic/remainder.hpp
index e348688..7133e34 100644
--- a/include/ccmath/math/basic/remainder.hpp
+++ b/include/ccmath/math/basic/remainder.hpp
@@ -15,7 +15,9 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
+#include "ccmath/math/basic/fmod.hpp"
+
+#include <limits>
 
 namespace ccm
 {
@@ -48,7 +50,37 @@ namespace ccm
 			return -std::numeric_limits<T>::quiet_NaN();
 		}
 
-		return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+		// If y is ±∞ and x is finite, or x is ±0, x is returned.
+		if (CCM_UNLIKELY(y_bits.is_inf() || x_bits.is_zero())) { return x; }
+
+		const bool x_is_neg = x < static_cast<T>(0);
+		const T divisor		= y < static_cast<T>(0) ? -y : y;
+		const T half_max	= static_cast<T>(0.5) * std::numeric_limits<T>::max();
+		T rem				= x_is_neg ? -x : x;
+
+		// Reduce exactly to [0, 2 * divisor) and then to the nearest multiple (ties to the even quotient).
+		if (divisor <= half_max) { rem = ccm::fmod(rem, divisor + divisor); }
+		if (divisor < static_cast<T>(2) * std::numeric_limits<T>::min())
+		{
+			if (rem + rem > divisor)
+			{
+				rem -= divisor;
+				if (rem + rem >= divisor) { rem -= divisor; }
+			}
+		}
+		else
+		{
+			const T half = static_cast<T>(0.5) * divisor;
+			if (rem > half)
+			{
+				rem -= divisor;
+				if (rem >= half) { rem -= divisor; }
+			}
+		}
+
+		// A zero remainder carries the sign of x, whatever the rounding mode.
+		if (rem == static_cast<T>(0)) { rem = static_cast<T>(0); }
+		return x_is_neg ? -rem : rem;
 	}
 
 	/**
-- 
2.43.0


From e164997fe71c8874e0c998d724f262e37f828922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 05/87] fix: remquo keeps long double precision and yields NaN
 for invalid arguments in constant evaluation

---
 .../math/basic/impl/remquo_double_impl.hpp    |  6 +-
 .../math/basic/impl/remquo_float_impl.hpp     |  5 +-
 .../math/basic/impl/remquo_ldouble_impl.hpp   | 90 ++++++++++++++-----
 include/ccmath/math/basic/remquo.hpp          |  6 +-
 4 files changed, 78 insertions(+), 29 deletions(-)

diff --git a/include/ccmath/math/basic/impl/remquo_double_impl.hpp b/include/ccmath/math/basic/impl/remquo_double_impl.hpp
index 3ec1764..987d320 100644
--- a/include/ccmath/math/basic/impl/remquo_double_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_double_impl.hpp
@@ -14,10 +14,12 @@
 #include "ccmath/internal/predef/compiler_suppression/gcc_compiler_suppression.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/bits.hpp"
+#include "ccmath/internal/support/is_constant_evaluated.hpp"
 #include "ccmath/math/basic/fabs.hpp"
 #include "ccmath/math/basic/fmod.hpp"
 
 #include <cstdint>
+#include <limits>
 
 namespace ccm::internal
 {
@@ -42,7 +44,7 @@ namespace ccm::internal
 			y_i64 &= 0x7fffffffffffffffULL;
 
 			// If y is zero.
-			if (CCM_UNLIKELY(y_i64 == 0)) { return (x * y) / (x * y); }
+			if (CCM_UNLIKELY(y_i64 == 0)) { return support::is_constant_evaluated() ? std::numeric_limits<double>::quiet_NaN() : (x * y) / (x * y); }
 
 			// GCC and Clang do not like comparing signed and unsigned integers.
 			// The outcome of these comparisons is well-defined, so we can safely disable these warnings.
@@ -52,7 +54,7 @@ namespace ccm::internal
 			// If x is not finite or y is NaN.
 			if (CCM_UNLIKELY(x_i64 >= 0x7ff0000000000000ULL || y_i64 > 0x7ff0000000000000ULL)) // NOLINT(readability-simplify-boolean-expr)
 			{
-				return (x * y) / (x * y);
+				return support::is_constant_evaluated() ? std::numeric_limits<double>::quiet_NaN() : (x * y) / (x * y);
 			} // NOLINT(readability-simplify-boolean-expr)
 
 			// b (or bit 54) represents the highest bit we can compare against for both signed and unsigned integers without causing an overflow.
diff --git a/include/ccmath/math/basic/impl/remquo_float_impl.hpp b/include/ccmath/math/basic/impl/remquo_float_impl.hpp
index 1f2e909..b6ddf36 100644
--- a/include/ccmath/math/basic/impl/remquo_float_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_float_impl.hpp
@@ -12,6 +12,7 @@
 
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/bits.hpp"
+#include "ccmath/internal/support/is_constant_evaluated.hpp"
 #include "ccmath/math/basic/fabs.hpp"
 #include "ccmath/math/basic/fmod.hpp"
 
@@ -41,10 +42,10 @@ namespace ccm::internal
 			y_i32 &= 0x7fffffff;
 
 			// If y is zero.
-			if (CCM_UNLIKELY(y_i32 == 0)) { return (x * y) / (x * y); }
+			if (CCM_UNLIKELY(y_i32 == 0)) { return support::is_constant_evaluated() ? std::numeric_limits<float>::quiet_NaN() : (x * y) / (x * y); }
 
 			// If x is not finite or y is NaN.
-			if (CCM_UNLIKELY(x_i32 >= 0x7f800000 || y_i32 > 0x7f800000)) { return (x * y) / (x * y); } // NOLINT(readability-simplify-boolean-expr)
+			if (CCM_UNLIKELY(x_i32 >= 0x7f800000 || y_i32 > 0x7f800000)) { return support::is_constant_evaluated() ? std::numeric_limits<float>::quiet_NaN() : (x * y) / (x * y); } // NOLINT(readability-simplify-boolean-expr)
 
 			if (y_i32 <= 0x7dffffff)
 			{
diff --git a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
index b062743..881914a 100644
--- a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
@@ -11,11 +11,10 @@
 #pragma once
 
 #include "ccmath/internal/predef/unlikely.hpp"
-#include "ccmath/internal/support/bits.hpp"
-#include "ccmath/math/basic/fabs.hpp"
+#include "ccmath/internal/support/fp/fp_bits.hpp"
+#include "ccmath/internal/support/is_constant_evaluated.hpp"
 #include "ccmath/math/basic/fmod.hpp"
 
-#include <cstdint>
 #include <limits>
 
 namespace ccm::internal
@@ -24,25 +23,72 @@ namespace ccm::internal
 	{
 		constexpr long double remquo_ldouble_impl(long double x, long double y, int * quo) noexcept
 		{
-			/*
-				std::int32_t x_exponent{};
-				std::int32_t y_exponent{};
-				std::int32_t x_int32{};
-				std::int32_t y_int32{};
-
-				std::uint32_t x_sign{};
-				std::uint32_t y_msb{};
-				std::uint32_t x_lsb{};
-
-				int quotient_sign{};
-				int computed_quotient{};
-			 */
-			// TODO: For the time being this is mega on hold until we have access to
-			//       necessary implementations of int128_t. Without them extracting the
-			//       needed bits to perform the necessary operations would be extremely challenging
-			//       due to the fact that long double is extremely platform dependent.
-
-			return 0;
+			using FPBits_t			  = support::fp::FPBits<long double>;
+			constexpr long double max = std::numeric_limits<long double>::max();
+			const FPBits_t x_bits(x);
+			const FPBits_t y_bits(y);
+
+			const bool x_is_neg			  = x_bits.is_neg();
+			const bool quotient_is_neg	  = x_is_neg != y_bits.is_neg();
+			int computed_quotient		  = 0;
+
+			// If y is zero, x is not finite or y is NaN.
+			if (CCM_UNLIKELY(y_bits.is_zero() || !x_bits.is_finite() || y_bits.is_nan()))
+			{
+				return support::is_constant_evaluated() ? std::numeric_limits<long double>::quiet_NaN() : (x * y) / (x * y);
+			}
+
+			x = x_is_neg ? -x : x;
+			y = y_bits.is_neg() ? -y : y;
+
+			// Reduce exactly to x < (8 * y) and read the low bits of the quotient off the remaining steps.
+			if (y <= max / 8) { x = ccm::fmod(x, 8 * y); }
+
+			if (y <= max / 4 && x >= 4 * y)
+			{
+				x -= 4 * y;
+				computed_quotient += 4;
+			}
+
+			if (y <= max / 2 && x >= 2 * y)
+			{
+				x -= 2 * y;
+				computed_quotient += 2;
+			}
+
+			if (y < 2 * std::numeric_limits<long double>::min())
+			{
+				if (x + x > y)
+				{
+					x -= y;
+					++computed_quotient;
+					if (x + x >= y)
+					{
+						x -= y;
+						++computed_quotient;
+					}
+				}
+			}
+			else
+			{
+				const long double y_half = 0.5L * y;
+				if (x > y_half)
+				{
+					x -= y;
+					++computed_quotient;
+					if (x >= y_half)
+					{
+						x -= y;
+						++computed_quotient;
+					}
+				}
+			}
+
+			*quo = quotient_is_neg ? -computed_quotient : computed_quotient;
+
+			// Make sure that the correct sign of zero results in round down mode.
+			if (x == 0.0L) { x = 0.0L; }
+			return x_is_neg ? -x : x;
 		}
 	} // namespace impl
 
diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index b977f9b..d9bbb32 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -12,6 +12,7 @@
 
 #include "ccmath/math/basic/impl/remquo_double_impl.hpp"
 #include "ccmath/math/basic/impl/remquo_float_impl.hpp"
+#include "ccmath/math/basic/impl/remquo_ldouble_impl.hpp"
 
 namespace ccm
 {
@@ -48,6 +49,7 @@ namespace ccm
 	constexpr T remquo(T x, T y, int * quo)
 	{
 		if constexpr (std::is_same_v<T, float>) { return internal::remquo_float(x, y, quo); }
+		else if constexpr (std::is_same_v<T, long double>) { return internal::remquo_ldouble(x, y, quo); }
 		else
 		{
 			return internal::remquo_double(x, y, quo);
@@ -152,9 +154,7 @@ namespace ccm
 	 */
 	constexpr long double remquol(long double x, long double y, int * quo)
 	{
-		// Currently, due to technical issues, the long double version of remquo is not implemented.
-		// For now, we will cast the long double variables to a double and call the double version of remquo.
-		return static_cast<long double>(ccm::remquo<double>(static_cast<double>(x), static_cast<double>(y), quo));
+		return ccm::remquo<long double>(x, y, quo);
 	}
 } // namespace ccm
 
-- 
2.43.0


From 4c1d62e9025fdf3c71f6abf4b2a0ea0657913c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 06/87] fix: fdim does not report a spurious overflow in
 constant evaluation

---
 .../ccmath/internal/math/generic/func/basic/fdim_gen.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index d23e4be..c0267ef 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -13,6 +13,7 @@
 #include "ccmath/internal/math/generic/builtins/basic/fdim.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
+#include "ccmath/internal/support/is_constant_evaluated.hpp"
 
 #include <limits>
 #include <type_traits>
@@ -40,7 +41,12 @@ namespace ccm::gen
 			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
 			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
 			if (x <= y) { return static_cast<T>(+0.0); }
-			if (y < static_cast<T>(0.0) && x > std::numeric_limits<T>::max() + y) { return std::numeric_limits<T>::infinity(); }
+			if (ccm::support::is_constant_evaluated())
+			{
+				// An overflowing subtraction is not a constant expression everywhere, so detect it at half scale.
+				constexpr T half = static_cast<T>(0.5);
+				if (half * x - half * y > half * std::numeric_limits<T>::max()) { return std::numeric_limits<T>::infinity(); }
+			}
 			return x - y;
 		}
 	}
-- 
2.43.0


From da6e484ba1003eaf605fab5dff60c52600493453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 07/87] fix: log and log10 do not raise FE_INVALID for a quiet
 NaN

---
 include/ccmath/math/expo/log.hpp   | 6 +++---
 include/ccmath/math/expo/log10.hpp | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/math/expo/log.hpp b/include/ccmath/math/expo/log.hpp
index 5fe4398..8880cbd 100644
--- a/include/ccmath/math/expo/log.hpp
+++ b/include/ccmath/math/expo/log.hpp
@@ -58,6 +58,9 @@ namespace ccm
 				return -std::numeric_limits<T>::infinity();
 			}
 
+			// If the argument is NaN, NaN is returned (before any ordered comparison, which would raise FE_INVALID).
+			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
+
 			// If the argument is negative, -NaN is returned.
 			if (num < static_cast<T>(0))
 			{
@@ -69,9 +72,6 @@ namespace ccm
 			// If the argument is +∞, +∞ is returned.
 			if (CCM_UNLIKELY(num == std::numeric_limits<T>::infinity())) { return std::numeric_limits<T>::infinity(); }
 
-			// If the argument is NaN, NaN is returned.
-			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
-
 			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::log_rt(num); }
 
 			return gen::log_gen(num);
diff --git a/include/ccmath/math/expo/log10.hpp b/include/ccmath/math/expo/log10.hpp
index 3690111..d426c7b 100644
--- a/include/ccmath/math/expo/log10.hpp
+++ b/include/ccmath/math/expo/log10.hpp
@@ -60,6 +60,8 @@ namespace ccm
 				ccm::support::fenv::raise_except_if_required(FE_DIVBYZERO);
 				return -std::numeric_limits<T>::infinity();
 			}
+			// Screened before the ordered comparison below, which would raise FE_INVALID.
+			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
 			if (num < static_cast<T>(0))
 			{
 				ccm::support::fenv::set_errno_if_required(EDOM);
@@ -67,7 +69,6 @@ namespace ccm
 				return -std::numeric_limits<T>::quiet_NaN();
 			}
 			if (CCM_UNLIKELY(num == std::numeric_limits<T>::infinity())) { return std::numeric_limits<T>::infinity(); }
-			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
 
 			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::log10_rt(num); }
 
-- 
2.43.0


From 261a0f8e1d077d27f117b4b2fa8d66cc601db3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 08/87] fix: pow raises no spurious FE_INVALID or FE_OVERFLOW
 for NaN, huge exponents and huge half-integer bases

---
 .../math/generic/func/power/pow_impl/pow_impl.hpp         | 8 +++++++-
 .../math/generic/func/power/pow_impl/powf_impl.hpp        | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
index 785851e..def4904 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
@@ -165,6 +165,12 @@ namespace ccm::gen::impl
 					x *= 0x1.0p106;
 					mult = 0x1.0p-53;
 				}
+				else if (x > 0x1.0p1000)
+				{
+					// Huge x is scaled down for the same reason: s0^2 may overflow in an upward mode.
+					x *= 0x1.0p-106;
+					mult = 0x1.0p53;
+				}
 				const double s0		  = ccm::gen::sqrt_gen<double>(x);
 				const DoubleDouble sq = two_prod(s0, s0);
 				const double e		  = (x - sq.hi) - sq.lo; // x - s0^2 (exact)
@@ -876,7 +882,7 @@ namespace ccm::gen::impl
 			// small base under a large odd power, e.g. 1/sqrt(x) for x just above a tiny power of two).
 			// Genuine half-integers only; integer exponents are fully owned by the integer path above
 			// (which also carries the result sign for a negative base).
-			const double two_exp = exp * 2.0;
+			const double two_exp = FPBits_t(exp).abs().get_val() <= 1024.0 ? exp * 2.0 : exp; // doubling a huge exponent would overflow
 			if (is_integer(two_exp) && !is_integer(exp) && FPBits_t(two_exp).abs().get_val() <= 2048.0)
 			{
 				// pow(x, +/-1/2) are sqrt and 1/sqrt. sqrt is the correctly rounded sqrt_gen; 1/sqrt
diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
index dcdfdc4..96f4a0a 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
@@ -203,6 +203,7 @@ namespace ccm::gen::impl
 					switch (y_u)
 					{
 					case 0x3f00'0000: // y = 0.5f
+						if (CCM_UNLIKELY(x_abs > 0x7f80'0000)) { return x; } // NaN, screened before any ordered comparison
 						if (CCM_UNLIKELY(x == 0.0F || x_u == 0xff80'0000)) { return x * x; }
 						if (x < 0.0F)
 						{
-- 
2.43.0


From ba64dfab00a76359364393bc43a9b4d318a25578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 09/87] fix: asin does not raise FE_INVALID for a quiet NaN

---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 901028d..fd35499 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -139,7 +139,8 @@ namespace ccm::internal::impl
 	template <typename T>
 	constexpr T asin_impl(T x) noexcept
 	{
-		if (x == static_cast<T>(0)) { return x; }
+		// NaN is screened first: the ordered comparison below would raise FE_INVALID.
+		if (CCM_UNLIKELY(ccm::isnan(x)) || x == static_cast<T>(0)) { return x; }
 
 		if (ccm::fabs(x) <= static_cast<T>(0.5)) { return inv_trig_detail::asin_small_impl(x); }
 
-- 
2.43.0


From 4386f67f139ee5710884f738b9a06b3307917923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 10/87] fix: atan2 keeps the sign of a negative zero y and does
 not overflow internally

---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index fd35499..a6c993f 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -259,12 +259,20 @@ namespace ccm::internal::impl
 			return y;
 		}
 
+		// Divide the smaller magnitude by the larger one so the quotient cannot overflow.
+		if (ccm::fabs(y) > ccm::fabs(x))
+		{
+			const T pi_over_2 = static_cast<T>(ccm::numbers::pi_v<T>) / static_cast<T>(2);
+			const T rest	  = atan_impl(x / y);
+			return y < static_cast<T>(0) ? -pi_over_2 - rest : pi_over_2 - rest;
+		}
+
 		const T ratio = y / x;
 		T angle		  = atan_impl(ratio);
 
 		if (x < static_cast<T>(0))
 		{
-			if (y >= static_cast<T>(0)) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
+			if (!fp_bits_t(y).is_neg()) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
 			return angle - static_cast<T>(ccm::numbers::pi_v<T>);
 		}
 		return angle;
-- 
2.43.0


From f633e8aec5786ccf2d5c03b4e0a24b5ae4d667ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 11/87] fix: three-argument hypot returns NaN for a NaN beside
 an overflowing pair

---
 include/ccmath/math/power/hypot.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 2d3c5ea..0342205 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -14,7 +14,10 @@
 #include "ccmath/internal/math/generic/func/power/hypot_gen.hpp"
 #include "ccmath/internal/math/runtime/func/power/hypot_rt.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
+#include "ccmath/math/compare/isinf.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
+#include <limits>
 #include <type_traits>
 
 namespace ccm
@@ -38,6 +41,20 @@ namespace ccm
 		}
 	}
 
+	/// @cond CCMATH_INTERNAL
+	namespace internal::impl
+	{
+		template <typename T>
+		constexpr T hypot3(T x, T y, T z) noexcept
+		{
+			// An infinite argument wins even beside a NaN, and a NaN wins over an overflowing pair.
+			if (ccm::isinf(x) || ccm::isinf(y) || ccm::isinf(z)) { return std::numeric_limits<T>::infinity(); }
+			if (ccm::isnan(x) || ccm::isnan(y) || ccm::isnan(z)) { return std::numeric_limits<T>::quiet_NaN(); }
+			return ccm::hypot(ccm::hypot(x, y), z);
+		}
+	} // namespace internal::impl
+	/// @endcond
+
 	/**
 	 * @brief Computes the length of the three-dimensional hypotenuse.
 	 * @tparam T Floating-point type.
@@ -48,13 +65,13 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/hypot
 	 */
 	constexpr float hypot(float x, float y, float z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return internal::impl::hypot3(x, y, z); }
 
 	constexpr double hypot(double x, double y, double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return internal::impl::hypot3(x, y, z); }
 
 	constexpr long double hypot(long double x, long double y, long double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return internal::impl::hypot3(x, y, z); }
 
 	template <typename Arithmetic1,
 			  typename Arithmetic2,
-- 
2.43.0


From 72d5d16f29ffd84df1609e817c3e0a0c294f16c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 12/87] fix: scalbln clamps the exponent instead of truncating
 it to int

---
 include/ccmath/math/fmanip/scalbn.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 2194954..83cc1aa 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -17,6 +17,8 @@
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
+#include <limits>
+
 #if defined(_MSC_VER) && !defined(__clang__)
 	#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 CCM_DISABLE_MSVC_WARNING(4702) // 4702: unreachable code
@@ -58,16 +60,10 @@ namespace ccm
 	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T scalbn(T num, long exp) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
-		else
-		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, static_cast<int>(exp)); }
-
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
-		}
+		// Every exponent outside the range of int saturates the result, so clamping (not truncating) keeps the value.
+		constexpr long max_exp = std::numeric_limits<int>::max();
+		constexpr long min_exp = std::numeric_limits<int>::min();
+		return ccm::scalbn<T>(num, static_cast<int>(exp > max_exp ? max_exp : (exp < min_exp ? min_exp : exp)));
 	}
 
 	/**
-- 
2.43.0


From a5b20a19cbaf8a1e01dc93583ff009ee99a6418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 13/87] fix: tgamma accuracy in double, overflow thresholds,
 and termination for large negative arguments

---
 include/ccmath/math/misc/impl/gamma_data.hpp  | 13 ++++--
 .../math/misc/impl/gamma_double_impl.hpp      | 41 ++++++++++++-------
 .../math/misc/impl/gamma_float_impl.hpp       | 15 +++----
 3 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/include/ccmath/math/misc/impl/gamma_data.hpp b/include/ccmath/math/misc/impl/gamma_data.hpp
index 602b317..68b9ebb 100644
--- a/include/ccmath/math/misc/impl/gamma_data.hpp
+++ b/include/ccmath/math/misc/impl/gamma_data.hpp
@@ -17,11 +17,16 @@
 
 namespace ccm::internal::impl::data
 {
-	// Polynomial approximating tgamma(d + 2.875) on [-0.5, 0.5] generated by
-	// Sollya with: P = fpminimax(tgamma(x + 2.875), [|0,1,2,3,4,5,6,7|], [|D...|], [-0.5, 0.5])
+	// Polynomial approximating tgamma(d + 2.875) on [-0.5, 0.5], interpolated at the Chebyshev nodes. Relative error below 2^-54.
 
-	inline constexpr double k_gamma_coeffs[8] = { 0x1.c9a76b7de6f60p+0, 0x1.8f2754874fe83p+0, 0x1.0d11cba0c229fp+0, 0x1.e1f47c012064dp-2,
-												  0x1.828b9f2afb74fp-3, 0x1.e1cc49d830795p-5, 0x1.2c9af3e686836p-6, 0x1.1bf60c7e311f6p-8 };
+	inline constexpr int k_gamma_coeff_count = 20;
+
+	inline constexpr double k_gamma_coeffs[k_gamma_coeff_count] = {
+		0x1.c9a76be577123p+0,  0x1.8f2754ddcf90cp+0,  0x1.0d1191949418ap+0,	 0x1.e1f42cf0ae65dp-2,	0x1.82b358a3ae615p-3,
+		0x1.e1f2b30cb1215p-5,  0x1.240f6d3d63b9cp-6,  0x1.1522ca0d758d4p-8,	 0x1.1fd00825a2853p-10, 0x1.98088606d528cp-13,
+		0x1.b3f446d816d96p-15, 0x1.49e2938430377p-18, 0x1.4814f34911e53p-19, -0x1.4191015891d86p-23, 0x1.626e7c7d9e883p-23,
+		-0x1.5bb8159088a45p-25, 0x1.19b2943a4b5e1p-26, -0x1.7132b333db369p-28, 0x1.3607f0e763ea8p-29, -0x1.ac872a235cd81p-31
+	};
 
 	inline constexpr double k_gamma_base = 0x1.7p+1;
 
diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 6a0f98a..435134b 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -44,15 +44,9 @@ namespace ccm::internal::impl
 
 		constexpr double gamma_polynomial(double d) noexcept
 		{
-			const double d2	 = d * d;
-			const double d4	 = d2 * d2;
-			const double p01 = ccm::support::multiply_add(d, data::k_gamma_coeffs[1], data::k_gamma_coeffs[0]);
-			const double p23 = ccm::support::multiply_add(d, data::k_gamma_coeffs[3], data::k_gamma_coeffs[2]);
-			const double p45 = ccm::support::multiply_add(d, data::k_gamma_coeffs[5], data::k_gamma_coeffs[4]);
-			const double p67 = ccm::support::multiply_add(d, data::k_gamma_coeffs[7], data::k_gamma_coeffs[6]);
-			const double p03 = ccm::support::multiply_add(d2, p23, p01);
-			const double p47 = ccm::support::multiply_add(d2, p67, p45);
-			return ccm::support::multiply_add(d4, p47, p03);
+			double p = data::k_gamma_coeffs[data::k_gamma_coeff_count - 1];
+			for (int i = data::k_gamma_coeff_count - 2; i >= 0; --i) { p = ccm::support::multiply_add(p, d, data::k_gamma_coeffs[i]); }
+			return p;
 		}
 
 		constexpr double gamma_reduce(double xd, double &w_out) noexcept
@@ -144,25 +138,44 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(detail::is_integer(x)))
 		{
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (xbits.is_neg())
 			{
 				ccm::support::fenv::raise_except_if_required(FE_INVALID);
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::quiet_nan().get_val();
 			}
-			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
+			if (x <= 170.0) { return detail::positive_factorial(static_cast<std::int32_t>(x)); }
+		}
+
+		// Below this every non-integer result is under half of the smallest subnormal: the sign is all that is left of it.
+		if (CCM_UNLIKELY(x < -185.0))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			return (static_cast<std::int64_t>(ccm::floor(x)) & 1) != 0 ? -0.0 : 0.0;
+		}
+
+		// Far below zero, first step up by a fixed count, so that neither product of the recurrence overflows.
+		double lead	   = 1.0;
+		double reduced = x;
+		if (x < -128.0)
+		{
+			for (int j = 0; j < 64; ++j)
+			{
+				lead *= reduced;
+				reduced += 1.0;
+			}
 		}
 
 		double w{};
-		const double f		= detail::gamma_reduce(x, w);
-		const double result = f * w;
+		const double f		= detail::gamma_reduce(reduced, w);
+		const double result = f * w / lead;
 		if (CCM_UNLIKELY(fp_bits(result).is_inf()))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
 			ccm::support::fenv::set_errno_if_required(ERANGE);
 		}
-		else if (CCM_UNLIKELY(result == 0.0 && !xbits.is_neg())) { ccm::support::fenv::set_errno_if_required(ERANGE); }
+		else if (CCM_UNLIKELY(result == 0.0)) { ccm::support::fenv::set_errno_if_required(ERANGE); }
 		return result;
 	}
 } // namespace ccm::internal::impl
diff --git a/include/ccmath/math/misc/impl/gamma_float_impl.hpp b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
index aa8c631..8649b37 100644
--- a/include/ccmath/math/misc/impl/gamma_float_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
@@ -19,7 +19,6 @@
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/math/misc/impl/gamma_double_impl.hpp"
-#include "ccmath/math/nearest/floor.hpp"
 
 #include <cfenv>
 
@@ -53,7 +52,7 @@ namespace ccm::internal::impl
 			return fp_bits::inf(xbits.sign()).get_val();
 		}
 
-		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 34.8F))
+		if (CCM_UNLIKELY(!xbits.is_neg() && x > 0x1.18521ep+5F))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
 			ccm::support::fenv::set_errno_if_required(ERANGE);
@@ -62,15 +61,11 @@ namespace ccm::internal::impl
 
 		const double result = gamma_double_impl(static_cast<double>(x));
 
-		if (CCM_UNLIKELY(!xbits.is_neg() && ccm::support::fp::FPBits<double>(result).is_inf())) { return fp_bits::max_normal().get_val(); }
+		const auto narrowed = static_cast<float>(result);
 
-		if (CCM_UNLIKELY(xbits.is_neg() && result != 0.0 && fp_bits(static_cast<float>(result)).is_zero()))
-		{
-			ccm::support::fenv::set_errno_if_required(ERANGE);
-			const bool odd = static_cast<std::int32_t>(ccm::floor(static_cast<double>(x))) & 1;
-			return odd ? -0.0F : 0.0F;
-		}
+		// The result of the double kernel may be out of the range of float.
+		if (CCM_UNLIKELY(fp_bits(narrowed).is_inf() || (result != 0.0 && fp_bits(narrowed).is_zero()))) { ccm::support::fenv::set_errno_if_required(ERANGE); }
 
-		return static_cast<float>(result);
+		return narrowed;
 	}
 } // namespace ccm::internal::impl
-- 
2.43.0


From 6d3cffabaab5026963a08aaf8fd533cff2bad9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 14/87] fix: lgamma Stirling coefficients, reflection next to
 the poles, and pole and infinity error reporting

---
 .../math/misc/impl/lgamma_double_impl.hpp     | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 8f95c2a..377c895 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -41,7 +41,12 @@ namespace ccm::internal::impl
 		{
 			const double inv_x	= 1.0 / x;
 			const double inv_x2 = inv_x * inv_x;
-			const double corr	= inv_x * (0x1.5555555555555p-3 + inv_x2 * (-0x1.6c16c16c16c17p-7 + inv_x2 * 0x1.00a01a01a01a1p-7));
+			const double corr	= inv_x * (1.0 / 12.0 +
+								   inv_x2 * (-1.0 / 360.0 +
+											 inv_x2 * (1.0 / 1260.0 +
+													   inv_x2 * (-1.0 / 1680.0 +
+																 inv_x2 * (1.0 / 1188.0 +
+																		   inv_x2 * (-691.0 / 360360.0 + inv_x2 * (1.0 / 156.0 - inv_x2 * (3617.0 / 122400.0))))))));
 			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
 		}
 
@@ -77,15 +82,7 @@ namespace ccm::internal::impl
 			return x;
 		}
 
-		if (CCM_UNLIKELY(xbits.is_inf()))
-		{
-			if (xbits.is_neg())
-			{
-				ccm::support::fenv::raise_except_if_required(FE_INVALID);
-				ccm::support::fenv::set_errno_if_required(EDOM);
-			}
-			return fp_bits::inf().get_val();
-		}
+		if (CCM_UNLIKELY(xbits.is_inf())) { return fp_bits::inf().get_val(); }
 
 		if (CCM_UNLIKELY(xbits.is_zero()))
 		{
@@ -98,12 +95,11 @@ namespace ccm::internal::impl
 		{
 			if (x <= 0.0)
 			{
-				ccm::support::fenv::raise_except_if_required(FE_INVALID);
-				ccm::support::fenv::set_errno_if_required(EDOM);
+				ccm::support::fenv::raise_except_if_required(FE_DIVBYZERO);
+				ccm::support::fenv::set_errno_if_required(ERANGE);
 				return fp_bits::inf().get_val();
 			}
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
-			if (k <= 170) { return lgamma_detail::positive_lfactorial(k); }
+			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(x)); }
 		}
 
 		if (CCM_UNLIKELY(ccm::fabs(x) <= 0x1p-53)) { return -lgamma_detail::log_abs(x); }
@@ -112,7 +108,10 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(x < 0.0))
 		{
-			return ccm::log(ccm::numbers::pi_v<double>) - lgamma_detail::log_abs(x) - lgamma_detail::log_abs(ccm::sin(ccm::numbers::pi_v<double> * x)) -
+			// |sin(pi * x)| only depends on the distance of x from the nearest integer, which is exact.
+			const double frac = x - ccm::floor(x);
+			const double dist = frac > 0.5 ? ccm::floor(x) + 1.0 - x : frac;
+			return ccm::log(ccm::numbers::pi_v<double>) - lgamma_detail::log_abs(x) - lgamma_detail::log_abs(ccm::sin(ccm::numbers::pi_v<double> * dist)) -
 				   lgamma_double_impl(-x);
 		}
 
-- 
2.43.0


From 018024cb429021a02deb1a14353be26d623f47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 15/87] fix: set_errno_if_required is usable in constant
 expressions

---
 include/ccmath/internal/support/fenv/fenv_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fenv/fenv_support.hpp b/include/ccmath/internal/support/fenv/fenv_support.hpp
index 6f77cec..dc921ee 100644
--- a/include/ccmath/internal/support/fenv/fenv_support.hpp
+++ b/include/ccmath/internal/support/fenv/fenv_support.hpp
@@ -174,7 +174,7 @@ namespace ccm::support::fenv
 		return 0;
 	}
 
-	inline void set_errno_if_required(const int err)
+	constexpr void set_errno_if_required(const int err)
 	{
 		if (is_constant_evaluated()) { return; }
 		if constexpr (!is_errno_enabled()) { return; }
-- 
2.43.0


From 6ae91cfc338460525b9798e37a84bb974557d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 16/87] fix: 80-bit long double fma across a fraction carry and
 for an underflowing product plus zero

---
 include/ccmath/internal/support/fp/fma.hpp     |  4 +++-
 include/ccmath/internal/types/dyadic_float.hpp | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index 429a3d8..7bdbaf4 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -510,7 +510,9 @@ namespace ccm::support::fp
 				return FPBits::quiet_nan().get_val();
 			}
 
-			if (CCM_UNLIKELY(x == T(0) || y == T(0) || z == T(0))) { return x * y + z; }
+			if (CCM_UNLIKELY(x == T(0) || y == T(0))) { return x * y + z; }
+			// The product of nonzero factors may underflow to a zero, whose sign adding z could lose.
+			if (CCM_UNLIKELY(z == T(0))) { return x * y; }
 
 			int x_exp = 0;
 			int y_exp = 0;
diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 7ceb24a..27b93dd 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -307,6 +307,16 @@ namespace ccm::types
 			default: break;
 			}
 
+			if constexpr (support::fp::get_fp_type<T>() == support::fp::FPType::eBinary80)
+			{
+				// A carry out of the fraction moves the exponent on but not the explicit integer bit, and a carry into
+				// the integer bit of a subnormal makes it the smallest normal.
+				FPBits out(result);
+				if (out.get_biased_exponent() != 0) { out.set_implicit_bit(true); }
+				else if (out.get_implicit_bit()) { out.set_biased_exponent(1); }
+				result = out.uintval();
+			}
+
 			if constexpr (ShouldSignalExceptions)
 			{
 				if (round || sticky)
-- 
2.43.0


From 4e9032fe74b705a8ce12a0ac2112c23429259d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 17/87] fix: nextafter and nexttoward for 80-bit long double,
 integer and mixed arguments

---
 .../internal/math/generic/func/fmanip/nextafter_gen.hpp   | 8 ++++++++
 include/ccmath/math/fmanip/nextafter.hpp                  | 7 ++++++-
 include/ccmath/math/fmanip/nexttoward.hpp                 | 2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
index de439ba..f76fcb3 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
@@ -17,11 +17,19 @@
 
 namespace ccm::gen
 {
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+	constexpr long double nextafter(long double from, long double to);
+#endif
+
 	template <class TFrom,
 			  class TTo,
 			  std::enable_if_t<std::is_floating_point_v<TFrom> && std::is_floating_point_v<TTo> && (sizeof(TFrom) <= sizeof(TTo)), bool> = true>
 	[[nodiscard]] constexpr TFrom nextafter_gen(TFrom from, TTo to) noexcept
 	{
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		// The explicit integer bit of this format rules out stepping the representation as one integer.
+		if constexpr (std::is_same_v<TFrom, long double>) { return gen::nextafter(from, to); }
+#endif
 
 		ccm::support::fp::FPBits<TFrom> from_bits(from);
 		if (from_bits.is_nan()) { return from; }
diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 85f0f45..66151af 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -49,7 +49,12 @@ namespace ccm
 	 */
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto nextafter(Arithmetic1 from, Arithmetic2 to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{
+		using promoted1 = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2 = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using common	= std::common_type_t<promoted1, promoted2>;
+		return ccm::nextafter<common>(static_cast<common>(from), static_cast<common>(to));
+	}
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 42f54cc..5c5e89a 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -48,7 +48,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double nexttoward(Integer from, long double to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{ return ccm::nexttoward<double>(static_cast<double>(from), to); }
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From 3683a05f1fd0478c7c60d8e1509910bfef28df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 18/87] fix: scalbn for long double in constant evaluation: one
 rounding, no early overflow

---
 .../math/fmanip/impl/scalbn_ldouble_impl.hpp  | 49 ++++++++++---------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
index 2a9105b..8d9b0a0 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
@@ -23,6 +23,21 @@ namespace ccm::internal
 {
 	namespace impl
 	{
+#if (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384
+		// 2^exp for an exponent whose power of two is a normal number.
+		constexpr long double pow2_ldouble(int exp) noexcept
+		{
+			long double result = 1;
+			long double base   = exp < 0 ? 0.5L : 2.0L;
+			for (int n = exp < 0 ? -exp : exp; n > 0; n >>= 1)
+			{
+				if ((n & 1) != 0) { result *= base; }
+				if (n > 1) { base *= base; }
+			}
+			return result;
+		}
+#endif
+
 		constexpr long double scalbn_ldouble_impl(long double arg, int exp) noexcept
 		{
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024 // If long double is the same as double
@@ -40,32 +55,22 @@ namespace ccm::internal
 
 			if (ccm::isnan(arg)) { return std::numeric_limits<long double>::quiet_NaN(); }
 
-			long double mult(1);
-			if (exp > 0)
-			{
-				mult = std::numeric_limits<long double>::radix;
-				--exp;
-			}
-			else
+			// Going down, the steps leave enough for the last multiplication to be the only one whose result can be subnormal.
+			constexpr int up_step	= LDBL_MAX_EXP - 1;
+			constexpr int down_step = LDBL_MAX_EXP - 2 - LDBL_MANT_DIG;
+			for (int i = 0; i < 2 && exp > up_step; ++i)
 			{
-				++exp;
-				exp = -exp;
-				mult /= std::numeric_limits<long double>::radix;
+				arg *= pow2_ldouble(up_step);
+				exp -= up_step;
 			}
-
-			while (exp > 0)
+			for (int i = 0; i < 2 && exp < -(LDBL_MAX_EXP - 2); ++i)
 			{
-				if ((exp & 1) == 0)
-				{
-					mult *= mult;
-					exp >>= 1;
-				}
-				else
-				{
-					arg *= mult;
-					--exp;
-				}
+				arg *= pow2_ldouble(-down_step);
+				exp += down_step;
 			}
+			if (exp > up_step) { exp = up_step; }
+			if (exp < -(LDBL_MAX_EXP - 2)) { exp = -(LDBL_MAX_EXP - 2); }
+			arg *= pow2_ldouble(exp);
 			return arg;
 #else
 			// This should never be called, but since we are not using templates here can can not static_assert it.
-- 
2.43.0


From 426351ab89d5d3986dae582662c8de49fee26d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 19/87] fix: frexp, ilogb, logb and modf keep long double range
 and precision in constant evaluation

---
 .../ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp | 7 +------
 .../ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp | 7 +------
 .../ccmath/internal/math/generic/func/fmanip/logb_gen.hpp  | 7 +------
 include/ccmath/math/fmanip/modf.hpp                        | 7 +------
 4 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
index 4b3f971..480be01 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T frexp_gen(T x, int & exp)
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::frexp_impl(static_cast<double>(x), exp));
-		}
+		return ccm::internal::impl::frexp_impl(x, exp);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
index 8dcb4d1..590693e 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr int ilogb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::ilogb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::ilogb_impl(num); }
-		else
-		{
-			return ccm::internal::impl::ilogb_impl(static_cast<double>(num));
-		}
+		return ccm::internal::impl::ilogb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
index 5ec1541..f97fe69 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T logb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::logb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::logb_impl(num); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::logb_impl(static_cast<double>(num)));
-		}
+		return ccm::internal::impl::logb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/math/fmanip/modf.hpp b/include/ccmath/math/fmanip/modf.hpp
index bf3bcc0..85083b8 100644
--- a/include/ccmath/math/fmanip/modf.hpp
+++ b/include/ccmath/math/fmanip/modf.hpp
@@ -38,14 +38,9 @@ namespace ccm
 			*iptr			   = integer_part;
 			return fractional;
 		}
-		else if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
 		else
 		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
+			return internal::impl::modf_impl(x, iptr);
 		}
 	}
 
-- 
2.43.0


From 99b0da839fca8c8da2a1265df080f629b0c5839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 20/87] fix: float sin, cos and tan keep their accuracy without
 a fused multiply-add

---
 include/ccmath/math/trig/impl/sincos_float_impl.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_float_impl.hpp b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
index 562f13e..3a89999 100644
--- a/include/ccmath/math/trig/impl/sincos_float_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
@@ -37,9 +37,10 @@ namespace ccm::internal::impl
 			const float prod_hi = x * data::ONE_OVER_PI;
 			const float k		= support::fp::nearest_integer(prod_hi);
 
-			const float y_hi = support::multiply_add(k, data::MPI[0], x);
-			u				 = support::multiply_add(k, data::MPI[1], y_hi);
-			u				 = support::multiply_add(k, data::MPI[2], u);
+			// k * MPI[0] does not fit a float, so without a fused multiply-add the cancellation needs the range of double.
+			const auto kd	  = static_cast<double>(k);
+			const double y_hi = static_cast<double>(x) + kd * static_cast<double>(data::MPI[0]);
+			u				  = static_cast<float>(y_hi + kd * static_cast<double>(data::MPI[1]) + kd * static_cast<double>(data::MPI[2]));
 			return static_cast<unsigned>(static_cast<int>(k));
 		}
 
-- 
2.43.0


From 1c55d99ad11b720d7e18ef5f37c3836f27c80187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 21/87] fix: lgamma near the overflow threshold in directed
 rounding

---
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 377c895..3e8b07e 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -47,7 +47,8 @@ namespace ccm::internal::impl
 													   inv_x2 * (-1.0 / 1680.0 +
 																 inv_x2 * (1.0 / 1188.0 +
 																		   inv_x2 * (-691.0 / 360360.0 + inv_x2 * (1.0 / 156.0 - inv_x2 * (3617.0 / 122400.0))))))));
-			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
+			// (x - 0.5) * log(x) - x, factored so that an overflowing product is not reduced by x again.
+			return (x - 0.5) * (ccm::log(x) - 1.0) - 0.5 + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
 		}
 
 		constexpr double log_gamma_reduce(double xd) noexcept
-- 
2.43.0


From bc00d245ac1d0af8389faf6c1a4c35e9e5e8e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 22/87] fix: double sin and cos keep their accuracy next to
 multiples of pi/2

---
 include/ccmath/math/trig/impl/sincos_double_data.hpp |  9 +++++----
 include/ccmath/math/trig/impl/sincos_double_impl.hpp | 12 ++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_double_data.hpp b/include/ccmath/math/trig/impl/sincos_double_data.hpp
index 46da2cd..11e17cc 100644
--- a/include/ccmath/math/trig/impl/sincos_double_data.hpp
+++ b/include/ccmath/math/trig/impl/sincos_double_data.hpp
@@ -25,10 +25,11 @@ namespace ccm::internal::sincos_double_data
 		0.0, -0x1.87de2a6aea963p-2, -0x1.6a09e667f3bcdp-1, -0x1.d906bcf328d46p-1, -1.0, -0x1.d906bcf328d46p-1, -0x1.6a09e667f3bcdp-1, -0x1.87de2a6aea963p-2,
 	};
 
-	// Cody-Waite three-part -pi/8 for the small-range reduction. The high part has 31 significant
-	// bits so k * MPI[0] is exact for |k| < 2^22, which covers the small-range threshold (|x| < 2^20,
-	// |k| < 2^21.4); the lower parts carry pi/8 to ~115 bits total.
-	constexpr std::array<double, 3> MPI = { -0x1.921fb544p-2, -0x1.0b4611a8p-36, 0x1.d9cceba3f91f2p-68 };
+	// Cody-Waite four-part -pi/8 for the small-range reduction. The first three parts have at most 31
+	// significant bits so k * MPI[i] is exact for |k| < 2^22, which covers the small-range threshold
+	// (|x| < 2^20, |k| < 2^21.4); together the parts carry pi/8 to ~155 bits, so the reduced argument
+	// keeps full precision next to the multiples of pi/2.
+	constexpr std::array<double, 4> MPI = { -0x1.921fb544p-2, -0x1.0b4611a8p-36, 0x1.d9cceba4p-68, -0x1.b839a252049c1p-106 };
 
 	// 8/pi as a double.
 	constexpr double ONE_OVER_PI = 0x1.45f306dc9c883p+1;
diff --git a/include/ccmath/math/trig/impl/sincos_double_impl.hpp b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
index 661d38f..8a45fb4 100644
--- a/include/ccmath/math/trig/impl/sincos_double_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
@@ -37,9 +37,17 @@ namespace ccm::internal::impl
 			const double prod_hi = x * data::ONE_OVER_PI;
 			const double k		 = support::fp::nearest_integer(prod_hi);
 
+			// k * MPI[0..2] and x + k * MPI[0] are exact; the two sums below keep their rounding errors.
 			const double y_hi = support::multiply_add(k, data::MPI[0], x);
-			u				  = support::multiply_add(k, data::MPI[1], y_hi);
-			u				  = support::multiply_add(k, data::MPI[2], u);
+			const double p1	  = k * data::MPI[1];
+			const double s1	  = y_hi + p1;
+			const double b1	  = s1 - y_hi;
+			const double e1	  = (y_hi - (s1 - b1)) + (p1 - b1);
+			const double p2	  = k * data::MPI[2];
+			const double s2	  = s1 + p2;
+			const double b2	  = s2 - s1;
+			const double e2	  = (s1 - (s2 - b2)) + (p2 - b2);
+			u				  = s2 + (e1 + e2 + k * data::MPI[3]);
 			return static_cast<unsigned>(static_cast<int>(k));
 		}
 
-- 
2.43.0


From 0508c60529762e204a9aa62d71f2bea1dd852d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 23/87] fix: signed BigInt converts to wider signed integers

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f42f5a0..d30dcc9 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -833,7 +833,7 @@ namespace ccm::types
 			// sign-extend the result if the original value was negative.
 			if constexpr (Signed && (T_SIZE > Bits))
 			{
-				constexpr T MASK = (~T(0) << Bits);
+				constexpr T MASK = static_cast<T>(~support::traits::ccm_make_unsigned_t<T>(0) << Bits);
 				if (is_neg()) { lo |= MASK; }
 			}
 
-- 
2.43.0


From d10277bb8d71144a051694d216ef1c9e2562d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 24/87] fix: BigInt::mul returns the carry out of the product

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index d30dcc9..4423b32 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -377,7 +377,7 @@ namespace ccm::types
 				const word carry = mul_add_with_carry(acc, val, x);
 				val				 = acc.advance(carry);
 			}
-			return acc.carry();
+			return acc.sum();
 		}
 
 		/**
-- 
2.43.0


From df51fa2e6292b6dd7d5120c03d05050cc8d2922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 25/87] fix: BigInt sign extension from a smaller word type

---
 include/ccmath/internal/types/big_int.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 4423b32..37c94de 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -645,9 +645,12 @@ namespace ccm::types
 						}
 					}
 					const WordType extension_bits = should_sign_extend ? std::numeric_limits<WordType>::max() : std::numeric_limits<WordType>::min();
-					if ((i % WORD_SIZE_RATIO) != 0) { cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO)); }
-					val[i / WORD_SIZE_RATIO] = cur_word;
-					extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
+					if ((i % WORD_SIZE_RATIO) != 0)
+					{
+						cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO));
+						val[i / WORD_SIZE_RATIO] = cur_word;
+					}
+					extend((i + WORD_SIZE_RATIO - 1) / WORD_SIZE_RATIO, should_sign_extend);
 				}
 			}
 			else if constexpr (BigIntOther::WORD_SIZE == WORD_SIZE)
-- 
2.43.0


From e6a53e2f2467e89c20cfcc38e472c37d39d4f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 26/87] fix: BigInt rotation by a negative count for widths
 that are not a power of two

---
 include/ccmath/internal/types/big_int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 37c94de..faaa3ae 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1633,8 +1633,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotl(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotr<T>(value, -rotate); }
 		return (value << rotate) | (value >> (N - rotate));
@@ -1643,8 +1643,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotr(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotl<T>(value, -rotate); }
 		return (value >> rotate) | (value << (N - rotate));
-- 
2.43.0


From 8e9be4ce46e465df0364d7d66576a54fe93bc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:30 +0000
Subject: [PATCH 27/87] fix: first_trailing_one of zero and of all ones

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index faaa3ae..89433c8 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1705,7 +1705,7 @@ namespace ccm::support
 
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, int> first_trailing_one(T value)
-	{ return value == std::numeric_limits<T>::max() ? 0 : support::countr_zero(value) + 1; }
+	{ return value == std::numeric_limits<T>::min() ? 0 : support::countr_zero(value) + 1; }
 } // namespace ccm::support
 
 #if defined(_MSC_VER) && !defined(__clang__)
-- 
2.43.0


From 11ff3ecfc5927afce3b4076cb4b156142a5bd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:36 +0000
Subject: [PATCH 28/87] fix: power-of-two test accepts unsigned char

---
 include/ccmath/internal/support/bits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index 118969c..a7700b9 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -92,7 +92,9 @@ namespace ccm::support
 	}
 
 	template <class T,
-			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && !traits::is_char_v<T> && !std::is_same_v<T, bool>, bool> = true>
+			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && (!traits::is_char_v<T> || std::is_same_v<T, unsigned char>) &&
+								   !std::is_same_v<T, bool>,
+							   bool> = true>
 	constexpr bool has_single_bit(T x) noexcept
 	{ return x && !(x & (x - 1)); }
 
-- 
2.43.0


From 1e5766794349a5a05a7606f4deb3599c7c5b34d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 29/87] fix: ceil_div does not overflow on large operands

---
 include/ccmath/ext/ceil_div.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/ext/ceil_div.hpp b/include/ccmath/ext/ceil_div.hpp
index 3bb5c20..6db9101 100644
--- a/include/ccmath/ext/ceil_div.hpp
+++ b/include/ccmath/ext/ceil_div.hpp
@@ -26,7 +26,11 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>, bool> = true>
 	[[nodiscard]] constexpr T ceil_div(T value, T divisor) noexcept
-	{ return static_cast<T>((value + divisor - T(1)) / divisor); }
+	{
+		// The sum value + divisor - 1 could overflow, so round the truncated quotient up instead.
+		const bool round_up = (value % divisor != T(0)) && ((value > T(0)) == (divisor > T(0)));
+		return static_cast<T>(value / divisor + T(round_up));
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From d684915a528f793fe86ed2a79b65f5f4f11bac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 30/87] fix: repeat stays inside its interval

---
 include/ccmath/ext/repeat.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/ext/repeat.hpp b/include/ccmath/ext/repeat.hpp
index 7d69825..dba4ae9 100644
--- a/include/ccmath/ext/repeat.hpp
+++ b/include/ccmath/ext/repeat.hpp
@@ -10,7 +10,7 @@
 
 #pragma once
 
-#include "ccmath/math/nearest/floor.hpp"
+#include "ccmath/math/basic/fmod.hpp"
 
 #include <type_traits>
 
@@ -25,7 +25,14 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	[[nodiscard]] constexpr T repeat(T value, T length) noexcept
-	{ return value - (ccm::floor(value / length) * length); }
+	{
+		// The exact remainder: value - floor(value / length) * length may round out of the interval.
+		T remainder = ccm::fmod(value, length);
+		if (remainder != T(0) && ((remainder < T(0)) != (length < T(0)))) { remainder += length; }
+
+		// The sum of a tiny remainder and length may round to length, which is congruent to zero.
+		return (remainder == T(0) || remainder == length) ? T(0) : remainder;
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From 7a61c78f644995375965247c38bb2011f484477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 31/87] fix: fp_bits.hpp includes <cassert> for the assertions
 it uses

---
 include/ccmath/internal/support/fp/fp_bits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ccmath/internal/support/fp/fp_bits.hpp b/include/ccmath/internal/support/fp/fp_bits.hpp
index eb9278d..865c5b2 100644
--- a/include/ccmath/internal/support/fp/fp_bits.hpp
+++ b/include/ccmath/internal/support/fp/fp_bits.hpp
@@ -23,6 +23,7 @@
 #include "ccmath/internal/types/int128_types.hpp"
 #include "ccmath/internal/types/sign.hpp"
 
+#include <cassert>
 #include <cfloat>
 #include <climits>
 #include <cstdint>
-- 
2.43.0


From f72fb9c2387badfb89daba5fa650d9d4d2b5fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 32/87] fix: x87 next_toward_inf keeps the explicit leading bit
 at a binade boundary

---
 include/ccmath/internal/support/fp/fp_bits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fp_bits.hpp b/include/ccmath/internal/support/fp/fp_bits.hpp
index 865c5b2..4ac3414 100644
--- a/include/ccmath/internal/support/fp/fp_bits.hpp
+++ b/include/ccmath/internal/support/fp/fp_bits.hpp
@@ -547,7 +547,7 @@ namespace ccm::support::fp
 				{
 					if (exp_sig_bits() == max_normal().uintval()) { return inf(sign()); }
 					if (exp_sig_bits() == max_subnormal().uintval()) { return min_normal(sign()); }
-					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::zero())); }
+					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::msb())); }
 					return RetT(bits + static_cast<storage_type>(1));
 				}
 				return RetT(bits);
-- 
2.43.0


From 48499ff41825872cc0c33646332c375d4f7f8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 33/87] fix: DyadicFloat quick_add keeps the larger operand's
 exponent when the smaller one is shifted out

---
 include/ccmath/internal/types/dyadic_float.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 27b93dd..38c96d4 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -598,6 +598,8 @@ namespace ccm::types
 		if (CCM_UNLIKELY(b.mantissa.is_zero())) { return a; }
 
 		// Align exponents
+		// An operand that is shifted out completely loses its exponent, so the common one is kept here.
+		const int common_exponent = a.exponent > b.exponent ? a.exponent : b.exponent;
 		if (a.exponent > b.exponent) { b.shift_right(static_cast<unsigned>(a.exponent - b.exponent)); }
 		else if (b.exponent > a.exponent) { a.shift_right(static_cast<unsigned>(b.exponent - a.exponent)); }
 
@@ -607,7 +609,7 @@ namespace ccm::types
 		{
 			// Addition
 			result.sign		= a.sign;
-			result.exponent = a.exponent;
+			result.exponent = common_exponent;
 			result.mantissa = a.mantissa;
 			if (result.mantissa.add_overflow(b.mantissa))
 			{
@@ -624,13 +626,13 @@ namespace ccm::types
 		if (a.mantissa >= b.mantissa)
 		{
 			result.sign		= a.sign;
-			result.exponent = a.exponent;
+			result.exponent = common_exponent;
 			result.mantissa = a.mantissa - b.mantissa;
 		}
 		else
 		{
 			result.sign		= b.sign;
-			result.exponent = b.exponent;
+			result.exponent = common_exponent;
 			result.mantissa = b.mantissa - a.mantissa;
 		}
 
-- 
2.43.0


From b89be4fdd363b3fc1bffa347942e7a50c756e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 34/87] fix: rounding_direction rounds a value that is
 discarded completely in the directed modes

---
 include/ccmath/internal/types/dyadic_float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 38c96d4..a3e6d8e 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -66,8 +66,8 @@ namespace ccm::types
 			}
 			return -1;
 		case FE_TOWARDZERO: return -1;
-		case FE_DOWNWARD: return logical_sign.is_neg() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
-		case FE_UPWARD: return logical_sign.is_pos() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
+		case FE_DOWNWARD: return logical_sign.is_neg() ? +1 : -1; // something non-zero is discarded
+		case FE_UPWARD: return logical_sign.is_pos() ? +1 : -1;
 		default: support::unreachable();
 		}
 	}
-- 
2.43.0


From 6857c55a9ddc679d9aa9e8eede14b1f06fb4ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 35/87] fix: DyadicFloat::as_mantissa_type of a value below one

---
 include/ccmath/internal/types/dyadic_float.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index a3e6d8e..1fc9ea8 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -524,7 +524,11 @@ namespace ccm::types
 			else
 			{
 				const std::size_t shift = static_cast<std::size_t>(-static_cast<std::int64_t>(exponent));
-				new_mant >>= shift;
+				if (shift >= Bits) { new_mant = 0; }
+				else
+				{
+					new_mant >>= shift;
+				}
 			}
 
 			if (sign.is_neg()) { new_mant = (~new_mant) + 1; }
-- 
2.43.0


From e882ffe83103a6d60aad759f0506e57abc63818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 36/87] fix: DyadicFloat<64> converts to 80-bit long double
 without inventing rounding bits

---
 include/ccmath/internal/types/dyadic_float.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 1fc9ea8..37c8848 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -281,10 +281,13 @@ namespace ccm::types
 					out_biased_exp = static_cast<StorageType>(unbiased_exp + FPBits::exponent_bias);
 				}
 
-				const mantissa_type round_mask	= mantissa_type(1) << static_cast<std::size_t>(extra_fraction_len - 1);
-				round							= (mantissa & round_mask) != 0;
-				const mantissa_type sticky_mask = round_mask - 1;
-				sticky							= (mantissa & sticky_mask) != 0;
+				if (extra_fraction_len > 0)
+				{
+					const mantissa_type round_mask	= mantissa_type(1) << static_cast<std::size_t>(extra_fraction_len - 1);
+					round							= (mantissa & round_mask) != 0;
+					const mantissa_type sticky_mask = round_mask - 1;
+					sticky							= (mantissa & sticky_mask) != 0;
+				}
 
 				out_mantissa = static_cast<StorageType>(mantissa >> static_cast<std::size_t>(extra_fraction_len));
 			}
@@ -417,7 +420,7 @@ namespace ccm::types
 						 .get_val();
 
 			mantissa_type round_mask  = (shift - 1) >= mantissa_type::BITS ? mantissa_type(0) : mantissa_type(1) << (shift - 1);
-			mantissa_type sticky_mask = round_mask - mantissa_type(1);
+			mantissa_type sticky_mask = shift == 0 ? mantissa_type(0) : round_mask - mantissa_type(1);
 
 			const bool round_bit  = !(mantissa & round_mask).is_zero();
 			const bool sticky_bit = !(mantissa & sticky_mask).is_zero();
-- 
2.43.0


From 331785917e76e1ca7734b7695c95755d6eebd8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 37/87] fix: DyadicFloat::as with exception signalling compiles

---
 include/ccmath/internal/types/dyadic_float.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 37c8848..ff45c26 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -394,7 +394,10 @@ namespace ccm::types
 				//		also raise FE_OVERFLOW and set ERANGE is debatable.
 				// TODO: Check what MSVC does for this case to match them when compiling with MSVC.
 				// This behavior matches Clang.
-				if constexpr (ShouldSignalExceptions && support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
+				if constexpr (ShouldSignalExceptions)
+				{
+					if (support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
+				}
 
 				return r;
 			}
@@ -466,10 +469,13 @@ namespace ccm::types
 					// "tininess" before or after rounding for base-2 formats, as long as
 					// the same choice is made for all operations.
 					// Our choice to check after rounding might not be the same as the hardware's.
-					if constexpr (ShouldSignalExceptions && round_and_sticky)
+					if constexpr (ShouldSignalExceptions)
 					{
-						support::fenv::set_errno_if_required(ERANGE);
-						support::fenv::raise_except_if_required(FE_UNDERFLOW);
+						if (round_and_sticky != 0)
+						{
+							support::fenv::set_errno_if_required(ERANGE);
+							support::fenv::raise_except_if_required(FE_UNDERFLOW);
+						}
 					}
 				}
 
-- 
2.43.0


From 187a9be0945f682d884d879e2bb82211a801a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 38/87] fix: rounding_direction breaks ties to even when a
 single bit is discarded

---
 include/ccmath/internal/types/dyadic_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index ff45c26..a2543b2 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -62,7 +62,7 @@ namespace ccm::types
 			if (rshift > 0 && rshift <= Bits && value.get_bit(rshift - 1))
 			{
 				const bool round_bit = rshift < Bits ? value.get_bit(rshift) : false;
-				return round_bit || (value << (Bits - rshift + 1)) != 0 ? +1 : -1;
+				return round_bit || (rshift > 1 && (value << (Bits - rshift + 1)) != 0) ? +1 : -1;
 			}
 			return -1;
 		case FE_TOWARDZERO: return -1;
-- 
2.43.0


From b8d3bfbb6813aaecbe3004bcf189539460633386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 39/87] fix: min of mixed types returns the common type

---
 include/ccmath/math/basic/min.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 0a337d8..cc6b369 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -54,7 +54,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename T, typename U>
-	constexpr T min(const T x, const U y) noexcept
+	constexpr auto min(const T x, const U y) noexcept
 	{
 		// Find the common type of the two arguments
 		using shared_type = std::common_type_t<T, U>;
@@ -87,8 +87,8 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmin(const T x, const U y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<T, U>;
+		// Integral arguments count as double.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(min<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
@@ -103,8 +103,8 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
-	constexpr Integer fmin(const Integer x, const Integer y) noexcept
-	{ return min<Integer>(x, y); }
+	constexpr double fmin(const Integer x, const Integer y) noexcept
+	{ return min<double>(static_cast<double>(x), static_cast<double>(y)); }
 } // namespace ccm
 
 /// @ingroup basic
-- 
2.43.0


From 34fbffef8c562b7d2f2bb42860b50c736773216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 40/87] fix: fmax accepts two integers of one type and mixed
 fmax promotes integers to double

---
 include/ccmath/math/basic/max.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index fbf9c72..7adde7c 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -72,7 +72,7 @@ namespace ccm
 	 * @return If successful, returns the larger of two floating point values. The value returned is exact and does not depend on any rounding modes.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmax
 	 */
-	template <typename T>
+	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T fmax(T x, T y) noexcept
 	{ return max<T>(x, y); }
 
@@ -88,8 +88,8 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmax(T x, U y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<T, U>;
+		// Integral arguments count as double.
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(max<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
-- 
2.43.0


From 8835896b39bfdc9cbd210301daefb8601052097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 41/87] fix: three-argument hypot accepts integers

---
 include/ccmath/math/power/hypot.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 0342205..ece7fb4 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -79,7 +79,11 @@ namespace ccm
 			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && std::is_arithmetic_v<Arithmetic3>, bool> = true>
 	constexpr auto hypot(Arithmetic1 x, Arithmetic2 y, Arithmetic3 z) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
+		// Integral arguments count as double.
+		using promoted1	  = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2	  = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using promoted3	  = std::conditional_t<std::is_integral_v<Arithmetic3>, double, Arithmetic3>;
+		using shared_type = std::common_type_t<promoted1, promoted2, promoted3>;
 		return ccm::hypot(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
-- 
2.43.0


From 78dfc5cd73c4434e9420e12783819a806c104b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 42/87] fix: remquo of two integers does not recurse for ever

---
 include/ccmath/math/basic/remquo.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index d9bbb32..ba34efe 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -87,9 +87,12 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	template <class Arithmetic1, class Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
-	constexpr std::common_type_t<Arithmetic1, Arithmetic2> remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
+	constexpr auto remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integral arguments count as double.
+		using promoted1	  = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2	  = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using shared_type = std::common_type_t<promoted1, promoted2>;
 		return ccm::remquo<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), quo);
 	}
 
-- 
2.43.0


From c69787f66ac43afac472a6aea623111b6592b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 43/87] fix: fma of mixed integer types is not ambiguous

---
 include/ccmath/internal/math/common/basic/fma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/common/basic/fma.hpp b/include/ccmath/internal/math/common/basic/fma.hpp
index d5a97f6..8657c76 100644
--- a/include/ccmath/internal/math/common/basic/fma.hpp
+++ b/include/ccmath/internal/math/common/basic/fma.hpp
@@ -45,7 +45,7 @@ namespace ccm
 	 * @return If successful, returns the value of x * y + z as if calculated to infinite precision and rounded once to fit the result type (or, alternatively,
 	 * calculated as a single ternary floating-point operation).
 	 */
-	template <typename T, typename U, typename V>
+	template <typename T, typename U, typename V, std::enable_if_t<!(std::is_integral_v<T> && std::is_integral_v<U> && std::is_integral_v<V>), bool> = true>
 	constexpr auto fma(T x, U y, V z) noexcept
 	{
 		constexpr auto TCommon = std::numeric_limits<T>::epsilon() > 0 ? std::numeric_limits<T>::epsilon() : 1;
-- 
2.43.0


From eece8075a5986bb16d3c3cb7d3c64369469ac5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 44/87] fix: abs of an unsigned value above INT_MAX is that
 value

---
 include/ccmath/math/basic/fabs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/fabs.hpp b/include/ccmath/math/basic/fabs.hpp
index 2e50401..f20d412 100644
--- a/include/ccmath/math/basic/fabs.hpp
+++ b/include/ccmath/math/basic/fabs.hpp
@@ -60,7 +60,7 @@ namespace ccm
 		// if X cannot be converted to int by integral promotion, the program is ill-formed.
 		// See: http://eel.is/c++draft/c.math.abs#3
 		// See: ISO/IEC 9899:2018, 7.12.7.2, 7.22.6.1
-		if constexpr (std::is_convertible_v<T, int>) { return ccm::abs<int>(static_cast<int>(num)); }
+		if constexpr (std::is_convertible_v<T, int>) { return num; }
 		else
 		{
 			static_assert(sizeof(T) == 0, "Taking the absolute value of an unsigned type that cannot be converted to int by integral promotion is ill-formed.");
-- 
2.43.0


From 9d05185c4ef805b7fa44d6d88a2387d546f332b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 45/87] fix: isgreater and the other comparisons of two
 integers do not recurse for ever

---
 include/ccmath/math/compare/isgreater.hpp      | 6 ++++--
 include/ccmath/math/compare/isgreaterequal.hpp | 6 ++++--
 include/ccmath/math/compare/isless.hpp         | 6 ++++--
 include/ccmath/math/compare/islessequal.hpp    | 6 ++++--
 include/ccmath/math/compare/islessgreater.hpp  | 5 ++++-
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/ccmath/math/compare/isgreater.hpp b/include/ccmath/math/compare/isgreater.hpp
index 6daf632..75e7b27 100644
--- a/include/ccmath/math/compare/isgreater.hpp
+++ b/include/ccmath/math/compare/isgreater.hpp
@@ -45,8 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, where integral arguments count as double
+		using promoted1	  = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2	  = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using shared_type = std::common_type_t<promoted1, promoted2>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/isgreaterequal.hpp b/include/ccmath/math/compare/isgreaterequal.hpp
index c2d8a3c..787924b 100644
--- a/include/ccmath/math/compare/isgreaterequal.hpp
+++ b/include/ccmath/math/compare/isgreaterequal.hpp
@@ -45,8 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreaterequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, where integral arguments count as double
+		using promoted1	  = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2	  = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using shared_type = std::common_type_t<promoted1, promoted2>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/isless.hpp b/include/ccmath/math/compare/isless.hpp
index 91972a5..e8eef80 100644
--- a/include/ccmath/math/compare/isless.hpp
+++ b/include/ccmath/math/compare/isless.hpp
@@ -45,8 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isless(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, where integral arguments count as double
+		using promoted1	  = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2	  = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using shared_type = std::common_type_t<promoted1, promoted2>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/islessequal.hpp b/include/ccmath/math/compare/islessequal.hpp
index fe2df04..e98b405 100644
--- a/include/ccmath/math/compare/islessequal.hpp
+++ b/include/ccmath/math/compare/islessequal.hpp
@@ -45,8 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, where integral arguments count as double
+		using promoted1	  = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2	  = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using shared_type = std::common_type_t<promoted1, promoted2>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/compare/islessgreater.hpp b/include/ccmath/math/compare/islessgreater.hpp
index 97b092b..b5a93da 100644
--- a/include/ccmath/math/compare/islessgreater.hpp
+++ b/include/ccmath/math/compare/islessgreater.hpp
@@ -45,7 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integral arguments count as double.
+		using promoted1	  = std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>;
+		using promoted2	  = std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>;
+		using shared_type = std::common_type_t<promoted1, promoted2>;
 		return static_cast<shared_type>(islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
 	}
 } // namespace ccm
-- 
2.43.0


From 0be042fd58120d620858664d50e70321438ac9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 46/87] fix: pow of long double rounds to whole integers in
 constant evaluation

---
 .../math/generic/func/power/pow_impl/powl_ld80_kernel.hpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 0ee6cce..b498004 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -85,7 +85,8 @@ namespace ccm::gen::internal::impl::bit80
 
 			if (constexpr long double max_exact_int = 0x1.0p63L; x < max_exact_int && x > -max_exact_int)
 			{
-				constexpr long double round_offset = 0x1.0p62L;
+				// 2^63 is where the spacing of a 64-bit significand becomes one.
+				constexpr long double round_offset = 0x1.0p63L;
 				return x < 0.0L ? (x - round_offset) + round_offset : (x + round_offset) - round_offset;
 			}
 			return x;
-- 
2.43.0


From 3e2f75809b53db19d9331562a063c2cc301ff02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 47/87] fix: pow of long double takes the general path for
 integer exponents in constant evaluation

---
 .../internal/math/generic/func/power/powl_gen.hpp   | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 45d6e3e..6e2efee 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -285,19 +285,6 @@ namespace ccm::gen
 
 					if (ccm::isnan(base) || ccm::isnan(exp)) { return std::numeric_limits<long double>::quiet_NaN(); }
 
-					if (support::is_constant_evaluated() && base > 0.0L && !ccm::isinf(base))
-					{
-						const long double rounded_exp = static_cast<long double>(static_cast<std::int64_t>(exp));
-						if (exp == rounded_exp)
-						{
-							const std::int64_t int_exp = static_cast<std::int64_t>(exp);
-							if (int_exp >= -powl_bits::kBoundedExponentMax && int_exp <= powl_bits::kBoundedExponentMax)
-							{
-								return powl_bounded_integer(base, int_exp);
-							}
-						}
-					}
-
 					const PowlFPBits_t base_bits(base);
 					const PowlFPBits_t exp_bits(exp);
 
-- 
2.43.0


From 922de56537aa62b634331f2156d61d00580ee2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 48/87] fix: pow of long double carries log2 in two limbs and
 keeps the sign of a saturated result

---
 .../func/power/pow_impl/powl_ld80_kernel.hpp  | 68 +++++++++++++------
 .../math/generic/func/power/powl_gen.hpp      |  4 +-
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index b498004..0830b67 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -23,6 +23,7 @@
 	#include "ccmath/internal/support/poly_eval.hpp"
 	#include "ccmath/internal/types/number_pair.hpp"
 
+	#include <array>
 	#include <cfloat>
 	#include <cstdint>
 	#include <limits>
@@ -94,8 +95,20 @@ namespace ccm::gen::internal::impl::bit80
 
 		inline constexpr long double kScaleStep = 512.0L * 64.0L;
 
-		constexpr long double powl_ld80_general_finite(long double base, long double exp) noexcept
+		// log2(e) as a pair.
+		inline constexpr long double kLog2EHi = 0xb8aa3b295c17f0bcp-63L;
+		inline constexpr long double kLog2ELo = -0x82f0025f2dc582eep-128L;
+
+		// (ln(1 + x) - x + x^2/2) / x^3, which is good to 2^-64 for |x| <= 2^-7.
+		inline constexpr std::array<long double, 10> kLnCoeffs = {
+			1.0L / 3.0L, -1.0L / 4.0L, 1.0L / 5.0L, -1.0L / 6.0L, 1.0L / 7.0L, -1.0L / 8.0L, 1.0L / 9.0L, -1.0L / 10.0L, 1.0L / 11.0L, -1.0L / 12.0L,
+		};
+
+		// negative asks for -(base^exp). The sign takes part in the final scaling because a directed mode
+		// rounds a negative result the other way.
+		constexpr long double powl_ld80_general_finite(long double base, long double exp, bool negative) noexcept
 		{
+			const types::Sign result_sign = negative ? types::Sign::NEG : types::Sign::POS;
 			FPBits_t base_bits(base);
 			int exponent_adjust = 0;
 
@@ -117,26 +130,37 @@ namespace ccm::gen::internal::impl::bit80
 			const long double m_x = FPBits_t::create_value(types::Sign::POS, FPBits_t::exponent_bias, m_sig | FPBits_t::EXPLICIT_BIT_MASK).get_val();
 
 			long double dx = 0.0L;
-			LongDoublePair dx_c0{ 0.0L, 0.0L };
 
 			const typename FPBits_t::storage_type frac_mask_high =
 				FPBits_t::fraction_mask & ~((static_cast<typename FPBits_t::storage_type>(1) << (FPBits_t::fraction_length - 7)) - 1);
 			const typename FPBits_t::storage_type c_sig = (FPBits_t(m_x).get_mantissa() & frac_mask_high) | FPBits_t::EXPLICIT_BIT_MASK;
 			const long double c							= FPBits_t::create_value(types::Sign::POS, FPBits_t::exponent_bias, c_sig).get_val();
 			dx	  = support::multiply_add(tables::RD.at(static_cast<std::size_t>(idx_x)), m_x - c, tables::CD.at(static_cast<std::size_t>(idx_x)));
-			dx_c0 = exact_mult(tables::POW_LOG2_COEFFS[0], dx);
 
-			const long double dx2 = dx * dx;
-			const long double c0  = support::multiply_add(dx, tables::POW_LOG2_COEFFS[2], tables::POW_LOG2_COEFFS[1]);
-			const long double c1  = support::multiply_add(dx, tables::POW_LOG2_COEFFS[4], tables::POW_LOG2_COEFFS[3]);
-			const long double c2  = support::multiply_add(dx, tables::POW_LOG2_COEFFS[6], tables::POW_LOG2_COEFFS[5]);
-			const long double p	  = support::polyeval(dx2, c0, c1, c2, tables::POW_LOG2_COEFFS[7]);
+			// log2(1 + dx) = log2(e) * (dx - dx^2/2 + dx^3 * q(dx)) as a pair. The logarithm is multiplied
+			// by exp, which lets up to 14 of its low bits reach the result, so 64 bits are not enough here.
+			const LongDoublePair dx2 = exact_mult(dx, dx);
+			const long double q		 = support::polyeval(dx,
+														 kLnCoeffs[0],
+														 kLnCoeffs[1],
+														 kLnCoeffs[2],
+														 kLnCoeffs[3],
+														 kLnCoeffs[4],
+														 kLnCoeffs[5],
+														 kLnCoeffs[6],
+														 kLnCoeffs[7],
+														 kLnCoeffs[8],
+														 kLnCoeffs[9]);
+			LongDoublePair ln		 = exact_add(dx, -0.5L * dx2.hi);
+			ln.lo += support::multiply_add(dx * dx2.hi, q, -0.5L * dx2.lo);
+			LongDoublePair dx_log2 = exact_mult(ln.hi, kLog2EHi);
+			dx_log2.lo += support::multiply_add(ln.lo, kLog2EHi, ln.hi * kLog2ELo);
 
 			const long double log2_r_hi	 = tables::LOG2_R_HI.at(static_cast<std::size_t>(idx_x));
 			const long double log2_r_mid = tables::LOG2_R_MID.at(static_cast<std::size_t>(idx_x));
 			const long double log2_r_lo	 = tables::LOG2_R_LO.at(static_cast<std::size_t>(idx_x));
-			LongDoublePair log2_x_hi	 = exact_add(static_cast<long double>(e_x) + log2_r_hi, dx_c0.hi);
-			const long double log2_x_lo	 = support::multiply_add(dx2, p, dx_c0.lo + log2_r_mid);
+			LongDoublePair log2_x_hi	 = exact_add(static_cast<long double>(e_x) + log2_r_hi, dx_log2.hi);
+			const long double log2_x_lo	 = dx_log2.lo + log2_r_mid;
 
 			LongDoublePair log2_x = exact_add(log2_x_hi.hi, log2_x_lo);
 			log2_x.lo += log2_x_hi.lo + log2_r_lo;
@@ -193,8 +217,8 @@ namespace ccm::gen::internal::impl::bit80
 			// inf/zero here would be wrong under directed rounding (the binary64 kernel lets
 			// result * scale round naturally for the same reason). The magnitude is far past
 			// the representable range, so the exact factors do not matter.
-			// The result here is positive (the caller applies the sign) and far outside the
-			// representable range. Saturate by scaling a positive unit past the range so the
+			// The result here is far outside the
+			// representable range. Saturate by scaling a signed unit past the range so the
 			// hardware conversion rounds in the active mode: round to nearest and rounding toward
 			// the result sign give inf/zero, the opposing directed modes give max_normal and
 			// min_subnormal. A hard inf/zero would be wrong under directed rounding, mirroring how
@@ -208,16 +232,16 @@ namespace ccm::gen::internal::impl::bit80
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_OVERFLOW);
-				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(1.0L, kOverflowShift); }
-				return FPBits_t::inf(types::Sign::POS).get_val();
+				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(negative ? -1.0L : 1.0L, kOverflowShift); }
+				return FPBits_t::inf(result_sign).get_val();
 			}
 
 			if (forced_underflow)
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_UNDERFLOW);
-				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(1.0L, kUnderflowShift); }
-				return FPBits_t::zero(types::Sign::POS).get_val();
+				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(negative ? -1.0L : 1.0L, kUnderflowShift); }
+				return FPBits_t::zero(result_sign).get_val();
 			}
 
 			// Extract the integer part from the high limb only: hm is near y6_log2_x.hi, so
@@ -256,10 +280,10 @@ namespace ccm::gen::internal::impl::bit80
 			result = support::multiply_add(exp2_hm_lo * lo6, pp, result);
 			result += exp2_hm_hi;
 
-			long double final = result;
+			long double final = negative ? -result : result;
 			if (scale_exp512 != 0) { final = support::helpers::internal_ldexp(final, scale_exp512); }
 			FPBits_t final_bits(final);
-			if (final_bits.sign().is_neg())
+			if (!negative && final_bits.sign().is_neg())
 			{
 				if (final_bits.is_inf())
 				{
@@ -278,7 +302,7 @@ namespace ccm::gen::internal::impl::bit80
 					final = final_bits.abs().get_val();
 				}
 			}
-			else if (scale_exp512 > 0 && final_bits.is_inf() && final_bits.is_pos())
+			else if (scale_exp512 > 0 && final_bits.is_inf())
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_OVERFLOW);
@@ -287,7 +311,7 @@ namespace ccm::gen::internal::impl::bit80
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_UNDERFLOW);
-				final = 0.0L;
+				final = negative ? -0.0L : 0.0L;
 			}
 
 			return final;
@@ -295,8 +319,8 @@ namespace ccm::gen::internal::impl::bit80
 
 	} // namespace powl_ld80_detail
 
-	constexpr long double powl_ld80_general_finite(long double base, long double exp) noexcept
-	{ return powl_ld80_detail::powl_ld80_general_finite(base, exp); }
+	constexpr long double powl_ld80_general_finite(long double base, long double exp, bool negative = false) noexcept
+	{ return powl_ld80_detail::powl_ld80_general_finite(base, exp, negative); }
 
 } // namespace ccm::gen::internal::impl::bit80
 
diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 6e2efee..413bfd6 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -365,9 +365,7 @@ namespace ccm::gen
 					const long double exp_abs = exp_abs_bits.abs().get_val();
 					if (exp_abs > kPowlHugeExponentThreshold) { working_exp = exp_abs_bits.is_neg() ? -0x1.0p100L : 0x1.0p100L; }
 
-					long double result = bit80::powl_ld80_general_finite(working_base, working_exp);
-					if (result_is_neg && result != 0.0L && !ccm::isinf(result) && !ccm::isnan(result)) { result = -result; }
-					return result;
+					return bit80::powl_ld80_general_finite(working_base, working_exp, result_is_neg);
 				}
 			} // namespace bit80
 #endif
-- 
2.43.0


From 347743eb0fb9d421759be55d165dbfa6c617a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 49/87] fix: integer powers of long double do not trust a
 saturated intermediate

---
 .../internal/math/generic/func/power/powl_gen.hpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 413bfd6..dc83149 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -212,7 +212,8 @@ namespace ccm::gen
 					const long double hi = a.hi * b.hi;
 					// Once the product overflows (or contaminates with NaN) the exact-mult split would
 					// produce inf - inf = NaN, so propagate a clean infinity instead.
-					if (ccm::isinf(hi) || ccm::isnan(hi)) { return Pair{ hi, 0.0L }; }
+					// Rounding toward zero saturates at the largest finite value instead.
+					if (abs_ld(hi) >= LDBL_MAX || ccm::isnan(hi)) { return Pair{ hi, 0.0L }; }
 					if (abs_ld(a.hi) >= kSplitSafe || abs_ld(b.hi) >= kSplitSafe) { return Pair{ hi, 0.0L }; }
 					Pair p = bit80::powl_ld80_detail::exact_mult(a.hi, b.hi);
 					p.lo += a.hi * b.lo + a.lo * b.hi;
@@ -238,8 +239,8 @@ namespace ccm::gen
 				{
 					const long double r0 = 1.0L / p.hi;
 					if (r0 == 0.0L || ccm::isinf(r0) || ccm::isnan(r0)) { return r0; }
-					// p.hi near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
-					if (abs_ld(p.hi) >= kSplitSafe) { return r0; }
+					// p.hi or r0 near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
+					if (abs_ld(p.hi) >= kSplitSafe || abs_ld(r0) >= kSplitSafe) { return r0; }
 					const Pair pr		  = bit80::powl_ld80_detail::exact_mult(p.hi, r0);
 					const long double res = ((1.0L - pr.hi) - pr.lo) - p.lo * r0;
 					return r0 + r0 * res;
@@ -354,7 +355,9 @@ namespace ccm::gen
 						// An overflowing or underflowing intermediate (e.g. max^-3 squares max first)
 						// cannot saturate per rounding mode, so defer such cases to the general kernel,
 						// which over/underflows through internal_ldexp and is correct in every mode.
-						if (const PowlFPBits_t r_bits(result); r_bits.is_finite() && !r_bits.is_zero() && !r_bits.is_subnormal())
+						// A negative exponent takes the reciprocal, whose operand has to be a normal value as well.
+						const long double trusted_below = int_exp < 0 ? 1.0L / LDBL_MIN : LDBL_MAX;
+						if (const PowlFPBits_t r_bits(result); r_bits.is_finite() && !r_bits.is_zero() && !r_bits.is_subnormal() && result < trusted_below)
 						{
 							if (result_is_neg) { result = -result; }
 							return result;
-- 
2.43.0


From 478d3e9e36efe2d0bd666dbfa8390cb766a7bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 50/87] fix: log, log2 and log10 scale a long double outside
 the range of double

---
 .../internal/math/generic/func/expo/log10_gen.hpp     | 11 ++++++++++-
 .../internal/math/generic/func/expo/log2_gen.hpp      | 11 ++++++++++-
 .../internal/math/generic/func/expo/log_gen.hpp       | 11 ++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/expo/log10_gen.hpp b/include/ccmath/internal/math/generic/func/expo/log10_gen.hpp
index 3938956..8b7dab3 100644
--- a/include/ccmath/internal/math/generic/func/expo/log10_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/expo/log10_gen.hpp
@@ -12,6 +12,7 @@
 
 #include "ccmath/math/expo/impl/log10_impl.hpp"
 
+#include <limits>
 #include <type_traits>
 
 namespace ccm::gen
@@ -23,7 +24,15 @@ namespace ccm::gen
 		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::log10_double(num); }
 		else
 		{
-			return static_cast<T>(ccm::internal::log10_double(static_cast<double>(num)));
+			// The double kernel covers double's range only, so powers of two are taken off anything outside it.
+			constexpr T max_double = static_cast<T>(std::numeric_limits<double>::max());
+			constexpr T min_double = static_cast<T>(std::numeric_limits<double>::min());
+			T extra				   = 0;
+			for (; num > max_double && num < std::numeric_limits<T>::infinity(); extra += 1000) { num *= static_cast<T>(0x1p-1000); }
+			for (; num < min_double && num > 0; extra -= 1000) { num *= static_cast<T>(0x1p1000); }
+
+			const T result = static_cast<T>(ccm::internal::log10_double(static_cast<double>(num)));
+			return extra == 0 ? result : result + extra * static_cast<T>(0.301029995663981195213738894724493027L);
 		}
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/expo/log2_gen.hpp b/include/ccmath/internal/math/generic/func/expo/log2_gen.hpp
index c0ca456..047645e 100644
--- a/include/ccmath/internal/math/generic/func/expo/log2_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/expo/log2_gen.hpp
@@ -13,6 +13,7 @@
 #include "ccmath/math/expo/impl/log2_double_impl.hpp"
 #include "ccmath/math/expo/impl/log2_float_impl.hpp"
 
+#include <limits>
 #include <type_traits>
 
 namespace ccm::gen
@@ -24,7 +25,15 @@ namespace ccm::gen
 		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::log2_double(num); }
 		else
 		{
-			return static_cast<T>(ccm::internal::log2_double(static_cast<double>(num)));
+			// The double kernel covers double's range only, so powers of two are taken off anything outside it.
+			constexpr T max_double = static_cast<T>(std::numeric_limits<double>::max());
+			constexpr T min_double = static_cast<T>(std::numeric_limits<double>::min());
+			T extra				   = 0;
+			for (; num > max_double && num < std::numeric_limits<T>::infinity(); extra += 1000) { num *= static_cast<T>(0x1p-1000); }
+			for (; num < min_double && num > 0; extra -= 1000) { num *= static_cast<T>(0x1p1000); }
+
+			const T result = static_cast<T>(ccm::internal::log2_double(static_cast<double>(num)));
+			return extra == 0 ? result : result + extra;
 		}
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/expo/log_gen.hpp b/include/ccmath/internal/math/generic/func/expo/log_gen.hpp
index aa902b3..7e8e2b4 100644
--- a/include/ccmath/internal/math/generic/func/expo/log_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/expo/log_gen.hpp
@@ -13,6 +13,7 @@
 #include "ccmath/math/expo/impl/log_double_impl.hpp"
 #include "ccmath/math/expo/impl/log_float_impl.hpp"
 
+#include <limits>
 #include <type_traits>
 
 namespace ccm::gen
@@ -24,7 +25,15 @@ namespace ccm::gen
 		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::log_double(num); }
 		else
 		{
-			return static_cast<T>(ccm::internal::log_double(static_cast<double>(num)));
+			// The double kernel covers double's range only, so powers of two are taken off anything outside it.
+			constexpr T max_double = static_cast<T>(std::numeric_limits<double>::max());
+			constexpr T min_double = static_cast<T>(std::numeric_limits<double>::min());
+			T extra				   = 0;
+			for (; num > max_double && num < std::numeric_limits<T>::infinity(); extra += 1000) { num *= static_cast<T>(0x1p-1000); }
+			for (; num < min_double && num > 0; extra -= 1000) { num *= static_cast<T>(0x1p1000); }
+
+			const T result = static_cast<T>(ccm::internal::log_double(static_cast<double>(num)));
+			return extra == 0 ? result : result + extra * static_cast<T>(0.693147180559945309417232121458176568L);
 		}
 	}
 } // namespace ccm::gen
-- 
2.43.0


From 8fed6641b5bbf8b99e332149acd470a6073172db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 51/87] fix: max and min of infinities and NaNs are constant
 expressions

---
 include/ccmath/math/basic/max.hpp | 5 +++--
 include/ccmath/math/basic/min.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index 7adde7c..4e75d9e 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -33,10 +33,11 @@ namespace ccm
 	template <typename T>
 	constexpr T max(T x, T y) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_fmax<T>) { return ccm::builtin::fmax_ct(x, y); }
-		else if constexpr (std::is_floating_point_v<T>)
+		if constexpr (std::is_floating_point_v<T>)
 		{
+			// GCC does not fold the builtin for infinities and NaNs, so it is no use in a constant expression.
 			if (ccm::support::is_constant_evaluated()) { return ccm::gen::max(x, y); }
+			if constexpr (ccm::builtin::has_constexpr_fmax<T>) { return ccm::builtin::fmax_ct(x, y); }
 			return ccm::rt::fmax_rt(x, y);
 		}
 		else
diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index cc6b369..27a987d 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -32,10 +32,11 @@ namespace ccm
 	template <typename T>
 	constexpr T min(const T x, const T y) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_fmin<T>) { return ccm::builtin::fmin_ct(x, y); }
-		else if constexpr (std::is_floating_point_v<T>)
+		if constexpr (std::is_floating_point_v<T>)
 		{
+			// GCC does not fold the builtin for infinities and NaNs, so it is no use in a constant expression.
 			if (ccm::support::is_constant_evaluated()) { return ccm::gen::min(x, y); }
+			if constexpr (ccm::builtin::has_constexpr_fmin<T>) { return ccm::builtin::fmin_ct(x, y); }
 			return ccm::rt::fmin_rt(x, y);
 		}
 		else
-- 
2.43.0


From ff5254dd4143dde9d3fad6435c2d9ec98eb6dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 52/87] fix: nextup and nextdown with subnormal or infinite
 results are constant expressions

---
 include/ccmath/math/fmanip/nextafter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 66151af..5d3e952 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -30,8 +30,9 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T nextafter(T from, T to) noexcept
 	{
+		// GCC does not fold the builtin when the result is subnormal or infinite, so it is no use in a constant expression.
+		if (ccm::support::is_constant_evaluated()) { return gen::nextafter_gen(from, to); }
 		if constexpr (ccm::builtin::has_constexpr_nextafter<T>) { return ccm::builtin::nextafter_ct(from, to); }
-		else if (ccm::support::is_constant_evaluated()) { return gen::nextafter_gen(from, to); }
 		else
 		{
 			return ccm::rt::nextafter_rt(from, to);
-- 
2.43.0


From 74eee1ee4bc0333047572e007a6981f1297f456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 53/87] fix: fdim of infinities and NaNs is a constant
 expression

---
 .../math/generic/func/basic/fdim_gen.hpp      | 32 ++++++++++---------
 include/ccmath/math/basic/fdim.hpp            |  2 +-
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index c0267ef..cb9e9f0 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -31,23 +31,25 @@ namespace ccm::gen
 	template <typename T>
 	constexpr auto fdim(T x, T y) -> std::enable_if_t<std::is_floating_point_v<T>, T>
 	{
-		if constexpr (builtin::has_constexpr_fdim<T>) { return builtin::fdim_ct(x, y); }
-		else
+		if constexpr (builtin::has_constexpr_fdim<T>)
 		{
-			using FPBits_t = typename ccm::support::fp::FPBits<T>;
-			const FPBits_t x_bits(x);
-			const FPBits_t y_bits(y);
+			// GCC does not fold the builtin for infinities and NaNs, so it is no use in a constant expression.
+			if (!ccm::support::is_constant_evaluated()) { return builtin::fdim_ct(x, y); }
+		}
+
+		using FPBits_t = typename ccm::support::fp::FPBits<T>;
+		const FPBits_t x_bits(x);
+		const FPBits_t y_bits(y);
 
-			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
-			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
-			if (x <= y) { return static_cast<T>(+0.0); }
-			if (ccm::support::is_constant_evaluated())
-			{
-				// An overflowing subtraction is not a constant expression everywhere, so detect it at half scale.
-				constexpr T half = static_cast<T>(0.5);
-				if (half * x - half * y > half * std::numeric_limits<T>::max()) { return std::numeric_limits<T>::infinity(); }
-			}
-			return x - y;
+		if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
+		if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
+		if (x <= y) { return static_cast<T>(+0.0); }
+		if (ccm::support::is_constant_evaluated())
+		{
+			// An overflowing subtraction is not a constant expression everywhere, so detect it at half scale.
+			constexpr T half = static_cast<T>(0.5);
+			if (half * x - half * y > half * std::numeric_limits<T>::max()) { return std::numeric_limits<T>::infinity(); }
 		}
+		return x - y;
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/math/basic/fdim.hpp b/include/ccmath/math/basic/fdim.hpp
index d0bcdb9..5640553 100644
--- a/include/ccmath/math/basic/fdim.hpp
+++ b/include/ccmath/math/basic/fdim.hpp
@@ -28,8 +28,8 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T fdim(T x, T y)
 	{
+		if (ccm::support::is_constant_evaluated()) { return func::fdim(x, y); }
 		if constexpr (ccm::builtin::has_constexpr_fdim<T>) { return ccm::builtin::fdim_ct(x, y); }
-		else if (ccm::support::is_constant_evaluated()) { return func::fdim(x, y); }
 		else
 		{
 			return ccm::rt::fdim_rt(x, y);
-- 
2.43.0


From 7aed674d5a81614e3a1228b148d3942d0cfcd3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 54/87] fix: ldexp and scalbn of infinities and with inexact
 results are constant expressions

---
 include/ccmath/math/fmanip/ldexp.hpp  |  5 +----
 include/ccmath/math/fmanip/scalbn.hpp | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/math/fmanip/ldexp.hpp b/include/ccmath/math/fmanip/ldexp.hpp
index 348b025..4709116 100644
--- a/include/ccmath/math/fmanip/ldexp.hpp
+++ b/include/ccmath/math/fmanip/ldexp.hpp
@@ -99,10 +99,7 @@ namespace ccm
 	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T ldexp(T num, int exp)
 	{
-		if constexpr (ccm::builtin::has_constexpr_ldexp<T>)
-		{
-			if (ccm::support::is_constant_evaluated()) { return builtin::ldexp_ct(num, exp); }
-		}
+		// GCC does not fold the builtin for infinities and inexact results, so it is no use in a constant expression.
 		if (!ccm::support::is_constant_evaluated()) { return ccm::rt::ldexp_rt(num, exp); }
 		return support::helpers::internal_ldexp(num, exp);
 	}
diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 83cc1aa..4d6a758 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -37,14 +37,20 @@ namespace ccm
 	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T scalbn(T num, int exp) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
-		else
+		if (!ccm::support::is_constant_evaluated())
 		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, exp); }
+			if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
+			else
+			{
+				return ccm::rt::scalbn_rt(num, exp);
+			}
+		}
 
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
+		// GCC does not fold the builtin for infinities and inexact results, so it is no use in a constant expression.
+		if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
+		else if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
+		else
+		{
 			return static_cast<T>(internal::scalbn_ldouble(num, exp));
 		}
 	}
-- 
2.43.0


From 7ac720e6dee56824f5bbe94fe8f4432e84cea652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 55/87] fix: exp of a float below the subnormals underflows to
 zero

---
 include/ccmath/math/expo/impl/exp_float_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_float_impl.hpp b/include/ccmath/math/expo/impl/exp_float_impl.hpp
index c0bffb0..02a8cfa 100644
--- a/include/ccmath/math/expo/impl/exp_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_float_impl.hpp
@@ -64,7 +64,7 @@ namespace ccm::internal::impl
 			// Handle underflow
 			if (x < -0x1.9fe368p6F) // x < log(0x1p-150) ~= -103.97
 			{
-				return 0x1.4p-75F * 0x1.4p-75F;
+				return 0x1p-95F * 0x1p-95F; // 0x1.4p-75F squared would round to the smallest subnormal
 			}
 		}
 
-- 
2.43.0


From 87d51fffa9d5f75e9d4e700abdc1eb55b7c7d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 56/87] fix: exp2 of a float just below the subnormals rounds

---
 include/ccmath/math/expo/impl/exp2_float_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/expo/impl/exp2_float_impl.hpp b/include/ccmath/math/expo/impl/exp2_float_impl.hpp
index 0ecbccc..589a21c 100644
--- a/include/ccmath/math/expo/impl/exp2_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp2_float_impl.hpp
@@ -96,8 +96,8 @@ namespace ccm::internal
 				// Handle underflow
 				if (x <= -150.0F) { return exp2_float_underflow_result(); }
 
-				// Handle errno underflow. We assume we want errno behavior for underflow.
-				if (x < -149.0F) { return exp2_float_underflow_result(); }
+				// Between -150 and -149 the result still rounds to the smallest subnormal, so only report the underflow.
+				if (x < -149.0F && !support::is_constant_evaluated()) { support::fenv::set_errno_if_required(ERANGE); }
 			}
 
 			// x = k/N + r with r in [-1/(2N), 1/(2N)] and int k.
-- 
2.43.0


From 3f0d7c38e0ead79b45af451aa76a8fff5d187382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 57/87] fix: sqrt of a long double keeps the carry of rounding
 up and honours the constexpr rounding mode

---
 .../ccmath/internal/math/generic/func/power/sqrt_gen.hpp   | 3 +++
 include/ccmath/math/power/sqrt.hpp                         | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
index b4a19c5..3ec06e2 100644
--- a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
@@ -153,6 +153,9 @@ namespace ccm::gen
 					default: break;
 					}
 
+					// Rounding up may have carried out of the significand.
+					if ((y & one) == 0) { ++x_exp; }
+
 					// Extract output
 					support::fp::FPBits<long double> out(0.0L);
 					out.set_biased_exponent(static_cast<storage_type>(x_exp));
diff --git a/include/ccmath/math/power/sqrt.hpp b/include/ccmath/math/power/sqrt.hpp
index 75a4aac..5fb0f1c 100644
--- a/include/ccmath/math/power/sqrt.hpp
+++ b/include/ccmath/math/power/sqrt.hpp
@@ -13,6 +13,7 @@
 #include "ccmath/internal/math/generic/builtins/power/sqrt.hpp"
 #include "ccmath/internal/math/generic/func/power/sqrt_gen.hpp"
 #include "ccmath/internal/math/runtime/func/power/sqrt_rt.hpp"
+#include "ccmath/internal/support/fenv/rounding_mode.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
 
 #include <type_traits>
@@ -30,7 +31,11 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T sqrt(T num)
 	{
-		if constexpr (ccm::builtin::has_constexpr_sqrt<T>) { return ccm::builtin::sqrt_ct(num); }
+		// The builtin folds to the nearest value, whatever CCM_CONSTEXPR_ROUNDING_MODE says.
+		if constexpr (ccm::builtin::has_constexpr_sqrt<T> && ccm::support::fenv::constant_eval_rounding_mode() == FE_TONEAREST)
+		{
+			return ccm::builtin::sqrt_ct(num);
+		}
 		else
 		{
 			if (ccm::support::is_constant_evaluated()) { return ccm::gen::sqrt_gen<T>(num); }
-- 
2.43.0


From 2190ac0efb56aa35e6d9ee4a6b91a8925d626bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 58/87] fix: fma of long double honours the constexpr rounding
 mode beside zeros

---
 include/ccmath/internal/support/fp/fma.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index 7bdbaf4..92f0254 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -510,9 +510,18 @@ namespace ccm::support::fp
 				return FPBits::quiet_nan().get_val();
 			}
 
-			if (CCM_UNLIKELY(x == T(0) || y == T(0))) { return x * y + z; }
-			// The product of nonzero factors may underflow to a zero, whose sign adding z could lose.
-			if (CCM_UNLIKELY(z == T(0))) { return x * y; }
+			if (CCM_UNLIKELY(x == T(0) || y == T(0)))
+			{
+				// A sum of zeros of opposite sign takes its sign from the rounding mode, which a constexpr policy may set.
+				const bool opposite_zeros = z == T(0) && (x_bits.sign() == y_bits.sign()) != z_bits.is_pos();
+				if (opposite_zeros && x_bits.is_finite() && y_bits.is_finite())
+				{
+					return FPBits::zero(fenv::get_rounding_mode() == FE_DOWNWARD ? Sign::NEG : Sign::POS).get_val();
+				}
+				return x * y + z;
+			}
+			// Adding a zero to the product of nonzero factors leaves the product, whose sign survives underflow.
+			const bool z_is_zero = z == T(0);
 
 			int x_exp = 0;
 			int y_exp = 0;
@@ -567,12 +576,12 @@ namespace ccm::support::fp
 			bool sticky_bits = false;
 			bool z_shifted	 = false;
 
-			if (prod_lsb_exp < z_lsb_exp)
+			if (!z_is_zero && prod_lsb_exp < z_lsb_exp)
 			{
 				sticky_bits	 = shift_right_with_sticky(z_lsb_exp - prod_lsb_exp, prod_mant);
 				prod_lsb_exp = z_lsb_exp;
 			}
-			else if (z_lsb_exp < prod_lsb_exp)
+			else if (!z_is_zero && z_lsb_exp < prod_lsb_exp)
 			{
 				z_shifted	= true;
 				sticky_bits = shift_right_with_sticky(prod_lsb_exp - z_lsb_exp, z_mant);
-- 
2.43.0


From d3e69bcebb5eda868ca19840602b50b1fb3b3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 59/87] fix: hypot of three combines the two largest first

---
 include/ccmath/math/power/hypot.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index ece7fb4..8db6784 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -14,6 +14,7 @@
 #include "ccmath/internal/math/generic/func/power/hypot_gen.hpp"
 #include "ccmath/internal/math/runtime/func/power/hypot_rt.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
+#include "ccmath/math/basic/fabs.hpp"
 #include "ccmath/math/compare/isinf.hpp"
 #include "ccmath/math/compare/isnan.hpp"
 
@@ -50,6 +51,20 @@ namespace ccm
 			// An infinite argument wins even beside a NaN, and a NaN wins over an overflowing pair.
 			if (ccm::isinf(x) || ccm::isinf(y) || ccm::isinf(z)) { return std::numeric_limits<T>::infinity(); }
 			if (ccm::isnan(x) || ccm::isnan(y) || ccm::isnan(z)) { return std::numeric_limits<T>::quiet_NaN(); }
+			// The smallest magnitude comes last. A subnormal intermediate below a larger z would be refused in
+			// constant evaluation although the result is normal.
+			if (ccm::fabs(x) < ccm::fabs(z))
+			{
+				const T t = x;
+				x		  = z;
+				z		  = t;
+			}
+			if (ccm::fabs(y) < ccm::fabs(z))
+			{
+				const T t = y;
+				y		  = z;
+				z		  = t;
+			}
 			return ccm::hypot(ccm::hypot(x, y), z);
 		}
 	} // namespace internal::impl
-- 
2.43.0


From 9dd46e4df10c9eb877e03d3da4af09f5590f0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 60/87] fix: left shift of negative 128-bit integers is defined

---
 include/ccmath/internal/types/big_int.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 89433c8..120e45f 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -491,7 +491,8 @@ namespace ccm::types
 			{
 				using type = std::conditional_t<is_signed, __int128_t, __uint128_t>;
 				auto tmp   = ccm::support::bit_cast<type>(array);
-				if constexpr (direction == Direction::eLEFT) { tmp <<= offset; }
+				// A left shift of a negative value is undefined.
+				if constexpr (direction == Direction::eLEFT) { tmp = static_cast<type>(static_cast<__uint128_t>(tmp) << offset); }
 				else
 				{
 					tmp >>= offset;
-- 
2.43.0


From e91432be839a17b8712373d9074b4e36c4e7cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 61/87] fix: log2 of doubles includes the warning macros it
 uses

---
 include/ccmath/math/expo/impl/log2_double_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ccmath/math/expo/impl/log2_double_impl.hpp b/include/ccmath/math/expo/impl/log2_double_impl.hpp
index beaa79c..e8dbe14 100644
--- a/include/ccmath/math/expo/impl/log2_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/log2_double_impl.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/bits.hpp"
 #include "ccmath/internal/types/fp_types.hpp"
-- 
2.43.0


From d6aa0aea05c497665237f6e372125c3dca7cc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 62/87] fix: the SIMD wrappers include the integer headers they
 use

---
 include/ccmath/internal/math/runtime/simd/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ccmath/internal/math/runtime/simd/common.hpp b/include/ccmath/internal/math/runtime/simd/common.hpp
index bf627b2..249d956 100644
--- a/include/ccmath/internal/math/runtime/simd/common.hpp
+++ b/include/ccmath/internal/math/runtime/simd/common.hpp
@@ -13,6 +13,8 @@
 #include "ccmath/internal/predef/attributes/gpu_host_device.hpp"
 
 #include <array>
+#include <cstddef>
+#include <cstdint>
 
 namespace ccm::intrin
 {
-- 
2.43.0


From da27301825597420e9a534549f145efc67d6b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 63/87] fix: AVX2 pow includes the scalar pow it calls

---
 .../ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
index c2cfca1..3a98cbb 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
@@ -10,7 +10,8 @@
 
 #pragma once
 
-#include "ccmath/internal/math/generic/func/power/sqrt_gen.hpp"
+#include "ccmath/internal/math/generic/func/power/pow_gen.hpp"
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
-- 
2.43.0


From 8f0e7549ba2348897514b9c083a3e3605703edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 64/87] fix: assigning one SIMD lane reference to another
 copies the value

---
 include/ccmath/internal/math/runtime/pp/reference.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ccmath/internal/math/runtime/pp/reference.hpp b/include/ccmath/internal/math/runtime/pp/reference.hpp
index 4236fdf..4ed0234 100644
--- a/include/ccmath/internal/math/runtime/pp/reference.hpp
+++ b/include/ccmath/internal/math/runtime/pp/reference.hpp
@@ -39,5 +39,12 @@ namespace ccm::pp::detail
 			Traits::set(*data_, index_, value);
 			return *this;
 		}
+
+		// Assigning one lane to another copies the value; it does not rebind the proxy.
+		CCM_ALWAYS_INLINE SimdReference &operator=(SimdReference const &other)
+		{
+			Traits::set(*data_, index_, Traits::get(*other.data_, other.index_));
+			return *this;
+		}
 	};
 } // namespace ccm::pp::detail
-- 
2.43.0


From a978d890aa1beca0212f3036e9ad836cba294660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 65/87] fix: where-division does not divide unselected lanes

---
 include/ccmath/internal/math/runtime/pp/where.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/runtime/pp/where.hpp b/include/ccmath/internal/math/runtime/pp/where.hpp
index 01660b9..7f41758 100644
--- a/include/ccmath/internal/math/runtime/pp/where.hpp
+++ b/include/ccmath/internal/math/runtime/pp/where.hpp
@@ -45,7 +45,8 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE void operator+=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ + rhs, *data_); }
 		CCM_ALWAYS_INLINE void operator-=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ - rhs, *data_); }
 		CCM_ALWAYS_INLINE void operator*=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ * rhs, *data_); }
-		CCM_ALWAYS_INLINE void operator/=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ / rhs, *data_); }
+		// The unselected lanes are divided by one, as their own divisor may be zero.
+		CCM_ALWAYS_INLINE void operator/=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ / simd_select(mask_, rhs, SimdType(value_type(1))), *data_); }
 
 		// Masked load: read only the selected lanes from memory, leave the rest.
 		template <typename Flags = simd_flags<>>
-- 
2.43.0


From 416a019b94696cfd3c8d84c5f2a966c52cbb127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 66/87] fix: a SIMD sum of negative zeros is negative zero

---
 include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp | 4 ++--
 include/ccmath/internal/math/runtime/pp/vec_ext.hpp     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp b/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp
index a166d81..6df55c0 100644
--- a/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp
+++ b/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp
@@ -702,8 +702,8 @@ namespace ccm::pp
 		{
 			float a[8];
 			_mm256_storeu_ps(a, v);
-			float s = 0;
-			for (int i = 0; i < 8; ++i) { s += a[i]; }
+			float s = a[0];
+			for (int i = 1; i < 8; ++i) { s += a[i]; }
 			return s;
 		}
 		CCM_ALWAYS_INLINE static float hmin(SimdMember v)
diff --git a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
index d9f93eb..cc2d2f8 100644
--- a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
+++ b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
@@ -284,8 +284,8 @@ namespace ccm::pp
 			else
 	#endif
 			{
-				T s = T(0);
-				detail::unroll<N>([&](auto i) { s = static_cast<T>(s + v[i]); });
+				T s = v[0];
+				detail::unroll<N - 1>([&](auto i) { s = static_cast<T>(s + v[i + 1]); });
 				return s;
 			}
 		}
@@ -509,8 +509,8 @@ namespace ccm::pp
 
 		CCM_ALWAYS_INLINE static T hadd(SimdMember v)
 		{
-			T s = T(0);
-			detail::unroll<N>([&](auto i) { s = static_cast<T>(s + v[i]); });
+			T s = v[0];
+			detail::unroll<N - 1>([&](auto i) { s = static_cast<T>(s + v[i + 1]); });
 			return s;
 		}
 		CCM_ALWAYS_INLINE static T hmin(SimdMember v)
-- 
2.43.0


From b70824f32b736b2f00ea585a07e31779ab16aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 67/87] fix: SIMD masks of the array fallback work beside
 intrinsic specializations

---
 .../internal/math/runtime/pp/vec_ext.hpp      | 53 +++++++++++++++----
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
index cc2d2f8..2890f23 100644
--- a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
+++ b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
@@ -317,13 +317,30 @@ namespace ccm::pp
 		{ return reinterpret_cast<MaskMember>(c); }
 	};
 #else // CCM_PP_HAS_VECTOR_EXT == 0 : portable array fallback
+	namespace detail
+	{
+		// A mask belongs to every element type of its width, so it is stored the way
+		// the mask integer's own traits store it: those may be an intrinsic
+		// specialization even where the element type uses this fallback.
+		template <typename T, SimdSizeType N, typename MaskInt = mask_integer_from<sizeof(T)>>
+		struct array_mask
+		{
+			using type = typename SimdTraits<MaskInt, VecAbi<N>>::MaskMember;
+		};
+		template <typename T, SimdSizeType N>
+		struct array_mask<T, N, T>
+		{
+			using type = std::array<T, static_cast<std::size_t>(N)>;
+		};
+	} // namespace detail
+
 	template <typename T, detail::SimdSizeType N>
 	struct SimdTraits<T, VecAbi<N>>
 	{
 		using value_type						   = T;
 		using MaskInt							   = detail::mask_integer_from<sizeof(T)>;
 		using SimdMember						   = std::array<T, static_cast<std::size_t>(N)>;
-		using MaskMember						   = std::array<MaskInt, static_cast<std::size_t>(N)>;
+		using MaskMember						   = typename detail::array_mask<T, N>::type;
 		static constexpr detail::SimdSizeType size = N;
 		static constexpr std::size_t simd_align	   = alignof(SimdMember);
 		static constexpr std::size_t mask_align	   = alignof(MaskMember);
@@ -367,7 +384,7 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE static MaskMember NAME(SimdMember a, SimdMember b)                                                                                   \
 		{                                                                                                                                                      \
 			MaskMember r;                                                                                                                                      \
-			detail::unroll<N>([&](auto i) { r[i] = (a[i] OP b[i]) ? static_cast<MaskInt>(-1) : MaskInt{ 0 }; });                                               \
+			detail::unroll<N>([&](auto i) { mset(r, i, a[i] OP b[i]); });                                                                                        \
 			return r;                                                                                                                                          \
 		}
 		CCM_PP_ARRAY_CMP(eq, ==)
@@ -385,8 +402,22 @@ namespace ccm::pp
 			detail::unroll<N>([&](auto i) { r[i] = v; });
 			return r;
 		}
-		CCM_ALWAYS_INLINE static bool mget(MaskMember const & m, detail::SimdSizeType i) { return m[i] != 0; }
-		CCM_ALWAYS_INLINE static void mset(MaskMember & m, detail::SimdSizeType i, bool b) { m[i] = b ? static_cast<MaskInt>(-1) : MaskInt{ 0 }; }
+		CCM_ALWAYS_INLINE static bool mget(MaskMember const & m, detail::SimdSizeType i)
+		{
+			if constexpr (std::is_same<T, MaskInt>::value) { return m[i] != 0; }
+			else
+			{
+				return SimdTraits<MaskInt, VecAbi<N>>::mget(m, i);
+			}
+		}
+		CCM_ALWAYS_INLINE static void mset(MaskMember & m, detail::SimdSizeType i, bool b)
+		{
+			if constexpr (std::is_same<T, MaskInt>::value) { m[i] = b ? static_cast<MaskInt>(-1) : MaskInt{ 0 }; }
+			else
+			{
+				SimdTraits<MaskInt, VecAbi<N>>::mset(m, i, b);
+			}
+		}
 		CCM_ALWAYS_INLINE static MaskMember mand(MaskMember a, MaskMember b)
 		{
 			MaskMember r;
@@ -434,7 +465,7 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE static SimdMember select(MaskMember m, SimdMember a, SimdMember b)
 		{
 			SimdMember r;
-			detail::unroll<N>([&](auto i) { r[i] = (m[i] != 0) ? a[i] : b[i]; });
+			detail::unroll<N>([&](auto i) { r[i] = mget(m, i) ? a[i] : b[i]; });
 			return r;
 		}
 
@@ -460,17 +491,17 @@ namespace ccm::pp
 		}
 
 		template <typename U>
-		CCM_ALWAYS_INLINE static std::array<U, static_cast<std::size_t>(N)> convert(SimdMember v)
+		CCM_ALWAYS_INLINE static typename SimdTraits<U, VecAbi<N>>::SimdMember convert(SimdMember v)
 		{
-			std::array<U, static_cast<std::size_t>(N)> r;
-			detail::unroll<N>([&](auto i) { r[i] = static_cast<U>(v[i]); });
+			typename SimdTraits<U, VecAbi<N>>::SimdMember r;
+			detail::unroll<N>([&](auto i) { SimdTraits<U, VecAbi<N>>::set(r, i, static_cast<U>(v[i])); });
 			return r;
 		}
 		template <typename U>
-		CCM_ALWAYS_INLINE static std::array<U, static_cast<std::size_t>(N)> bitcast(SimdMember v)
+		CCM_ALWAYS_INLINE static typename SimdTraits<U, VecAbi<N>>::SimdMember bitcast(SimdMember v)
 		{
-			std::array<U, static_cast<std::size_t>(N)> r;
-			std::memcpy(r.data(), v.data(), sizeof(r));
+			typename SimdTraits<U, VecAbi<N>>::SimdMember r;
+			std::memcpy(&r, v.data(), sizeof(r));
 			return r;
 		}
 
-- 
2.43.0


From e41d4d30bbe9ce26fb6152de447bbb2655c53e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 68/87] fix: vector pow raises no spurious flags for large or
 NaN exponents

---
 .../math/generic/func/power/pow_impl/pow_simd_impl.hpp      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
index 61327ef..25e9753 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
@@ -164,8 +164,10 @@ namespace ccm::gen::impl
 			// zero exponent, base one, non-finite operands, zero, negative, or subnormal
 			// bases, integer and half-integer exponents (the exact ipow / sqrt paths), and
 			// huge exponents that take the clamped over/underflow route.
-			const DVec two_y	   = y * DVec(2.0);
-			const auto is_half_int = (sd::v_nearest_integer(two_y) == two_y) & (pp::abs(two_y) <= DVec(2048.0));
+			// Exponents beyond 1024 (NaN included) are replaced before the half-integer test, which
+			// would otherwise raise spurious invalid and overflow flags for them.
+			const DVec two_y	   = pp::simd_select(y_abs <= U64(0x4090'0000'0000'0000ULL), y, DVec(0.375)) * DVec(2.0);
+			const auto is_half_int = sd::v_nearest_integer(two_y) == two_y;
 
 			auto special = (y_abs == U64(0)) | (xu == U64(0x3ff0'0000'0000'0000ULL)) | (x_abs >= U64(0x7ff0'0000'0000'0000ULL)) |
 						   (y_abs >= U64(0x7ff0'0000'0000'0000ULL)) | (x_abs == U64(0)) | ((xu & U64(0x8000'0000'0000'0000ULL)) != U64(0)) |
-- 
2.43.0


From 2f2ebc8f4838632abef44d42f1c9f4eef3c6888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 69/87] fix: SIMD wrapper pow and scalar maps compute every
 lane

---
 .../math/runtime/simd/func/impl/avx2/pow.hpp  |  4 ++--
 .../math/runtime/simd/func/impl/neon/pow.hpp  |  5 +++--
 .../runtime/simd/func/impl/scalar/map.hpp     | 20 +++++++++++++++++--
 .../math/runtime/simd/func/impl/sse2/pow.hpp  |  5 +++--
 .../math/runtime/simd/func/impl/sse4/pow.hpp  |  5 +++--
 5 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
index 3a98cbb..57a5969 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
@@ -24,7 +24,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return simd<float, abi::avx2>(_mm256_pow_ps(a.get(), b.get()));
 		#else
-		return simd<float, abi::avx2>(gen::pow_gen(a.convert(), b.convert()));
+		return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); });
 		#endif
 	}
 
@@ -33,7 +33,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return simd<double, abi::avx2>(_mm256_pow_pd(a.get(), b.get()));
 		#else
-		return simd<double, abi::avx2>(gen::pow_gen(a.convert(), b.convert()));
+		return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); });
 		#endif
 	}
 
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp
index bbee0f4..424b332 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/func/power/pow_gen.hpp"
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
@@ -18,10 +19,10 @@
 namespace ccm::intrin
 {
 	CCM_ALWAYS_INLINE simd<float, abi::neon> pow(simd<float, abi::neon> const & a, simd<float, abi::neon> const & b)
-	{ return simd<float, abi::neon>(gen::pow_gen(a.convert(), b.convert())); }
+	{ return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); }); }
 
 	CCM_ALWAYS_INLINE simd<double, abi::neon> pow(simd<double, abi::neon> const & a, simd<double, abi::neon> const & b)
-	{ return simd<double, abi::neon>(gen::pow_gen(a.convert(), b.convert())); }
+	{ return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); }); }
 } // namespace ccm::intrin
 	#endif
 #endif
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp
index 48084b3..f805012 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp
@@ -12,13 +12,29 @@
 
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
+#include <array>
+#include <cstddef>
+
 namespace ccm::intrin
 {
 	template <class T, class Abi, typename Fn>
 	CCM_ALWAYS_INLINE simd<T, Abi> map_scalar(simd<T, Abi> const & input, Fn fn)
-	{ return simd<T, Abi>(fn(input.convert())); }
+	{
+		std::array<T, static_cast<std::size_t>(simd<T, Abi>::size())> lanes{};
+		input.copy_to(lanes.data(), element_aligned_tag());
+		for (T & lane : lanes) { lane = fn(lane); }
+		return simd<T, Abi>(lanes.data(), element_aligned_tag());
+	}
 
 	template <class T, class Abi, typename Fn>
 	CCM_ALWAYS_INLINE simd<T, Abi> map_scalar(simd<T, Abi> const & lhs, simd<T, Abi> const & rhs, Fn fn)
-	{ return simd<T, Abi>(fn(lhs.convert(), rhs.convert())); }
+	{
+		constexpr auto N = static_cast<std::size_t>(simd<T, Abi>::size());
+		std::array<T, N> left{};
+		std::array<T, N> right{};
+		lhs.copy_to(left.data(), element_aligned_tag());
+		rhs.copy_to(right.data(), element_aligned_tag());
+		for (std::size_t i = 0; i < N; ++i) { left[i] = fn(left[i], right[i]); }
+		return simd<T, Abi>(left.data(), element_aligned_tag());
+	}
 } // namespace ccm::intrin
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp
index e011322..442377c 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
@@ -32,7 +33,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_ps(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); });
 		#endif
 	}
 
@@ -43,7 +44,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_pd(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); });
 		#endif
 	}
 } // namespace ccm::intrin
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp
index 8ba53ca..02f73d6 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
@@ -32,7 +33,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_ps(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); });
 		#endif
 	}
 
@@ -43,7 +44,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_pd(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](auto x, auto y) { return gen::pow_gen(x, y); });
 		#endif
 	}
 } // namespace ccm::intrin
-- 
2.43.0


From 2783648f965202bd24e8ac7f861417cf454e52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 70/87] fix: SSE masks of double have two lanes

---
 include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp | 2 +-
 include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index ecc6787..80b2bdd 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -111,7 +111,7 @@ namespace ccm::intrin
 		using abi_type				  = abi::sse2;
 		CCM_ALWAYS_INLINE simd_mask() = default;
 		CCM_ALWAYS_INLINE explicit simd_mask(bool value) : m_value(_mm_castsi128_pd(_mm_set1_epi64x(-static_cast<std::int64_t>(value)))) {}
-		static constexpr int size() { return 4; }
+		static constexpr int size() { return 2; }
 		constexpr explicit simd_mask(__m128d const &value_in) : m_value(value_in) {}
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
 		CCM_ALWAYS_INLINE simd_mask operator||(simd_mask const &other) const { return simd_mask(_mm_or_pd(m_value, other.m_value)); }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 8fd7123..c591757 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -112,7 +112,7 @@ namespace ccm::intrin
 		using abi_type				  = abi::sse4;
 		CCM_ALWAYS_INLINE simd_mask() = default;
 		CCM_ALWAYS_INLINE explicit simd_mask(bool value) : m_value(_mm_castsi128_pd(_mm_set1_epi64x(-static_cast<std::int64_t>(value)))) {}
-		static constexpr int size() { return 4; }
+		static constexpr int size() { return 2; }
 		constexpr explicit simd_mask(__m128d const &value_in) : m_value(value_in) {}
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
 		CCM_ALWAYS_INLINE simd_mask operator||(simd_mask const &other) const { return simd_mask(_mm_or_pd(m_value, other.m_value)); }
-- 
2.43.0


From c2bb7713735daa376d3c957ee1ae4bea8913d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 71/87] fix: SSE choose keeps the sign of a zero

---
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index 80b2bdd..213bfb5 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -100,7 +100,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse2> choose(simd_mask<float, abi::sse2> const &a, simd<float, abi::sse2> const &b, simd<float, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse2>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse2>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse2> choose(simd_mask<double, abi::sse2> const &a, simd<double, abi::sse2> const &b, simd<double, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse2>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse2>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index c591757..433f681 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -101,7 +101,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse4> choose(simd_mask<float, abi::sse4> const &a, simd<float, abi::sse4> const &b, simd<float, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse4>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse4>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse4> choose(simd_mask<double, abi::sse4> const &a, simd<double, abi::sse4> const &b, simd<double, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse4>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse4>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
-- 
2.43.0


From 2fc00bb9d7cf7d4ad7e7b53e9d4c2925cc66a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 72/87] fix: negating a zero SIMD lane flips its sign

---
 .../ccmath/internal/math/runtime/simd/instructions/avx2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
index 76d5993..bfc2d1a 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
@@ -85,7 +85,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_ps(_mm256_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_ps(_mm256_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_ps(ptr, m_value); }
 		[[nodiscard]] constexpr __m256 get() const { return m_value; }
@@ -158,7 +158,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_pd(_mm256_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_pd(_mm256_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_pd(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m256d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index 213bfb5..5f984f9 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -83,7 +83,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 433f681..d4b691b 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -84,7 +84,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
-- 
2.43.0


From 81ac4f5a445cca3117e5cca468795e2c62f41250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 73/87] fix: scalar SIMD masks combine

---
 .../internal/math/runtime/simd/instructions/scalar.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
index 3ad6f40..be2bc8e 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
@@ -31,9 +31,9 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE static constexpr int size() { return 1; }
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE explicit simd_mask(bool value) : m_value(value) {}
 		[[nodiscard]] CCM_GPU_HOST_DEVICE constexpr bool get() const { return m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return m_value || other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return m_value && other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return !m_value; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return simd_mask(m_value || other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return simd_mask(m_value && other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return simd_mask(!m_value); }
 
 	private:
 		bool m_value;
-- 
2.43.0


From d2edd2892d74059e6ae2d5e211c6dcd101126246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 74/87] fix: SIMD storage copies through its array

---
 include/ccmath/internal/math/runtime/simd/common.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/common.hpp b/include/ccmath/internal/math/runtime/simd/common.hpp
index 249d956..28342dc 100644
--- a/include/ccmath/internal/math/runtime/simd/common.hpp
+++ b/include/ccmath/internal/math/runtime/simd/common.hpp
@@ -105,15 +105,15 @@ namespace ccm::intrin
 
 		CCM_ALWAYS_INLINE simd_storage() = default;
 		static constexpr int size() { return simd<T, Abi>::size(); }
-		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value, element_aligned_tag()); }
+		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value.data(), element_aligned_tag()); }
 		CCM_ALWAYS_INLINE explicit simd_storage(T value) : simd_storage(simd<T, Abi>(value)) {}
 		CCM_ALWAYS_INLINE simd_storage& operator=(simd<T, Abi> const& value)
 		{
-			value.copy_to(m_value, element_aligned_tag());
+			value.copy_to(m_value.data(), element_aligned_tag());
 			return *this;
 		}
 		CCM_ALWAYS_INLINE T const* data() const { return m_value.data(); }
-		CCM_ALWAYS_INLINE T* data() { return m_value; }
+		CCM_ALWAYS_INLINE T* data() { return m_value.data(); }
 		CCM_ALWAYS_INLINE T const& operator[](int i) const { return m_value[i]; }
 		CCM_ALWAYS_INLINE T& operator[](int i) { return m_value[i]; }
 
-- 
2.43.0


From f4f74cc95f648953c86d4ff986516d42bf8a71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 75/87] fix: nanf of a null pointer is the default NaN, as for
 nan and nanl

---
 include/ccmath/math/basic/impl/nan_float_impl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ccmath/math/basic/impl/nan_float_impl.hpp b/include/ccmath/math/basic/impl/nan_float_impl.hpp
index 3512376..8db2972 100644
--- a/include/ccmath/math/basic/impl/nan_float_impl.hpp
+++ b/include/ccmath/math/basic/impl/nan_float_impl.hpp
@@ -34,6 +34,11 @@ namespace ccm::internal::impl
 		std::uint32_t flt_bits{ 0 };
 		bool has_hex_been_detected{ false };
 
+		if (arg == nullptr)
+		{
+			return std::numeric_limits<float>::quiet_NaN(); // Default NaN
+		}
+
 		// NOLINTBEGIN
 
 		// Check for a hex prefix and if its detected, skip the prefix and set the flag.
-- 
2.43.0


From 97ff040ef73ec1c9e4e90c3ba2dfb1ebc75c9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 76/87] fix: rotl by the smallest int does not overflow

---
 include/ccmath/internal/support/bits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index a7700b9..28266f8 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -198,7 +198,7 @@ namespace ccm::support
 			else if constexpr (std::is_same_v<T, std::uint64_t>) { return _rotl64(t, cnt); }
 		}
 #endif
-		return rotr(t, -cnt);
+		return rotr(t, -(cnt % std::numeric_limits<T>::digits)); // reduced first: the negated minimum is not an int
 	}
 
 // Macro to allow simplified creation of specializations
-- 
2.43.0


From 951c5deea32c15feb3d70896747a4371233f4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 77/87] fix: asmlab counts a tail jump into libm as entering
 libm

---
 tools/asmlab/scripts/classify.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/asmlab/scripts/classify.py b/tools/asmlab/scripts/classify.py
index 8f9d8c2..86fb755 100644
--- a/tools/asmlab/scripts/classify.py
+++ b/tools/asmlab/scripts/classify.py
@@ -28,6 +28,7 @@ _BRANCH_PREFIXES = (
     "cbz", "cbnz", "tbz", "tbnz",
 )
 _CALL_PREFIXES = ("call", "callq", "bl", "blr")
+_TAIL_JUMPS = ("jmp", "b")
 _FP_OPS = ("mul", "fma", "fmul", "vfm", "fadd", "fsub", "fdiv", "div", "sqrt")
 _LOAD_STORE = ("mov", "movq", "movsd", "movss", "vmov", "ldr", "str", "ldp", "stp", "lea")
 
@@ -133,6 +134,9 @@ def analyze_region(region_path, emit_meta=None, registry_target=None):
                     local_calls.append(tgt)
                 else:
                     external_calls.append(tgt)
+        elif mnem in _TAIL_JUMPS and ops and _is_external_call_target(ops.split()[0], libm_symbols):
+            # A tail call leaves the slice for libm just like an ordinary call.
+            external_calls.append(ops.split()[0])
         if any(mnem.startswith(p) or p in mnem for p in _LOAD_STORE):
             load_store_count += 1
         if any(p in mnem for p in _FP_OPS):
@@ -152,9 +156,7 @@ def analyze_region(region_path, emit_meta=None, registry_target=None):
     external_libm = [c for c in external_calls
                      if _is_external_call_target(c, libm_symbols)]
     likely_thin_forwarder = insn_count <= 8 and call_count + branch_count <= 2
-    internal_only_calls = call_count == 0 or (
-        call_count == len(local_calls) and not external_calls
-    )
+    internal_only_calls = call_count == len(local_calls) and not external_calls
     likely_fully_inlined = internal_only_calls
     assembly_empty_or_trivial = insn_count <= 2
     possible_constant_fold = (
-- 
2.43.0


From e31e264d02034d6d9ccaf4daebe3d1466e90444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 78/87] fix: asmlab source maps understand the comments of ELF
 ARM assembly

---
 tools/asmlab/scripts/source_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/asmlab/scripts/source_map.py b/tools/asmlab/scripts/source_map.py
index a3754e1..d3e4797 100644
--- a/tools/asmlab/scripts/source_map.py
+++ b/tools/asmlab/scripts/source_map.py
@@ -249,7 +249,7 @@ def _parse_verbose_functions(asm_text):
         stripped = raw.strip()
         if not stripped or stripped.startswith("#"):
             continue
-        code = stripped.split("##")[0].split(";")[0].strip()
+        code = stripped.split("##")[0].split(";")[0].split("//")[0].strip()
         if not code:
             continue
         if code.endswith(":") and not code.startswith("."):
-- 
2.43.0


From e02cfe47689f536f3d7443c500e233c5301f0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:28 +0000
Subject: [PATCH 79/87] fix: asmlab regions keep the branch targets of ELF
 assembly

---
 tools/asmlab/scripts/emit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/asmlab/scripts/emit.py b/tools/asmlab/scripts/emit.py
index 2c664c0..96a9ba0 100755
--- a/tools/asmlab/scripts/emit.py
+++ b/tools/asmlab/scripts/emit.py
@@ -158,7 +158,7 @@ def _parse_symbol_bodies(asm_text):
         code = _strip_comment(raw.strip())
         if not code:
             continue
-        if code.endswith(":") and not code.startswith("."):
+        if code.endswith(":") and (not code.startswith(".") or code.startswith(".L")):
             name = code[:-1]
             if _is_local_label(name):
                 if current is not None:
-- 
2.43.0


From 482ac5388442aceab0af87864e0d9e0633cac1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 80/87] fix: an accuracy run that cannot be made replaces the
 candidate's old gate

---
 tools/asmlab/scripts/variant_accuracy.py | 60 ++++++++++++------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/tools/asmlab/scripts/variant_accuracy.py b/tools/asmlab/scripts/variant_accuracy.py
index b6ec42f..b8f3df1 100644
--- a/tools/asmlab/scripts/variant_accuracy.py
+++ b/tools/asmlab/scripts/variant_accuracy.py
@@ -107,6 +107,28 @@ def _aggregate_candidate_status(group_statuses, mode):
     return "pass"
 
 
+def _failed_report(fn, variant, mode, write_gate, **details):
+    """Report for a run that produced no results. Replaces any earlier gate file."""
+    report = {
+        "function": fn,
+        "variant": variant,
+        "mode": mode,
+        "timestamp": datetime.now(timezone.utc).strftime("%Y-%m-%dT%H:%M:%SZ"),
+        "status": "fail",
+        "candidate_accuracy": {
+            "simple": "fail" if mode == "simple" else "not_run",
+            "rigorous": "fail" if mode == "rigorous" else "not_wired",
+            "scope": "candidate",
+            "note": details.get("reason"),
+            "groups": {},
+        },
+        **details,
+    }
+    if write_gate:
+        _write_gate_report(report)
+    return report
+
+
 def run_variant_accuracy(fn, variant, mode="simple", write_gate=True):
     if fn not in SUPPORTED_FUNCTIONS:
         C.fail("variant accuracy not implemented for '%s'" % fn)
@@ -114,14 +136,8 @@ def run_variant_accuracy(fn, variant, mode="simple", write_gate=True):
     manifest = variant_mod.load_manifest(fn, variant)
     stale = variant_mod.check_staleness(manifest)
     if stale.get("staleness") == "stale":
-        return {
-            "function": fn,
-            "variant": variant,
-            "mode": mode,
-            "status": "fail",
-            "reason": stale.get("warning"),
-            "staleness": "stale",
-        }
+        return _failed_report(fn, variant, mode, write_gate,
+                              reason=stale.get("warning"), staleness="stale")
 
     vdir = variant_mod.variant_workspace(fn, variant)
     if not (vdir / "candidate.hpp").exists():
@@ -161,34 +177,18 @@ def run_variant_accuracy(fn, variant, mode="simple", write_gate=True):
 
     ok, err = _cmake_configure(variant, str(vdir))
     if not ok:
-        return {
-            "function": fn,
-            "variant": variant,
-            "mode": mode,
-            "status": "fail",
-            "reason": "cmake configure failed",
-            "stderr": err[-2000:],
-        }
+        return _failed_report(fn, variant, mode, write_gate,
+                              reason="cmake configure failed", stderr=err[-2000:])
 
     bin_name = "asmlab_candidate_accuracy_powf_impl_%s" % variant
     if not _cmake_build(bin_name):
-        return {
-            "function": fn,
-            "variant": variant,
-            "mode": mode,
-            "status": "fail",
-            "reason": "build failed for %s" % bin_name,
-        }
+        return _failed_report(fn, variant, mode, write_gate,
+                              reason="build failed for %s" % bin_name)
 
     binary = _find_binary(bin_name)
     if not binary:
-        return {
-            "function": fn,
-            "variant": variant,
-            "mode": mode,
-            "status": "fail",
-            "reason": "binary not found: %s" % bin_name,
-        }
+        return _failed_report(fn, variant, mode, write_gate,
+                              reason="binary not found: %s" % bin_name)
 
     inputs_doc = _load_inputs_registry().get(fn, {})
     edge_doc = C.load_candidate_edge_cases().get("functions", {}).get(fn, {})
-- 
2.43.0


From 5a53d34b85927d9b8ab07abf34321da37cc9e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 81/87] fix: a stale candidate is rejected as stale

---
 tools/asmlab/scripts/candidate_compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/asmlab/scripts/candidate_compare.py b/tools/asmlab/scripts/candidate_compare.py
index 06d496e..1b07a5d 100644
--- a/tools/asmlab/scripts/candidate_compare.py
+++ b/tools/asmlab/scripts/candidate_compare.py
@@ -409,10 +409,10 @@ def _static_delta(orig_rep, cand_rep):
 
 
 def _decide_scenario(fn, arch, heuristics, m1_spill_advisory):
-    if heuristics.get("reject_candidate"):
-        return "reject_path_mismatch"
     if heuristics.get("staleness") == "stale":
         return "reject_stale"
+    if heuristics.get("reject_candidate"):
+        return "reject_path_mismatch"
     ps = heuristics.get("path_safety")
     if ps == "fail":
         return "reject_path_mismatch"
-- 
2.43.0


From e1bd2cf6ea110ea863427be46d2af43ab0876f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:27 +0000
Subject: [PATCH 82/87] fix: a failing accuracy gate does not pass in mode all
 nor keep an older pass

---
 tools/asmlab/scripts/accuracy_gate.sh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/asmlab/scripts/accuracy_gate.sh b/tools/asmlab/scripts/accuracy_gate.sh
index d0476ae..0a1f1f7 100755
--- a/tools/asmlab/scripts/accuracy_gate.sh
+++ b/tools/asmlab/scripts/accuracy_gate.sh
@@ -93,6 +93,8 @@ PY
 }
 
 run_simple() {
+    # Stands unless every step below succeeds, so a failing run never keeps an older pass.
+    write_gate_report "${fn:-all}" "simple" "fail" >/dev/null
     echo ">> accuracy gate: simple suite (native, manifest-driven)" >&2
     cmake -S "${project_root}" -B "${build_dir}" -G Ninja \
         -DCMAKE_BUILD_TYPE=Release \
@@ -156,6 +158,7 @@ run_rigorous() {
         echo "See CONTRIBUTING.md for rigorous validation setup." >&2
         return 2
     fi
+    write_gate_report "${fn:-all}" "rigorous" "fail" >/dev/null
     local gate_key
     gate_key="$(resolve_gate_key "${fn}")"
     local entry
@@ -192,7 +195,11 @@ PY
 case "${mode}" in
     simple) run_simple ;;
     rigorous) run_rigorous ;;
-    all) run_simple && run_rigorous ;;
+    # Not run_simple && run_rigorous: bash ignores set -e inside the left side of &&.
+    all)
+        run_simple
+        run_rigorous
+        ;;
     *)
         echo "usage: accuracy_gate.sh [simple|rigorous|all] [registry-function]" >&2
         exit 1
-- 
2.43.0


From f077e37396bb0e57bebaccf8cd0c440d95c94400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 83/87] fix: a failing build of an accuracy or bench program is
 noticed

_cmake_build returns a pair, so 'not _cmake_build(...)' was never true and the
program of an earlier build stood in for the one that does not compile.
---
 tools/asmlab/scripts/bench_impl.py       | 3 ++-
 tools/asmlab/scripts/variant_accuracy.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/asmlab/scripts/bench_impl.py b/tools/asmlab/scripts/bench_impl.py
index 2733cef..9d85d5a 100644
--- a/tools/asmlab/scripts/bench_impl.py
+++ b/tools/asmlab/scripts/bench_impl.py
@@ -126,7 +126,8 @@ def run_powf_impl_bench(profile, variant=None, mode="", extra_args=None):
     bin_name = "asmlab_bench_powf_impl"
     if variant:
         bin_name = "asmlab_bench_powf_impl_%s" % variant
-    if not _cmake_build(bin_name):
+    ok, err = _cmake_build(bin_name)
+    if not ok:
         return {
             "function": fn,
             "profile": profile,
diff --git a/tools/asmlab/scripts/variant_accuracy.py b/tools/asmlab/scripts/variant_accuracy.py
index b8f3df1..4a5a4c3 100644
--- a/tools/asmlab/scripts/variant_accuracy.py
+++ b/tools/asmlab/scripts/variant_accuracy.py
@@ -181,7 +181,8 @@ def run_variant_accuracy(fn, variant, mode="simple", write_gate=True):
                               reason="cmake configure failed", stderr=err[-2000:])
 
     bin_name = "asmlab_candidate_accuracy_powf_impl_%s" % variant
-    if not _cmake_build(bin_name):
+    ok, err = _cmake_build(bin_name)
+    if not ok:
         return _failed_report(fn, variant, mode, write_gate,
                               reason="build failed for %s" % bin_name)
 
-- 
2.43.0


From 5e345253203a0e7c7f476c1839a05b7b0e9175f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 84/87] fix: a scenario of a candidate that cannot be emitted
 does not succeed

scenario report, diff and validate of a variant returned 0, and judged the
artifacts of an earlier emission, when the compiler refused a slice.
---
 tools/asmlab/scripts/asmlab.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/tools/asmlab/scripts/asmlab.py b/tools/asmlab/scripts/asmlab.py
index 7ff2fad..5c3c35f 100755
--- a/tools/asmlab/scripts/asmlab.py
+++ b/tools/asmlab/scripts/asmlab.py
@@ -708,15 +708,16 @@ def cmd_variant_patch(args):
 
 def cmd_variant_scenario_report(args):
     arches = _scenario_arches(args)
-    scenario_mod.run_scenario_pipeline(
+    original = scenario_mod.run_scenario_pipeline(
         args.fn, args.scenario, arches, args.flags, args.compiler,
         source_map=getattr(args, "source_map", False), source_kind="original",
         run_bench=True)
-    scenario_mod.run_scenario_pipeline(
+    candidate = scenario_mod.run_scenario_pipeline(
         args.fn, args.scenario, arches, args.flags, args.compiler,
         source_map=getattr(args, "source_map", False), variant=args.variant_name,
         run_bench=True)
-    return 0
+    # A slice that was not emitted has no report of its own, only an earlier one at best.
+    return 0 if len(original) == len(candidate) == len(arches) else 1
 
 
 def cmd_variant_accuracy(args):
@@ -798,15 +799,7 @@ def cmd_variant_compare(args):
 
 def cmd_variant_scenario_diff(args):
     arches = _scenario_arches(args)
-    scenario_mod.run_scenario_pipeline(
-        args.fn, args.scenario, arches, args.flags, args.compiler,
-        source_map=getattr(args, "source_map", False), source_kind="original",
-        run_bench=True)
-    scenario_mod.run_scenario_pipeline(
-        args.fn, args.scenario, arches, args.flags, args.compiler,
-        source_map=getattr(args, "source_map", False), variant=args.variant_name,
-        run_bench=True)
-    rc = 0
+    rc = cmd_variant_scenario_report(args)
     for arch in arches:
         diff = scenario_mod.scenario_diff(
             args.fn, args.scenario, arch, args.flags, args.compiler,
-- 
2.43.0


From c1291a4e2ecc5c51dcdb760689c2eefa328627dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:57 +0000
Subject: [PATCH 85/87] fix: asmlab control-flow graphs follow every ARM branch
 and call

---
 tools/asmlab/scripts/analysis_common.py   |  6 +++---
 tools/asmlab/scripts/analysis_pipeline.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tools/asmlab/scripts/analysis_common.py b/tools/asmlab/scripts/analysis_common.py
index 09b962b..7ac87ef 100644
--- a/tools/asmlab/scripts/analysis_common.py
+++ b/tools/asmlab/scripts/analysis_common.py
@@ -57,8 +57,8 @@ def is_branch_mnem(mnem):
     m = mnem.lower()
     if m.startswith("j") and m not in ("jmp",):
         return True
-    return m in ("jmp", "je", "jne", "jz", "jnz", "jl", "jg", "ja", "jb",
-                 "call", "callq", "ret", "retq", "b", "b.eq", "b.ne", "cbz", "cbnz")
+    return m.startswith("b.") or m in (
+        "jmp", "call", "callq", "ret", "retq", "b", "bl", "blr", "br", "cbz", "cbnz", "tbz", "tbnz")
 
 
 def branch_targets(text):
@@ -67,6 +67,6 @@ def branch_targets(text):
     if len(parts) < 2:
         return []
     tgt = parts[-1].rstrip(",")
-    if tgt.startswith(".") or tgt.startswith("#"):
+    if tgt.startswith("#"):
         return []
     return [tgt]
diff --git a/tools/asmlab/scripts/analysis_pipeline.py b/tools/asmlab/scripts/analysis_pipeline.py
index 6f958da..e69cd9c 100644
--- a/tools/asmlab/scripts/analysis_pipeline.py
+++ b/tools/asmlab/scripts/analysis_pipeline.py
@@ -196,14 +196,14 @@ def _recover_blocks(instructions):
 
         current["instructions"].append(ent)
 
-        is_term = mnem in ("jmp", "ret", "retq", "b", "call", "callq")
-        is_cond = AC.is_branch_mnem(mnem) and mnem not in ("call", "callq", "jmp")
+        is_term = mnem in ("jmp", "ret", "retq", "b", "br", "call", "callq", "bl", "blr")
+        is_cond = AC.is_branch_mnem(mnem) and not is_term
 
         if is_term or is_cond:
             flush()
             block_id += 1
             next_label = "B%d" % block_id
-            fallthrough = not (mnem in ("jmp", "ret", "retq") or mnem.startswith("b"))
+            fallthrough = mnem not in ("jmp", "ret", "retq", "b", "br")
             current = {
                 "id": next_label,
                 "label": next_label,
@@ -240,13 +240,13 @@ def _build_edges(blocks):
         if mnem in ("ret", "retq"):
             edges.append({"from": src, "to": "exit", "kind": "return"})
             continue
-        if mnem in ("call", "callq"):
+        if mnem in ("call", "callq", "bl", "blr"):
             edges.append({"from": src, "to": "call", "kind": "call",
                           "target": AC.branch_targets(asm)})
             if i + 1 < len(blocks):
                 edges.append({"from": src, "to": blocks[i + 1]["id"], "kind": "fallthrough"})
             continue
-        if mnem == "jmp":
+        if mnem in ("jmp", "b", "br"):
             edges.append({"from": src, "to": "unknown", "kind": "unconditional",
                           "target": AC.branch_targets(asm)})
             continue
-- 
2.43.0


From c0d0d21e301beefa2ccd5380a060ab21882fbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:55 +0000
Subject: [PATCH 86/87] fix: asmlab counts an ARM branch as a branch

---
 tools/asmlab/scripts/classify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/asmlab/scripts/classify.py b/tools/asmlab/scripts/classify.py
index 86fb755..cfbbbec 100644
--- a/tools/asmlab/scripts/classify.py
+++ b/tools/asmlab/scripts/classify.py
@@ -24,7 +24,7 @@ _PATH_CATEGORIES_PATH = C.ASMLAB_DIR / "registry" / "path_categories.json"
 _BRANCH_PREFIXES = (
     "jmp", "je", "jne", "jz", "jnz", "jl", "jle", "jg", "jge", "ja", "jb",
     "jae", "jbe", "jo", "jno", "js", "jns", "jp", "jnp", "jcxz", "jecxz",
-    "b.", "b.eq", "b.ne", "b.lt", "b.le", "b.gt", "b.ge", "b.hi", "b.lo",
+    "b", "b.", "b.eq", "b.ne", "b.lt", "b.le", "b.gt", "b.ge", "b.hi", "b.lo",
     "cbz", "cbnz", "tbz", "tbnz",
 )
 _CALL_PREFIXES = ("call", "callq", "bl", "blr")
-- 
2.43.0


From 2094e9be92eff25c395ed636625cd7f827e20c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:21 +0000
Subject: [PATCH 87/87] fix: sin, cos and tan of large arguments next to a
 multiple of pi/2 keep their accuracy

---
 .../math/trig/impl/sincos_payne_hanek.hpp     | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp b/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
index 3aea528..644513e 100644
--- a/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
+++ b/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
@@ -124,24 +124,26 @@ namespace ccm::internal::impl::sincos_ph
 		}
 
 		unsigned k			   = static_cast<unsigned>(acc[3] >> 60) & 15U;
+		const bool round_up	   = ((acc[3] >> 59) & 1ULL) != 0ULL; // fraction >= 1/2
+
+		// A fraction in [1/2, 1) maps to r in [-1/2, 0). Taking 1 - fraction here, rather than subtracting
+		// 1 from the rounded fraction, keeps all its leading bits next to a multiple of pi/8.
+		if (round_up)
+		{
+			for (std::uint64_t & word : acc) { word = ~word; }
+			k = (k + 1) & 15U;
+		}
 		const std::uint64_t a3 = acc[3] & 0x0fffffffffffffffULL; // fraction bits below the integer
-		const bool round_up	   = ((a3 >> 59) & 1ULL) != 0ULL;	 // fraction >= 1/2
 
 		// Fraction as a double-double: top 64 bits in w0 (2^-1..2^-64), next 64 in w1.
 		const std::uint64_t w0 = (a3 << 4) | (acc[2] >> 60);
 		const std::uint64_t w1 = (acc[2] << 4) | (acc[1] >> 60);
-		double r_hi			   = static_cast<double>(w0 >> 11) * 0x1.0p-53;
+		const double r_hi	   = static_cast<double>(w0 >> 11) * 0x1.0p-53;
 		const double r_lo	   = static_cast<double>(w0 & 0x7ffULL) * 0x1.0p-64 + static_cast<double>(w1) * 0x1.0p-128;
 
-		if (round_up)
-		{
-			r_hi -= 1.0; // fraction in [1/2, 1) maps to r in [-1/2, 0)
-			k = (k + 1) & 15U;
-		}
-
 		// y = (r_hi + r_lo) * pi/8 with pi/8 as a double-double, rounded once into y.
 		const double y_val = support::multiply_add(r_hi, PI_OVER_8_HI, support::multiply_add(r_hi, PI_OVER_8_LO, r_lo * PI_OVER_8_HI));
-		y				   = neg ? -y_val : y_val;
+		y				   = (neg != round_up) ? -y_val : y_val;
 
 		const unsigned k_signed = neg ? (0U - k) : k;
 		return k_signed & 15U;
-- 
2.43.0

