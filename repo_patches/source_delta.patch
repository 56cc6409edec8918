From 2d709f621dcc8379f73655be5ef9ea1796290181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 1/3] fix: find the closest candidate for left-closed directed
 rounding

The correct rounding search compared the fractional parts using an approximation
of x computed from the already decremented deltai, and dropped the last step
whenever the displacement hit the remaining distance exactly. toward_zero (and
toward_plus/minus_infinity) returned a candidate which is not the closest one.
---
 grisu_exact.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..6ec5f12 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2090,9 +2090,11 @@ namespace jkj {
 					IntervalTypeProvider::tag ==
 					grisu_exact_rounding_modes::left_closed_directed_tag)
 				{
+					// Up to the error of at most 1, this is the integer part of x
+					auto const approx_x = zi - deltai;
+
 					// We already know r is at most deltai
 					deltai -= std::uint32_t(r);
-					auto const approx_x = zi - deltai;
 
 					auto const current_digit = ret_value.significand % 10;
 
@@ -2133,6 +2135,7 @@ namespace jkj {
 							case zf_vs_deltaf_t::zf_smaller:
 								break;
 							}
+							ret_value.significand -= steps;
 							goto return_label;
 						}
 						else {
-- 
2.43.0


From 55585b1b989c4a6914ee909087aa2edc851cfa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 2/3] fix: right end point 2^q in left-closed directed rounding

For the largest significand of a binade the right end point overflows to 0, which
was then fed into the divisibility tests: undefined behavior for the power of 2
(count trailing zeros of 0, or a failing assert), always true for the power of 5
(so that the output of toward_zero was not the shortest one).
---
 grisu_exact.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 6ec5f12..7b3752e 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2011,7 +2011,19 @@ namespace jkj {
 						integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic :
 						integer_check_case_id::other;
 
-					if (is_product_integer<case_id>(fr, exponent, minus_k)) {
+					bool is_z_integer;
+					// Take care of the case when fr is 2^q, which overflows to 0
+					if (IntervalTypeProvider::tag ==
+						grisu_exact_rounding_modes::left_closed_directed_tag && fr == 0)
+					{
+						is_z_integer = minus_k <= 0 &&
+							minus_k - exponent <= int(extended_precision);
+					}
+					else {
+						is_z_integer = is_product_integer<case_id>(fr, exponent, minus_k);
+					}
+
+					if (is_z_integer) {
 						// Decrease kappa until 10^kappa becomes smaller than delta
 						// If left boundary is included, 10^kappa can also be equal to delta
 						while (true) {
-- 
2.43.0


From 8a8d5e9baf7681b9bec6433a186343c032991544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 3/3] fix: signed overflow in floor_log2_pow10 inside its
 documented range

The 32-bit product overflows for |e| >= 617, although the function is documented
and asserted to work for |e| <= 642.
---
 grisu_exact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 7b3752e..26c97e5 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -319,7 +319,7 @@ namespace jkj {
 
 			return int(
 				// Calculate 0x3.5269e * exp * 2^20
-				(std::int32_t(e) * log2_5_over_4_up_to_20)
+				(std::int64_t(e) * log2_5_over_4_up_to_20)
 				// Perform arithmetic-shift
 				>> 20);
 		}
-- 
2.43.0

