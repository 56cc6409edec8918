// Instantiates conversions of the library under test and registers them in the tables.
// Compile-time selection: TAB_TYPE (float/double), TAB_MODES, TAB_CRS, TAB_SIGNS, TAB_STR bit masks.
#include "grisu_exact.h"
#if defined(TAB_STR) && TAB_STR
#include "fp_to_chars.h"
#endif
#include "conv.hpp"
#ifndef TAB_CRS
#define TAB_CRS 0x1f
#endif
#ifndef TAB_SIGNS
#define TAB_SIGNS 3
#endif
#ifndef TAB_STR
#define TAB_STR 0
#endif

namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
using T = TAB_TYPE;
using U = conv_types<T>::U;

namespace {
struct none {};
template <int I> struct mode_at;
template <> struct mode_at<M_NTE> { using type = rm::nearest_to_even; };
template <> struct mode_at<M_NTO> { using type = rm::nearest_to_odd; };
template <> struct mode_at<M_NTPI> { using type = rm::nearest_toward_plus_infinity; };
template <> struct mode_at<M_NTMI> { using type = rm::nearest_toward_minus_infinity; };
template <> struct mode_at<M_NTZ> { using type = rm::nearest_toward_zero; };
template <> struct mode_at<M_NAFZ> { using type = rm::nearest_away_from_zero; };
template <> struct mode_at<M_NTE_SB> { using type = rm::nearest_to_even_static_boundary; };
template <> struct mode_at<M_NTO_SB> { using type = rm::nearest_to_odd_static_boundary; };
template <> struct mode_at<M_NTPI_SB> { using type = rm::nearest_toward_plus_infinity_static_boundary; };
template <> struct mode_at<M_NTMI_SB> { using type = rm::nearest_toward_minus_infinity_static_boundary; };
template <> struct mode_at<M_TPI> { using type = rm::toward_plus_infinity; };
template <> struct mode_at<M_TMI> { using type = rm::toward_minus_infinity; };
template <> struct mode_at<M_TZ> { using type = rm::toward_zero; };
template <> struct mode_at<M_AFZ> { using type = rm::away_from_zero; };
template <> struct mode_at<M_DEFAULT> { using type = none; };
template <int I> struct crs_at;
template <> struct crs_at<C_DONT_CARE> { using type = cr::do_not_care; };
template <> struct crs_at<C_EVEN> { using type = cr::tie_to_even; };
template <> struct crs_at<C_ODD> { using type = cr::tie_to_odd; };
template <> struct crs_at<C_UP> { using type = cr::tie_to_up; };
template <> struct crs_at<C_DOWN> { using type = cr::tie_to_down; };
template <> struct crs_at<C_DEFAULT> { using type = none; };

inline T from_bits(U b) { T x; std::memcpy(&x, &b, sizeof x); return x; }

template <bool S, int M, int C> void conv(U bits, cres& out) {
	T x = from_bits(bits);
	auto r = [&] {
		if constexpr (M == M_DEFAULT) {
			if constexpr (S) return jkj::grisu_exact(x);
			else return jkj::grisu_exact<false>(x);
		}
		else if constexpr (C == C_DEFAULT) return jkj::grisu_exact<S>(x, typename mode_at<M>::type{});
		else return jkj::grisu_exact<S>(x, typename mode_at<M>::type{}, typename crs_at<C>::type{});
	}();
	out.sig = r.significand;
	out.exp = r.exponent;
	if constexpr (S) out.neg = r.is_negative;
	else out.neg = false;
}
#if TAB_STR
template <bool Z, int M, int C> char* str(U bits, char* buf) {
	T x = from_bits(bits);
	if constexpr (M == M_DEFAULT) {
		if constexpr (Z) return jkj::fp_to_chars(x, buf);
		else return jkj::fp_to_chars_n(x, buf);
	}
	else if constexpr (C == C_DEFAULT) {
		if constexpr (Z) return jkj::fp_to_chars(x, buf, typename mode_at<M>::type{});
		else return jkj::fp_to_chars_n(x, buf, typename mode_at<M>::type{});
	}
	else {
		if constexpr (Z) return jkj::fp_to_chars(x, buf, typename mode_at<M>::type{}, typename crs_at<C>::type{});
		else return jkj::fp_to_chars_n(x, buf, typename mode_at<M>::type{}, typename crs_at<C>::type{});
	}
}
#endif
template <int M, int C> void reg1() {
	if constexpr (((TAB_MODES) >> M & 1) && ((TAB_CRS) >> C & 1) && (M != M_DEFAULT || C == C_DEFAULT)) {
		auto& t = tab<T>();
		if constexpr ((TAB_SIGNS) & 2) t.conv[1][M][C] = conv<true, M, C>;
		if constexpr ((TAB_SIGNS) & 1) t.conv[0][M][C] = conv<false, M, C>;
#if TAB_STR & 1
		t.str[0][M][C] = str<false, M, C>;
#endif
#if TAB_STR & 2
		t.str[1][M][C] = str<true, M, C>;
#endif
	}
}
template <int M> void reg() {
	reg1<M, 0>(); reg1<M, 1>(); reg1<M, 2>(); reg1<M, 3>(); reg1<M, 4>(); reg1<M, 5>();
}
struct init {
	init() {
		reg<0>(); reg<1>(); reg<2>(); reg<3>(); reg<4>(); reg<5>(); reg<6>(); reg<7>(); reg<8>(); reg<9>();
		reg<10>(); reg<11>(); reg<12>(); reg<13>(); reg<14>();
	}
} init_;
}
