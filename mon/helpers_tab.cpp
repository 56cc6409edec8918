// Registers one group of internal helpers of the library under test (see helpers.hpp).
#include "grisu_exact.h"
#include "helpers.hpp"
#include <array>
namespace D = jkj::grisu_exact_detail;
namespace R = jkj::grisu_exact_rounding_modes;
namespace {
w128 w(std::uint64_t c) { return { c, 0 }; }
template <class T> w128 w(T const& c) { return { c.high(), c.low() }; }
template <class F> auto unw(w128 c) { if constexpr (sizeof(F) == 4) return c.hi; else return D::uint128{ c.hi, c.lo }; }
struct reg { template <class L> reg(L l) { l(); } };

#if defined(H_LOG10)
reg r{ [] { H.log10_pow2[1] = [](int e) { return int(D::floor_log10_pow2(e)); }; } };
#elif defined(H_LOG10N)
reg r{ [] { H.log10_pow2[0] = [](int e) { return int(D::floor_log10_pow2<false>(e)); }; } };
#elif defined(H_LOG2)
reg r{ [] { H.log2_pow10[1] = [](int e) { return int(D::floor_log2_pow10(e)); }; } };
#elif defined(H_LOG2N)
reg r{ [] { H.log2_pow10[0] = [](int e) { return int(D::floor_log2_pow10<false>(e)); }; } };
#elif defined(H_LOG5)
reg r{ [] { H.log5_pow2[1] = [](int e) { return int(D::floor_log5_pow2(e)); }; } };
#elif defined(H_LOG5N)
reg r{ [] { H.log5_pow2[0] = [](int e) { return int(D::floor_log5_pow2<false>(e)); }; } };
#elif defined(H_LOGC10) || defined(H_LOGC2) || defined(H_LOGC5)
template <int N> struct ints { int v[N]; };
#if defined(H_LOGC10)
constexpr auto t10 = [] { ints<3301> t{}; for (int i = 0; i < 3301; ++i) t.v[i] = D::floor_log10_pow2(i - 1650); return t; }();
reg r{ [] { H.c_log10_pow2 = t10.v; } };
#elif defined(H_LOGC2)
constexpr auto t2 = [] { ints<1285> t{}; for (int i = 0; i < 1285; ++i) t.v[i] = D::floor_log2_pow10(i - 642); return t; }();
reg r{ [] { H.c_log2_pow10 = t2.v; } };
#else
#ifndef LOG5_STEP
#define LOG5_STEP 8
#endif
constexpr int n5 = 2 * 65536 / LOG5_STEP + 1;
constexpr auto t5 = [] { ints<n5> t{}; for (int i = 0; i < n5; ++i) t.v[i] = D::floor_log5_pow2(i * LOG5_STEP - 65536); return t; }();
reg r{ [] { H.c_log5_pow2 = t5.v; H.c_log5_step = LOG5_STEP; H.c_log5_n = n5; } };
#endif
#elif defined(H_CACHE)
template <class F> void one(int i) {
	H.cache[i] = [](int k) { return w(D::get_cache<F>(k)); };
	H.min_k[i] = D::common_info<F>::min_k; H.max_k[i] = D::common_info<F>::max_k;
}
reg r{ [] { one<float>(0); one<double>(1); } };
#elif defined(H_CACHEC)
template <int N> struct ws { w128 v[N]; };
template <class F> constexpr auto make() {
	constexpr int lo = D::common_info<F>::min_k, n = D::common_info<F>::max_k - lo + 1;
	ws<n> t{};
	for (int i = 0; i < n; ++i) {
		if constexpr (sizeof(F) == 4) t.v[i] = { D::get_cache<F>(lo + i), 0 };
		else t.v[i] = { D::get_cache<F>(lo + i).high(), D::get_cache<F>(lo + i).low() };
	}
	return t;
}
constexpr auto cf = make<float>();
constexpr auto cd = make<double>();
reg r{ [] { H.c_cache[0] = cf.v; H.c_cache[1] = cd.v; } };
#elif defined(H_UMUL64)
reg r{ [] { H.umul64 = [](std::uint32_t x, std::uint32_t y) { return std::uint64_t(D::umul64(x, y)); }; } };
#elif defined(H_UMUL128)
reg r{ [] { H.umul128 = [](std::uint64_t x, std::uint64_t y) { return w(D::umul128(x, y)); }; } };
#elif defined(H_UMUL128U)
reg r{ [] { H.umul128_upper64 = [](std::uint64_t x, std::uint64_t y) { return std::uint64_t(D::umul128_upper64(x, y)); }; } };
#elif defined(H_UMUL192)
reg r{ [] { H.umul192_upper64 = [](std::uint64_t x, w128 y) { return std::uint64_t(D::umul192_upper64(x, D::uint128{ y.hi, y.lo })); }; } };
#elif defined(H_UMUL96)
reg r{ [] { H.umul96_upper32 = [](std::uint32_t x, std::uint64_t y) { return std::uint32_t(D::umul96_upper32(x, y)); }; } };
#elif defined(H_DIV2)
reg r{ [] {
	H.div2_32 = [](std::uint32_t x, int e) { return bool(D::divisible_by_power_of_2(x, e)); };
	H.div2_64 = [](std::uint64_t x, int e) { return bool(D::divisible_by_power_of_2(x, e)); };
} };
#elif defined(H_DIV5)
reg r{ [] {
	H.div5_32 = [](std::uint32_t x, unsigned e) { return bool(D::divisible_by_power_of_5(x, e)); };
	H.div5_64 = [](std::uint64_t x, unsigned e) { return bool(D::divisible_by_power_of_5(x, e)); };
} };
#elif defined(H_DIV5N)
reg r{ [] {
	H.n5_32 = int(D::divisibility_test_table_holder<std::uint32_t>::table.size); H.n5_64 = int(D::divisibility_test_table_holder<std::uint64_t>::table.size);
} };
#elif defined(H_MUL)
template <class F> void one(int i) {
	H.mul[i] = [](std::uint64_t f, w128 c, int mb) { return std::uint64_t(D::grisu_exact_impl<F>::compute_mul(typename D::common_info<F>::extended_significand_type(f), unw<F>(c), mb)); };
}
reg r{ [] { one<float>(0); one<double>(1); } };
#elif defined(H_DELTA)
template <class F> void one(int i) {
	H.delta[i] = [](int tag, bool edge, w128 c, int mb) {
		using I = D::grisu_exact_impl<F>;
		return std::uint32_t(tag == 0 ? I::template compute_delta<R::to_nearest_tag>(edge, unw<F>(c), mb) :
			tag == 1 ? I::template compute_delta<R::left_closed_directed_tag>(edge, unw<F>(c), mb) : I::template compute_delta<R::right_closed_directed_tag>(edge, unw<F>(c), mb));
	};
}
reg r{ [] { one<float>(0); one<double>(1); } };
#elif defined(H_EQFRAC)
template <class F> void one(int i) {
	H.eqfrac[i] = [](int tag, std::uint64_t f, int e, int mk) {
		using I = D::grisu_exact_impl<F>; using S = typename D::common_info<F>::extended_significand_type;
		return bool(tag == 0 ? I::template equal_fractional_parts<R::to_nearest_tag>(S(f), e, mk) : I::template equal_fractional_parts<R::left_closed_directed_tag>(S(f), e, mk));
	};
}
reg r{ [] { one<float>(0); one<double>(1); } };
#elif defined(H_INFO)
template <class F> void one(int i) {
	using I = D::common_info<F>;
	H.min_exp[i] = I::min_exponent; H.max_exp[i] = I::max_exponent; H.alpha[i] = I::alpha; H.gamma[i] = I::gamma; H.q[i] = int(I::extended_precision); H.p[i] = int(I::precision);
}
reg r{ [] { one<float>(0); one<double>(1); H.have_info = true; } };
#endif
}
