// Function table through which the helper monitor (helpers.cpp) sees the library's internal helpers.
// helpers_tab.cpp is compiled once per group (-DH_<GROUP>); a group whose helper no longer exists under that
// name or signature simply does not register, and the monitor reports it as not observed.
#ifndef VERIF_HELPERS_HPP
#define VERIF_HELPERS_HPP
#include <cstdint>
struct w128 { std::uint64_t hi, lo; };
struct helpers {
	// logarithms, [asserting variant]
	int (*log10_pow2[2])(int) = {}, (*log2_pow10[2])(int) = {}, (*log5_pow2[2])(int) = {};
	// tables produced by constant evaluation; index 0 is the lower end of the documented range
	int const* c_log10_pow2 = nullptr; int const* c_log2_pow10 = nullptr; int const* c_log5_pow2 = nullptr; int c_log5_step = 0, c_log5_n = 0;
	// cache, [0] float (hi only), [1] double
	w128 (*cache[2])(int) = {};
	int min_k[2] = {}, max_k[2] = {};
	w128 const* c_cache[2] = {};
	// wide multiplications
	std::uint64_t (*umul64)(std::uint32_t, std::uint32_t) = nullptr;
	w128 (*umul128)(std::uint64_t, std::uint64_t) = nullptr;
	std::uint64_t (*umul128_upper64)(std::uint64_t, std::uint64_t) = nullptr;
	std::uint64_t (*umul192_upper64)(std::uint64_t, w128) = nullptr;
	std::uint32_t (*umul96_upper32)(std::uint32_t, std::uint64_t) = nullptr;
	// divisibility
	bool (*div2_32)(std::uint32_t, int) = nullptr; bool (*div2_64)(std::uint64_t, int) = nullptr;
	bool (*div5_32)(std::uint32_t, unsigned) = nullptr; bool (*div5_64)(std::uint64_t, unsigned) = nullptr;
	int n5_32 = 0, n5_64 = 0;   // exponents 0..n-1 are supported
	// scaled products and interval lengths [type]; the second form takes the power by its exponent
	std::uint64_t (*mul[2])(std::uint64_t f, w128 cache, int minus_beta) = {};
	std::uint32_t (*delta[2])(int tag, bool edge, w128 cache, int minus_beta) = {};
	bool (*eqfrac[2])(int tag, std::uint64_t f, int exponent, int minus_k) = {};
	// layout constants [type]
	bool have_info = false;
	int min_exp[2] = {}, max_exp[2] = {}, alpha[2] = {}, gamma[2] = {}, q[2] = {}, p[2] = {};
};
extern helpers H;
#endif
