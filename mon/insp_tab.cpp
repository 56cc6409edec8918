#include "grisu_exact.h"
#include "insp.hpp"
template <class F, class U> static void go(U bits, bool through_value, insp& o) {
	jkj::bit_representation_t<F> br;
	if (through_value) { F x; std::memcpy(&x, &bits, sizeof x); br = jkj::get_bit_representation(x); }
	else br.f = bits;
	auto const& b = br;
	o.f = b.f; o.sig = b.extract_significand_bits(); o.exp = b.extract_exponent_bits();
	o.flags = (b.is_finite() ? 1 : 0) | (b.is_nonzero() ? 2 : 0) | (b.is_subnormal() ? 4 : 0) | (b.is_negative() ? 8 : 0) | (b.is_positive() ? 16 : 0)
		| (b.is_positive_infinity() ? 32 : 0) | (b.is_negative_infinity() ? 64 : 0) | (b.is_infinity() ? 128 : 0)
		| (b.is_nan() ? 256 : 0) | (b.is_quiet_nan() ? 512 : 0) | (b.is_signaling_nan() ? 1024 : 0);
	o.payload = b.get_nan_payload().to_ullong();
	o.payload_len = (unsigned)b.get_nan_payload().size();
	if (jkj::bit_representation_t<F>::nan_payload_length != o.payload_len) o.payload_len = ~0u;
	F y = b.as_ieee754();
	U back; std::memcpy(&back, &y, sizeof back);
	o.back = back;
}
void inspect(std::uint32_t bits, bool tv, insp& o) { go<float>(bits, tv, o); }
void inspect(std::uint64_t bits, bool tv, insp& o) { go<double>(bits, tv, o); }

// the inspectors that are usable in constant evaluation must give the same answers there
namespace {
template <class F, class U, U bits> constexpr bool ct(unsigned flags, U sig, unsigned exp) {
	constexpr jkj::bit_representation_t<F> b{ bits };
	constexpr unsigned fl = (b.is_finite() ? 1 : 0) | (b.is_nonzero() ? 2 : 0) | (b.is_subnormal() ? 4 : 0) | (b.is_negative() ? 8 : 0) | (b.is_positive() ? 16 : 0)
		| (b.is_positive_infinity() ? 32 : 0) | (b.is_negative_infinity() ? 64 : 0) | (b.is_infinity() ? 128 : 0) | (b.is_nan() ? 256 : 0);
	return fl == flags && b.extract_significand_bits() == sig && b.extract_exponent_bits() == exp && b.f == bits;
}
}
bool inspect_constexpr() {
	bool ok = true;
	ok = ok && ct<float, std::uint32_t, 0u>(1 | 4 | 16, 0u, 0u);
	ok = ok && ct<float, std::uint32_t, 0x80000000u>(1 | 4 | 8, 0u, 0u);
	ok = ok && ct<float, std::uint32_t, 0x80000001u>(1 | 2 | 4 | 8, 1u, 0u);
	ok = ok && ct<float, std::uint32_t, 0x3f800001u>(1 | 2 | 16, 1u, 127u);
	ok = ok && ct<float, std::uint32_t, 0x7f800000u>(2 | 16 | 32 | 128, 0u, 255u);
	ok = ok && ct<float, std::uint32_t, 0xff800000u>(2 | 8 | 64 | 128, 0u, 255u);
	ok = ok && ct<float, std::uint32_t, 0xff800001u>(2 | 8 | 256, 1u, 255u);
	ok = ok && ct<float, std::uint32_t, 0x7fffffffu>(2 | 16 | 256, 0x7fffffu, 255u);
	ok = ok && ct<double, std::uint64_t, 0ull>(1 | 4 | 16, 0ull, 0u);
	ok = ok && ct<double, std::uint64_t, 0x8000000000000000ull>(1 | 4 | 8, 0ull, 0u);
	ok = ok && ct<double, std::uint64_t, 0x800fffffffffffffull>(1 | 2 | 4 | 8, 0xfffffffffffffull, 0u);
	ok = ok && ct<double, std::uint64_t, 0x3ff0000000000001ull>(1 | 2 | 16, 1ull, 1023u);
	ok = ok && ct<double, std::uint64_t, 0x7ff0000000000000ull>(2 | 16 | 32 | 128, 0ull, 2047u);
	ok = ok && ct<double, std::uint64_t, 0xfff0000000000000ull>(2 | 8 | 64 | 128, 0ull, 2047u);
	ok = ok && ct<double, std::uint64_t, 0xfff0000000000001ull>(2 | 8 | 256, 1ull, 2047u);
	ok = ok && ct<double, std::uint64_t, 0x7fffffffffffffffull>(2 | 16 | 256, 0xfffffffffffffull, 2047u);
	return ok;
}
