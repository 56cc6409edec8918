// Uniform access to the conversions of the library under test.  Only this header's consumers
// (conv_tab.cpp) see the library; everything else sees function tables indexed by
// [type][return_sign][mode][policy].
#ifndef VERIF_CONV_HPP
#define VERIF_CONV_HPP
#include <cstdint>
#include "oracle.hpp"

enum mode_id {
	M_NTE, M_NTO, M_NTPI, M_NTMI, M_NTZ, M_NAFZ,
	M_NTE_SB, M_NTO_SB, M_NTPI_SB, M_NTMI_SB,
	M_TPI, M_TMI, M_TZ, M_AFZ,
	M_DEFAULT,         // mode argument omitted
	N_MODES
};
enum crs_id { C_DONT_CARE, C_EVEN, C_ODD, C_UP, C_DOWN, C_DEFAULT /* policy argument omitted */, N_CRS };

inline char const* mode_name(int m) {
	static char const* const n[] = { "nearest_to_even", "nearest_to_odd", "nearest_toward_plus_infinity",
		"nearest_toward_minus_infinity", "nearest_toward_zero", "nearest_away_from_zero",
		"nearest_to_even_static_boundary", "nearest_to_odd_static_boundary",
		"nearest_toward_plus_infinity_static_boundary", "nearest_toward_minus_infinity_static_boundary",
		"toward_plus_infinity", "toward_minus_infinity", "toward_zero", "away_from_zero", "default" };
	return m >= 0 && m < N_MODES ? n[m] : "?";
}
inline char const* crs_name(int c) {
	static char const* const n[] = { "do_not_care", "tie_to_even", "tie_to_odd", "tie_to_up", "tie_to_down", "default" };
	return c >= 0 && c < N_CRS ? n[c] : "?";
}

struct cres {
	std::uint64_t sig; int exp; bool neg;
	bool operator==(cres const& o) const { return sig == o.sig && exp == o.exp && neg == o.neg; }
};

template <class F> struct conv_types;
template <> struct conv_types<float> { using U = std::uint32_t; static constexpr int id = 0; };
template <> struct conv_types<double> { using U = std::uint64_t; static constexpr int id = 1; };

template <class F> using conv_fn = void (*)(typename conv_types<F>::U bits, cres& out);
template <class F> using str_fn = char* (*)(typename conv_types<F>::U bits, char* buf);

template <class F> struct tables {
	conv_fn<F> conv[2][N_MODES][N_CRS];  // [return_sign]
	str_fn<F> str[2][N_MODES][N_CRS];    // [0] unterminated, [1] terminated
};
extern tables<float> tab_f;
extern tables<double> tab_d;
template <class F> tables<F>& tab();
template <> inline tables<float>& tab<float>() { return tab_f; }
template <> inline tables<double>& tab<double>() { return tab_d; }

// The set of reals a reader using mode m maps to the magnitude of these bits.
template <class U>
inline oracle::interval interval_of(int m, U bits, bool neg) {
	using namespace oracle;
	bool even = (bits & 1) == 0;
	switch (m) {
	case M_NTE: case M_NTE_SB: case M_DEFAULT: return even ? I_CLOSED : I_OPEN;
	case M_NTO: case M_NTO_SB: return even ? I_OPEN : I_CLOSED;
	// a tie goes to the greater number, so x owns its lower end point and not its upper one
	case M_NTPI: case M_NTPI_SB: return neg ? I_RIGHT : I_LEFT;
	case M_NTMI: case M_NTMI_SB: return neg ? I_LEFT : I_RIGHT;
	// ties go to the smaller magnitude: x owns its upper end point
	case M_NTZ: return I_RIGHT;
	case M_NAFZ: return I_LEFT;
	// a reader rounding up maps (pred(x), x] to x
	case M_TPI: return neg ? I_DIR_LEFT : I_DIR_RIGHT;
	case M_TMI: return neg ? I_DIR_RIGHT : I_DIR_LEFT;
	case M_TZ: return I_DIR_LEFT;
	default: return I_DIR_RIGHT;  // M_AFZ
	}
}
inline oracle::policy policy_of(int c) {
	return c == C_DEFAULT ? oracle::P_EVEN : oracle::policy(c);
}
#endif
