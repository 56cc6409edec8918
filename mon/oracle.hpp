// Exact reference oracle for shortest/closest decimal conversion.
//
// Nothing here includes or depends on the code under test.  Every question is decided by exact
// multi-precision integer comparison; no floating-point arithmetic, no approximation, no shared
// constants with grisu_exact.h.
//
// A finite nonzero binary number is  x = m * 2^e  (m > 0 integer).  All interval end points are
// kept in quarter units of the last place:  n * 2^(e-2).  A decimal candidate is  t * 10^E / 2
// (t = 2d for the candidate d itself, odd t for half-way points).
#ifndef VERIF_ORACLE_HPP
#define VERIF_ORACLE_HPP
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>

namespace oracle {

#if defined(__x86_64__)
using limb_t = std::uint64_t;
using dlimb_t = unsigned __int128;
static constexpr int LB = 64;
static inline int clz_limb(limb_t x) { return __builtin_clzll(x); }
#else
using limb_t = std::uint32_t;
using dlimb_t = std::uint64_t;
static constexpr int LB = 32;
static inline int clz_limb(limb_t x) { return __builtin_clz(x); }
#endif

// Largest needed: 5^360 (836 bits) times a 66-bit integer -> < 960 bits.
static constexpr int MAXL = 1024 / LB;
static constexpr int MAXP5 = 360;

struct big {
	int n = 0;  // used limbs (no leading zero limb); n == 0 means zero
	limb_t v[MAXL];
	int bits() const { return n == 0 ? 0 : n * LB - clz_limb(v[n - 1]); }
};

inline void mul_small(big const& a, limb_t m, big& r) {
	limb_t c = 0;
	for (int i = 0; i < a.n; ++i) {
		dlimb_t p = (dlimb_t)a.v[i] * m + c;
		r.v[i] = (limb_t)p;
		c = (limb_t)(p >> LB);
	}
	r.n = a.n;
	if (c) r.v[r.n++] = c;
	while (r.n && r.v[r.n - 1] == 0) --r.n;
}

inline void mul_u64(big const& a, std::uint64_t m, big& r) {
	if (m == 0) { r.n = 0; return; }
	if (LB == 64) { mul_small(a, (limb_t)m, r); return; }
	limb_t lo = (limb_t)m, hi = (limb_t)(m >> 32);
	if (hi == 0) { mul_small(a, lo, r); return; }
	// r = a*lo + (a*hi << 32)
	big t;
	mul_small(a, lo, r);
	mul_small(a, hi, t);
	limb_t c = 0;
	int n = t.n + 1;
	for (int i = r.n; i < n + 1; ++i) r.v[i] = 0;
	for (int i = 1; i < n; ++i) {
		dlimb_t s = (dlimb_t)r.v[i] + t.v[i - 1] + c;
		r.v[i] = (limb_t)s;
		c = (limb_t)(s >> LB);
	}
	r.v[n] = c;
	r.n = n + 1;
	while (r.n && r.v[r.n - 1] == 0) --r.n;
}

// 5^0 .. 5^MAXP5, built by repeated exact multiplication
struct pow5_table {
	big p[MAXP5 + 1];
	pow5_table() {
		p[0].n = 1; p[0].v[0] = 1;
		for (int i = 1; i <= MAXP5; ++i) mul_small(p[i - 1], 5, p[i]);
	}
};
inline pow5_table const& pow5() { static pow5_table t; return t; }

// limb of (a << sh) at index i
inline limb_t shl_limb(big const& a, int ls, int bs, int i) {
	int j = i - ls;
	limb_t hi = (j >= 0 && j < a.n) ? a.v[j] : 0;
	if (bs == 0) return hi;
	limb_t lo = (j - 1 >= 0 && j - 1 < a.n) ? a.v[j - 1] : 0;
	return (limb_t)(hi << bs) | (limb_t)(lo >> (LB - bs));
}

// sign of a*2^sa - b*2^sb
inline int cmp_shifted(big const& a, int sa, big const& b, int sb) {
	if (a.n == 0 || b.n == 0) return (a.n != 0) - (b.n != 0);
	int ba = a.bits() + sa, bb = b.bits() + sb;
	if (ba != bb) return ba < bb ? -1 : 1;
	// same bit length: shift the one with larger exponent left
	int d = sa - sb;
	int la = d > 0 ? d : 0, lb = d < 0 ? -d : 0;
	int als = la / LB, abs_ = la % LB, bls = lb / LB, bbs = lb % LB;
	int na = (a.bits() + la + LB - 1) / LB;
	for (int i = na - 1; i >= 0; --i) {
		limb_t x = shl_limb(a, als, abs_, i), y = shl_limb(b, bls, bbs, i);
		if (x != y) return x < y ? -1 : 1;
	}
	return 0;
}

// sign of  t*10^E/2  -  n*2^u      (t, n >= 0)
inline int cmp_half(std::uint64_t t, int E, std::uint64_t n, int u) {
	big A, B;
	pow5_table const& P = pow5();
	if (E >= 0) {
		mul_u64(P.p[E], t, A);
		mul_u64(P.p[0], n, B);
	} else {
		mul_u64(P.p[0], t, A);
		mul_u64(P.p[-E], n, B);
	}
	return cmp_shifted(A, E - 1, B, u);
}

// ---------------------------------------------------------------- formats
template <class F> struct fmt;
template <> struct fmt<float> {
	using U = std::uint32_t;
	static constexpr int mant = 23, expbits = 8, bias = 127;
};
template <> struct fmt<double> {
	using U = std::uint64_t;
	static constexpr int mant = 52, expbits = 11, bias = 1023;
};

enum interval { I_CLOSED, I_OPEN, I_LEFT, I_RIGHT, I_DIR_LEFT, I_DIR_RIGHT, N_INTERVAL };
enum policy { P_DONT_CARE, P_EVEN, P_ODD, P_UP, P_DOWN };

struct decoded {
	std::uint64_t m;  // x = m*2^e, m > 0
	int e;
	bool edge;        // the gap below x is half the gap above
	bool neg;
};

template <class F>
inline decoded decode(typename fmt<F>::U bits) {
	using T = fmt<F>;
	using U = typename T::U;
	decoded r;
	U frac = bits & ((U(1) << T::mant) - 1);
	int be = int((bits >> T::mant) & ((U(1) << T::expbits) - 1));
	r.neg = (bits >> (T::mant + T::expbits)) != 0;
	if (be == 0) { r.m = frac; r.e = 1 - T::bias - T::mant; }
	else { r.m = (std::uint64_t)frac | (std::uint64_t(1) << T::mant); r.e = be - T::bias - T::mant; }
	r.edge = frac == 0 && be > 1;
	return r;
}

// Verdict bits
enum : unsigned {
	V_OUTSIDE = 1,      // not inside the rounding interval: would be read back as another number
	V_NOT_SHORTEST = 2, // a decimal with fewer significant digits lies in the interval
	V_NOT_CLOSEST = 4,  // another decimal of the same length in the interval is strictly closer
	V_TIE = 8,          // equally close alternative preferred by the policy
	V_RANGE = 16,       // significand/exponent outside anything plausible (treated as all of the above)
	// information, not violations
	N_TIE_SEEN = 256,   // a genuine tie between two admissible candidates was decided
	N_LOW_EQ = 512,     // result is exactly the lower end point
	N_HIGH_EQ = 1024,   // result is exactly the upper end point
	N_EXACT = 2048,     // result is exactly x
	N_MULTI = 4096,     // more than one admissible candidate of that length
	N_TRIM_EXCL = 8192  // a shorter decimal sits exactly on an excluded end point
};

struct target {
	decoded dx;
	int u;                      // unit exponent
	std::uint64_t X, NL, NH, DLH, DRL;
	explicit target(decoded const& q) : dx(q) {
		u = q.e - 2;
		X = 4 * q.m;
		NH = X + 2;
		NL = q.edge ? X - 1 : X - 2;
		DLH = X + 4;
		DRL = q.edge ? X - 2 : X - 4;
	}
};

// Relations of one candidate (d,E) with every interval of x, computed once and shared by all modes.
struct relations {
	std::uint64_t d; int E;
	bool in_range;
	target const* T;
	// cmp of candidate with {lo, hi} of nearest and directed intervals, for
	//  d, q*10, q*10+10, d-1, d+1
	signed char near_lo[5], near_hi[5];
	signed char x_cmp[5];
	signed char dl_hi[5];      // directed-left: [x, x+ulp)
	signed char dr_lo[5];      // directed-right: (x-ulp_below, x]
	signed char half_lo, half_hi; // sign of (d-1/2)*10^E - x ; (d+1/2)*10^E - x
};

inline int sgn(int x) { return (x > 0) - (x < 0); }

inline void relate(target const& T, std::uint64_t d, int E, relations& r) {
	r.d = d; r.E = E; r.T = &T;
	r.in_range = d != 0 && d <= 999999999999999999ull && E >= -MAXP5 && E <= MAXP5 - 5;
	if (!r.in_range) return;
	pow5_table const& P = pow5();
	std::uint64_t q = d / 10 * 10;
	std::uint64_t cand[5] = { d, q, q + 10, d - 1, d + 1 };
	big bX, bNL, bNH, bDLH, bDRL;
	big const& five = P.p[E < 0 ? -E : 0];
	mul_u64(five, T.X, bX);
	mul_u64(five, T.NL, bNL);
	mul_u64(five, T.NH, bNH);
	mul_u64(five, T.DLH, bDLH);
	mul_u64(five, T.DRL, bDRL);
	big const& ten = P.p[E > 0 ? E : 0];
	for (int i = 0; i < 5; ++i) {
		big c;
		mul_u64(ten, cand[i], c);
		r.near_lo[i] = (signed char)cmp_shifted(c, E, bNL, T.u);
		r.near_hi[i] = (signed char)cmp_shifted(c, E, bNH, T.u);
		r.x_cmp[i] = (signed char)cmp_shifted(c, E, bX, T.u);
		r.dl_hi[i] = (signed char)cmp_shifted(c, E, bDLH, T.u);
		r.dr_lo[i] = (signed char)cmp_shifted(c, E, bDRL, T.u);
	}
	big h;
	mul_u64(ten, 2 * d - 1, h);
	r.half_lo = (signed char)cmp_shifted(h, E - 1, bX, T.u);
	mul_u64(ten, 2 * d + 1, h);
	r.half_hi = (signed char)cmp_shifted(h, E - 1, bX, T.u);
}

inline bool inside(relations const& r, int which, interval I, bool& on_excluded) {
	int lo, hi; bool il, ih;
	switch (I) {
	case I_CLOSED: lo = r.near_lo[which]; hi = r.near_hi[which]; il = ih = true; break;
	case I_OPEN: lo = r.near_lo[which]; hi = r.near_hi[which]; il = ih = false; break;
	case I_LEFT: lo = r.near_lo[which]; hi = r.near_hi[which]; il = true; ih = false; break;
	case I_RIGHT: lo = r.near_lo[which]; hi = r.near_hi[which]; il = false; ih = true; break;
	case I_DIR_LEFT: lo = r.x_cmp[which]; hi = r.dl_hi[which]; il = true; ih = false; break;
	default: lo = r.dr_lo[which]; hi = r.x_cmp[which]; il = false; ih = true; break;
	}
	if ((lo == 0 && !il) || (hi == 0 && !ih)) on_excluded = true;
	return (lo > 0 || (lo == 0 && il)) && (hi < 0 || (hi == 0 && ih));
}

inline unsigned judge(relations const& r, interval I, policy P) {
	if (!r.in_range) return V_RANGE | V_OUTSIDE | V_NOT_SHORTEST | V_NOT_CLOSEST | V_TIE;
	unsigned v = 0;
	bool ex = false, dummy = false;
	if (!inside(r, 0, I, dummy)) v |= V_OUTSIDE;
	std::uint64_t q = r.d / 10 * 10;
	// a multiple of 10^(E+1) inside means fewer digits, except that 9 -> 10 (one digit either way)
	bool shorter = (q != 0 && inside(r, 1, I, ex)) || (r.d >= 10 && inside(r, 2, I, ex));
	if (r.d < 10) { (void)inside(r, 2, I, ex); }
	if (v & V_OUTSIDE) {
		// not an admissible output at all; length is still judged against the neighbours
		if (shorter) v |= V_NOT_SHORTEST;
		return v;
	}
	if (shorter) v |= V_NOT_SHORTEST;
	if (ex) v |= N_TRIM_EXCL;
	bool dn = r.d > 1 && inside(r, 3, I, dummy), up = inside(r, 4, I, dummy);
	if (dn || up) v |= N_MULTI;
	int lo = (I == I_DIR_LEFT) ? r.x_cmp[0] : (I == I_DIR_RIGHT) ? r.dr_lo[0] : r.near_lo[0];
	int hi = (I == I_DIR_LEFT) ? r.dl_hi[0] : (I == I_DIR_RIGHT) ? r.x_cmp[0] : r.near_hi[0];
	if (lo == 0) v |= N_LOW_EQ;
	if (hi == 0) v |= N_HIGH_EQ;
	if (r.x_cmp[0] == 0) v |= N_EXACT;
	if (P == P_DONT_CARE) return v;
	if (r.d == 1 && r.x_cmp[0] > 0) {
		// one digit on either side of a power of ten: 9*10^(E-1) has one digit as well
		std::uint64_t lob = I == I_DIR_LEFT ? r.T->X : I == I_DIR_RIGHT ? r.T->DRL : r.T->NL;
		int s = cmp_half(18, r.E - 1, lob, r.T->u);
		bool il = I == I_CLOSED || I == I_LEFT || I == I_DIR_LEFT;
		if (s > 0 || (s == 0 && il)) {
			v |= N_MULTI;
			if (cmp_half(19, r.E - 1, r.T->X, r.T->u) > 0) v |= V_NOT_CLOSEST;
		}
	}
	if (dn && r.half_lo > 0) v |= V_NOT_CLOSEST;  // x < (d-1/2)10^E
	if (up && r.half_hi < 0) v |= V_NOT_CLOSEST;  // x > (d+1/2)10^E
	bool tdn = dn && r.half_lo == 0, tup = up && r.half_hi == 0;
	if (tdn || tup) {
		v |= N_TIE_SEEN;
		bool bad = false;
		switch (P) {
		case P_EVEN: bad = (r.d & 1) != 0; break;
		case P_ODD: bad = (r.d & 1) == 0; break;
		case P_UP: bad = tup; break;
		case P_DOWN: bad = tdn; break;
		default: break;
		}
		if (bad) v |= V_TIE;
	}
	return v;
}

static constexpr unsigned V_ANY = V_OUTSIDE | V_NOT_SHORTEST | V_NOT_CLOSEST | V_TIE | V_RANGE;

}
#endif
