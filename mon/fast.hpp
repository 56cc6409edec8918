// Fast exact comparisons: 192-bit filtered arithmetic with the multi-limb oracle as fallback.
//
// cmp(t,E,n,u) = sign( t*10^E/2 - n*2^u ).  10^E is bracketed by T*2^s <= 10^E < (T+1)*2^s with a
// 128-bit T computed from the oracle's exact powers of five; the product t*T has at most 189 bits.
// Whenever the bracket does not decide, the exact comparison of oracle.hpp is used, so the answer is
// always exact.
#ifndef VERIF_FAST_HPP
#define VERIF_FAST_HPP
#include "oracle.hpp"

namespace oracle {

static constexpr int W192 = 192 / LB, W128 = 128 / LB;

struct pow10_entry {
	limb_t T[W128];  // little endian, top bit set
	int s;           // 10^E ~ T * 2^s
	bool exact;
};

struct pow10_table {
	pow10_entry e[2 * MAXP5 + 1];
	static void top128(big const& a, pow10_entry& r, int& shift) {
		// r.T = floor(a / 2^shift), shift = bits-128 (may be negative)
		int b = a.bits();
		shift = b - 128;
		r.exact = true;
		for (int i = 0; i < W128; ++i) r.T[i] = 0;
		for (int i = 0; i < 128; ++i) {
			int pos = shift + i;
			if (pos < 0) continue;
			if ((a.v[pos / LB] >> (pos % LB)) & 1) r.T[i / LB] |= limb_t(1) << (i % LB);
		}
		for (int pos = 0; pos < shift; ++pos)
			if ((a.v[pos / LB] >> (pos % LB)) & 1) { r.exact = false; break; }
	}
	pow10_table() {
		pow5_table const& P = pow5();
		for (int E = 0; E <= MAXP5; ++E) {
			pow10_entry& r = e[MAXP5 + E];
			int sh;
			top128(P.p[E], r, sh);
			r.s = sh + E;
		}
		for (int E = 1; E <= MAXP5; ++E) {
			// 2^c / 5^E, c = bits(5^E) + 127 (5^E is no power of two): quotient has exactly 128 bits
			pow10_entry& r = e[MAXP5 - E];
			big const& d = P.p[E];
			int b = d.bits();
			for (int i = 0; i < W128; ++i) r.T[i] = 0;
			// long division bit by bit: rem starts as 2^(b-1) (< 5^E), produces 128 quotient bits
			big rem;
			rem.n = d.n;
			for (int i = 0; i < rem.n; ++i) rem.v[i] = 0;
			rem.v[(b - 1) / LB] = limb_t(1) << ((b - 1) % LB);
			for (int i = 127; i >= 0; --i) {
				// rem <<= 1
				int n = d.n + 1;
				rem.v[d.n] = 0;
				for (int k = n - 1; k >= 0; --k)
					rem.v[k] = (limb_t)(rem.v[k] << 1) | (k ? (limb_t)(rem.v[k - 1] >> (LB - 1)) : 0);
				// compare
				bool ge = rem.v[d.n] != 0;
				if (!ge) {
					ge = true;
					for (int k = d.n - 1; k >= 0; --k)
						if (rem.v[k] != d.v[k]) { ge = rem.v[k] > d.v[k]; break; }
				}
				if (ge) {
					limb_t borrow = 0;
					for (int k = 0; k < n; ++k) {
						dlimb_t y = (dlimb_t)(k < d.n ? d.v[k] : 0) + borrow;
						borrow = (dlimb_t)rem.v[k] < y;
						rem.v[k] = (limb_t)(rem.v[k] - (limb_t)y);
					}
					r.T[i / LB] |= limb_t(1) << (i % LB);
				}
			}
			r.exact = false;
			// quotient = floor(2^(b-1+128) / 5^E);  10^-E = 2^-E * 5^-E
			r.s = -(b - 1 + 128) - E;
		}
	}
};
inline pow10_table const& pow10t() { static pow10_table t; return t; }

extern thread_local unsigned long long slow_compares;

inline int bitlen64(std::uint64_t x) { return x == 0 ? 0 : 64 - __builtin_clzll(x); }

inline int cmp_fast(std::uint64_t t, pow10_entry const& q, int E, std::uint64_t n, int u) {
	if (t == 0 || n == 0) return (t != 0) - (n != 0);
	limb_t P[W192];
#if defined(__x86_64__)
	{
		unsigned __int128 lo = (unsigned __int128)q.T[0] * t;
		unsigned __int128 hi = (unsigned __int128)q.T[1] * t + (std::uint64_t)(lo >> 64);
		P[0] = (std::uint64_t)lo; P[1] = (std::uint64_t)hi; P[2] = (std::uint64_t)(hi >> 64);
	}
	int bP = P[2] ? 192 - __builtin_clzll(P[2]) : 128;  // T has its top bit set, so P >= 2^127
	if (!P[2]) bP = 128 - __builtin_clzll(P[1]);
#else
	{
		limb_t tl[2] = { (limb_t)t, (limb_t)(t >> 32) };
		for (int i = 0; i < W192; ++i) P[i] = 0;
		for (int j = 0; j < 2; ++j) {
			limb_t c = 0;
			for (int i = 0; i < W128; ++i) {
				dlimb_t x = (dlimb_t)q.T[i] * tl[j] + P[i + j] + c;
				P[i + j] = (limb_t)x; c = (limb_t)(x >> 32);
			}
			P[W128 + j] += c;
		}
	}
	int bP = 0;
	for (int i = W192 - 1; i >= 0; --i) if (P[i]) { bP = i * LB + LB - clz_limb(P[i]); break; }
#endif
	int sh = u - (q.s - 1);
	int bN = bitlen64(n) + sh;
	if (bP > bN) return 1;
	if (bP + 1 < bN) return -1;
	if (sh < 0 || bN > 192) { ++slow_compares; return cmp_half(t, E, n, u); }
	limb_t N[W192];
	{
		int ls = sh / LB, bs = sh % LB;
		for (int i = 0; i < W192; ++i) N[i] = 0;
#if defined(__x86_64__)
		N[ls] = n << bs;
		if (bs && ls + 1 < W192) N[ls + 1] = n >> (64 - bs);
#else
		limb_t nl[3] = { (limb_t)n, (limb_t)(n >> 32), 0 };
		for (int j = 0; j < 3; ++j) {
			limb_t v = bs ? (limb_t)((nl[j] << bs) | (j ? (limb_t)(nl[j - 1] >> (32 - bs)) : 0)) : nl[j];
			if (ls + j < W192) N[ls + j] = v;
		}
#endif
	}
	for (int i = W192 - 1; i >= 0; --i) {
		if (P[i] > N[i]) return 1;
		if (P[i] < N[i]) {
			if (q.exact) return -1;
			// decided if P + t <= N
			limb_t S[W192]; limb_t c = 0;
			for (int k = 0; k < W192; ++k) {
				limb_t a = k * LB < 64 ? (limb_t)(t >> (k * LB)) : 0;
				dlimb_t x = (dlimb_t)P[k] + a + c;
				S[k] = (limb_t)x; c = (limb_t)(x >> LB);
			}
			for (int k = W192 - 1; k >= 0; --k) {
				if (S[k] < N[k]) return -1;
				if (S[k] > N[k]) { ++slow_compares; return cmp_half(t, E, n, u); }
			}
			return -1;
		}
	}
	return q.exact ? 0 : 1;
}

// Lazily evaluated relations of one candidate with one input
enum cand_id { K_D, K_Q, K_Q10, K_DN, K_UP, K_HLO, K_HHI, N_CAND };
enum bound_id { B_NL, B_X, B_NH, B_DLH, B_DRL, N_BOUND };

struct lazy {
	std::uint64_t d; int E;
	bool ok;
#if defined(__x86_64__)
	// Difference 2d*10^E/2 - x, one decimal half-step and one quarter ulp, all divided by 2^(s-1+64):
	// small multiples of them decide every comparison unless the result is within the error band.
	bool quick;
	__int128 D, S, Q;
	int r10;
#endif
	pow10_entry const* q;
	signed char memo[N_CAND][N_BOUND];
	bool memo_clean;
	void set(target const& T, std::uint64_t d_, int E_) {
		d = d_; E = E_;
		ok = d != 0 && d <= 999999999999999999ull && E >= -MAXP5 && E <= MAXP5 - 5;
		if (!ok) return;
		q = &pow10t().e[MAXP5 + E];
		memo_clean = false;
#if defined(__x86_64__)
		quick = false;
		int sh = T.u - (q->s - 1);
		int bX = bitlen64(T.X);
		if (sh < 64 || bX + sh > 191) return;
		std::uint64_t t = 2 * d;
		unsigned __int128 lo = (unsigned __int128)q->T[0] * t;
		unsigned __int128 hi = (unsigned __int128)q->T[1] * t + (std::uint64_t)(lo >> 64);
		// X*2^sh has zero low limb because sh >= 64
		unsigned __int128 n = (unsigned __int128)T.X << (sh - 64);
		if ((hi >> 127) || (n >> 127)) return;  // keep clear of sign overflow
		D = (__int128)(hi - n);
		S = (__int128)q->T[1];
		Q = (__int128)1 << (sh - 64);
		r10 = int(d % 10);
		quick = true;
#endif
	}
	std::uint64_t dbl(int c) const {
		switch (c) {
		case K_D: return 2 * d;
		case K_Q: return d / 10 * 20;
		case K_Q10: return d / 10 * 20 + 20;
		case K_DN: return 2 * d - 2;
		case K_UP: return 2 * d + 2;
		case K_HLO: return 2 * d - 1;
		default: return 2 * d + 1;
		}
	}
	inline int cmp(target const& T, int c, int b) {
#if defined(__x86_64__)
		if (quick) {
			int k = c == K_D ? 0 : c == K_Q ? -2 * r10 : c == K_Q10 ? 20 - 2 * r10 : c == K_DN ? -2 : c == K_UP ? 2 : c == K_HLO ? -1 : 1;
			int j = b == B_X ? 0 : b == B_NH ? 2 : b == B_DLH ? 4 : b == B_NL ? (T.dx.edge ? -1 : -2) : (T.dx.edge ? -2 : -4);
			__int128 v = D + k * S - j * Q;
			if (v > 64) return 1;
			if (v < -64) return -1;
		}
#endif
		return exact(T, c, b);
	}
	__attribute__((noinline)) int exact(target const& T, int c, int b) {
		if (!memo_clean) { std::memset(memo, 9, sizeof memo); memo_clean = true; }
		signed char& m = memo[c][b];
		if (m == 9) {
			std::uint64_t n = b == B_NL ? T.NL : b == B_X ? T.X : b == B_NH ? T.NH : b == B_DLH ? T.DLH : T.DRL;
			m = (signed char)cmp_fast(dbl(c), *q, E, n, T.u);
		}
		return m;
	}
};

struct ends { int lo, hi; bool il, ih; };
inline ends ends_of(interval I) {
	switch (I) {
	case I_CLOSED: return { B_NL, B_NH, true, true };
	case I_OPEN: return { B_NL, B_NH, false, false };
	case I_LEFT: return { B_NL, B_NH, true, false };
	case I_RIGHT: return { B_NL, B_NH, false, true };
	case I_DIR_LEFT: return { B_X, B_DLH, true, false };
	default: return { B_DRL, B_X, false, true };
	}
}

// Same verdict bits as judge() of oracle.hpp
inline unsigned judge_fast(target const& T, lazy& r, interval I, policy P) {
	if (!r.ok) return V_RANGE | V_OUTSIDE | V_NOT_SHORTEST | V_NOT_CLOSEST | V_TIE;
	ends const e = ends_of(I);
	unsigned v = 0;
	auto ge_lo = [&](int c) { int s = r.cmp(T, c, e.lo); if (s == 0 && !e.il) v |= N_TRIM_EXCL; return s > 0 || (s == 0 && e.il); };
	auto le_hi = [&](int c) { int s = r.cmp(T, c, e.hi); if (s == 0 && !e.ih) v |= N_TRIM_EXCL; return s < 0 || (s == 0 && e.ih); };
	int lo = r.cmp(T, K_D, e.lo), hi = r.cmp(T, K_D, e.hi);
	bool in = (lo > 0 || (lo == 0 && e.il)) && (hi < 0 || (hi == 0 && e.ih));
	std::uint64_t qd = r.d / 10;
	if (!in) {
		v |= V_OUTSIDE;
		// candidate misplaced: test both shorter neighbours completely
		if ((qd != 0 && ge_lo(K_Q) && le_hi(K_Q)) || (r.d >= 10 && ge_lo(K_Q10) && le_hi(K_Q10))) v |= V_NOT_SHORTEST;
		return v;
	}
	if (qd != 0 && (qd * 10 == r.d || ge_lo(K_Q))) v |= V_NOT_SHORTEST;
	if (le_hi(K_Q10) && r.d >= 10) v |= V_NOT_SHORTEST;
	if (lo == 0) v |= N_LOW_EQ;
	if (hi == 0) v |= N_HIGH_EQ;
	int x = r.cmp(T, K_D, B_X);
	if (x == 0) { v |= N_EXACT; return v; }
	if (P == P_DONT_CARE) return v;
	int s;
	bool up = false;
	if (x < 0) {
		s = r.cmp(T, K_UP, e.hi);
		if (!(s < 0 || (s == 0 && e.ih))) return v;
		up = true;
		v |= N_MULTI;
		s = r.cmp(T, K_HHI, B_X);  // (d+1/2) - x
		if (s < 0) { v |= V_NOT_CLOSEST; return v; }
	} else {
		if (r.d <= 1) {
			// one digit on either side of a power of ten: 9*10^(E-1) has one digit as well
			s = cmp_half(18, r.E - 1, e.lo == B_NL ? T.NL : e.lo == B_X ? T.X : T.DRL, T.u);
			if (s > 0 || (s == 0 && e.il)) {
				v |= N_MULTI;
				if (cmp_half(19, r.E - 1, T.X, T.u) > 0) v |= V_NOT_CLOSEST;
			}
			return v;
		}
		s = r.cmp(T, K_DN, e.lo);
		if (!(s > 0 || (s == 0 && e.il))) return v;
		v |= N_MULTI;
		s = r.cmp(T, K_HLO, B_X);  // (d-1/2) - x
		if (s > 0) { v |= V_NOT_CLOSEST; return v; }
	}
	if (s == 0) {
		v |= N_TIE_SEEN;
		switch (P) {
		case P_EVEN: if (r.d & 1) v |= V_TIE; break;
		case P_ODD: if (!(r.d & 1)) v |= V_TIE; break;
		case P_UP: if (up) v |= V_TIE; break;
		case P_DOWN: if (!up) v |= V_TIE; break;
		default: break;
		}
	}
	return v;
}

}
#endif
