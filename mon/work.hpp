// Workload generators.  Every generator is a pure function of (seed, block index); blocks are handed
// to threads from an atomic counter, so the set of inputs visited does not depend on scheduling.
// A generator calls visit(mag) with the bits of a positive finite nonzero number.
#ifndef VERIF_WORK_HPP
#define VERIF_WORK_HPP
#include "fast.hpp"
#include <cstdlib>
#include <cstdio>
#include <cmath>

namespace work {
using u64 = std::uint64_t;
using u32 = std::uint32_t;

inline u64 mix(u64 z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
struct rng {
	u64 s;
	explicit rng(u64 a, u64 b = 0, u64 c = 0) : s(mix(mix(mix(a) ^ b) ^ (c * 0x9e3779b97f4a7c15ull))) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
};

template <class F> struct lim {
	using U = typename oracle::fmt<F>::U;
	static constexpr int mant = oracle::fmt<F>::mant;
	static constexpr int maxbe = (1 << oracle::fmt<F>::expbits) - 1;  // biased exponent of inf
	static constexpr U inf = U(maxbe) << mant;
	static constexpr U frac = (U(1) << mant) - 1;
};

// ---- structured significands in every binade
template <class F> struct w_struct {
	using L = lim<F>; using U = typename L::U;
	u64 seed; int nrand;
	u64 blocks() const { return L::maxbe; }
	template <class V> void run(u64 blk, V&& v) const {
		U base = U(blk) << L::mant;
		auto go = [&](U f) { U b = base | (f & L::frac); if (b) v(b); };
		for (int i = 0; i < 12; ++i) { go(U(i)); go(L::frac - U(i)); }
		for (int i = 0; i < L::mant; ++i) {
			U p = U(1) << i;
			go(p); go(p - 1); go(p + 1); go(L::frac ^ p); go(L::frac ^ (p - 1)); go(p | (p >> 1));
			go(L::frac << i); go((L::frac << i) + 1); go((L::frac << i) - 1);
		}
		go((U)0x5555555555555555ull); go((U)0xaaaaaaaaaaaaaaaaull); go((U)0x3333333333333333ull);
		rng r(seed, blk, 11);
		for (int i = 0; i < nrand; ++i) {
			u64 z = r.next();
			U f = U(z >> (64 - L::mant));
			switch (z & 7) {
			case 0: f = U(f << (r.next() % L::mant)); break;                         // many trailing zeros
			case 1: f = U(f >> (r.next() % L::mant)); break;                         // many leading zeros
			case 2: { int k = r.next() % L::mant; f = U((f << k) | ((U(1) << k) - 1)); break; } // trailing ones
			default: break;
			}
			go(f);
		}
	}
};

// ---- uniformly random bit patterns (3 of 4) and patterns of everyday magnitude (1 of 4)
template <class F> struct w_rand {
	using L = lim<F>; using U = typename L::U;
	u64 seed; u64 nblk;
	static constexpr u64 per = 1 << 14;
	u64 blocks() const { return nblk; }
	template <class V> void run(u64 blk, V&& v) const {
		rng r(seed, blk, 22);
		for (u64 i = 0; i < per; ++i) {
			u64 z = r.next();
			U b;
			if ((i & 3) == 3) {
				int bias = oracle::fmt<F>::bias;
				int span = sizeof(F) == 4 ? 60 : 140;
				int be = bias - span / 2 + int(r.next() % span);
				b = (U(be) << L::mant) | (U(z) & L::frac);
			} else b = U(z) & (U(~U(0)) >> 1);
			if (b == 0 || b >= L::inf) continue;
			v(b);
		}
	}
};

// ---- all magnitudes b = off + step*i
template <class F> struct w_stride {
	using L = lim<F>; using U = typename L::U;
	u64 step, off;
	static constexpr u64 per = 1 << 18;
	u64 total() const { return ((u64)L::inf - 1 - off) / step + 1; }
	u64 blocks() const { return (total() + per - 1) / per; }
	template <class V> void run(u64 blk, V&& v) const {
		u64 n = total();
		for (u64 i = blk * per; i < (blk + 1) * per && i < n; ++i) {
			U b = U(off + step * i);
			if (b) v(b);
		}
	}
};

template <class F> inline F from_dec(char const* s);
template <> inline float from_dec<float>(char const* s) { return std::strtof(s, nullptr); }
template <> inline double from_dec<double>(char const* s) { return std::strtod(s, nullptr); }
template <class F> inline typename lim<F>::U bits_of(F x) { typename lim<F>::U b; std::memcpy(&b, &x, sizeof x); return b; }

// ---- short decimals and their neighbours, every decimal exponent
template <class F> struct w_dec {
	using L = lim<F>; using U = typename L::U;
	u64 seed; int reps; int small;
	static constexpr int Emin = sizeof(F) == 4 ? -64 : -345, Emax = sizeof(F) == 4 ? 39 : 309;
	u64 blocks() const { return Emax - Emin + 1; }
	template <class V> void run(u64 blk, V&& v) const {
		int E = Emin + int(blk);
		rng r(seed, blk, 33);
		auto go = [&](u64 d, int e, int span) {
			char s[48];
			std::snprintf(s, sizeof s, "%llue%d", (unsigned long long)d, e);
			F x = from_dec<F>(s);
			U b = bits_of(x);
			for (int k = -span; k <= span; ++k) {
				U c = b + U(k);
				if (c == 0 || c >= L::inf) continue;
				v(c);
			}
		};
		for (int d = 1; d <= small; ++d) go(d, E, 1);
		u64 p = 1;
		for (int n = 1; n <= (sizeof(F) == 4 ? 9 : 17); ++n) {
			for (int i = 0; i < reps; ++i) {
				u64 d = p + r.below(9 * p);
				go(d, E - n + 1, 2);
				if (i & 1) go(d / 5 * 5, E - n + 1, 2);
			}
			go(p, E - n + 1, 2); go(p * 10 - 1, E - n + 1, 2); go(p * 5, E - n + 1, 2); go(p + 1, E - n + 1, 2);
			// half-way between two n-digit decimals
			for (int i = 0; i < reps / 2; ++i) go((p + r.below(9 * p)) * 10 + 5, E - n, 2);
			p *= 10;
		}
	}
};

// ---- values s * 5^j * 2^t : integers, half-integers, exact products
template <class F> struct w_int {
	using L = lim<F>; using U = typename L::U;
	u64 seed; int reps;
	static constexpr int J = sizeof(F) == 4 ? 13 : 26;
	u64 blocks() const { return J + 64; }
	template <class V> void run(u64 blk, V&& v) const {
		rng r(seed, blk, 44);
		auto go = [&](u64 m, int t, int span) {
			// m * 2^t as bits, if representable
			if (m == 0) return;
			int b = oracle::bitlen64(m);
			if (b > L::mant + 1) return;
			int e = t + b - 1;  // value in [2^e, 2^(e+1))
			int be = e + oracle::fmt<F>::bias;
			if (be < 1 || be >= L::maxbe) return;
			U bits = (U(be) << L::mant) | (U(m << (L::mant + 1 - b)) & L::frac);
			for (int k = -span; k <= span; ++k) { U c = bits + U(k); if (c && c < L::inf) v(c); }
		};
		if (blk < (u64)J) {
			u64 p = 1;
			for (u64 i = 0; i < blk; ++i) p *= 5;
			int pb = oracle::bitlen64(p);
			for (int sb = 1; sb + pb <= L::mant + 2; ++sb) for (int i = 0; i < reps; ++i) {
				u64 s = (r.next() >> (64 - sb)) | (1ull << (sb - 1));
				int t = -160 + int(r.below(320));
				go(s * p, t, 1);
				go(s * p, -int(blk) - int(r.below(12)), 1);
				go(s * p, int(r.below(80)) - int(L::mant), 1);
				go(s * p | 1, t, 1);
			}
			for (u64 s = 1; s < 200; ++s) for (int t = -40; t <= 90; t += 1) go(s * p, t, 0);
		} else {
			// small integers and dyadic fractions, powers of ten and neighbours
			u64 k = blk - J;
			for (u64 n = 1 + k * 2000; n < 1 + (k + 1) * 2000; ++n) {
				for (int t = 0; t >= -6; --t) go(n, t, 0);
				go(n * 10, 0, 1); go(n * 1000, 0, 1); go(n * 100000, 0, 1); go(n * 1000000000ull, 0, 1);
				go(n * 10000000000ull, 0, 1); go(n * 1000000000000ull, 0, 1);
			}
		}
	}
};

// ---- inputs known to need unusual paths
template <class F> struct w_known {
	using L = lim<F>; using U = typename L::U;
	u64 blocks() const { return 1; }
	template <class V> void run(u64, V&& v) const {
		static u64 const kd[] = { 0x1200000000000000ull, 0x1ee0000000000000ull, 0x2a80000000000000ull, 0x4d60000000000000ull,
			0x3730000000000000ull, 0x0010000000000000ull, 0x7fefffffffffffffull, 1, 0x000fffffffffffffull,
			0x3fefffffffffffffull, 0x461fffffffffffffull, 0x0010000000000040ull, 0x4340000000000000ull, 0x44b52d02c7e14af6ull,
			0x3eb0c6f7a0b5ed8dull, 0x0000000000000002ull, 0x0000000000000003ull, 0x0002cc7a1dec5aa7ull, 0x2be0000000000000ull,
			0x2be0000000000001ull, 0x5d4d1f2c8ddd1b6bull };
		static u64 const kf[] = { 0x6c800000, 0x00022dc0, 0x00800000, 0x7f7fffff, 1, 2, 3, 0x007fffff, 0x3f7fffff, 0x4b800000, 0x5f000000, 0x1a800000 };
		if (sizeof(F) == 8) { for (u64 b : kd) for (int k = -3; k <= 3; ++k) { U c = U(b) + U(k); if (c && c < L::inf) v(c); } }
		else for (u64 b : kf) for (int k = -3; k <= 3; ++k) { U c = U(b) + U(k); if (c && c < L::inf) v(c); }
		for (U b = 1; b < 4000; ++b) v(b);
	}
};

// ---- subnormals of every magnitude
template <class F> struct w_sub {
	using L = lim<F>; using U = typename L::U;
	u64 seed; int reps;
	u64 blocks() const { return L::mant; }
	template <class V> void run(u64 blk, V&& v) const {
		rng r(seed, blk, 55);
		U top = U(1) << blk;
		for (int i = 0; i < reps; ++i) { U b = top | (U(r.next()) & (top - 1)); v(b); }
	}
};

#if defined(__SIZEOF_INT128__)
// ---- hard cases: (n/2)*2^e with n/2 = m or m+1/2 lying closest to a multiple of 10^E or 10^E/2.
// Enumerates the n in [N0,N1) with frac(n*alpha) within W/2 of an integer, alpha = 2^(e-1)/10^E (grid 0)
// or 2^e/10^E (grid 1), through the induced rotation on the window (three-gap structure).
template <class F> struct w_hard {
	using L = lim<F>; using U = typename L::U;
	using u128 = unsigned __int128;
	u64 seed; int K;      // expected hits per (binade, E, grid)
	u64 blocks() const { return L::maxbe - 1 + L::mant; }
	template <class V> void run(u64 blk, V&& v) const {
		rng r(seed, blk, 66);
		int e, jb;
		if (blk < (u64)L::maxbe - 1) { e = int(blk) + 1 - oracle::fmt<F>::bias - L::mant; jb = L::mant + 1; }
		else { e = 1 - oracle::fmt<F>::bias - L::mant; jb = int(blk - (L::maxbe - 1)) + 1; }
		// m in [2^(jb-1), 2^jb) ; n = 2m or 2m+1 in [2^jb, 2^(jb+1))
		u64 N0 = 1ull << jb, N1 = N0 << 1;
		double l10 = 0.30102999566398119521;
		int Elo = int(std::floor(e * l10)) - 2, Ehi = int(std::floor((e + jb) * l10)) + 1;
		for (int E = Elo; E <= Ehi; ++E) for (int grid = 0; grid < 2; ++grid) {
			u128 a;
			if (!alpha(e - 1 + grid, E, a)) continue;
			hits(a, N0, N1, r, [&](u64 n) {
				u64 m = n >> 1;
				for (int k = -1; k <= 1; ++k) {
					u64 q = m + k;
					U b;
					if (blk < (u64)L::maxbe - 1) b = (U(blk + 1) << L::mant) + U(q - (1ull << L::mant));
					else b = U(q);
					if (b == 0 || b >= L::inf) continue;
					v(b);
				}
			});
		}
	}
	// frac(2^p / 10^E) in 128-bit fixed point
	static bool alpha(int p, int E, u128& a) {
		if (-E > oracle::MAXP5 || -E < -oracle::MAXP5) return false;
		auto const& q = oracle::pow10t().e[oracle::MAXP5 - E];
		u128 T = ((u128)q.T[1] << 64) | q.T[0];
		int sh = q.s + p + 128;
		if (sh >= 128) a = 0;
		else if (sh >= 0) a = T << sh;
		else if (sh > -128) { a = T >> -sh; if ((T >> (-sh - 1)) & 1) ++a; }
		else a = 0;
		return true;
	}
	template <class V> void hits(u128 a, u64 N0, u64 N1, rng& r, V&& v) const {
		u64 cap = 8ull * K + 16;
		int lg = oracle::bitlen64(N1) - 1;
		u128 W = (u128)K << (128 - lg);
		if (a == 0) { for (int i = 0; i < K; ++i) v(N0 + r.below(N1 - N0)); return; }
		u128 pv = a, qv = (u128)0 - a;
		u64 pn = 1, qn = 1;
		u64 const big = 1ull << 58;
		while ((pv >= W || qv >= W) && pn < big && qn < big) {
			if (pv > qv) {
				u128 k = 1;
				if (qv) { u128 need = pv >= W ? (pv - W) / qv + 1 : 1; u128 mx = (pv - 1) / qv; k = need < mx ? need : mx; if (k == 0) k = 1; }
				if (qv == 0) { break; }
				u128 nn = (u128)pn + k * qn;
				if (k > big || nn > big) { pn = big; break; }
				pv -= k * qv; pn = (u64)nn;
			} else {
				u128 k = 1;
				if (pv == 0) break;
				{ u128 need = qv >= W ? (qv - W) / pv + 1 : 1; u128 mx = (qv - 1) / pv; k = need < mx ? need : mx; if (k == 0) k = 1; }
				u128 nn = (u128)qn + k * pn;
				if (k > big || nn > big) { qn = big; break; }
				qv -= k * pv; qn = (u64)nn;
			}
		}
		u64 pm = pn < qn ? pn : qn;
		if (pn >= big || qn >= big || N1 / pm > cap * 4) {
			// (nearly) periodic: many hits; sample multiples of the shorter return time
			u64 per = pn >= big ? qn : qn >= big ? pn : pm;
			if (per >= N1) return;
			u64 lo = (N0 + per - 1) / per, hi = (N1 - 1) / per;
			if (hi < lo) return;
			if (hi - lo < (u64)K) { for (u64 t = lo; t <= hi; ++t) v(t * per); return; }
			for (int i = 0; i < K; ++i) v((lo + r.below(hi - lo + 1)) * per);
			return;
		}
		u64 n = 0, cnt = 0;
		u128 x = W / 2;
		while (n < N1 && cnt < cap * 4) {
			++cnt;
			if (n >= N0) v(n);
			if (x + pv < W) { x += pv; n += pn; }
			else if (x >= qv) { x -= qv; n += qn; }
			else { x += pv; x -= qv; n += pn + qn; }
		}
	}
};
#endif

// ---- inputs read from a binary file of little-endian 64-bit words (used by builds without 128-bit integers)
template <class F> struct w_file {
	using L = lim<F>; using U = typename L::U;
	std::vector<u64> const* data;
	static constexpr u64 per = 4096;
	u64 blocks() const { return (data->size() + per - 1) / per; }
	template <class V> void run(u64 blk, V&& v) const {
		for (u64 i = blk * per; i < (blk + 1) * per && i < data->size(); ++i) {
			U b = U((*data)[i]);
			if (b && b < L::inf) v(b);
		}
	}
};
}
#endif
