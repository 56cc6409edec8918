// Monitor of the internal helpers (C18 logarithms, C19 stored powers, C20 wide arithmetic and divisibility).
// Oracles: arbitrary-precision naturals built here by repeated exact multiplication, and oracle::cmp_half.
#include "runner.hpp"
#include "helpers.hpp"
helpers H;

// ---------------------------------------------------------------- arbitrary-precision naturals (base 2^32)
using nat = std::vector<std::uint32_t>;
static void nmul(nat& a, std::uint32_t m) { u64 c = 0; for (auto& x : a) { c += u64(x) * m; x = std::uint32_t(c); c >>= 32; } if (c) a.push_back(std::uint32_t(c)); }
static int nbits(nat const& a) { return a.empty() ? 0 : int(a.size() - 1) * 32 + 32 - __builtin_clz(a.back()); }
static bool nbit(nat const& a, int i) { return i >= 0 && (a[i / 32] >> (i % 32) & 1); }

// bit lengths of 5^0, 5^1, ...  (10^j has j more)
static std::vector<int> const& len5(int upto) {
	static std::vector<int> v; static nat p{ 1 };
	while ((int)v.size() <= upto) { v.push_back(nbits(p)); nmul(p, 5); }
	return v;
}
static int fl_neg(int fl_pos) { return -fl_pos - 1; }   // floor(-x) for non-integer x
// floor(e*log10 2): largest j with 10^j <= 2^e, i.e. bitlength(10^j) <= e for j > 0
static std::vector<int> tab_log10(int n) { std::vector<int> v; int j = 0; for (int e = 0; e <= n; ++e) { while (len5(j + 1)[j + 1] + j + 1 <= e) ++j; v.push_back(j); } return v; }
static std::vector<int> tab_log5(int n) { std::vector<int> v; int j = 0; for (int e = 0; e <= n; ++e) { while (len5(j + 1)[j + 1] <= e) ++j; v.push_back(j); } return v; }
static std::vector<int> tab_log2(int n) { std::vector<int> v; for (int e = 0; e <= n; ++e) v.push_back(len5(e)[e] - 1 + e); return v; }

static void seen(ctx& c, u64 key) { c.distinct_d.push_back(key); }
static void logs() {
	ctx& c = C[0]; c.slot = &guard::me();
	struct { char const* name; int range; std::vector<int> t; int (*f[2])(int); int const* cst; int step, n; } S[3] = {
		{ "floor_log10_pow2", 1650, tab_log10(1650), { H.log10_pow2[0], H.log10_pow2[1] }, H.c_log10_pow2, 1, 3301 },
		{ "floor_log2_pow10", 642, tab_log2(642), { H.log2_pow10[0], H.log2_pow10[1] }, H.c_log2_pow10, 1, 1285 },
		{ "floor_log5_pow2", 65536, tab_log5(65536), { H.log5_pow2[0], H.log5_pow2[1] }, H.c_log5_pow2, H.c_log5_step, H.c_log5_n } };
	for (int k = 0; k < 3; ++k) {
		auto& s = S[k];
		auto expect = [&](int e) { return e >= 0 ? s.t[e] : fl_neg(s.t[-e]); };
		for (int a = 0; a < 2; ++a) if (s.f[a]) for (int e = -s.range; e <= s.range; ++e) {
			guard::enter(*c.slot, k, a, 0, 0, 4, u64(std::int64_t(e)));
			int g = s.f[a](e);
			guard::leave(*c.slot);
			++c.evals; ++c.inputs; ++c.ev[k];
			if (a && e) seen(c, u64(k) << 32 | std::uint32_t(e));
			if (g != expect(e)) c.bad_msg("helper=%s%s arg=%d got=%d exact=%d", s.name, a ? "" : "<false>", e, g, expect(e));
			if (c.samples.size() < 6 && a && (e == -s.range || e == s.range)) { char b[120]; std::snprintf(b, sizeof b, "%s(%d) = %d", s.name, e, g); c.samples.push_back(b); }
		}
		if (s.cst) for (int i = 0; i < s.n; ++i) {
			int e = i * s.step - s.range;
			++c.evals; ++c.ev[3];
			if (s.cst[i] != expect(e)) c.bad_msg("helper=%s(constant-evaluated) arg=%d got=%d exact=%d", s.name, e, s.cst[i], expect(e));
		}
	}
}

// ---------------------------------------------------------------- stored powers of ten
// Top 64 / 128 bits of 10^k.  k >= 0: floor.  k < 0: ceil(2^s / 10^-k) with the top bit at place 63 / 127,
// obtained by exact schoolbook division of a power of two.
static w128 exact_power(int k, int bits) {
	nat p{ 1 };
	int a = k < 0 ? -k : k;
	for (int i = 0; i < a; ++i) nmul(p, 5);
	if (k >= 0) {
		w128 r{ 0, 0 };
		int n = nbits(p);
		for (int i = 0; i < bits; ++i) {
			bool b = nbit(p, n - 1 - i);
			int pos = 127 - i;
			if (b) { if (pos >= 64) r.hi |= 1ull << (pos - 64); else r.lo |= 1ull << pos; }
		}
		return r;
	}
	// bitwise long division: remainder r, r = 2*r - b; first quotient bit is produced when 2^t >= p
	nat rem{ 1 };
	auto ge = [&](nat const& x) { if (nbits(x) != nbits(p)) return nbits(x) > nbits(p); for (size_t i = x.size(); i-- > 0;) if (x[i] != p[i]) return x[i] > p[i]; return true; };
	while (!ge(rem)) nmul(rem, 2);
	w128 q{ 0, 0 };
	for (int i = 0; i < bits; ++i) {
		int pos = 127 - i;
		if (ge(rem)) {
			if (pos >= 64) q.hi |= 1ull << (pos - 64); else q.lo |= 1ull << pos;
			std::int64_t br = 0;
			for (size_t j = 0; j < rem.size(); ++j) { std::int64_t d = std::int64_t(rem[j]) - (j < p.size() ? p[j] : 0) + br; rem[j] = std::uint32_t(d); br = d >> 32; }
			while (!rem.empty() && rem.back() == 0) rem.pop_back();
		}
		if (!rem.empty()) nmul(rem, 2);
	}
	// 10^k (k<0) is never representable: round up
	if (bits == 64) ++q.hi; else { if (++q.lo == 0) ++q.hi; }
	return q;
}
static void cache() {
	ctx& c = C[0]; c.slot = &guard::me();
	for (int t = 0; t < 2; ++t) {
		if (!H.cache[t] && !H.c_cache[t]) continue;
		u64 n = 0, wrong = 0; std::vector<std::string> msgs;
		for (int k = H.min_k[t]; k <= H.max_k[t]; ++k) {
			w128 x = exact_power(k, t ? 128 : 64);
			for (int form = 0; form < 2; ++form) {
				w128 g;
				if (form) { if (!H.c_cache[t]) continue; g = H.c_cache[t][k - H.min_k[t]]; }
				else {
					if (!H.cache[t]) continue;
					guard::enter(*c.slot, t, 0, 0, 0, 4, u64(std::int64_t(k)));
					g = H.cache[t](k);
					guard::leave(*c.slot);
				}
				++c.evals; ++c.ev[form]; ++n;
				if (!form) { ++c.inputs; seen(c, u64(t) << 32 | std::uint32_t(k)); }
				std::uint64_t top = t ? g.hi : g.hi;
				if (g.hi != x.hi || (t && g.lo != x.lo) || !(top >> 63))
				{
					++wrong; char b[300];
					std::snprintf(b, sizeof b, "helper=get_cache<%s>%s arg=%d got=%016llx%016llx exact=%016llx%016llx", t ? "double" : "float", form ? "(constant-evaluated)" : "", k,
						(unsigned long long)g.hi, (unsigned long long)g.lo, (unsigned long long)x.hi, (unsigned long long)x.lo);
					msgs.push_back(b);
				}
				if (!form && (k == H.min_k[t] || k == H.max_k[t])) { char b[160]; std::snprintf(b, sizeof b, "10^%d (%s) = %016llx%016llx", k, t ? "double" : "float", (unsigned long long)g.hi, (unsigned long long)g.lo); c.samples.push_back(b); }
			}
		}
		// wrong nearly everywhere: the table is asked for by another convention now (see loose_t)
		if (wrong * 10 > n * 9) std::printf("STAT convention_changed_get_cache_%s 1\n", t ? "double" : "float");
		else for (auto& m : msgs) c.bad_msg("%s", m.c_str());
		std::printf("STAT stored_powers_%s %d\n", t ? "double" : "float", H.max_k[t] - H.min_k[t] + 1);
	}
}
// every exponent the conversions ask for: all binades, all end-point shapes, both signs, all modes
static void range() {
	std::atomic<int> next{ 0 };
	std::vector<std::thread> th;
	for (int t = 0; t < O.threads; ++t) th.emplace_back([&, t] {
		ctx& c = C[t]; c.slot = &guard::me();
		auto drive = [&](auto* tag, u64 base) {
			using F = std::remove_pointer_t<decltype(tag)>; using L = work::lim<F>; using U = typename L::U;
			work::rng r(O.seed, base, 5);
			U fs[40]; int n = 0;
			for (U f : { U(0), U(1), U(2), U(3), L::frac, U(L::frac - 1), U(L::frac >> 1), U(L::frac ^ (L::frac >> 1)), U(L::frac / 3), U(L::frac / 5) }) fs[n++] = f;
			while (n < 20) fs[n++] = U(r.next()) & L::frac;
			for (int i = 0; i < n; ++i) for (int s = 0; s < 2; ++s) {
				U bits = U(base << L::mant) | fs[i];
				if (!bits) continue;
				seen(c, u64(sizeof(F)) << 60 ^ u64(bits));
				++c.inputs;
				if (s) bits |= U(1) << (sizeof(U) * 8 - 1);
				for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) for (int rs = 0; rs < 2; ++rs) if (tab<F>().conv[rs][m][p]) {
					cres a = calls<F>::conv(c, rs, m, p, bits); ++c.ev[2]; (void)a;
				}
			}
		};
		for (int i; (i = next++) < 255 + 2047;) if (i < 255) drive((float*)nullptr, i); else drive((double*)nullptr, i - 255);
	});
	for (auto& x : th) x.join();
}

// ---------------------------------------------------------------- wide multiplications
// reference product in base 2^16 (independent of any wider multiplication the compiler or library uses)
struct prod { std::uint64_t w[3]; };   // 192 bits, little endian
static prod ref_mul(std::uint64_t x, w128 y) {
	std::uint16_t a[4], b[8]; std::uint64_t acc[13] = {};
	for (int i = 0; i < 4; ++i) a[i] = std::uint16_t(x >> (16 * i));
	for (int i = 0; i < 4; ++i) { b[i] = std::uint16_t(y.lo >> (16 * i)); b[4 + i] = std::uint16_t(y.hi >> (16 * i)); }
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 8; ++j) acc[i + j] += std::uint64_t(std::uint32_t(a[i]) * std::uint32_t(b[j]));
	prod r{};
	std::uint64_t carry = 0;
	for (int i = 0; i < 12; ++i) { carry += acc[i]; r.w[i / 4] |= (carry & 0xffff) << (16 * (i % 4)); carry >>= 16; }
	return r;
}
static std::vector<std::uint64_t> operands() {
	std::vector<std::uint64_t> v{ 0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0xffffffff00000000ull, 0x00000000ffffffffull, 0xffff0000ffff0000ull, 0x0000ffffffff0000ull };
	for (int i = 0; i < 64; ++i) { u64 p = 1ull << i; v.push_back(p); v.push_back(p - 1); v.push_back(p + 1); v.push_back(~p); v.push_back(~(p - 1)); }
	u64 q = 1; for (int i = 0; i < 27; ++i) { v.push_back(q); v.push_back(q - 1); q *= 5; }
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
static u64 wild(work::rng& r) {
	u64 z = r.next();
	switch (r.next() & 7) {
	case 0: return z >> (r.next() & 63);
	case 1: return z << (r.next() & 63);
	case 2: return z | 0xffffffff00000000ull;
	case 3: return z | 0xffffffffull;
	case 4: { u64 a = r.next() & 63, b = r.next() & 63; return (~0ull >> a) & (~0ull << b); }
	case 5: { u64 a = r.next() & 63; return ~((~0ull >> a) & z); }
	default: return z;
	}
}
// Helpers below the level of whole products take parameters by internal convention (which half of a
// sum is passed, whether a shift is passed negated).  One that is wrong on most arguments tried has a
// different convention now, which is nobody's business but the library's: its answers are then not
// judged.  One that is wrong on some is a defect.
struct loose_t {
	std::atomic<u64> n{ 0 }, bad{ 0 };
	std::vector<std::string> msgs;
	void hit(char const* fmt, ...) __attribute__((format(printf, 2, 3))) {
		if (++bad > 2000) return;
		char b[400]; va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		std::lock_guard<std::mutex> g(bad_mutex);
		if (msgs.size() < 12) msgs.push_back(b);
	}
} loose[6];   // compute_mul, compute_delta, equal_fractional_parts (float, double)
static thread_local u64 loose_n[6];
static void flush_loose() { for (int i = 0; i < 6; ++i) { loose[i].n += loose_n[i]; loose_n[i] = 0; } }
static char const* loose_name[6] = { "compute_mul_float", "compute_mul_double", "compute_delta_float", "compute_delta_double", "equal_fractional_parts_float", "equal_fractional_parts_double" };
static void settle(ctx& c) {
	for (int i = 0; i < 6; ++i) {
		auto& l = loose[i];
		if (!l.bad) continue;
		if (l.bad * 2 > l.n) { std::printf("STAT convention_changed_%s 1\n", loose_name[i]); continue; }
		for (auto& m : l.msgs) c.bad_msg("%s (%llu of %llu evaluations)", m.c_str(), (unsigned long long)l.bad.load(), (unsigned long long)l.n.load());
	}
}
static void mul_one(ctx& c, u64 x, w128 y) {
	prod p1 = ref_mul(x, { 0, y.hi }), p3 = ref_mul(x, y);
	++c.inputs;
	auto E = [&](int k) { guard::enter(*c.slot, 1, 0, k, 0, 4, x); ++c.evals; ++c.ev[k & 7]; };
	auto ll = [](u64 v) { return (unsigned long long)v; };
	if (H.umul128) { E(0); w128 g = H.umul128(x, y.hi); guard::leave(*c.slot); if (g.hi != p1.w[1] || g.lo != p1.w[0]) c.bad_msg("helper=umul128 args=%llx,%llx got=%016llx%016llx exact=%016llx%016llx", ll(x), ll(y.hi), ll(g.hi), ll(g.lo), ll(p1.w[1]), ll(p1.w[0])); }
	if (H.umul128_upper64) { E(1); u64 g = H.umul128_upper64(x, y.hi); guard::leave(*c.slot); if (g != p1.w[1]) c.bad_msg("helper=umul128_upper64 args=%llx,%llx got=%llx exact=%llx", ll(x), ll(y.hi), ll(g), ll(p1.w[1])); }
	if (H.umul192_upper64) { E(2); u64 g = H.umul192_upper64(x, y); guard::leave(*c.slot); if (g != p3.w[2]) c.bad_msg("helper=umul192_upper64 args=%llx,%llx:%llx got=%llx exact=%llx", ll(x), ll(y.hi), ll(y.lo), ll(g), ll(p3.w[2])); }
	std::uint32_t x32 = std::uint32_t(x >> 32 ^ x), y32 = std::uint32_t(y.hi >> 7);
	if (x >> 32 == 0) x32 = std::uint32_t(x);
	if (H.umul64) { E(3); u64 g = H.umul64(x32, y32); guard::leave(*c.slot); u64 e = ref_mul(x32, { 0, y32 }).w[0]; if (g != e) c.bad_msg("helper=umul64 args=%x,%x got=%llx exact=%llx", x32, y32, ll(g), ll(e)); }
	prod p2 = ref_mul(x32, { 0, y.hi });
	if (H.umul96_upper32) { E(4); std::uint32_t g = H.umul96_upper32(x32, y.hi); guard::leave(*c.slot); if (g != p2.w[1]) c.bad_msg("helper=umul96_upper32 args=%x,%llx got=%x exact=%llx", x32, ll(y.hi), g, ll(p2.w[1])); }
	// scaled products: floor(f * cache / 2^(64 or 128)) >> minus_beta
	if (y.hi >> 63 && !O.opt) for (int mb = 1; mb <= 6; ++mb) {
		if (H.mul[0]) { E(5); u64 g = H.mul[0](x32, { y.hi, 0 }, mb); guard::leave(*c.slot); ++loose_n[0]; if (g != (p2.w[1] >> mb)) loose[0].hit("helper=compute_mul<float> args=%x,%llx,%d got=%llx exact=%llx", x32, ll(y.hi), mb, ll(g), ll(p2.w[1] >> mb)); }
		if (H.mul[1]) { E(5); u64 g = H.mul[1](x, y, mb); guard::leave(*c.slot); ++loose_n[1]; if (g != p3.w[2] >> mb) loose[1].hit("helper=compute_mul<double> args=%llx,%llx:%llx,%d got=%llx exact=%llx", ll(x), ll(y.hi), ll(y.lo), mb, ll(g), ll(p3.w[2] >> mb)); }
	}
	if (c.distinct_d.size() < (2u << 20)) seen(c, mix(x) ^ mix(y.hi + 7) ^ (y.lo * 3));
}
static bool ref_div5(u64 x, unsigned e) { u64 p = 1; while (e--) { if (p > ~0ull / 5) return x == 0; p *= 5; } return x % p == 0; }
static bool ref_div2(u64 x, int e) { for (int i = 0; i < e; ++i) { if (i >= 64 || (x >> i & 1)) return false; } return true; }
static void div_one(ctx& c, u64 x) {
	++c.inputs;
	std::uint32_t x32 = x >> 32 ? std::uint32_t(x >> 32 ^ x) : std::uint32_t(x);
	auto ll = [](u64 v) { return (unsigned long long)v; };
	if (x && H.div2_64) for (int e = 1; e <= 70; ++e) { guard::enter(*c.slot, 1, 0, 10, e, 4, x); bool g = H.div2_64(x, e); guard::leave(*c.slot); ++c.evals; ++c.ev[6]; if (g != ref_div2(x, e)) c.bad_msg("helper=divisible_by_power_of_2<64> args=%llx,%d got=%d", ll(x), e, g); }
	if (x32 && H.div2_32) for (int e = 1; e <= 40; ++e) { guard::enter(*c.slot, 0, 0, 10, e, 4, x32); bool g = H.div2_32(x32, e); guard::leave(*c.slot); ++c.evals; ++c.ev[6]; if (g != ref_div2(x32, e)) c.bad_msg("helper=divisible_by_power_of_2<32> args=%x,%d got=%d", x32, e, g); }
	int n5 = H.n5_64 ? H.n5_64 : 24, n3 = H.n5_32 ? H.n5_32 : 11;
	if (H.div5_64) for (int e = 0; e < n5; ++e) { guard::enter(*c.slot, 1, 0, 11, e, 4, x); bool g = H.div5_64(x, e); guard::leave(*c.slot); ++c.evals; ++c.ev[7]; if (g != ref_div5(x, e)) c.bad_msg("helper=divisible_by_power_of_5<64> args=%llx,%d got=%d", ll(x), e, g); }
	if (H.div5_32) for (int e = 0; e < n3; ++e) { guard::enter(*c.slot, 0, 0, 11, e, 4, x32); bool g = H.div5_32(x32, e); guard::leave(*c.slot); ++c.evals; ++c.ev[7]; if (g != ref_div5(x32, e)) c.bad_msg("helper=divisible_by_power_of_5<32> args=%x,%d got=%d", x32, e, g); }
	if (c.distinct_d.size() < (2u << 20)) seen(c, mix(x) ^ 0x999);
}
// use(t, exponent): what the conversions compute for one binade, against exact rational arithmetic
static void use(ctx& c, int t, int e, u64 seed) {
	if (!H.have_info) return;
	int q = H.q[t], p = H.p[t];
	auto ll = [](u64 v) { return (unsigned long long)v; };
	// the power the conversions would use: 2^(e+1) * 10^k within [2^alpha, 2^(gamma+1)) by the documented choice of k
	static std::vector<int> const l10 = tab_log10(1650), l2 = tab_log2(642);
	int a = e + 1 - H.alpha[t];
	int mk = a >= 0 ? l10[a] : fl_neg(l10[-a]);
	int k = -mk, l = k >= 0 ? l2[k] : fl_neg(l2[-k]);
	int mb = -(e + l + 1);
	if (-mb < H.alpha[t] || -mb > H.gamma[t]) { c.bad_msg("helper=choice-of-k type=%d exponent=%d beta=%d outside [alpha,gamma]", t, e, -mb); return; }
	w128 pw = exact_power(k, t ? 128 : 64);
	// t2*10^E/2 vs n*2^u:  v <= N*2^u*10^k  <=>  v*10^-k <= N*2^u
	auto floor_ok = [&](u64 v, u64 n, int u) { return cmp_half(2 * v, -k, n, u) <= 0 && cmp_half(2 * (v + 1), -k, n, u) > 0; };
	if (H.delta[t]) {
		struct { int tag; bool edge; int add; u64 n; int u; char const* what; } D[] = {
			{ 0, false, 0, 1, q - p - 1, "nearest" }, { 0, true, 0, 3, q - p - 3, "nearest,power-of-two" },
			{ 1, false, 0, 1, q - p - 1, "left-closed" }, { 1, true, 0, 1, q - p - 1, "left-closed,power-of-two" },
			{ 2, false, 0, 1, q - p - 1, "right-closed" }, { 2, true, 0, 1, q - p - 2, "right-closed,power-of-two" },
			{ 1, false, 1, 1, q - p - 2, "half-interval" } };
		for (auto& d : D) {
			guard::enter(*c.slot, t, 0, 12, d.tag, 4, u64(std::int64_t(e)));
			u64 g = H.delta[t](d.tag, d.edge, pw, mb + d.add);
			guard::leave(*c.slot);
			++c.evals; ++c.cross;
			++loose_n[2 + t]; if (!floor_ok(g, d.n, e + d.u)) loose[2 + t].hit("helper=compute_delta<%s>(%s) exponent=%d k=%d got=%llu is not the exact floor", t ? "double" : "float", d.what, e, k, ll(g));
		}
	}
	work::rng r(seed, u64(e + 5000) * 2 + t, 31);
	u64 B = 1ull << (q - 1), half = 1ull << (q - p - 2), ulp = 1ull << (q - p - 1), M = q == 64 ? ~0ull : (1ull << q) - 1;
	bool minexp = e == H.min_exp[t];
	for (int i = 0; i < 60; ++i) {
		u64 fr = i < 2 ? u64(i) : i < 4 ? (1ull << p) - 1 - (i - 2) : r.next() & ((1ull << p) - 1);
		if (i >= 20 && i < 40) { // multiples of powers of five: where divisibility decides
			u64 s = 5; for (unsigned n = r.below(t ? 22 : 9); n; --n) s *= 5;
			u64 m = (1ull << (p + 1)) - 1; fr = (s < m ? s * (1 + r.below(unsigned(std::min<u64>(m / s, 1u << 30)))) : s) & ((1ull << p) - 1);
		}
		if (i >= 40) fr = (fr << r.below(unsigned(p))) & ((1ull << p) - 1);
		u64 fc = fr << (q - p - 1);
		if (!minexp || (i & 1)) fc |= B;
		if (!fc) continue;
		++c.inputs; seen(c, mix(fc) ^ mix(u64(e + 3000) << 1 | unsigned(t)));
		bool edge = fc == B && !minexp;
		u64 ends[6] = { fc, (fc | half) & M, fc - (edge ? half >> 1 : half), (fc + ulp) & M, edge ? fc - half : fc - ulp, 0 };
		for (int j = 0; j < 5; ++j) if (ends[j] && H.mul[t]) {
			guard::enter(*c.slot, t, 0, 13, j, 4, ends[j]);
			u64 g = H.mul[t](ends[j], pw, mb);
			guard::leave(*c.slot);
			++c.evals; ++c.cross;
			++loose_n[t]; if (!floor_ok(g, ends[j], e)) loose[t].hit("helper=compute_mul<%s> f=%llx exponent=%d k=%d got=%llu is not the exact floor of f*2^e*10^k", t ? "double" : "float", ll(ends[j]), e, k, ll(g));
		}
		if (H.eqfrac[t]) for (int tag = 0; tag < 2; ++tag) {
			u64 f = tag == 0 ? ends[2] : fc;
			guard::enter(*c.slot, t, 0, 14, tag, 4, f);
			bool g = H.eqfrac[t](tag, f, e, mk);
			guard::leave(*c.slot);
			++c.evals; ++c.cross;
			// f * 2^(e+k) * 5^k an integer?
			int tz = __builtin_ctzll(f);
			bool ok = tz + e + k >= 0 && (k >= 0 || ref_div5(f, unsigned(-k)));
			if (ok) ++c.strtod_checks;
			++loose_n[4 + t]; if (g != ok) loose[4 + t].hit("helper=equal_fractional_parts<%s>(%s) f=%llx exponent=%d k=%d got=%d exact=%d", t ? "double" : "float", tag ? "left-closed" : "nearest", ll(f), e, k, g, ok);
		}
	}
}
static void arith() {
	auto ops = operands();
	std::atomic<u64> next{ 0 };
	std::vector<w128> pw;
	for (int k = -292; k <= 326; ++k) pw.push_back(exact_power(k, 128));
	std::vector<std::thread> th;
	u64 nrand = O.drand;
	for (int t = 0; t < O.threads; ++t) th.emplace_back([&, t] {
		ctx& c = C[t]; c.slot = &guard::me();
		for (u64 i; (i = next++) < ops.size();) {
			for (size_t j = i % O.sub; j < ops.size(); j += O.sub) { mul_one(c, ops[i], { ops[j], ops[(i * 7 + j) % ops.size()] }); mul_one(c, ops[i], { ops[(i * 11 + j) % ops.size()], ops[j] }); }
			div_one(c, ops[i]);
		}
		work::rng r(O.seed, u64(t), 77);
		for (u64 i = 0; i < nrand; ++i) {
			u64 x = wild(r);
			switch (i % 3) {
			case 0: mul_one(c, x, { wild(r), wild(r) }); break;
			case 1: mul_one(c, x, pw[r.below(unsigned(pw.size()))]); break;
			default: {
				// carry provocation: x * y.lo just above or below a multiple of 2^64
				w128 y{ wild(r), wild(r) };
				if (x > 1) { u64 m = ref_mul(x, { 0, y.hi }).w[0]; (void)m; y.lo = ~0ull / x * (1 + r.below(1u << 20)) + (r.next() & 3); }
				mul_one(c, x, y);
			} }
			if (i % 8 == 0) {
				u64 p5 = 1; for (unsigned n = r.below(27); n; --n) p5 *= 5;
				u64 m = p5 > 1 ? x % (~0ull / p5) : x; if (!m) m = 1;
				div_one(c, p5 * m); div_one(c, p5 * m + 1); div_one(c, std::uint32_t(p5 * m)); div_one(c, x << r.below(64)); div_one(c, x >> (r.next() & 63) << (r.next() & 15));
			}
		}
		flush_loose();
	});
	for (auto& x : th) x.join();
	next = 0;
	th.clear();
	for (int t = 0; t < O.threads; ++t) th.emplace_back([&, t] {
		ctx& c = C[t]; c.slot = &guard::me();
		if (!H.have_info) return;
		for (int i; (i = int(next++)) < 1 << 20;) {
			int ty = i & 1, e = H.min_exp[ty] + i / 2;
			if (e > H.max_exp[ty]) { if (i / 2 > H.max_exp[1] - H.min_exp[1]) break; continue; }
			for (u64 s = 0; s < O.structk; ++s) use(c, ty, e, O.seed + s);
		}
		flush_loose();
	});
	for (auto& x : th) x.join();
	settle(C[0]);
}
int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	static char const* names_log[8] = { "floor_log10_pow2_calls", "floor_log2_pow10_calls", "floor_log5_pow2_calls", "constant_evaluated", "", "", "", "" };
	static char const* names_cache[8] = { "stored_powers_compared", "constant_evaluated_powers_compared", "conversions_driven_over_all_binades", "", "", "", "", "" };
	static char const* names_ar[8] = { "umul128", "umul128_upper64", "umul192_upper64", "umul64", "umul96_upper32", "compute_mul", "divisible_by_power_of_2", "divisible_by_power_of_5" };
	bool l = O.check == "C18", k = O.check == "C19", rg = O.check == "range";
	for (int i = 0; i < 8; ++i) evn[i] = l ? names_log[i] : k || rg ? names_cache[i] : names_ar[i];
	auto have = [](char const* n, bool b) { std::printf("STAT have_%s %d\n", n, b); };
	if (l) { have("log10_pow2", H.log10_pow2[1]); have("log2_pow10", H.log2_pow10[1]); have("log5_pow2", H.log5_pow2[1]); have("logs_constexpr", H.c_log10_pow2 && H.c_log2_pow10 && H.c_log5_pow2); logs(); }
	else if (k) { have("cache", H.cache[0]); have("cache_constexpr", H.c_cache[0]); cache(); }
	else if (rg) range();
	else {
		have("umul64", H.umul64); have("umul128", H.umul128); have("umul128_upper64", H.umul128_upper64); have("umul192_upper64", H.umul192_upper64); have("umul96_upper32", H.umul96_upper32);
		have("div2", H.div2_64); have("div5", H.div5_64); have("compute_mul", H.mul[0]); have("compute_delta", H.delta[0]); have("equal_fractional_parts", H.eqfrac[0]); have("layout", H.have_info);
		arith();
	}
	return report_all();
}
