// Oracle and relational monitors over numeric conversions (C01-C09, C22) and digests (C14).
#include "runner.hpp"
// -DENGINE_ONLY=n compiles one monitor only (faster builds); 1..6 share one
#ifndef ENGINE_ONLY
#define ENGINE_ONLY 0
#endif
#define WANT(n) (ENGINE_ONLY == 0 || ENGINE_ONLY == (n))
#define WANT_JUDGE (ENGINE_ONLY >= 0 && ENGINE_ONLY <= 6)

static std::string vstr(unsigned v) {
	std::string s;
	if (v & V_RANGE) s += " implausible-result";
	if (v & V_OUTSIDE) s += " outside-rounding-set";
	if (v & V_NOT_SHORTEST) s += " shorter-decimal-exists";
	if (v & V_NOT_CLOSEST) s += " closer-decimal-of-same-length-exists";
	if (v & V_TIE) s += " tie-decided-against-policy";
	return s;
}

// memo of candidates shared by all modes for one magnitude
template <class F> struct judge_memo {
	target T; lazy lz[6]; int n = 0;
	explicit judge_memo(decoded const& d) : T(d) {}
	unsigned verdict(u64 d, int E, interval I, policy P) {
		int k = 0;
		while (k < n && !(lz[k].d == d && lz[k].E == E)) ++k;
		if (k == n) {
			if (n == 6) { k = 5; } else ++n;
			lz[k].set(T, d, E);
		}
		return judge_fast(T, lz[k], I, P);
	}
};

// independent recheck with the unfiltered oracle
static unsigned slow_verdict(decoded const& d, u64 sig, int exp, interval I, policy P) {
	target T(d); relations r;
	relate(T, sig, exp, r);
	return judge(r, I, P);
}

struct combo { int rs, m, p; };

// ------------------------------------------------------------------ oracle monitor
struct judge_cfg {
	std::vector<combo> combos;
	unsigned mask;       // verdict bits that violate this property
	unsigned nontriv;    // observation bits that make an input non-trivial
	bool sign_matters;   // visit both signs (otherwise sign from a hash)
	bool check_sign;     // reported sign must equal the sign bit
	bool digits;         // trailing zero / digit-count limits
};
template <class F> inline void visit_judge(ctx& c, judge_cfg const& J, typename conv_types<F>::U mag) {
	using U = typename conv_types<F>::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	decoded dx = decode<F>(mag);
	judge_memo<F> M(dx);
	++c.inputs;
	unsigned seen = 0;
	u64 h = mix(mag ^ (O.seed << 40));
	bool both = J.sign_matters && (!J.check_sign || O.one || (h >> 20 & 7) == 0);
	for (int s = 0; s < 2; ++s) {
		if (!both && int(h & 1) != s) continue;
		U bits = s ? U(mag | SB) : mag;
		for (combo const& k : J.combos) {
			if (k.rs == 0 && J.combos.size() > 1 && J.check_sign && !O.one && (h >> 8 & 7)) continue;
			cres r = calls<F>::conv(c, k.rs, k.m, k.p, bits);
			interval I = interval_of(k.m, bits, s != 0);
			policy P = policy_of(k.p);
			unsigned v = M.verdict(r.sig, r.exp, I, P);
			seen |= v;
			unsigned bad = v & J.mask;
			bool sign_bad = J.check_sign && k.rs && r.neg != (s != 0);
			bool digit_bad = J.digits && (r.sig % 10 == 0 || r.sig > (sizeof(F) == 4 ? 999999999ull : 99999999999999999ull));
			if (bad | sign_bad | digit_bad) {
				unsigned sv = slow_verdict(dx, r.sig, r.exp, I, P);
				if ((sv & V_ANY) != (v & V_ANY)) { std::printf("INTERNAL oracle disagreement bits=%llx\n", (unsigned long long)bits); std::fflush(stdout); _exit(3); }
				c.bad_msg("type=%c bits=%llx mode=%s policy=%s sign=%d result=%s :%s%s%s", tc<F>(), (unsigned long long)bits,
					mode_name(k.m), crs_name(k.p), k.rs, dec_text(r).c_str(), vstr(v & J.mask).c_str(),
					sign_bad ? " wrong-sign" : "", digit_bad ? " trailing-zero-or-too-many-digits" : "");
			}
			if ((h >> 12 & 4095) == 0) {
				++c.cross;
				unsigned sv = slow_verdict(dx, r.sig, r.exp, I, P);
				if ((sv & V_ANY) != (v & V_ANY)) { std::printf("INTERNAL oracle disagreement bits=%llx\n", (unsigned long long)bits); std::fflush(stdout); _exit(3); }
				// the C library is a second opinion on read-back for ties-to-even
				if (k.m == M_DEFAULT || k.m == M_NTE || k.m == M_NTE_SB) {
					char b[64]; std::snprintf(b, sizeof b, "%llue%d", (unsigned long long)r.sig, r.exp);
					bool back = work::bits_of<F>(work::from_dec<F>(b)) == mag;
					if (back == ((v & V_OUTSIDE) != 0)) { std::printf("INTERNAL oracle and strtod disagree bits=%llx\n", (unsigned long long)bits); std::fflush(stdout); _exit(3); }
					++c.strtod_checks;
				}
				if (c.samples.size() < 2 && (J.nontriv ? (v & J.nontriv) != 0 : !(v & N_EXACT)))
					{ char b[300]; std::snprintf(b, sizeof b, "%c bits=%llx mode=%s policy=%s -> %s observed=0x%x", tc<F>(), (unsigned long long)bits, mode_name(k.m), crs_name(k.p), dec_text(r).c_str(), v); c.samples.push_back(b); }
			}
			++c.per_mode[k.m];
		}
	}
	c.ev[0] += (seen & N_TIE_SEEN) != 0; c.ev[1] += (seen & N_LOW_EQ) != 0; c.ev[2] += (seen & N_HIGH_EQ) != 0;
	c.ev[3] += (seen & N_EXACT) != 0; c.ev[4] += (seen & N_MULTI) != 0; c.ev[5] += (seen & N_TRIM_EXCL) != 0;
	bool nt = J.nontriv == 0 ? !(seen & N_EXACT) : (seen & J.nontriv) != 0;
	if (nt) {
		if (c.count_direct) ++c.nontriv;
		else { auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(mag); }
	}
}

// ------------------------------------------------------------------ relational monitors
// C07: do_not_care result as long as the tie_to_even result of the same mode (plus oracle judgement)
template <class F> inline void visit_c07(ctx& c, typename conv_types<F>::U mag) {
	using U = typename conv_types<F>::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	decoded dx = decode<F>(mag);
	judge_memo<F> M(dx);
	bool differ = false;
	u64 h = mix(mag ^ (O.seed << 40));
	for (int m = 0; m < M_DEFAULT; ++m) {
		bool sm = m == M_NTPI || m == M_NTMI || m == M_NTPI_SB || m == M_NTMI_SB || m == M_TPI || m == M_TMI;
		for (int s = 0; s < 2; ++s) {
			if (!sm && int(h & 1) != s) continue;
			U bits = s ? U(mag | SB) : mag;
			cres a = calls<F>::conv(c, 1, m, C_DONT_CARE, bits), b = calls<F>::conv(c, 1, m, C_EVEN, bits);
			interval I = interval_of(m, bits, s != 0);
			unsigned v = M.verdict(a.sig, a.exp, I, P_DONT_CARE);
			unsigned bad = v & (V_OUTSIDE | V_NOT_SHORTEST | V_RANGE);
			bool len = ndigits(a.sig) != ndigits(b.sig) && !(a.sig == b.sig && a.exp == b.exp);
			if (len) {
				// 9 and 10 (= 1) are both one digit long; compare without trailing zeros
				u64 x = a.sig, y = b.sig; while (x && x % 10 == 0) x /= 10; while (y && y % 10 == 0) y /= 10;
				len = ndigits(x) != ndigits(y);
			}
			bool sg = a.neg != (s != 0);
			if (bad || len || sg) c.bad_msg("type=%c bits=%llx mode=%s do_not_care=%s tie_to_even=%s :%s%s%s", tc<F>(), (unsigned long long)bits,
				mode_name(m), dec_text(a).c_str(), dec_text(b).c_str(), vstr(bad).c_str(), len ? " different-number-of-digits" : "", sg ? " wrong-sign" : "");
			if (!(a.sig == b.sig && a.exp == b.exp)) { differ = true; sample<F>(c, bits, m, 0, a, ("vs searching " + dec_text(b)).c_str()); }
			++c.per_mode[m];
		}
	}
	c.ev[4] += differ;
	note<F>(c, mag, differ);
}

// C08
template <class F> inline void visit_c08(ctx& c, typename conv_types<F>::U mag) {
	using U = typename conv_types<F>::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	static int const pairs[4][2] = { { M_NTE, M_NTE_SB }, { M_NTO, M_NTO_SB }, { M_NTPI, M_NTPI_SB }, { M_NTMI, M_NTMI_SB } };
	bool multi = false; cres first{ 0, 0, false }; bool have = false;
	u64 h = mix(mag ^ (O.seed << 40));
	for (auto& pr : pairs) for (int s = 0; s < 2; ++s) {
		if (pr[0] <= M_NTO && int(h & 1) != s) continue;
		U bits = s ? U(mag | SB) : mag;
		for (int p = 0; p < 5; ++p) {
			cres a = calls<F>::conv(c, 1, pr[0], p, bits), b = calls<F>::conv(c, 1, pr[1], p, bits);
			bool bad = !(a == b);
			if ((h >> 8 & 7) == 0) {
				cres a0 = calls<F>::conv(c, 0, pr[0], p, bits), b0 = calls<F>::conv(c, 0, pr[1], p, bits);
				if (!(a0 == b0)) { bad = true; a = a0; b = b0; }
			}
			if (bad) c.bad_msg("type=%c bits=%llx mode=%s policy=%s dynamic=%s static=%s : results-differ", tc<F>(), (unsigned long long)bits,
				mode_name(pr[0]), crs_name(p), dec_text(a).c_str(), dec_text(b).c_str());
			a.neg = false;
			if (!have) { first = a; have = true; } else if (!(first == a)) { multi = true; sample<F>(c, bits, pr[0], p, a, "(modes/policies disagree here, variants agree)"); }
			++c.per_mode[pr[1]];
		}
	}
	c.ev[4] += multi;
	note<F>(c, mag, multi);
}

// C09
template <class F> inline void visit_c09(ctx& c, typename conv_types<F>::U mag) {
	using U = typename conv_types<F>::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	static int const mirror[N_MODES] = { M_NTE, M_NTO, M_NTMI, M_NTPI, M_NTZ, M_NAFZ, M_NTE_SB, M_NTO_SB, M_NTMI_SB, M_NTPI_SB, M_TMI, M_TPI, M_TZ, M_AFZ, M_DEFAULT };
	U neg = mag | SB;
	bool nt = false;
	for (int m = 0; m < N_MODES; ++m) for (int p = (m == M_DEFAULT ? C_DEFAULT : 0); p < (m == M_DEFAULT ? N_CRS : C_DEFAULT); ++p) {
		cres a = calls<F>::conv(c, 1, m, p, mag), b = calls<F>::conv(c, 1, mirror[m], p, neg);
		cres a0 = calls<F>::conv(c, 0, m, p, mag), b0 = calls<F>::conv(c, 0, mirror[m], p, neg);
		char const* why = nullptr;
		if (a.neg) why = "positive-reported-negative";
		else if (!b.neg) why = "negative-reported-positive";
		else if (a.sig != b.sig || a.exp != b.exp) why = "not-mirrored";
		else if (a.sig != a0.sig || a.exp != a0.exp) why = "signless-form-differs";
		else if (b.sig != b0.sig || b.exp != b0.exp) why = "signless-form-differs(negative)";
		if (why) c.bad_msg("type=%c bits=%llx mode=%s policy=%s pos=%s neg=%s signless=%s/%s : %s", tc<F>(), (unsigned long long)mag, mode_name(m), crs_name(p),
			dec_text(a).c_str(), dec_text(b).c_str(), dec_text(a0).c_str(), dec_text(b0).c_str(), why);
		if (mirror[m] != m && !nt) {
			// sign decides the interval here: non-trivial if the same mode treats the two signs differently
			cres d = calls<F>::conv(c, 1, m, p, neg);
			if (!d.neg) c.bad_msg("type=%c bits=%llx mode=%s policy=%s : negative-reported-positive", tc<F>(), (unsigned long long)neg, mode_name(m), crs_name(p));
			if (d.sig != a.sig || d.exp != a.exp) { nt = true; sample<F>(c, mag, m, p, a, ("negated: " + dec_text(d)).c_str()); }
		}
		++c.per_mode[m];
	}
	c.ev[4] += nt;
	note<F>(c, mag, nt);
}

// exact comparison of positive decimals d*10^E
static int cmp_dec(cres const& a, cres const& b) {
	if (a.exp == b.exp) return a.sig < b.sig ? -1 : a.sig > b.sig;
	int na = ndigits(a.sig), nb = ndigits(b.sig);
	if (a.sig == 0 || b.sig == 0) return (a.sig != 0) - (b.sig != 0);
	if (na + a.exp != nb + b.exp) return na + a.exp < nb + b.exp ? -1 : 1;
	u64 x = a.sig, y = b.sig;
	while (na < nb) { x *= 10; ++na; }
	while (nb < na) { y *= 10; ++nb; }
	return x < y ? -1 : x > y;
}
// C22: neighbours keep their order
static std::vector<combo> c22_combos;
template <class F> inline void visit_c22(ctx& c, typename conv_types<F>::U mag) {
	using U = typename conv_types<F>::U;
	using L = work::lim<F>;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	if (mag + 1 >= L::inf) return;
	bool nt = false;
	u64 h = mix(mag ^ (O.seed << 40));
	for (combo const& k : c22_combos) {
		U s = (h >> (k.m * 4 + k.p) & 1) ? SB : 0;
		cres a = calls<F>::conv(c, k.rs, k.m, k.p, mag | s), b = calls<F>::conv(c, k.rs, k.m, k.p, (mag + 1) | s);
		int r = cmp_dec(a, b);
		if (r >= 0 || a.sig > 999999999999999999ull || b.sig > 999999999999999999ull)
			c.bad_msg("type=%c bits=%llx mode=%s policy=%s this=%s next=%s : %s", tc<F>(), (unsigned long long)(mag | s), mode_name(k.m), crs_name(k.p),
				dec_text(a).c_str(), dec_text(b).c_str(), r == 0 ? "same-output-for-different-inputs" : "order-inverted");
		// close call: neighbours printed with consecutive last digits
		if (a.exp == b.exp && b.sig - a.sig == 1) { nt = true; sample<F>(c, mag | s, k.m, k.p, a, ("next: " + dec_text(b)).c_str()); }
		else if (a.exp != b.exp) nt = true;
		++c.per_mode[k.m];
	}
	c.ev[4] += nt;
	note<F>(c, mag, nt);
}

// C14: digest per (type, mode, policy, form, block).  Text is digested as well if instantiated.
struct digests {
	std::map<std::string, u64> d;
	std::mutex mu;
} DG;
template <class F> inline u64 digest_one(ctx& c, int m, int p, typename conv_types<F>::U bits, std::string* text) {
	u64 h = 0;
	auto& t = tab<F>();
	for (int rs = 0; rs < 2; ++rs) if (t.conv[rs][m][p]) {
		cres r = calls<F>::conv(c, rs, m, p, bits);
		h = mix(h ^ r.sig) + mix((u64)(std::int64_t)r.exp * 2 + r.neg);
		if (text) *text += (rs ? "signed=" : " signless=") + dec_text(r);
	}
	for (int z = 0; z < 2; ++z) if (t.str[z][m][p]) {
		char b[64]; std::memset(b, 0x7f, sizeof b);
		guard::enter(*c.slot, conv_types<F>::id, 0, m, p, 1 + z, bits);
		char* e = t.str[z][m][p](bits, b);
		guard::leave(*c.slot);
		++c.evals;
		long n = e - b;
		if (n < 0 || n > 40) n = 40;
		u64 g = (u64)n;
		for (int i = 0; i < n + z; ++i) g = mix(g ^ (unsigned char)b[i]);
		h = mix(h ^ g);
		if (text) { *text += z ? " text=" : " text_n="; *text += std::string(b, n); }
	}
	return h;
}

template <class F> static void go_digest() {
	using U = typename conv_types<F>::U;
	std::string const& list = sizeof(F) == 4 ? O.list_f : O.list_d;
	std::vector<u64> data;
	if (O.one) { data.push_back(O.bits & (sizeof(F) == 4 ? 0x7fffffffull : 0x7fffffffffffffffull)); O.dumpblk = 0; }
	else data = load(list);
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	constexpr u64 per = 4096;
	u64 nb = (data.size() + per - 1) / per;
	std::atomic<u64> next{ 0 };
	std::vector<std::thread> th;
	for (int t = 0; t < O.threads; ++t) th.emplace_back([&, t] {
		ctx& c = C[t]; c.slot = &guard::me();
		for (;;) {
			u64 blk = next++;
			if (blk >= nb) break;
			if (O.dumpblk != ~0ull && blk != O.dumpblk) continue;
			for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) {
				auto& tb = tab<F>();
				if (!tb.conv[0][m][p] && !tb.conv[1][m][p] && !tb.str[0][m][p] && !tb.str[1][m][p]) continue;
				u64 h = 0;
				for (u64 i = blk * per; i < (blk + 1) * per && i < data.size(); ++i) {
					U b = U(data[i]);
					if (mix(data[i] ^ O.seed) & 1) b |= SB;
					if (O.dumpblk != ~0ull) {
						std::string s; digest_one<F>(c, m, p, b, &s);
						std::lock_guard<std::mutex> g(DG.mu);
						std::printf("ROW %c %llx %d %d %s\n", tc<F>(), (unsigned long long)b, m, p, s.c_str());
					} else h = mix(h ^ digest_one<F>(c, m, p, b, nullptr));
					++c.inputs;
				}
				if (O.dumpblk == ~0ull) {
					char k[64]; std::snprintf(k, sizeof k, "%c %llu %d %d", tc<F>(), (unsigned long long)blk, m, p);
					std::lock_guard<std::mutex> g(DG.mu);
					DG.d[k] = h;
				}
			}
		}
	});
	for (auto& x : th) x.join();
}

static void add_all(std::vector<combo>& v, int m0, int m1, int p0, int p1, int rs) {
	for (int m = m0; m <= m1; ++m) for (int p = p0; p <= p1; ++p) v.push_back({ rs, m, p });
}

int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	std::string const& ck = O.check;
	unsigned const interesting = N_MULTI | N_LOW_EQ | N_HIGH_EQ | N_TRIM_EXCL | N_TIE_SEEN;
#if WANT_JUDGE
	judge_cfg J{ {}, V_ANY, interesting, false, false, false };
	auto judge_run = [&] {
		for (auto& k : J.combos) if ((O.f && !tab_f.conv[k.rs][k.m][k.p]) || (O.d && !tab_d.conv[k.rs][k.m][k.p])) {
			std::printf("INTERNAL not instantiated %d %d %d\n", k.rs, k.m, k.p); _exit(3);
		}
		go([&](ctx& c, auto mag, auto* tag) { visit_judge<std::remove_pointer_t<decltype(tag)>>(c, J, mag); });
	};
#endif
	bool done = false;
#if WANT_JUDGE
	if (ck == "C01") { J.combos = { { 1, M_DEFAULT, C_DEFAULT }, { 0, M_DEFAULT, C_DEFAULT } }; J.mask = V_OUTSIDE | V_RANGE; J.nontriv = 0; J.sign_matters = true; J.check_sign = true; judge_run(); done = true; }
	if (ck == "C02") { J.combos = { { 1, M_DEFAULT, C_DEFAULT } }; J.mask = V_NOT_SHORTEST | V_RANGE; J.digits = true; judge_run(); done = true; }
	if (ck == "C03") { J.combos = { { 1, M_DEFAULT, C_DEFAULT } }; judge_run(); done = true; }
	if (ck == "C04") { add_all(J.combos, M_NTE, M_NAFZ, C_DEFAULT, C_DEFAULT, 1); J.sign_matters = true; judge_run(); done = true; }
	if (ck == "C05") { add_all(J.combos, M_TPI, M_AFZ, 0, C_DEFAULT, 1); J.sign_matters = true; judge_run(); done = true; }
	if (ck == "C06") { add_all(J.combos, M_NTE, M_NAFZ, C_EVEN, C_DOWN, 1); J.sign_matters = true; judge_run(); done = true; }
#endif
#if WANT(7)
	if (ck == "C07") { go([&](ctx& c, auto mag, auto* tag) { visit_c07<std::remove_pointer_t<decltype(tag)>>(c, mag); }); done = true; }
#endif
#if WANT(8)
	if (ck == "C08") { go([&](ctx& c, auto mag, auto* tag) { visit_c08<std::remove_pointer_t<decltype(tag)>>(c, mag); }); done = true; }
#endif
#if WANT(9)
	if (ck == "C09") { go([&](ctx& c, auto mag, auto* tag) { visit_c09<std::remove_pointer_t<decltype(tag)>>(c, mag); }); done = true; }
#endif
#if WANT(22)
	if (ck == "C22" || ck == "C22d") {
		c22_combos.push_back({ 1, M_DEFAULT, C_DEFAULT });
		if (ck == "C22") add_all(c22_combos, 0, M_AFZ, 0, C_EVEN, 1);
		go([&](ctx& c, auto mag, auto* tag) { visit_c22<std::remove_pointer_t<decltype(tag)>>(c, mag); });
		done = true;
	}
#endif
#if WANT(14)
	if (ck == "digest") { if (O.f && (O.one || !O.list_f.empty())) go_digest<float>(); if (O.d && (O.one || !O.list_d.empty())) go_digest<double>(); done = true; }
#endif
	if (!done) { std::printf("INTERNAL unknown check %s\n", ck.c_str()); return 3; }

	for (auto& k : DG.d) std::printf("DIGEST %s %016llx\n", k.first.c_str(), (unsigned long long)k.second);
	return report_all();
}
