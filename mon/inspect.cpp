// Monitor of the bit inspectors (C15): every field and predicate against an independent decoding.
#include "runner.hpp"
#include "insp.hpp"
#include <cfloat>
bool inspect_constexpr();
template <class U> struct lay;
template <> struct lay<std::uint32_t> { static constexpr int p = 23, e = 8; using F = float; };
template <> struct lay<u64> { static constexpr int p = 52, e = 11; using F = double; };
template <class U> static void expect(U bits, insp& w) {
	using L = lay<U>;
	// plain arithmetic on the pattern as a number
	constexpr U P = U(1) << L::p, E = U(1) << L::e;
	U sig = bits % P, pay = sig % (P / 2); unsigned ex = unsigned(bits / P % E), top = sig >= P / 2;
	bool neg = bits / P / E != 0;
	unsigned all = (1u << L::e) - 1, f = 0;
	if (ex != all) f |= B_FINITE; else if (sig == 0) f |= B_INF | (neg ? B_NINF : B_PINF); else f |= B_NAN | (top ? B_QNAN : B_SNAN);
	if (sig || ex) f |= B_NONZERO;
	if (ex == 0) f |= B_SUB;
	f |= neg ? B_NEG : B_POS;
	w.f = bits; w.sig = sig; w.exp = ex; w.payload = pay; w.flags = f; w.back = bits; w.payload_len = L::p - 1;
}
template <class U> static void visit(ctx& c, U bits) {
	using L = lay<U>; using F = typename L::F;
	insp w, g;
	expect(bits, w);
	u64 h = mix(bits ^ (O.seed << 40));
	bool tv = h & 1;
#if !defined(__x86_64__)
	if (w.flags & B_SNAN) tv = false;   // a value passed through the x87 stack may be quieted by the hardware
#endif
	guard::enter(*c.slot, sizeof(U) == 8, 0, 0, 0, 3, bits);
	inspect(bits, tv, g);
	guard::leave(*c.slot);
	bool back_bad = g.back != w.back;
#if !defined(__x86_64__)
	if (w.flags & B_SNAN) back_bad = false;
#endif
	if (g.f != w.f || g.sig != w.sig || g.exp != w.exp || g.flags != w.flags || g.payload != w.payload || g.payload_len != w.payload_len || back_bad) {
		unsigned x = g.flags ^ w.flags;
		static char const* const nm[] = { "finite", "nonzero", "subnormal", "negative", "positive", "positive_infinity", "negative_infinity", "infinity", "nan", "quiet_nan", "signaling_nan" };
		std::string s;
		for (int i = 0; i < 11; ++i) if (x >> i & 1) { s += " wrong-"; s += nm[i]; }
		if (g.f != w.f || back_bad) s += " pattern-not-preserved";
		if (g.sig != w.sig) s += " wrong-significand";
		if (g.exp != w.exp) s += " wrong-exponent";
		if (g.payload != w.payload || g.payload_len != w.payload_len) s += " wrong-payload";
		c.bad_msg("type=%c bits=%llx :%s", sizeof(U) == 8 ? 'd' : 'f', (unsigned long long)bits, s.c_str());
	}
	// second opinion on the expectation itself
	if ((h >> 8 & 1023) == 0) {
		F x; std::memcpy(&x, &bits, sizeof x);
		int cl = __builtin_fpclassify(0, 1, 2, 3, 4, x);
		int me = (w.flags & B_NAN) ? 0 : (w.flags & B_INF) ? 1 : !(w.flags & B_NONZERO) ? 4 : (w.flags & B_SUB) ? 3 : 2;
		if (cl != me || (__builtin_signbit(x) != 0) != ((w.flags & B_NEG) != 0)) { std::printf("INTERNAL classification bits=%llx\n", (unsigned long long)bits); std::fflush(stdout); _exit(3); }
		++c.cross;
		if (c.samples.size() < 2 && (w.flags & (B_NAN | B_SUB))) { char b[120]; std::snprintf(b, sizeof b, "%c bits=%llx flags=0x%x payload=%llx", sizeof(U) == 8 ? 'd' : 'f', (unsigned long long)bits, g.flags, (unsigned long long)g.payload); c.samples.push_back(b); }
	}
	++c.evals; ++c.inputs;
	++c.ev[(w.flags & B_QNAN) ? 0 : (w.flags & B_SNAN) ? 1 : (w.flags & B_INF) ? 2 : !(w.flags & B_NONZERO) ? 3 : (w.flags & B_SUB) ? 4 : 5];
	// inputs outside the plain normal range decide the predicates
	if (c.count_direct) { if (w.flags & (B_NAN | B_INF | B_SUB)) ++c.nontriv; }
	else if (w.flags & (B_NAN | B_INF | B_SUB)) { auto& v = c.distinct_d; if (v.size() < (3u << 20)) v.push_back(bits); }
}
struct w_all32 {
	u64 step, off;
	u64 blocks() const { return 1 << 14; }
	template <class V> void run(u64 b, V&& v) const { for (u64 i = b << 18; i < (b + 1) << 18; ++i) if (step == 1 || (i + off) % step == 0) v(std::uint32_t(i)); }
};
struct w_pat64 {
	u64 seed, n;
	u64 blocks() const { return 2048; }
	template <class V> void run(u64 b, V&& v) const {
		u64 e = b << 52;
		auto both = [&](u64 f) { u64 x = e | (f & 0xfffffffffffffull); v(x); v(x | 1ull << 63); };
		for (int i = 0; i < 52; ++i) { u64 p = 1ull << i; both(p); both(p - 1); both(~p); both(~(p - 1)); for (int j = 0; j < i; ++j) both(p | 1ull << j); }
		both(0); both(~0ull);
		work::rng r(seed, b, 88);
		u64 k = (b == 0 || b == 2047) ? n * 200 : n;   // most of the effort where classification is decided
		for (u64 i = 0; i < k; ++i) both(r.next() >> (i & 1 ? r.below(52) : 0));
	}
};
int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	guard::install(); guard::watchdog(O.wd);
	C.resize(O.threads);
	static char const* names[8] = { "quiet_nans", "signaling_nans", "infinities", "zeros", "subnormals", "normals", "", "" };
	for (int i = 0; i < 8; ++i) evn[i] = names[i];
	if (O.one) {
		C[0].slot = &guard::me();
		if (O.one_type == 'f') visit<std::uint32_t>(C[0], std::uint32_t(O.bits)); else visit<u64>(C[0], O.bits);
	} else {
		if (!inspect_constexpr()) { std::printf("BAD type=f bits=0 : wrong-in-constant-evaluation\n"); C[0].bad++; }
		if (O.fstride) run<float>(w_all32{ O.fstride, mix(O.seed) % O.fstride }, [&](ctx& c, std::uint32_t b) { visit<std::uint32_t>(c, b); }, true);
		run<double>(w_pat64{ O.seed, O.drand }, [&](ctx& c, u64 b) { visit<u64>(c, b); }, false);
	}
	return report_all();
}
