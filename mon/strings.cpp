// Monitors over rendered text (C10, C11, C12).
#include "runner.hpp"
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#endif

// The text a number with these digits must have, produced without any of the library's tables.
static int render(bool neg, u64 sig, int exp, char* out) {
	char d[24]; int n = 0, k = 0;
	do { d[n++] = char('0' + sig % 10); sig /= 10; } while (sig);
	if (neg) out[k++] = '-';
	out[k++] = d[n - 1];
	if (n > 1) out[k++] = '.';
	for (int i = n - 2; i >= 0; --i) out[k++] = d[i];
	out[k++] = 'E';
	int e = exp + n - 1;
	if (e < 0) { out[k++] = '-'; e = -e; }
	char t[12]; int j = 0;
	do { t[j++] = char('0' + e % 10); e /= 10; } while (e);
	while (j) out[k++] = t[--j];
	out[k] = 0;
	return k;
}
template <class F> struct maxlen { static constexpr int value = sizeof(F) == 4 ? 15 : 24; };

template <class F> inline char* text(ctx& c, int z, int m, int p, typename conv_types<F>::U bits, char* buf) {
	guard::enter(*c.slot, conv_types<F>::id, 0, m, p, 1 + z, bits);
	char* e = tab<F>().str[z][m][p](bits, buf);
	guard::leave(*c.slot);
	++c.evals;
	return e;
}
static std::string show(char const* b, long n) {
	std::string s = "[";
	if (n < 0) n = 0;
	for (long i = 0; i < n && i < 48; ++i) { unsigned char ch = b[i]; if (ch >= 32 && ch < 127 && ch != ' ') s += char(ch); else { char h[8]; std::snprintf(h, sizeof h, "\\x%02x", ch); s += h; } }
	return s + "]";
}
template <class F> static std::vector<std::pair<int, int>> combos() {
	std::vector<std::pair<int, int>> v;
	for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p)
		if ((O.modes >> m & 1) && tab<F>().str[0][m][p] && tab<F>().str[1][m][p]) v.push_back({ m, p });
	return v;
}
static std::vector<std::pair<int, int>> KF, KD;
template <class F> static std::vector<std::pair<int, int>> const& K() { return sizeof(F) == 4 ? KF : KD; }

// ------------------------------------------------------------------ C10
template <class F> inline void visit_c10(ctx& c, typename conv_types<F>::U mag) {
	using U = typename conv_types<F>::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	u64 h = mix(mag ^ (O.seed << 40));
	++c.inputs;
	int len0 = -1; bool point = false;
	unsigned i = 0;
	for (auto& k : K<F>()) {
		int m = k.first, p = k.second;
		bool neg = h >> (i++ & 31) & 1;
		U bits = neg ? U(mag | SB) : mag;
		cres r = calls<F>::conv(c, 1, m, p, bits);
		char want[64], buf[128];
		int n = render(neg, r.sig, r.exp, want);
		int z = h >> 33 & 1;
		std::memset(buf, (h >> 40 & 1) ? '7' : 0xa5, sizeof buf);
		char* e = text<F>(c, z, m, p, bits, buf + 32);
		long len = e - (buf + 32);
		bool bad = len != n || std::memcmp(buf + 32, want, n) != 0 || (z && *e != 0);
		if (bad) c.bad_msg("type=%c bits=%llx mode=%s policy=%s writer=%s numeric=%s expected=%s text=%s : wrong-text", tc<F>(), (unsigned long long)bits, mode_name(m), crs_name(p),
			z ? "terminated" : "unterminated", dec_text(r).c_str(), want, show(buf + 32, len).c_str());
		else if (m == M_DEFAULT && ((h >> 44 & 15) == 0 || O.opt & 1)) {
			buf[32 + len] = 0;
			char* endp;
			U back;
			if (sizeof(F) == 4) { float x = std::strtof(buf + 32, &endp); back = U(work::bits_of<float>(x)); }
			else { double x = std::strtod(buf + 32, &endp); back = U(work::bits_of<double>(x)); }
			if (back != bits || endp != e) c.bad_msg("type=%c bits=%llx mode=%s policy=%s text=%s readback=%llx : not-read-back", tc<F>(), (unsigned long long)bits, mode_name(m), crs_name(p), show(buf + 32, len).c_str(), (unsigned long long)back);
			++c.strtod_checks;
		}
		if (len0 < 0) { len0 = n; point = n > 5; sample<F>(c, bits, m, p, r, want); }
		++c.per_mode[m];
	}
	if (point) ++c.ev[0];
	if (c.count_direct) c.nontriv += 1;
	else { auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(mag); }
}

// ------------------------------------------------------------------ C11
template <class F> inline void special(ctx& c, typename conv_types<F>::U bits, bool all) {
	using U = typename conv_types<F>::U;
	using L = work::lim<F>;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	U mag = bits & ~SB; bool neg = (bits & SB) != 0;
	char const* want = mag == 0 ? (neg ? "-0E0" : "0E0") : mag == L::inf ? (neg ? "-Infinity" : "Infinity") : "NaN";
	int n = (int)std::strlen(want);
	++c.inputs;
	u64 h = mix(bits ^ (O.seed << 40));
	auto& ks = K<F>();
	size_t lo = 0, hi = ks.size();
	if (!all) { lo = (h & 3) && O.modes >> M_DEFAULT & 1 ? ks.size() - 1 : (h >> 8) % ks.size(); hi = lo + 1; }
	for (size_t i = lo; i < hi; ++i) for (int z = 0; z < 2; ++z) {
		int m = ks[i].first, p = ks[i].second;
		char buf[128];
		std::memset(buf, (h >> 40 & 1) ? '7' : 0xa5, sizeof buf);
		char* e = text<F>(c, z, m, p, bits, buf + 32);
		long len = e - (buf + 32);
		if (len != n || std::memcmp(buf + 32, want, n) != 0 || (z && *e != 0))
			c.bad_msg("type=%c bits=%llx mode=%s policy=%s writer=%s expected=%s text=%s : wrong-text", tc<F>(), (unsigned long long)bits, mode_name(m), crs_name(p),
				z ? "terminated" : "unterminated", want, show(buf + 32, len).c_str());
		++c.per_mode[m];
	}
	if (c.samples.size() < 2 && (h & 0xffff) == 0) { char b[128]; std::snprintf(b, sizeof b, "%c bits=%llx -> %s", tc<F>(), (unsigned long long)bits, want); c.samples.push_back(b); }
	++c.ev[mag == 0 ? 1 : mag == L::inf ? 2 : 3];
	if (c.count_direct) ++c.nontriv;
	else { auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(bits); }
}
template <class F> struct w_special {  // structured zeros, infinities and NaNs, both signs
	using L = work::lim<F>; using U = typename L::U;
	u64 seed; int reps;
	u64 blocks() const { return 65; }
	template <class V> void run(u64 blk, V&& v) const {
		constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
		auto both = [&](U b) { v(b); v(U(b | SB)); };
		if (blk == 0) { both(0); both(L::inf); both(L::inf | 1); both(L::inf | L::frac); return; }
		int i = int(blk - 1);
		work::rng r(seed, blk, 77);
		if (i < L::mant) {
			U p = U(1) << i;
			both(L::inf | p); both(L::inf | (L::frac ^ p)); both(L::inf | ((p << 1) - 1)); both(L::inf | ((L::frac << i) & L::frac));
			for (int j = 0; j < i; ++j) both(L::inf | p | (U(1) << j));
		}
		for (int k = 0; k < reps; ++k) {
			U f = U(r.next()) & L::frac;
			if (k & 1) f >>= r.below(L::mant);
			if (f) both(L::inf | f);
		}
	}
};
template <class F> struct w_allnan {
	using L = work::lim<F>; using U = typename L::U;
	static constexpr u64 per = 1 << 16;
	u64 blocks() const { return ((u64(L::frac) + 1) * 2 + per - 1) / per; }
	template <class V> void run(u64 blk, V&& v) const {
		for (u64 i = blk * per; i < (blk + 1) * per; ++i) {
			U f = U(i) & L::frac; bool s = i > L::frac;
			if (!f) continue;
			v(U(L::inf | f | (s ? U(1) << (sizeof(U) * 8 - 1) : 0)));
		}
	}
};

// ------------------------------------------------------------------ C12
static long PAGE;
struct pages { char* lo; char* hi; };  // [lo,hi) accessible, unmapped on both sides
static pages make_pages() {
	char* b = (char*)mmap(nullptr, PAGE * 3, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (b == MAP_FAILED || mprotect(b + PAGE, PAGE, PROT_READ | PROT_WRITE)) { std::printf("INTERNAL mmap\n"); _exit(3); }
	return { b + PAGE, b + 2 * PAGE };
}
static thread_local pages PG{ nullptr, nullptr };
template <class F> inline void visit_c12_bits(ctx& c, typename conv_types<F>::U bits) {
	u64 h = mix(bits ^ (O.seed << 40));
	if (!PG.lo) PG = make_pages();
	++c.inputs;
	unsigned char A[224], S[224];
	unsigned i = 0;
	int n0 = 0;
	for (auto& k : K<F>()) {
		int m = k.first, p = k.second;
		u64 g = mix(h + i++);
		char T[64]; long n = -1;
		char const* why = nullptr;
		std::string got;
		for (int rep = 0; rep < 4 && !why; ++rep) {
			int z = rep & 1;
			// surroundings and previous contents: constant, its complement, or noise
			if (rep < 2) std::memset(A, 0xa5, sizeof A);
			else { u64 x = g; for (size_t j = 0; j < sizeof A; j += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 y = x ^ (x >> 29); std::memcpy(A + j, &y, 8); } }
			if (rep >= 2) for (size_t j = 0; j < sizeof A; ++j) if (A[j] == 0xa5) A[j] = 0x5a;  // every byte differs from the first filling
			std::memcpy(S, A, sizeof A);
			char* buf = (char*)A + 64 + (g >> (rep * 4) & 15);
			char* e = text<F>(c, z, m, p, bits, buf);
			long len = e - buf;
			if (len < 1 || len > maxlen<F>::value) { why = "length-out-of-bounds"; got = show(buf, len); break; }
			if (rep == 0) { n = len; std::memcpy(T, buf, n); T[n] = 0; }
			else if (len != n || std::memcmp(buf, T, n)) { why = "text-depends-on-buffer-or-writer"; got = show(buf, len); break; }
			if (std::memchr(T, 0, n)) { why = "NUL-inside-text"; got = show(T, n); break; }
			if (z && buf[n] != 0) { why = "not-terminated"; break; }
			std::memcpy(S + (buf - (char*)A), T, n);
			if (z) S[buf - (char*)A + n] = 0;
			if (std::memcmp(S, A, sizeof A)) {
				int j = 0; while (S[j] == A[j]) ++j;
				char t[80]; std::snprintf(t, sizeof t, "offset %ld of text length %ld (%s)", (long)((char*)A + j - buf), n, z ? "terminated" : "unterminated");
				why = "foreign-byte-modified"; got = t; break;
			}
		}
		if (!why) for (int rep = 0; rep < 4; ++rep) {
			int z = rep & 1;
			long need = n + z;
#ifdef HAVE_ASAN
			char* blk = (char*)std::malloc(need);
			std::memset(blk, int(g >> 8), need);
			char* buf = blk;
#else
			char* buf = rep < 2 ? PG.hi - need : PG.lo;   // an access past either end faults
			std::memset(rep < 2 ? PG.hi - 64 : PG.lo, int(g >> 8), 64);
#endif
			char* e = text<F>(c, z, m, p, bits, buf);
			if (e - buf != n || std::memcmp(buf, T, n) || (z && *e)) { why = "text-differs-at-edge-of-memory"; got = show(buf, e - buf); }
#ifdef HAVE_ASAN
			std::free(blk);
#endif
			if (why) break;
		}
		if (why) c.bad_msg("type=%c bits=%llx mode=%s policy=%s text=%s %s : %s", tc<F>(), (unsigned long long)bits, mode_name(m), crs_name(p), show(T, n).c_str(), got.c_str(), why);
		++c.per_mode[m];
		n0 = (int)n;
		if (n == maxlen<F>::value) ++c.ev[4];
	}
	if (n0 > 0 && n0 < 40 && c.samples.size() < 2 && (h & 1023) == 0) { char b[100]; std::snprintf(b, sizeof b, "%c bits=%llx text length %d", tc<F>(), (unsigned long long)bits, n0); c.samples.push_back(b); }
	auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(bits);
}

int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	PAGE = sysconf(_SC_PAGESIZE);
	pow10t();
	guard::install();
	guard::watchdog(O.wd);
	C.resize(O.threads);
	KF = combos<float>(); KD = combos<double>();
	if ((O.f && KF.empty()) || (O.d && KD.empty())) { std::printf("INTERNAL nothing instantiated\n"); return 3; }
	static char const* names[8] = { "texts_with_point", "zeros", "infinities", "nans", "longest_text_written", "", "", "" };
	for (int i = 0; i < 8; ++i) evn[i] = names[i];
	std::string const& ck = O.check;
	if (ck == "C10") go([&](ctx& c, auto mag, auto* tag) { visit_c10<std::remove_pointer_t<decltype(tag)>>(c, mag); });
	else if (ck == "C11") {
		if (O.one) {
			C[0].slot = &guard::me();
			if (O.one_type == 'f') special<float>(C[0], std::uint32_t(O.bits), true); else special<double>(C[0], O.bits, true);
		} else {
			if (O.f) run<float>(w_special<float>{ O.seed, (int)O.frep }, [&](ctx& c, std::uint32_t b) { special<float>(c, b, true); }, false);
			if (O.d) run<double>(w_special<double>{ O.seed, (int)O.drep }, [&](ctx& c, u64 b) { special<double>(c, b, true); }, false);
			if (O.f && O.fstride) run<float>(w_allnan<float>{}, [&](ctx& c, std::uint32_t b) { special<float>(c, b, false); }, true);
			if (O.d && O.drand) run<double>(w_special<double>{ O.seed + 1, (int)O.drand * 100 }, [&](ctx& c, u64 b) { special<double>(c, b, false); }, false);
		}
	}
	else if (ck == "C12") {
		if (O.one) {
			C[0].slot = &guard::me();
			if (O.one_type == 'f') visit_c12_bits<float>(C[0], std::uint32_t(O.bits)); else visit_c12_bits<double>(C[0], O.bits);
		} else {
			go([&](ctx& c, auto mag, auto* tag) {
				using F = std::remove_pointer_t<decltype(tag)>; using U = typename conv_types<F>::U;
				bool s = mix(mag ^ (O.seed << 40)) >> 60 & 1;
				visit_c12_bits<F>(c, U(mag | (s ? U(1) << (sizeof(U) * 8 - 1) : 0)));
			});
			if (O.f) run<float>(w_special<float>{ O.seed, 4 }, [&](ctx& c, std::uint32_t b) { visit_c12_bits<float>(c, b); }, false);
			if (O.d) run<double>(w_special<double>{ O.seed, 4 }, [&](ctx& c, u64 b) { visit_c12_bits<double>(c, b); }, false);
		}
	}
	else { std::printf("INTERNAL unknown check %s\n", ck.c_str()); return 3; }
	return report_all();
}
