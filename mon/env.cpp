// Purity monitor (C17).  Each conversion and rendering is executed under many floating-point environments,
// errno values and locales; after every call the environment must be exactly as before, no allocator may have
// been entered and nothing may have been thrown; results must equal those obtained in the default environment.
#include "runner.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <locale>
#include <xmmintrin.h>

// ---- allocator and locale interposition
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static thread_local unsigned long alloc_calls, locale_calls;
extern "C" {
void* malloc(size_t n) { ++alloc_calls; return __libc_malloc(n); }
void free(void* p) { ++alloc_calls; __libc_free(p); }
void* calloc(size_t a, size_t b) { ++alloc_calls; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { ++alloc_calls; return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { ++alloc_calls; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { ++alloc_calls; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { ++alloc_calls; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
static char comma[] = ",", dot3[] = ".", grp[] = "\3";
static volatile bool foreign_locale;
struct lconv* localeconv() noexcept {
	++locale_calls;
	static struct lconv a, b;
	b.decimal_point = comma; b.thousands_sep = dot3; b.grouping = grp;
	a.decimal_point = dot3; a.thousands_sep = (char*)""; a.grouping = (char*)"";
	return foreign_locale ? &b : &a;
}
}
struct punct : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
};

static inline unsigned mxcsr() { unsigned v; __asm__ __volatile__("stmxcsr %0" : "=m"(v)::"memory"); return v; }
static inline void set_mxcsr(unsigned v) { __asm__ __volatile__("ldmxcsr %0" ::"m"(v) : "memory"); }
static inline unsigned short fcw() { unsigned short v; __asm__ __volatile__("fnstcw %0" : "=m"(v)::"memory"); return v; }
static inline void set_fcw(unsigned short v) { __asm__ __volatile__("fldcw %0" ::"m"(v) : "memory"); }
static inline unsigned short fsw() { unsigned short v; __asm__ __volatile__("fnstsw %0" : "=m"(v)::"memory"); return v; }
static inline void clear_fsw() { __asm__ __volatile__("fnclex" ::: "memory"); }

struct cfg { char const* name; unsigned mx; unsigned short cw; int err; bool loc; };
// MXCSR: flags 0-5, DAZ 6, masks 7-12, RC 13-14, FTZ 15
static std::vector<cfg> make_cfgs() {
	std::vector<cfg> v;
	unsigned const masked = 0x1f80;
	static char const* rc[] = { "nearest", "downward", "upward", "zero" };
	static std::string keep[64];
	int k = 0;
	for (unsigned r = 0; r < 4; ++r) for (unsigned fz = 0; fz < 4; ++fz) {
		// x87 precision: 24, 53, 64 bits ; rounding follows
		unsigned pc[] = { 0x0, 0x2, 0x3 };
		unsigned short cw = (unsigned short)0x7f | (pc[(r + fz) % 3] << 8) | (r << 10);
		unsigned flags = (k & 1) ? 0x3f : 0;
		keep[k] = std::string("round-") + rc[r] + (fz & 1 ? ",ftz" : "") + (fz & 2 ? ",daz" : "") + (flags ? ",flags-set" : "");
		v.push_back({ keep[k].c_str(), masked | r << 13 | (fz & 1 ? 0x8000u : 0) | (fz & 2 ? 0x40u : 0) | flags, cw, (k * 37) % 133, (k & 2) != 0 });
		++k;
	}
	// every exception unmasked: any floating-point operation that would raise a flag traps instead
	for (unsigned r = 0; r < 4; ++r) { keep[k] = std::string("traps-enabled,round-") + rc[r]; v.push_back({ keep[k].c_str(), r << 13, (unsigned short)(0x340 | r << 10), 12345, (r & 1) != 0 }); ++k; }
	return v;
}
struct env_guard { unsigned m; unsigned short c; env_guard() : m(mxcsr()), c(fcw()) {} ~env_guard() { clear_fsw(); set_fcw(c); set_mxcsr(m & ~0x3fu); } };

static u64 const NOTHING = 0x1234567;
template <class F> static u64 one(ctx& c, int form, int m, int p, typename conv_types<F>::U bits, cres& r, char* buf, bool& threw) {
	auto& t = tab<F>();
	threw = false;
	u64 h;
	guard::enter(*c.slot, conv_types<F>::id, form & 1, m, p, form < 2 ? 0 : form - 1, bits);
	try {
		if (form < 2) { t.conv[form][m][p](bits, r); h = mix(r.sig) + mix((u64)(std::int64_t)r.exp * 2 + r.neg); }
		else {
			char* e = t.str[form - 2][m][p](bits, buf);
			long n = e - buf; if (n < 0 || n > 40) n = 40;
			h = mix((u64)n); for (long i = 0; i < n; ++i) h = mix(h ^ (unsigned char)buf[i]);
		}
	} catch (...) { threw = true; h = NOTHING; }
	guard::leave(*c.slot);
	return h;
}
struct combo { int form, m, p; };
template <class F> static std::vector<combo> combos() {
	std::vector<combo> v;
	auto& t = tab<F>();
	for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) for (int f = 0; f < 4; ++f)
		if (f < 2 ? t.conv[f][m][p] != nullptr : t.str[f - 2][m][p] != nullptr) v.push_back({ f, m, p });
	return v;
}
static std::vector<cfg> CF;
template <class F> static void visit(ctx& c, typename conv_types<F>::U bits, std::vector<combo> const& K) {
	using U = typename conv_types<F>::U; using L = work::lim<F>;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	U mag = bits & ~SB;
	bool finite = mag && mag < L::inf;
#if !defined(__x86_64__)
	if (mag > L::inf) return;   // a NaN argument may be touched by the x87 stack before the library sees it
#endif
	++c.inputs;
	u64 h = mix(bits ^ (O.seed << 40));
	env_guard save;
	char buf[64];
	unsigned i = 0;
	for (auto const& k : K) {
		if (k.form < 2 && !finite) continue;
		++i;
		// the default combination always; of the others a rotating third
		if (k.m != M_DEFAULT && !O.one && (h + i) % 3) continue;
		bool threw; cres r0{ 0, 0, false }, r{ 0, 0, false };
		set_mxcsr(0x1f80); set_fcw(0x37f);
		foreign_locale = false;
		u64 ref = one<F>(c, k.form, k.m, k.p, bits, r0, buf, threw);
		if (threw) { c.bad_msg("type=%c bits=%llx mode=%s policy=%s : exception-thrown", tc<F>(), (unsigned long long)bits, mode_name(k.m), crs_name(k.p)); continue; }
		unsigned j = 0;
		for (auto const& e : CF) {
			++j;
			if (!O.one && k.m != M_DEFAULT && ((h >> 8) + i + j) % 7) continue;
			foreign_locale = e.loc;
			errno = e.err;
			clear_fsw();
			set_fcw(e.cw);
			set_mxcsr(e.mx);
			unsigned long a0 = alloc_calls;
			u64 g = one<F>(c, k.form, k.m, k.p, bits, r, buf, threw);
			unsigned m1 = mxcsr(); unsigned short w1 = fcw(), s1 = fsw(); int er = errno; unsigned long a1 = alloc_calls;
			set_mxcsr(0x1f80); clear_fsw(); set_fcw(0x37f);
			++c.evals; ++c.per_mode[k.m];
			char const* why = nullptr; char t[80] = "";
			if (threw) why = "exception-thrown";
			else if (g != ref) { why = "result-depends-on-environment"; if (k.form < 2) std::snprintf(t, sizeof t, "%s instead of %s", dec_text(r).c_str(), dec_text(r0).c_str()); }
			else if ((m1 ^ e.mx) & ~0x3fu) { why = "SSE-control-word-changed"; std::snprintf(t, sizeof t, "%x->%x", e.mx, m1); }
			else if (w1 != e.cw) { why = "x87-control-word-changed"; std::snprintf(t, sizeof t, "%x->%x", e.cw, w1); }
#if defined(__x86_64__)
			else if (m1 != e.mx) { why = "exception-flags-changed"; std::snprintf(t, sizeof t, "%x->%x", e.mx, m1); }
			else if (s1 & 0x3f) { why = "x87-exception-flags-changed"; std::snprintf(t, sizeof t, "%x", s1 & 0x3f); }
#endif
			else if (er != e.err) { why = "errno-changed"; std::snprintf(t, sizeof t, "%d->%d", e.err, er); }
			else if (a1 != a0) why = "memory-allocated";
			(void)s1;
			if (why) c.bad_msg("type=%c bits=%llx mode=%s policy=%s form=%d environment=%s %s : %s", tc<F>(), (unsigned long long)bits, mode_name(k.m), crs_name(k.p), k.form, e.name, t, why);
		}
	}
	if (c.samples.size() < 1 && (h & 255) == 0) { char b[100]; std::snprintf(b, sizeof b, "%c bits=%llx under %zu environments", tc<F>(), (unsigned long long)bits, CF.size()); c.samples.push_back(b); }
	auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(bits);
}
int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	pow10t();
	guard::install(); guard::watchdog(O.wd);
	C.resize(O.threads);
	for (int i = 0; i < 8; ++i) evn[i] = "";
	CF = make_cfgs();
	std::locale::global(std::locale(std::locale::classic(), new punct));
	// prove that the monitor can see what it is meant to see
	{
		env_guard s; unsigned m0 = mxcsr() & ~0x3fu; set_mxcsr(m0);
		volatile double a = 1, b = 3, q = a / b; (void)q;
		if (!(mxcsr() & 0x20)) { std::printf("INTERNAL flag monitor blind\n"); return 3; }
		set_mxcsr(m0); volatile float d = std::numeric_limits<float>::denorm_min(); volatile float w = 3.0f, e = d * w; (void)e;
		if (!(mxcsr() & 2)) { std::printf("INTERNAL denormal monitor blind\n"); return 3; }
		unsigned long a0 = alloc_calls; { std::string z(100, 'x'); volatile char ch = z[3]; (void)ch; }
		if (alloc_calls == a0) { std::printf("INTERNAL allocation monitor blind\n"); return 3; }
	}
	auto KF = combos<float>(); auto KD = combos<double>();
	if (O.one) {
		C[0].slot = &guard::me();
		if (O.one_type == 'f') visit<float>(C[0], std::uint32_t(O.bits), KF); else visit<double>(C[0], O.bits, KD);
	} else {
		C[0].slot = &guard::me();
		for (int s = 0; s < 2; ++s) for (int i = -1; i < 23; ++i) {
			std::uint32_t sf = s ? 1u << 31 : 0; u64 sd = s ? 1ull << 63 : 0;
			visit<float>(C[0], sf | (i < 0 ? 0 : 0x7f800000u | ((1u << i) >> 1)), KF);
			visit<double>(C[0], sd | (i < 0 ? 0 : 0x7ff0000000000000ull | ((1ull << (i * 2 + 8)) >> 9)), KD);
		}
		go([&](ctx& c, auto mag, auto* tag) {
			using F = std::remove_pointer_t<decltype(tag)>; using U = typename conv_types<F>::U;
			bool s = mix(mag ^ (O.seed << 40)) >> 60 & 1;
			visit<F>(c, U(mag | (s ? U(1) << (sizeof(U) * 8 - 1) : 0)), sizeof(F) == 4 ? KF : KD);
		});
	}
	std::printf("STAT cov_environments %zu\n", CF.size());
	return report_all();
}
