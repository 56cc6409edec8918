// Drives every conversion, writer and inspector without judging values (C13): the judge is the
// instrumentation the library was compiled with (ASan/UBSan/assertions), the signal handlers and the
// watchdog.  With edge counters compiled in (SWEEP_COV), also the number of basic-block edges per call.
#include "runner.hpp"
#include "insp.hpp"
#ifdef SWEEP_COV
static thread_local u64 edges;
static unsigned char seen_global[1 << 20]; static u64 nguards;
extern "C" void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a, std::uint32_t* b) { if (a == b || *a) return; for (; a < b; ++a) *a = (std::uint32_t)++nguards; }
extern "C" void __sanitizer_cov_trace_pc_guard(std::uint32_t* g) { ++edges; if (*g < sizeof seen_global) seen_global[*g] = 1; }
static std::atomic<u64> max_edges{ 0 };
static constexpr u64 STEP_LIMIT = 20000;
#define COV_BEGIN u64 e0_ = edges
#define COV_END(what) do { u64 d_ = edges - e0_; if (d_ > max_edges) max_edges = d_; \
	if (d_ > STEP_LIMIT) c.bad_msg("type=%c bits=%llx mode=%s policy=%s : unbounded-number-of-steps (%llu edges) in %s", tc<F>(), (unsigned long long)bits, mode_name(m), crs_name(p), (unsigned long long)d_, what); } while (0)
#else
#define COV_BEGIN
#define COV_END(what)
#endif
template <class F> static void visit(ctx& c, typename conv_types<F>::U bits) {
	using L = work::lim<F>; using U = typename L::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	U mag = bits & ~SB;
	bool finite = mag && mag < L::inf;
	auto& t = tab<F>();
	++c.inputs;
	for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) {
		if (finite) for (int rs = 0; rs < 2; ++rs) if (t.conv[rs][m][p]) { COV_BEGIN; calls<F>::conv(c, rs, m, p, bits); COV_END("numeric"); ++c.per_mode[m]; }
		for (int z = 0; z < 2; ++z) if (t.str[z][m][p]) {
			char b[31];  // the documented buffer size
			COV_BEGIN;
			guard::enter(*c.slot, conv_types<F>::id, 0, m, p, 1 + z, bits);
			t.str[z][m][p](bits, b);
			guard::leave(*c.slot);
			COV_END("text");
			++c.evals; ++c.ev[0];
		}
	}
	{ insp o; guard::enter(*c.slot, conv_types<F>::id, 0, 0, 0, 3, bits); inspect(bits, true, o); inspect(bits, false, o); guard::leave(*c.slot); c.evals += 2; ++c.ev[1]; }
	if (!finite) ++c.ev[2];
	if (c.samples.size() < 1 && (mix(bits) & 255) == 0) { char b[80]; std::snprintf(b, sizeof b, "%c bits=%llx in every mode, policy and writer", tc<F>(), (unsigned long long)bits); c.samples.push_back(b); }
	auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(bits);
}
template <class F> static void specials() {
	using L = work::lim<F>; using U = typename L::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	ctx& c = C[0]; c.slot = &guard::me();
	for (int s = 0; s < 2; ++s) {
		U sb = s ? SB : 0;
		visit<F>(c, sb); visit<F>(c, sb | L::inf);
		for (int i = 0; i < L::mant; ++i) { visit<F>(c, sb | L::inf | (U(1) << i)); visit<F>(c, sb | L::inf | (L::frac >> i)); visit<F>(c, sb | L::inf | (L::frac ^ (U(1) << i))); }
	}
}
int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	pow10t();
	guard::install(); guard::watchdog(O.wd);
	C.resize(O.threads);
	static char const* names[8] = { "texts_written", "inspections", "nonfinite_or_zero_inputs", "", "", "", "", "" };
	for (int i = 0; i < 8; ++i) evn[i] = names[i];
	if (O.one) {
		C[0].slot = &guard::me();
		if (O.one_type == 'f') visit<float>(C[0], std::uint32_t(O.bits)); else visit<double>(C[0], O.bits);
	} else {
		if (O.f) specials<float>();
		if (O.d) specials<double>();
		go([&](ctx& c, auto mag, auto* tag) {
			using F = std::remove_pointer_t<decltype(tag)>; using U = typename conv_types<F>::U;
			bool s = mix(mag ^ (O.seed << 40)) >> 60 & 1;
			visit<F>(c, U(mag | (s ? U(1) << (sizeof(U) * 8 - 1) : 0)));
		});
	}
#ifdef SWEEP_COV
	u64 n = 0; for (auto x : seen_global) n += x;
	std::printf("STAT cov_edges_total %llu\nSTAT cov_edges_reached %llu\nSTAT cov_max_edges_per_call %llu\nSTAT cov_step_limit %llu\n", (unsigned long long)nguards, (unsigned long long)n, (unsigned long long)max_edges.load(), (unsigned long long)STEP_LIMIT);
#endif
	return report_all();
}
