// Shared by the monitors that see the library through the conversion tables: options, per-thread
// context, workload runner and report.
#ifndef VERIF_RUNNER_HPP
#define VERIF_RUNNER_HPP
#include "conv.hpp"
#include "work.hpp"
#include "guard.hpp"
#include <vector>
#include <string>
#include <map>
#include <mutex>
#include <algorithm>
#include <cstdarg>

tables<float> tab_f;
tables<double> tab_d;
namespace oracle { thread_local unsigned long long slow_compares; }
using namespace oracle;
using work::u64;
using work::mix;

struct opts {
	std::string check = "C01", work = "", list_f, list_d, out;
	bool f = true, d = true, signs = true;
	u64 seed = 1; int threads = 8; u64 frand = 0, drand = 1000, fstride = 0, drep = 4, frep = 4, hardk = 2, structk = 8;
	bool one = false; u64 bits = 0; char one_type = 'd';
	int wd = 30;
	u64 dumpblk = ~0ull;
	u64 modes = ~0ull;  // bit mask of modes to exercise
	u64 sub = 1;        // dump: keep one input in `sub`
	u64 opt = 0;        // program specific
} O;

// Once a property is violated often enough there is nothing more to learn from this run; stopping
// also bounds the time when broken code is slow.
static std::atomic<u64> bad_total{ 0 };
static std::mutex bad_mutex;
static inline bool enough() { return bad_total.load(std::memory_order_relaxed) > 400; }

struct alignas(256) ctx {
	u64 evals = 0, inputs = 0, nontriv = 0, bad = 0, cross = 0, strtod_checks = 0;
	u64 ev[8] = {};  // tie, lo_eq, hi_eq, exact, multi, trim_excl
	u64 per_mode[N_MODES] = {};
	std::vector<u64> distinct_d, distinct_f;
	std::vector<std::string> msgs, samples;
	u64 slow = 0;
	bool count_direct = false;  // inputs are distinct by construction
	u64 lenhist[20] = {};
	guard::slot* slot = nullptr;
	void bad_msg(char const* fmt, ...) __attribute__((format(printf, 2, 3))) {
		++bad;
		++bad_total;
		if (msgs.size() >= 12) return;
		char b[600]; va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		msgs.push_back(b);
		// reported at once: the run may not come to its end
		std::lock_guard<std::mutex> g(bad_mutex);
		std::printf("BAD %s\n", b);
		std::fflush(stdout);
	}
};

// names of ctx::ev counters; a program may replace them
static char const* evn[8] = { "exact_ties_decided", "result_on_lower_end_point", "result_on_upper_end_point", "result_exact", "several_candidates", "shorter_decimal_on_excluded_end_point", "ev6", "ev7" };

template <class F> inline char tc() { return conv_types<F>::id ? 'd' : 'f'; }
template <class F> struct calls {
	using U = typename conv_types<F>::U;
	static inline cres conv(ctx& c, int rs, int m, int p, U bits) {
		cres r;
		guard::enter(*c.slot, conv_types<F>::id, rs, m, p, 0, bits);
		tab<F>().conv[rs][m][p](bits, r);
		guard::leave(*c.slot);
		++c.evals;
		return r;
	}
};

static int ndigits(u64 d) { int n = 0; do { ++n; d /= 10; } while (d); return n; }

static std::string dec_text(cres const& r) {
	char b[64]; std::snprintf(b, sizeof b, "%s%llue%d", r.neg ? "-" : "", (unsigned long long)r.sig, r.exp);
	return b;
}

template <class F> inline void note(ctx& c, typename conv_types<F>::U mag, bool nt) {
	++c.inputs;
	if (!nt) return;
	if (c.count_direct) ++c.nontriv;
	else { auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(mag); }
}
template <class F> inline void sample(ctx& c, typename conv_types<F>::U bits, int m, int p, cres const& r, char const* what) {
	if (c.samples.size() < 2 && (mix(bits) & 1023) == 0) {
		char b[300]; std::snprintf(b, sizeof b, "%c bits=%llx mode=%s policy=%s -> %s %s", tc<F>(), (unsigned long long)bits, mode_name(m), crs_name(p), dec_text(r).c_str(), what);
		c.samples.push_back(b);
	}
}

// ------------------------------------------------------------------ running workloads
static std::vector<ctx> C;
template <class F, class W, class V> static void run(W const& w, V&& v, bool distinct_by_construction) {
	std::atomic<u64> next{ 0 };
	u64 nb = w.blocks();
	std::vector<std::thread> th;
	for (int t = 0; t < O.threads; ++t) th.emplace_back([&, t] {
		ctx& c = C[t];
		c.slot = &guard::me();
		c.count_direct = distinct_by_construction;
		for (;;) {
			u64 b = next++;
			if (b >= nb || enough()) break;
			w.run(b, [&](typename conv_types<F>::U mag) { if (!enough()) v(c, mag); });
		}
		c.slow += slow_compares; slow_compares = 0;
	});
	for (auto& x : th) x.join();
}
static bool has(char const* w) { return ("," + O.work + ",").find(std::string(",") + w + ",") != std::string::npos; }
static std::vector<u64> load(std::string const& p) {
	std::vector<u64> r;
	FILE* f = std::fopen(p.c_str(), "rb");
	if (!f) { std::printf("INTERNAL cannot read %s\n", p.c_str()); _exit(3); }
	u64 b[4096]; size_t n;
	while ((n = std::fread(b, 8, 4096, f)) > 0) r.insert(r.end(), b, b + n);
	std::fclose(f);
	return r;
}
template <class F, class V> static void all_work(V&& v) {
	bool isf = sizeof(F) == 4;
	u64 rnd = isf ? O.frand : O.drand;
	int rep = int(isf ? O.frep : O.drep);
	std::string const& list = isf ? O.list_f : O.list_d;
	bool full = isf && O.fstride == 1;
	if (isf && O.fstride) {
		u64 off = O.fstride == 1 ? 1 : mix(O.seed) % O.fstride;
		run<F>(work::w_stride<F>{ O.fstride, off }, v, full);
		if (full) return;  // nothing left to visit
	}
	if (has("known")) run<F>(work::w_known<F>{}, v, false);
	if (has("struct")) run<F>(work::w_struct<F>{ O.seed, (int)O.structk }, v, false);
	if (has("sub")) run<F>(work::w_sub<F>{ O.seed, 400 * rep }, v, false);
	if (has("dec")) run<F>(work::w_dec<F>{ O.seed, rep, rep > 1 ? 999 : 99 }, v, false);
	if (has("int")) run<F>(work::w_int<F>{ O.seed, rep }, v, false);
#if defined(__SIZEOF_INT128__)
	if (has("hard")) run<F>(work::w_hard<F>{ O.seed, (int)O.hardk }, v, false);
#endif
	if (rnd) run<F>(work::w_rand<F>{ O.seed, rnd }, v, false);
	if (!list.empty()) { auto d = load(list); run<F>(work::w_file<F>{ &d }, v, false); }
}
template <class V> static void go(V&& v) {
	if (O.one) {
		C[0].slot = &guard::me();
		if (O.one_type == 'f') v(C[0], std::uint32_t(O.bits & 0x7fffffffu), (float*)nullptr);
		else v(C[0], u64(O.bits & 0x7fffffffffffffffull), (double*)nullptr);
		return;
	}
	if (O.f) all_work<float>([&](ctx& c, std::uint32_t m) { v(c, m, (float*)nullptr); });
	if (O.d) all_work<double>([&](ctx& c, u64 m) { v(c, m, (double*)nullptr); });
}


static int parse_opts(int argc, char** argv) {
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto q = a.find('=');
		std::string k = a.substr(0, q), v = q == std::string::npos ? "" : a.substr(q + 1);
		auto num = [&] { return std::strtoull(v.c_str(), nullptr, 0); };
		if (k == "check") O.check = v; else if (k == "work") O.work = v;
		else if (k == "type") { O.f = v.find('f') != std::string::npos; O.d = v.find('d') != std::string::npos; O.one_type = v[0]; }
		else if (k == "seed") O.seed = num(); else if (k == "threads") O.threads = (int)num();
		else if (k == "frand") O.frand = num(); else if (k == "drand") O.drand = num();
		else if (k == "fstride") O.fstride = num(); else if (k == "frep") O.frep = num(); else if (k == "drep") O.drep = num();
		else if (k == "hardk") O.hardk = num(); else if (k == "structk") O.structk = num();
		else if (k == "list_f") O.list_f = v; else if (k == "list_d") O.list_d = v; else if (k == "out") O.out = v;
		else if (k == "bits") { O.one = true; O.bits = std::strtoull(v.c_str(), nullptr, 16); }
		else if (k == "wd") O.wd = (int)num(); else if (k == "block") O.dumpblk = num();
		else if (k == "modes") O.modes = num(); else if (k == "opt") O.opt = num(); else if (k == "sub") O.sub = num();
		else { std::fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
	}
	if (O.one) O.threads = 1;
	pow10t();
	guard::install();
	guard::watchdog(O.wd);
	C.resize(O.threads);
	return 0;
}
static int report_all() {
	ctx S;
	std::vector<u64> df, dd;
	for (auto& c : C) {
		S.evals += c.evals; S.inputs += c.inputs; S.nontriv += c.nontriv; S.bad += c.bad; S.cross += c.cross; S.strtod_checks += c.strtod_checks; S.slow += c.slow;
		for (int i = 0; i < 8; ++i) S.ev[i] += c.ev[i];
		for (int i = 0; i < N_MODES; ++i) S.per_mode[i] += c.per_mode[i];
		df.insert(df.end(), c.distinct_f.begin(), c.distinct_f.end());
		dd.insert(dd.end(), c.distinct_d.begin(), c.distinct_d.end());
		for (auto& m : c.samples) std::printf("SAMPLE %s\n", m.c_str());
	}
	auto uniq = [](std::vector<u64>& v) { std::sort(v.begin(), v.end()); return u64(std::unique(v.begin(), v.end()) - v.begin()); };
	u64 distinct = S.nontriv + uniq(df) + uniq(dd);
	std::printf("STAT evaluations %llu\nSTAT inputs %llu\nSTAT distinct_nontrivial %llu\nSTAT bad %llu\nSTAT oracle_crosschecks %llu\nSTAT strtod_crosschecks %llu\nSTAT undecided_by_filter %llu\n",
		(unsigned long long)S.evals, (unsigned long long)S.inputs, (unsigned long long)distinct, (unsigned long long)S.bad,
		(unsigned long long)S.cross, (unsigned long long)S.strtod_checks, (unsigned long long)S.slow);
	for (int i = 0; i < 8; ++i) if (S.ev[i]) std::printf("STAT %s %llu\n", evn[i], (unsigned long long)S.ev[i]);
	for (int i = 0; i < N_MODES; ++i) if (S.per_mode[i]) std::printf("STAT judged_mode_%s %llu\n", mode_name(i), (unsigned long long)S.per_mode[i]);
	std::printf("DONE\n");
	std::fflush(stdout);
	return S.bad ? 1 : 0;
}
#endif
