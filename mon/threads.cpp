// Histories and concurrency (C16).  Every operation is (type, form, mode, policy, bits).  Its recorded result
// must be one function of the operation, whatever was called before and whatever runs at the same time.
//   check=conc   : threads issue shuffled operation streams concurrently from the very first call of the process
//   check=reent  : conversions interrupted after every instruction by other conversions on the same thread
//   check=hist   : the parent never calls the library; forked children run different histories over the same pool,
//                  including many in which an operation is the first call of its process
#include "runner.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <cerrno>
#include <chrono>
#include <sys/wait.h>
#include <sched.h>
#include <unordered_set>
#include <array>

struct op { u64 bits; unsigned char type, form, m, p; };  // form: 0/1 numeric (rs), 2/3 text (z)
static std::vector<op> pool;
static u64 digest_num(cres const& r) { return mix(r.sig) + mix((u64)(std::int64_t)r.exp * 2 + r.neg); }
template <class F> static u64 exec1(op const& o, guard::slot& s, char* buf, bool& stray) {
	using U = typename conv_types<F>::U;
	auto& t = tab<F>();
	if (o.form < 2) {
		cres r;
		guard::enter(s, o.type, o.form, o.m, o.p, 0, o.bits);
		t.conv[o.form][o.m][o.p](U(o.bits), r);
		guard::leave(s);
		return digest_num(r);
	}
	guard::enter(s, o.type, 0, o.m, o.p, o.form - 1, o.bits);
	char* e = t.str[o.form - 2][o.m][o.p](U(o.bits), buf);
	guard::leave(s);
	long n = e - buf;
	if (n < 0 || n > 40) { stray = true; return 1; }
	u64 h = mix((u64)n);
	for (long i = 0; i < n; ++i) h = mix(h ^ (unsigned char)buf[i]);
	return h;
}
static u64 exec(op const& o, guard::slot& s, char* buf) {
	bool stray = false;
	return o.type ? exec1<double>(o, s, buf, stray) : exec1<float>(o, s, buf, stray);
}
static std::string op_text(op const& o) {
	char b[200];
	std::snprintf(b, sizeof b, "type=%c bits=%llx mode=%s policy=%s form=%s", o.type ? 'd' : 'f', (unsigned long long)o.bits, mode_name(o.m), crs_name(o.p),
		o.form == 0 ? "numeric-unsigned" : o.form == 1 ? "numeric" : o.form == 2 ? "text-unterminated" : "text");
	return b;
}
static std::string result_text(op const& o, guard::slot& s) {
	if (o.form < 2) {
		cres r; if (o.type) tab_d.conv[o.form][o.m][o.p](o.bits, r); else tab_f.conv[o.form][o.m][o.p](std::uint32_t(o.bits), r);
		return dec_text(r);
	}
	char b[160]; std::memset(b, 0, sizeof b);
	char* e = o.type ? tab_d.str[o.form - 2][o.m][o.p](o.bits, b) : tab_f.str[o.form - 2][o.m][o.p](std::uint32_t(o.bits), b);
	(void)s; (void)e;
	return b;
}
static void make_pool(u64 seed, size_t n) {
	work::rng r(seed, 1, 99);
	std::vector<op> forms[2];
	for (int t = 0; t < 2; ++t) for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) for (int f = 0; f < 4; ++f) {
		bool have = t ? (f < 2 ? tab_d.conv[f][m][p] != nullptr : tab_d.str[f - 2][m][p] != nullptr) : (f < 2 ? tab_f.conv[f][m][p] != nullptr : tab_f.str[f - 2][m][p] != nullptr);
		if (have) forms[t].push_back({ 0, (unsigned char)t, (unsigned char)f, (unsigned char)m, (unsigned char)p });
	}
	auto push = [&](int t, u64 bits) {
		u64 mag = t ? bits & 0x7fffffffffffffffull : bits & 0x7fffffffull;
		bool fin = mag && mag < (t ? 0x7ff0000000000000ull : 0x7f800000ull);
		for (int tries = 0; tries < 8; ++tries) {
			op o = forms[t][r.below(forms[t].size())];
			if (!fin && o.form < 2) continue;
			o.bits = bits; pool.push_back(o); return;
		}
	};
	while (pool.size() < n) {
		int t = int(r.next() & 1);
		u64 x;
		u64 mask = t ? ~0ull : 0xffffffffull;
		switch (r.below(8)) {
		case 0: x = t ? (u64)(r.below(2046) + 1) << 52 : (u64)(r.below(254) + 1) << 23; break;
		case 1: x = r.below(1 << 20); break;
		case 2: { double v = double(r.below(1000000)) / 1000; float w = float(v); x = t ? work::bits_of<double>(v) : work::bits_of<float>(w); break; }
		case 3: x = t ? (r.next() & 3 ? 0x7ff0000000000000ull : 0x7ff8000000000000ull | r.below(100)) : (r.next() & 3 ? 0x7f800000ull : 0x7fc00000ull | r.below(100)); break;
		default: x = r.next() & (mask >> 1); break;
		}
		// families of related operations: neighbours, same significand, same low word, other sign, same bits in several modes
		u64 sb = t ? 1ull << 63 : 1ull << 31; int mant = t ? 52 : 23;
		push(t, x); push(t, x); push(t, x); push(t, x | sb); push(t, x ^ 1); push(t, (x + 1) & (mask >> 1));
		push(t, x ^ (1ull << mant)); push(t, x ^ (1ull << (mant - 1)));
		if (t) { push(1, x ^ (1ull << 32)); push(1, (x & 0xffffffffull) | (r.next() & 0x7fe0000000000000ull)); push(0, x & 0x7fffffffull); }
		else { push(1, x); push(1, x << 29); }
	}
}
static std::atomic<int> active{ 0 };

static int conc() {
	int T = O.threads * 2; if (T > guard::max_slots - 2) T = guard::max_slots - 2;
	size_t N = pool.size();
	u64 rounds = O.drep;
	struct rec { std::uint32_t i; u64 d; };
	std::vector<std::vector<rec>> log(T);
	std::atomic<int> ready{ 0 }; std::atomic<bool> goflag{ false };
	std::vector<std::array<u64, 65>> overlap(T);
	std::vector<std::thread> th;
	for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
		guard::slot& s = guard::me();
		overlap[t].fill(0);
		std::vector<char> buf(64);
		work::rng r(O.seed, 7, t);
		std::vector<std::uint32_t> ord(N);
		for (size_t i = 0; i < N; ++i) ord[i] = (std::uint32_t)i;
		log[t].reserve(N * rounds);
		ready.fetch_add(1);
		while (!goflag.load(std::memory_order_relaxed)) sched_yield();
		for (u64 k = 0; k < rounds; ++k) {
			// thread 0 and 1 walk the pool in order (families stay adjacent), the others shuffle or collide on the same region
			if (t > 1) { if (t & 1) for (size_t i = N; i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]); else std::rotate(ord.begin(), ord.begin() + r.below(64), ord.end()); }
			for (size_t i = 0; i < N; ++i) {
				int a = active.fetch_add(1, std::memory_order_relaxed) + 1;
				u64 d = exec(pool[ord[i]], s, buf.data());
				active.fetch_sub(1, std::memory_order_relaxed);
				++overlap[t][a < 0 ? 0 : a > 64 ? 64 : a];
				log[t].push_back({ ord[i], d });
				if ((r.next() & 255) == 0) sched_yield();
			}
		}
	});
	while (ready.load() < T) sched_yield();
	goflag = true;
	for (auto& x : th) x.join();
	// offline: one result per operation over all logs, and the sequential result afterwards
	ctx& c = C[0]; c.slot = &guard::me();
	char buf[64];
	std::vector<u64> ref(N);
	for (size_t i = N; i-- > 0;) { ref[i] = exec(pool[i], *c.slot, buf); ++c.evals; }
	std::unordered_set<u64> pairs;
	u64 ov = 0;
	for (int t = 0; t < T; ++t) {
		std::uint32_t prev = ~0u;
		for (auto& e : log[t]) {
			++c.evals;
			if (e.d != ref[e.i]) c.bad_msg("%s : concurrent-result-differs (sequential %s, thread %d)", op_text(pool[e.i]).c_str(), result_text(pool[e.i], *c.slot).c_str(), t);
			if (pairs.size() < 2000000) pairs.insert((u64)prev << 32 | e.i);
			prev = e.i;
		}
		for (int a = 2; a <= 64; ++a) ov += overlap[t][a];
	}
	c.nontriv = ov; c.inputs = N;
	char b[160]; std::snprintf(b, sizeof b, "%d threads, %zu operations, first: %s", T, N, op_text(pool[0]).c_str()); c.samples.push_back(b);
	std::printf("STAT calls_overlapping_another %llu\nSTAT distinct_adjacent_pairs %zu\nSTAT threads_used %d\n", (unsigned long long)ov, pairs.size(), T);
	return 0;
}

static int hist() {
	size_t N = pool.size();
	u64 K = O.drep;               // long histories
	u64 first = O.frep;           // short histories (first call of a process)
	size_t W = (size_t)O.threads;
	u64* res = (u64*)mmap(nullptr, N * W * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	unsigned char* done = (unsigned char*)mmap(nullptr, N * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (res == MAP_FAILED || done == MAP_FAILED) { std::printf("INTERNAL mmap\n"); return 3; }
	std::vector<u64> ref(N, 0); std::vector<unsigned char> have(N, 0);
	std::vector<u64> refhist(N, 0);
	ctx& c = C[0];
	u64 histories = 0, firsts = 0; u64 crashed = 0;
	auto wave = [&](u64 base, size_t cnt, bool shortone) {
		pid_t pid[64];
		for (size_t w = 0; w < cnt; ++w) {
			std::fflush(stdout);
			pid[w] = fork();
			if (pid[w] == 0) {
				guard::slot& s = guard::me();
				alarm((unsigned)O.wd);
				char buf[64];
				work::rng r(O.seed, 17, base + w);
				u64* R = res + w * N; unsigned char* D = done + w * N;
				if (shortone) {
					// one operation as the first call of the process, then its family, then itself again
					size_t i = r.below(N);
					R[i] = exec(pool[i], s, buf); D[i] = 1;
					for (size_t j = 1; j < 40; ++j) { size_t q = (i + j) % N; R[q] = exec(pool[q], s, buf); D[q] = 1; }
					u64 again = exec(pool[i], s, buf);
					if (again != R[i]) D[i] = 2;
				} else {
					std::vector<std::uint32_t> ord(N);
					for (size_t i = 0; i < N; ++i) ord[i] = (std::uint32_t)i;
					u64 kind = (base + w) % 4;
					if (kind == 0) for (size_t i = N; i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
					else if (kind == 1) std::reverse(ord.begin(), ord.end());
					else if (kind == 2) { for (size_t i = 0; i + 16 <= N; i += 16) for (size_t k = 16; k > 1; --k) std::swap(ord[i + k - 1], ord[i + r.below(k)]); }
					else std::rotate(ord.begin(), ord.begin() + r.below(N), ord.end());
					for (auto i : ord) {
						R[i] = exec(pool[i], s, buf);
						D[i] = 1;
						if ((r.next() & 7) == 0 && exec(pool[i], s, buf) != R[i]) D[i] = 2;   // immediate repetition
					}
				}
				_exit(0);
			}
			if (pid[w] < 0) { std::printf("INTERNAL fork\n"); _exit(3); }
		}
		for (size_t w = 0; w < cnt; ++w) {
			int st = 0;
			while (waitpid(pid[w], &st, 0) < 0) {}
			if (!WIFEXITED(st) || WEXITSTATUS(st)) {
				++crashed;
				if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) c.bad_msg("type=d bits=0 : history %llu did not finish", (unsigned long long)(base + w));
				else if (WIFSIGNALED(st)) c.bad_msg("type=d bits=0 : history %llu died with signal %d", (unsigned long long)(base + w), WTERMSIG(st));
				else c.bad_msg("type=d bits=0 : history %llu ended with %d", (unsigned long long)(base + w), WEXITSTATUS(st));
				continue;
			}
			u64* R = res + w * N; unsigned char* D = done + w * N;
			for (size_t i = 0; i < N; ++i) if (D[i]) {
				++c.evals;
				if (D[i] == 2) c.bad_msg("%s : repeated-call-differs (history %llu)", op_text(pool[i]).c_str(), (unsigned long long)(base + w));
				if (!have[i]) { have[i] = 1; ref[i] = R[i]; refhist[i] = base + w; }
				else if (ref[i] != R[i]) c.bad_msg("%s : result-depends-on-history (histories %llu and %llu)", op_text(pool[i]).c_str(), (unsigned long long)refhist[i], (unsigned long long)(base + w));
			}
		}
		std::memset(done, 0, N * W);
	};
	for (u64 b = 0; b < K; b += W) { size_t n = std::min<u64>(W, K - b); wave(b, n, false); histories += n; }
	for (u64 b = 0; b < first; b += W) { size_t n = std::min<u64>(W, first - b); wave(1000000 + b, n, true); firsts += n; }
	c.nontriv = histories + firsts; c.inputs = N;
	char t[160]; std::snprintf(t, sizeof t, "%llu permuted histories over %zu operations, %llu fresh processes", (unsigned long long)histories, N, (unsigned long long)firsts); c.samples.push_back(t);
	std::printf("STAT histories %llu\nSTAT fresh_process_first_calls %llu\nSTAT children_died %llu\n", (unsigned long long)histories, (unsigned long long)firsts, (unsigned long long)crashed);
	return 0;
}
// ---- reentrancy: a conversion is interrupted after every one of its instructions (x86 trap flag) and the handler
// converts other numbers on the same thread; neither the interrupted nor the interrupting conversion may notice.
// Where single-stepping is not available an interval timer interrupts at arbitrary points instead.
namespace reent {
struct state {
	std::uint32_t i = 0, at = 0; u64 traps = 0, nested = 0, max_steps = 0; u64 steps = 0; bool busy = false, bad = false;
	std::uint32_t bad_op = 0; u64 bad_got = 0;
	u64 lcg = 1;
	guard::slot hs{};
};
static thread_local state st;
static std::vector<u64> ref;
static std::vector<std::vector<std::uint32_t>> same;  // operations that run the same code: type, form, mode, policy
static size_t key(op const& o) { return ((o.type * 4u + o.form) * N_MODES + o.m) * N_CRS + o.p; }
static void handler(int) {
	state& s = st;
	++s.traps; ++s.steps;
	if (s.busy) return;
	s.busy = true;
	int e = errno;
	char buf[64];
	size_t N = pool.size();
	s.lcg = s.lcg * 6364136223846793005ull + 1442695040888963407ull;
	// the same code on another number, or a relative of the interrupted operation, or anything
	u64 kind = s.lcg >> 60;
	auto const& sk = same[key(pool[s.i])];
	size_t q = kind < 8 ? sk[(s.lcg >> 20) % sk.size()] : kind < 14 ? (s.i + N + ((s.lcg >> 33) % 25) - 12) % N : (s.lcg >> 20) % N;
	u64 d = exec(pool[q], s.hs, buf);
	++s.nested;
	if (d != ref[q] && !s.bad) { s.bad = true; s.bad_op = (std::uint32_t)q; s.bad_got = d; }
	errno = e;
	s.busy = false;
}
#if defined(__x86_64__)
#define STEP_ON() __asm__ __volatile__("lea -256(%%rsp),%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tlea 256(%%rsp),%%rsp" ::: "memory", "cc")
#define STEP_OFF() __asm__ __volatile__("lea -256(%%rsp),%%rsp\n\tpushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq\n\tlea 256(%%rsp),%%rsp" ::: "memory", "cc")
#else
#define STEP_ON() (void)0
#define STEP_OFF() (void)0
#endif
template <class F> static u64 stepped(op const& o, guard::slot& s, char* buf, bool step) {
	using U = typename conv_types<F>::U;
	auto& t = tab<F>();
	if (o.form < 2) {
		cres r;
		auto f = t.conv[o.form][o.m][o.p];
		guard::enter(s, o.type, o.form, o.m, o.p, 0, o.bits);
		if (step) STEP_ON();
		f(U(o.bits), r);
		if (step) STEP_OFF();
		guard::leave(s);
		return digest_num(r);
	}
	auto f = t.str[o.form - 2][o.m][o.p];
	guard::enter(s, o.type, 0, o.m, o.p, o.form - 1, o.bits);
	if (step) STEP_ON();
	char* e = f(U(o.bits), buf);
	if (step) STEP_OFF();
	guard::leave(s);
	long n = e - buf;
	if (n < 0 || n > 40) return 1;
	u64 h = mix((u64)n);
	for (long i = 0; i < n; ++i) h = mix(h ^ (unsigned char)buf[i]);
	return h;
}
static int go() {
	size_t N = pool.size();
	ctx& c0 = C[0]; c0.slot = &guard::me();
	char b0[64];
	ref.resize(N);
	same.resize((size_t)8 * N_MODES * N_CRS);
	for (size_t i = 0; i < N; ++i) same[key(pool[i])].push_back((std::uint32_t)i);
	for (size_t i = 0; i < N; ++i) ref[i] = exec(pool[i], *c0.slot, b0);
	struct sigaction sa; std::memset(&sa, 0, sizeof sa);
	sa.sa_handler = handler; sa.sa_flags = SA_RESTART | SA_NODEFER;
	sigaction(SIGTRAP, &sa, nullptr);
	sigaction(SIGALRM, &sa, nullptr);
	st.lcg = O.seed;
	if (pool[0].type) stepped<double>(pool[0], *c0.slot, b0, true); else stepped<float>(pool[0], *c0.slot, b0, true);
	bool can_step = st.traps > 3;
	std::atomic<u64> next{ 0 }, traps{ 0 }, nested{ 0 }, maxs{ 0 }, points{ 0 };
	auto t_end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)O.drep);
	auto work_thread = [&](int t) {
		ctx& c = C[t]; c.slot = &guard::me();
		state& s = st; s.lcg = O.seed * 977 + (u64)t; s.traps = s.nested = 0;
		char buf[64];
		work::rng r(O.seed, 23, t);
		while (std::chrono::steady_clock::now() < t_end && !enough()) {
			size_t i = can_step ? next++ : r.below(N);
			if (can_step && i >= N * 4) break;
			i %= N;
			s.i = (std::uint32_t)i; s.steps = 0;
			u64 d = pool[i].type ? stepped<double>(pool[i], *c.slot, buf, can_step) : stepped<float>(pool[i], *c.slot, buf, can_step);
			++c.evals;
			if (s.steps > maxs) maxs = s.steps;
			if (s.steps) ++points;
			if (d != ref[i]) c.bad_msg("%s : interrupted-conversion-differs (%llu interruptions by other conversions on its thread)", op_text(pool[i]).c_str(), (unsigned long long)s.steps);
			if (s.bad) { s.bad = false; c.bad_msg("%s : interrupting-conversion-differs (during %s)", op_text(pool[s.bad_op]).c_str(), op_text(pool[i]).c_str()); }
		}
		traps += s.traps; nested += s.nested; c.nontriv += s.nested; c.evals += s.nested;
	};
	if (can_step) {
		std::vector<std::thread> th;
		for (int t = 0; t < O.threads; ++t) th.emplace_back(work_thread, t);
		for (auto& x : th) x.join();
	} else {
		// one thread: the timer's signal has to reach the thread that converts
		sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM); pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
		itimerval v; v.it_interval.tv_sec = 0; v.it_interval.tv_usec = 50; v.it_value = v.it_interval;
		setitimer(ITIMER_REAL, &v, nullptr);
		work_thread(0);
		v.it_interval.tv_usec = v.it_value.tv_usec = 0;
		setitimer(ITIMER_REAL, &v, nullptr);
	}
	c0.inputs = N;
	std::printf("STAT interrupted_calls %llu\nSTAT interruptions %llu\nSTAT longest_single_stepped_call %llu\nSTAT single_stepping %d\n", (unsigned long long)points.load(), (unsigned long long)nested.load(), (unsigned long long)maxs.load(), can_step ? 1 : 0);
	char b[160]; std::snprintf(b, sizeof b, "%llu calls interrupted %llu times (%s), first: %s", (unsigned long long)points.load(), (unsigned long long)nested.load(), can_step ? "after every instruction" : "by a timer", op_text(pool[0]).c_str()); c0.samples.push_back(b);
	return 0;
}
}
int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	C.resize(std::max(1, O.threads));
	for (int i = 0; i < 8; ++i) evn[i] = "";
	make_pool(O.seed, (size_t)O.drand);
	guard::install();
	std::string ck = O.check;
	int rc;
	if (ck == "reent") { guard::watchdog(O.wd); rc = reent::go(); }
	else if (ck == "conc") { guard::watchdog(O.wd); rc = conc(); }
	else rc = hist();
	if (rc) return rc;
	return report_all();
}
