// Run-time guard shared by all monitors: every call into the library is announced in a per-thread
// slot, so that a signal (assertion, sanitizer abort, segfault, bad shift trap) or a call that never
// returns can be attributed to the exact input that caused it.
#ifndef VERIF_GUARD_HPP
#define VERIF_GUARD_HPP
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <thread>
#include <chrono>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <sys/syscall.h>

namespace guard {
struct alignas(64) slot {
	// relaxed atomics: ordinary moves, but not data races of the instrumentation itself
	std::atomic<std::uint64_t> bits;
	std::atomic<int> type, rs, mode, crs, kind, active;
	std::atomic<std::uint32_t> calls;  // progress
	std::atomic<int> clock;            // CPU-time clock of the thread, 0: none yet
};
static constexpr int max_slots = 64;
inline slot slots[max_slots];
inline std::atomic<int> nslots{ 0 };
inline thread_local slot* mine = nullptr;
inline slot& me() {
	if (!mine) {
		int i = nslots++; mine = &slots[i % max_slots];
		clockid_t c;
		mine->clock.store(pthread_getcpuclockid(pthread_self(), &c) == 0 ? (int)c : 0);
	}
	return *mine;
}
// kind: 0 numeric conversion, 1 text (unterminated), 2 text (terminated), 3 inspector, 4 helper
inline void enter(slot& s, int type, int rs, int mode, int crs, int kind, std::uint64_t bits) {
	constexpr auto R = std::memory_order_relaxed;
	s.bits.store(bits, R); s.type.store(type, R); s.rs.store(rs, R); s.mode.store(mode, R); s.crs.store(crs, R); s.kind.store(kind, R);
	s.calls.store(s.calls.load(R) + 1, R);
	s.active.store(1, R);
	std::atomic_signal_fence(std::memory_order_seq_cst);
}
inline void leave(slot& s) { std::atomic_signal_fence(std::memory_order_seq_cst); s.active.store(0, std::memory_order_relaxed); }

inline void put(char*& p, char const* s) { while (*s) *p++ = *s++; }
inline void put_u(char*& p, unsigned long long v, unsigned base) {
	char t[32]; int n = 0;
	do { t[n++] = "0123456789abcdef"[v % base]; v /= base; } while (v);
	while (n) *p++ = t[--n];
}
inline void report(char const* what, int sig, slot const* s) {
	char b[256]; char* p = b;
	put(p, "\nFATAL "); put(p, what); put(p, " sig="); put_u(p, (unsigned)sig, 10);
	if (s && s->active.load(std::memory_order_relaxed)) {
		put(p, " type="); *p++ = s->type.load() ? 'd' : 'f';
		put(p, " rs="); put_u(p, (unsigned)s->rs.load(), 10);
		put(p, " mode="); put_u(p, (unsigned)s->mode.load(), 10);
		put(p, " crs="); put_u(p, (unsigned)s->crs.load(), 10);
		put(p, " kind="); put_u(p, (unsigned)s->kind.load(), 10);
		put(p, " bits="); put_u(p, s->bits.load(), 16);
	} else put(p, " outside=1");
	put(p, "\n");
	ssize_t r = write(1, b, p - b); (void)r;
}
// not _exit(): a sanitizer intercepts that, and may be in the middle of a report
[[noreturn]] inline void leave_process(int rc) { for (;;) syscall(SYS_exit_group, rc); }
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__)
#define VERIF_SLOW_REPORTS
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(undefined_behavior_sanitizer)
#define VERIF_SLOW_REPORTS
#endif
#endif
#ifdef VERIF_SLOW_REPORTS
constexpr double cpu_limit = 20;  // a sanitizer report is made, and symbolized, inside the call
#else
constexpr double cpu_limit = 1.5;
#endif
inline std::atomic_flag reporting = ATOMIC_FLAG_INIT;
inline void on_signal(int sig) {
	// several threads may crash at once: the first one reports
	if (reporting.test_and_set()) for (;;) pause();
	report("crash", sig, mine);
	leave_process(70);
}
inline void install() {
	// run handlers on an alternate stack so that runaway recursion is reported too
	static char stack[1 << 16];
	stack_t ss; std::memset(&ss, 0, sizeof ss);
	ss.ss_sp = stack; ss.ss_size = sizeof stack;
	sigaltstack(&ss, nullptr);
	struct sigaction sa; std::memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGSYS }) sigaction(s, &sa, nullptr);
}
// A call that burns cpu_limit seconds of its thread's CPU time (a conversion takes about 100 ns) or makes no
// progress for `limit` seconds is reported (and re-examined by the driver).
inline double cpu_of(slot const& s) {
	timespec t; int c = s.clock.load();
	return c && clock_gettime((clockid_t)c, &t) == 0 ? t.tv_sec + t.tv_nsec * 1e-9 : 0;
}
inline void watchdog(int limit) {
	std::thread([limit] {
		std::uint32_t last[max_slots] = {}; int stuck[max_slots] = {}; double cpu[max_slots] = {};
		for (;;) {
			std::this_thread::sleep_for(std::chrono::milliseconds(250));
			int n = nslots; if (n > max_slots) n = max_slots;
			for (int i = 0; i < n; ++i) {
				if (slots[i].active.load(std::memory_order_relaxed) && slots[i].calls.load(std::memory_order_relaxed) == last[i]) {
					double c = cpu_of(slots[i]);
					if (++stuck[i] >= 4 * limit || (cpu[i] > 0 && c - cpu[i] > cpu_limit)) {
						// still the same call?
						if (slots[i].active.load() && slots[i].calls.load() == last[i]) { report("hang", 0, &slots[i]); leave_process(71); }
					}
				} else { stuck[i] = 0; cpu[i] = cpu_of(slots[i]); last[i] = slots[i].calls.load(std::memory_order_relaxed); }
			}
		}
	}).detach();
}
}
#endif
