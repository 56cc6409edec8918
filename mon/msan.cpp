// MemorySanitizer driver (C12, C13): single threaded, no C++ library objects, so that every report
// concerns the library under test.  The destination buffer is poisoned before each call; afterwards the
// text must be initialised and nothing but the text may have become initialised.
#include "conv.hpp"
#include <sanitizer/msan_interface.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
tables<float> tab_f;
tables<double> tab_d;
static volatile unsigned long long cur_bits; static volatile int cur_m, cur_p, cur_k, cur_t;
static void report() {
	char b[160];
	int n = std::snprintf(b, sizeof b, "\nFATAL crash sig=6 type=%c rs=1 mode=%d crs=%d kind=%d bits=%llx\n", cur_t ? 'd' : 'f', cur_m, cur_p, cur_k, cur_bits);
	ssize_t r = write(1, b, n); (void)r;
}
static void on_sig(int) { report(); _exit(70); }
using u64 = unsigned long long;
static u64 evals, inputs, bytes_checked;
static int bad;
template <class F> static void one(typename conv_types<F>::U bits, bool finite) {
	++inputs;
	auto& t = tab<F>();
	for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) {
		cur_bits = bits; cur_m = m; cur_p = p; cur_t = conv_types<F>::id;
		for (int rs = 0; rs < 2; ++rs) if (finite && t.conv[rs][m][p]) {
			cur_k = 0;
			cres r; __msan_poison(&r, sizeof r);
			t.conv[rs][m][p](bits, r);
			__msan_check_mem_is_initialized(&r.sig, sizeof r.sig);
			__msan_check_mem_is_initialized(&r.exp, sizeof r.exp);
			__msan_check_mem_is_initialized(&r.neg, sizeof r.neg);
			++evals;
		}
		for (int z = 0; z < 2; ++z) if (t.str[z][m][p]) {
			cur_k = 1 + z;
			static char buf[160];
			__msan_poison(buf, sizeof buf);
			int off = 40 + int(bits & 7);
			char* e = t.str[z][m][p](bits, buf + off);
			__msan_check_mem_is_initialized(&e, sizeof e);
			long n = e - (buf + off) + z;
			++evals;
			if (n < 1 || n > 40) { std::printf("BAD type=%c bits=%llx mode=%s policy=%s : length %ld\n", cur_t ? 'd' : 'f', (u64)bits, mode_name(m), crs_name(p), n); ++bad; continue; }
			__msan_check_mem_is_initialized(buf + off, n);
			bytes_checked += n;
			__msan_poison(buf + off, n);
			long q = 0;
			while (q < (long)sizeof buf && __msan_test_shadow(buf + q, 1) == 0) ++q;
			if (q < (long)sizeof buf && bad < 20) {
				std::printf("BAD type=%c bits=%llx mode=%s policy=%s : foreign-byte-written offset %ld text length %ld\n", cur_t ? 'd' : 'f', (u64)bits, mode_name(m), crs_name(p), q - off, n); ++bad;
			}
		}
	}
}
template <class F> static void list(char const* path) {
	FILE* f = std::fopen(path, "rb");
	if (!f) { std::printf("INTERNAL cannot read\n"); _exit(3); }
	static u64 b[4096]; size_t n;
	__msan_unpoison(b, sizeof b);
	while ((n = std::fread(b, 8, 4096, f)) > 0) for (size_t i = 0; i < n; ++i) {
		using U = typename conv_types<F>::U;
		U x = U(b[i]);
		U sb = U(1) << (sizeof(U) * 8 - 1);
		constexpr int mant = oracle::fmt<F>::mant;
		bool finite = ((x & ~sb) >> mant) != (U(1) << (sizeof(U) * 8 - 1 - mant)) - 1 && (x & ~sb);
		if ((b[i] * 0x9e3779b97f4a7c15ull) >> 63) x |= sb;
		one<F>(x, finite);
	}
	std::fclose(f);
}
int main(int argc, char** argv) {
	__msan_set_death_callback(report);
	std::signal(SIGSEGV, on_sig); std::signal(SIGABRT, on_sig); std::signal(SIGFPE, on_sig); std::signal(SIGILL, on_sig); std::signal(SIGBUS, on_sig);
	for (int i = 1; i < argc; ++i) {
		if (!std::strncmp(argv[i], "list_f=", 7)) list<float>(argv[i] + 7);
		else if (!std::strncmp(argv[i], "list_d=", 7)) list<double>(argv[i] + 7);
		else if (!std::strncmp(argv[i], "f=", 2)) one<float>((unsigned)std::strtoull(argv[i] + 2, nullptr, 16), std::atoi(argv[i] + 2) >= 0 && (std::strtoull(argv[i] + 2, nullptr, 16) & 0x7f800000) != 0x7f800000 && (std::strtoull(argv[i] + 2, nullptr, 16) & 0x7fffffff));
		else if (!std::strncmp(argv[i], "d=", 2)) { u64 x = std::strtoull(argv[i] + 2, nullptr, 16); one<double>(x, (x >> 52 & 2047) != 2047 && (x << 1)); }
	}
	std::printf("STAT evaluations %llu\nSTAT inputs %llu\nSTAT distinct_nontrivial %llu\nSTAT bytes_checked %llu\nSTAT bad %d\nDONE\n", evals, inputs, inputs, bytes_checked, bad);
	return bad ? 1 : 0;
}
