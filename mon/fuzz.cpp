// Coverage- and comparison-guided input generation (libFuzzer).  The library is built with edge
// counters and comparison tracing; an input that reaches a new edge, or brings a comparison in the
// library closer to equality than any input before, is kept in the corpus.  The corpus is then
// judged by the monitors like any other workload: this program judges nothing.
// Input: 1 byte selecting type and table entry, then the bit pattern.
#include "conv.hpp"
#include <cstring>
#include <cstddef>
tables<float> tab_f;
tables<double> tab_d;
namespace oracle { thread_local unsigned long long slow_compares; }
namespace {
int n[2];
struct ent { int kind, s, m, c; } e[2][4 * N_MODES * N_CRS];
template <class F> void list(int i) {
	for (int m = 0; m < N_MODES; ++m) for (int c = 0; c < N_CRS; ++c) for (int s = 0; s < 2; ++s) {
		if (tab<F>().conv[s][m][c]) e[i][n[i]++] = { 0, s, m, c };
		if (tab<F>().str[s][m][c]) e[i][n[i]++] = { 1, s, m, c };
	}
}
template <class F> void call(unsigned sel, unsigned char const* p) {
	typename conv_types<F>::U b; std::memcpy(&b, p, sizeof b);
	ent const& x = e[conv_types<F>::id][sel % n[conv_types<F>::id]];
	if (x.kind == 0) {
		// numeric conversion asks for finite nonzero arguments
		auto mag = b << 1;
		auto inf = sizeof b == 4 ? typename conv_types<F>::U(0xff000000u) : typename conv_types<F>::U(0xffe0000000000000ull);
		if (mag == 0 || mag >= inf) return;
		cres r; tab<F>().conv[x.s][x.m][x.c](b, r);
	}
	else { char buf[128]; tab<F>().str[x.s][x.m][x.c](b, buf); }
}
}
extern "C" int LLVMFuzzerInitialize(int*, char***) { list<float>(0); list<double>(1); return 0; }
extern "C" int LLVMFuzzerTestOneInput(unsigned char const* d, size_t size) {
	if (size < 1) return 0;
	bool dbl = d[0] & 1;
	if (!n[dbl]) dbl = !dbl;
	if (size < (dbl ? 9u : 5u)) return 0;
	if (dbl) call<double>(d[0] >> 1, d + 1); else call<float>(d[0] >> 1, d + 1);
	return 0;
}
