#ifndef VERIF_INSP_HPP
#define VERIF_INSP_HPP
#include <cstdint>
struct insp {
	std::uint64_t f, sig, payload;
	std::uint32_t exp; unsigned flags; std::uint64_t back; unsigned payload_len;
};
enum { B_FINITE = 1, B_NONZERO = 2, B_SUB = 4, B_NEG = 8, B_POS = 16, B_PINF = 32, B_NINF = 64, B_INF = 128, B_NAN = 256, B_QNAN = 512, B_SNAN = 1024 };
void inspect(std::uint32_t bits, bool through_value, insp& o);
void inspect(std::uint64_t bits, bool through_value, insp& o);
#endif
