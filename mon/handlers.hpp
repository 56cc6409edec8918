// C21: forms of calling a conversion with handler, mode and policy objects of different value categories.
#ifndef VERIF_HANDLERS_HPP
#define VERIF_HANDLERS_HPP
#include "conv.hpp"
// what the handler saw
struct seen_t { std::uint64_t calls = 0, bits = 0; void const* self = nullptr; bool after_mode = false, after_policy = false; std::uint64_t mode_calls = 0, policy_calls = 0; bool wrong_bits_mode = false, wrong_bits_policy = false; };
enum form_id { F_TEMP, F_LVALUE, F_CONST, F_MOVED, F_CONST_RVALUE, F_LAMBDA, F_FUNCTION, F_NONCOPY, F_MIXED, F_LOGGED, N_FORMS };
inline char const* form_name(int f) { static char const* const n[] = { "temporaries", "lvalues", "const-lvalues", "moved", "const-rvalues", "lambda", "function-pointer", "non-copyable-handler", "mixed", "logging-mode-and-policy" }; return f >= 0 && f < N_FORMS ? n[f] : "?"; }
struct thrown { std::uint64_t bits; int tag; };
template <class F> struct form_table {
	// converts bits with form and [mode][policy]; the handler records into s and, if do_throw, throws `thrown`
	void (*call[N_FORMS][2][N_MODES][N_CRS])(typename conv_types<F>::U bits, bool do_throw, seen_t& s, cres& r);
	// policy and handler, or handler of other exception types: returns a code naming what arrived
	int (*throws)(typename conv_types<F>::U bits, int what);
	// renders with mode and policy objects of the given value category (0: temporaries); writer z as in conv.hpp
	char* (*text[2][N_MODES][N_CRS])(typename conv_types<F>::U bits, char* buffer, int how);
	void (*default_handler)(typename conv_types<F>::U bits, cres& r);
	void (*ignoring_handler)(typename conv_types<F>::U bits, cres& r);
	void (*bare_default)(typename conv_types<F>::U bits);   // the default handler object alone
	bool checked_build;   // assertions were enabled when the library was compiled
};
extern form_table<float> forms_f;
extern form_table<double> forms_d;
template <class F> form_table<F>& forms();
template <> inline form_table<float>& forms<float>() { return forms_f; }
template <> inline form_table<double>& forms<double>() { return forms_d; }
#endif
