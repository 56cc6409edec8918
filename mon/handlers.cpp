// Monitor of the handler and policy-object protocol (C21).
#include "runner.hpp"
#include "handlers.hpp"
#include <sys/wait.h>
form_table<float> forms_f;
form_table<double> forms_d;
// kind=4 slots: mode, crs, rs as usual; type as usual
template <class F> static void visit(ctx& c, typename conv_types<F>::U bits) {
	using L = work::lim<F>; using U = typename L::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	U mag = bits & ~SB;
	bool convertible = mag && mag < L::inf;
#if !defined(__x86_64__)
	// a signaling NaN passed by value may be quieted by the x87 unit before the library sees it
	if (mag > L::inf && !(mag & (U(1) << (L::mant - 1)))) return;
#endif
	auto& t = forms<F>();
	++c.inputs;
	u64 h = mix(bits ^ (O.seed << 33));
	auto bad = [&](int f, int rs, int m, int p, char const* what, seen_t const& s) {
		c.bad_msg("type=%c bits=%llx mode=%s policy=%s form=%s rs=%d : %s (handler calls %llu, bits seen %llx)", tc<F>(), (unsigned long long)bits, mode_name(m), crs_name(p), form_name(f), rs, what,
			(unsigned long long)s.calls, (unsigned long long)s.bits);
	};
	for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) for (int rs = 0; rs < 2; ++rs) {
		auto base = tab<F>().conv[rs][m][p];
		cres ref{};
		if (convertible && base) { guard::enter(*c.slot, conv_types<F>::id, rs, m, p, 0, bits); base(bits, ref); guard::leave(*c.slot); }
		for (int f = 0; f < N_FORMS; ++f) {
			auto fn = t.call[f][rs][m][p];
			if (!fn) continue;
			// with a throwing handler: every pattern, finite or not; nothing may happen after the throw
			if (!convertible || ((h >> (f + m + p)) & 3) == 0) {
				seen_t s; cres r{ 7777, 7777, false }; bool got = false, other = false;
				guard::enter(*c.slot, conv_types<F>::id, rs, m, p, 4, bits);
				try { fn(bits, true, s, r); }
				catch (thrown const& e) { got = e.bits == bits && e.tag == 17; if (!got) other = true; }
				catch (...) { other = true; }
				guard::leave(*c.slot);
				++c.evals; ++c.ev[1];
				if (other) bad(f, rs, m, p, "another-exception-than-the-handler-threw", s);
				else if (!got) bad(f, rs, m, p, "exception-of-handler-did-not-reach-the-caller", s);
				else if (s.calls != 1 || s.bits != bits) bad(f, rs, m, p, "throwing-handler-not-called-exactly-once-with-the-input", s);
				else if (s.mode_calls || s.policy_calls) bad(f, rs, m, p, "conversion-work-before-the-handler", s);
			}
			if (!convertible) continue;
			seen_t s; cres r{};
			guard::enter(*c.slot, conv_types<F>::id, rs, m, p, 4, bits);
			fn(bits, false, s, r);
			guard::leave(*c.slot);
			++c.evals; ++c.ev[0]; ++c.per_mode[m];
			if (s.calls != 1) bad(f, rs, m, p, s.calls >= 100 ? "handler-object-not-the-one-called" : s.calls ? "handler-called-more-than-once" : "handler-not-called", s);
			else if (s.bits != bits) bad(f, rs, m, p, "handler-saw-other-bits", s);
			else if (s.after_mode || s.after_policy) bad(f, rs, m, p, "conversion-work-before-the-handler", s);
			// how often the objects are consulted, and with which bits, is the library's affair; only counted
			else if (f == F_LOGGED && s.mode_calls == 1 && !s.wrong_bits_mode && !s.wrong_bits_policy) ++c.ev[6];
			if (base && !(r == ref)) bad(f, rs, m, p, "result-depends-on-how-the-objects-are-passed", s);
		}
	}
	static char const* const category[] = { "temporaries", "lvalues", "const-lvalues", "const-rvalues", "mixed", "mixed" };
	for (int m = 0; m < N_MODES; ++m) for (int p = 0; p < N_CRS; ++p) for (int z = 0; z < 2; ++z) if (auto fn = t.text[z][m][p]) {
		char a[64], b[64];
		std::memset(a, 0x55, sizeof a); std::memset(b, 0x55, sizeof b);
		int how = 1 + int((h >> 20) + m + p) % 5;
		guard::enter(*c.slot, conv_types<F>::id, 0, m, p, 1 + z, bits);
		long na = fn(bits, a, 0) - a, nb = fn(bits, b, how) - b;
		guard::leave(*c.slot);
		++c.evals; ++c.ev[7];
		if (na != nb || std::memcmp(a, b, sizeof a)) bad(F_TEMP, 0, m, p, ("text-depends-on-how-the-objects-are-passed:" + std::string(category[how])).c_str(), seen_t{});
	}
	if (c.samples.size() < 1 && (h & 63) == 0) { char b[160]; std::snprintf(b, sizeof b, "%c bits=%llx: one handler call with these bits in every form, mode and policy%s", tc<F>(), (unsigned long long)bits, convertible ? "" : " (throwing only)"); c.samples.push_back(b); }
	auto& v = sizeof(F) == 4 ? c.distinct_f : c.distinct_d; if (v.size() < (3u << 20)) v.push_back(bits);
}
template <class F> static void exceptions(ctx& c, typename conv_types<F>::U bits) {
	for (int w = 0; w < 4; ++w) {
		guard::enter(*c.slot, conv_types<F>::id, 1, M_NTE, C_EVEN, 4, bits);
		int g = forms<F>().throws(bits, w);
		guard::leave(*c.slot);
		++c.evals; ++c.ev[2];
		if (g != 1) c.bad_msg("type=%c bits=%llx mode=%s policy=%s : exception-type-%d-of-handler-%s", tc<F>(), (unsigned long long)bits, mode_name(M_NTE), crs_name(C_EVEN), w, g == 0 ? "lost" : "changed");
	}
}
// the default handler, in a child process; 'how' = signal or exit status
template <class F> static void deaths(ctx& c) {
	using L = work::lim<F>; using U = typename L::U;
	constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
	auto& t = forms<F>();
	std::vector<U> nonfinite{ L::inf, U(L::inf | 1), U(L::inf | L::frac), U(L::inf | (U(1) << (L::mant - 1))), U(L::inf | (U(1) << (L::mant - 2))) };
	work::rng r(O.seed, sizeof(F), 9);
	for (int i = 0; i < 20; ++i) nonfinite.push_back(U(L::inf | (U(r.next()) & L::frac)));
	if (t.checked_build) for (U n : nonfinite) for (U s : { U(0), SB }) {
		U bits = n | s;
		std::fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			for (int k : { SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGTRAP, SIGBUS }) signal(k, SIG_DFL);
			if (!freopen("/dev/null", "w", stderr)) _exit(9);
			cres x{}; t.default_handler(bits, x);
			_exit(0);
		}
		int st = 0; waitpid(pid, &st, 0);
		++c.evals; ++c.ev[3];
		if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))
			c.bad_msg("type=%c bits=%llx mode=default policy=default : default-handler-did-not-stop-a-non-finite-input-by-assertion (wait status %x)", tc<F>(), (unsigned long long)bits, st);
	}
}
template <class F> static void finite_pass(ctx& c, typename conv_types<F>::U bits) {
	using L = work::lim<F>; using U = typename L::U;
	U mag = bits & ~(U(1) << (sizeof(U) * 8 - 1));
	if (mag >= L::inf) return;
	guard::enter(*c.slot, conv_types<F>::id, 1, M_DEFAULT, C_DEFAULT, 4, bits);
	forms<F>().bare_default(bits);
	guard::leave(*c.slot);
	++c.evals; ++c.ev[5];
	if (!mag) return;
	cres a{}, b{};
	guard::enter(*c.slot, conv_types<F>::id, 1, M_DEFAULT, C_DEFAULT, 0, bits);
	forms<F>().default_handler(bits, a);
	forms<F>().ignoring_handler(bits, b);
	guard::leave(*c.slot);
	c.evals += 2; ++c.ev[4];
	if (!(a == b)) c.bad_msg("type=%c bits=%llx mode=default policy=default : default-and-ignoring-handlers-give-different-results", tc<F>(), (unsigned long long)bits);
}
int main(int argc, char** argv) {
	if (int rc = parse_opts(argc, argv)) return rc;
	static char const* names[8] = { "conversions_with_recording_handler", "conversions_with_throwing_handler", "exception_types_delivered", "default_handler_deaths_observed", "finite_inputs_passed_by_default_handler", "finite_inputs_given_to_default_handler_object", "conversions_through_the_mode_object_passed", "texts_with_mode_and_policy_objects" };
	for (int i = 0; i < 8; ++i) evn[i] = names[i];
	auto all = [](ctx& c, auto mag, auto* tag) {
		using F = std::remove_pointer_t<decltype(tag)>; using U = typename conv_types<F>::U;
		bool s = mix(mag ^ (O.seed << 40)) >> 60 & 1;
		U bits = U(mag | (s ? U(1) << (sizeof(U) * 8 - 1) : 0));
		visit<F>(c, bits); finite_pass<F>(c, bits);
	};
	if (O.one) {
		C[0].slot = &guard::me();
		if (O.one_type == 'f') { visit<float>(C[0], std::uint32_t(O.bits)); finite_pass<float>(C[0], std::uint32_t(O.bits)); exceptions<float>(C[0], std::uint32_t(O.bits)); deaths<float>(C[0]); }
		else { visit<double>(C[0], O.bits); finite_pass<double>(C[0], O.bits); exceptions<double>(C[0], O.bits); deaths<double>(C[0]); }
		return report_all();
	}
	ctx& c = C[0]; c.slot = &guard::me();
	auto specials = [&](auto* tag) {
		using F = std::remove_pointer_t<decltype(tag)>; using L = work::lim<F>; using U = typename L::U;
		constexpr U SB = U(1) << (sizeof(U) * 8 - 1);
		deaths<F>(c);
		for (U s : { U(0), SB }) {
			visit<F>(c, s); finite_pass<F>(c, s); visit<F>(c, U(s | L::inf));
			for (int i = 0; i < L::mant; ++i) { visit<F>(c, U(s | L::inf | (U(1) << i))); visit<F>(c, U(s | L::inf | (L::frac >> i))); }
			for (U b : { U(s), U(s | 1), U(s | L::inf), U(s | L::inf | L::frac), U(s | (L::inf - 1)) }) exceptions<F>(c, b);
		}
		std::printf("STAT forms_%s %d\n", sizeof(F) == 4 ? "float" : "double", [] { int n = 0; for (int f = 0; f < N_FORMS; ++f) n += forms<F>().call[f][1][0][1] != nullptr; return n; }());
	};
	specials((float*)nullptr); specials((double*)nullptr);
	go(all);
	return report_all();
}
