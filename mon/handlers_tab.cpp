// Instantiates one form of call (-DFORM=n) for TAB_TYPE; see handlers.hpp.
#if FORM == 10
#include "fp_to_chars.h"
#endif
#include "grisu_exact.h"
#include "handlers.hpp"
#include <stdexcept>
#include <string>
namespace rm = jkj::grisu_exact_rounding_modes;
namespace cr = jkj::grisu_exact_correct_rounding;
using T = TAB_TYPE;
using U = conv_types<T>::U;
using BR = jkj::bit_representation_t<T>;
namespace {
inline T from_bits(U b) { T x; std::memcpy(&x, &b, sizeof x); return x; }
thread_local seen_t* tl; thread_local bool tl_throw;

struct handler {
	seen_t* s; bool t;
	template <class B> void operator()(B br) const {
		if (!s->calls++) { s->self = this; s->after_mode = s->mode_calls != 0; s->after_policy = s->policy_calls != 0; }
		s->bits = br.f;
		if (t) throw thrown{ std::uint64_t(br.f), 17 };
	}
};
struct noncopy {
	seen_t* s; bool t;
	noncopy(seen_t* s, bool t) : s(s), t(t) {}
	noncopy(noncopy const&) = delete; noncopy& operator=(noncopy const&) = delete;
	int operator()(BR const& br) { ++s->calls; s->self = this; s->bits = br.f; if (t) throw thrown{ std::uint64_t(br.f), 17 }; return 3; }
};
[[maybe_unused]] void fn(BR br) { ++tl->calls; tl->bits = br.f; if (tl_throw) throw thrown{ std::uint64_t(br.f), 17 }; }
struct nothing {
	template <class B> void operator()(B) const {}
};
#if FORM == 9
// modes and policies that announce themselves and delegate to the real ones
template <class P> struct log_policy : P {
	seen_t* s = nullptr; std::uint64_t want = 0;
	template <bool S, class F, class I> jkj::fp_t<F, S> delegate(jkj::bit_representation_t<F> br, I&& i) const {
		if (s) { ++s->policy_calls; if (br.f != want) s->wrong_bits_policy = true; }   // s is null if the library made an object of its own
		return P{}.template delegate<S>(br, std::forward<I>(i));
	}
};
template <class M> struct log_mode : M {
	seen_t* s = nullptr; std::uint64_t want = 0;
	template <bool S, class F, class C> jkj::fp_t<F, S> delegate(jkj::bit_representation_t<F> br, C&& c) const {
		if (s) { ++s->mode_calls; if (br.f != want) s->wrong_bits_mode = true; }
		return M{}.template delegate<S>(br, std::forward<C>(c));
	}
};
#endif
template <class R> void put(R const& r, cres& o) { o.sig = r.significand; o.exp = r.exponent; }
template <bool S, class M, class P> void call(U bits, bool t, seen_t& s, cres& out) {
	T x = from_bits(bits);
	auto keep = [&](auto const& r) { out.sig = r.significand; out.exp = r.exponent; if constexpr (S) out.neg = r.is_negative; else out.neg = false; };
#if FORM == 0
	keep(jkj::grisu_exact<S>(x, M{}, P{}, handler{ &s, t }));
#elif FORM == 1
	M m; P p; handler h{ &s, t };
	keep(jkj::grisu_exact<S>(x, m, p, h));
	if (s.self != &h) s.calls += 100;   // the handler object passed is the one to be called
#elif FORM == 2
	M const m{}; P const p{}; handler const h{ &s, t };
	keep(jkj::grisu_exact<S>(x, m, p, h));
	if (s.self != &h) s.calls += 100;
#elif FORM == 3
	M m; P p; handler h{ &s, t };
	keep(jkj::grisu_exact<S>(x, std::move(m), std::move(p), std::move(h)));
#elif FORM == 4
	M const m{}; P const p{}; handler const h{ &s, t };
	keep(jkj::grisu_exact<S>(x, std::move(m), std::move(p), std::move(h)));
#elif FORM == 5
	keep(jkj::grisu_exact<S>(x, M{}, P{}, [&s, t](auto br) { ++s.calls; s.bits = br.f; if (t) throw thrown{ std::uint64_t(br.f), 17 }; }));
#elif FORM == 6
	tl = &s; tl_throw = t;
	if (bits & 1) keep(jkj::grisu_exact<S>(x, M{}, P{}, fn));
	else keep(jkj::grisu_exact<S>(x, M{}, P{}, &fn));
#elif FORM == 7
	noncopy h{ &s, t };
	keep(jkj::grisu_exact<S>(x, M{}, P{}, h));
	if (s.self != &h) s.calls += 100;
#elif FORM == 8
	M const m{}; P p; handler h{ &s, t };
	switch (bits >> 1 & 3) {
	case 0: keep(jkj::grisu_exact<S>(x, m, P{}, h)); break;
	case 1: keep(jkj::grisu_exact<S>(x, M{}, p, handler{ &s, t })); break;
	case 2: { P const q{}; keep(jkj::grisu_exact<S>(x, m, q, handler{ &s, t })); break; }
	default: { handler const g{ &s, t }; keep(jkj::grisu_exact<S>(x, M{}, std::move(p), g)); }
	}
#elif FORM == 9
	log_mode<M> m; m.s = &s; m.want = bits;
	log_policy<P> p; p.s = &s; p.want = bits;
	keep(jkj::grisu_exact<S>(x, m, p, handler{ &s, t }));
#endif
}
#if FORM == 10
template <bool Z, class M, class P> char* render(U bits, char* b, int how) {
	T x = from_bits(bits);
	auto w = [&](auto&& m, auto&& p) {
		if constexpr (Z) return jkj::fp_to_chars(x, b, std::forward<decltype(m)>(m), std::forward<decltype(p)>(p));
		else return jkj::fp_to_chars_n(x, b, std::forward<decltype(m)>(m), std::forward<decltype(p)>(p));
	};
	M m; P p; M const cm{}; P const cp{};
	switch (how) {
	case 0: return w(M{}, P{});
	case 1: return w(m, p);
	case 2: return w(cm, cp);
	case 3: return w(std::move(cm), std::move(cp));
	case 4: return w(m, P{});
	default: return w(M{}, cp);
	}
}
#endif
template <class P, class M> void pols(int m, M, int p) {
#if FORM == 10
	forms<T>().text[0][m][p] = render<false, M, P>;
	forms<T>().text[1][m][p] = render<true, M, P>;
#else
	forms<T>().call[FORM][0][m][p] = call<false, M, P>;
	forms<T>().call[FORM][1][m][p] = call<true, M, P>;
#endif
}
template <class M> void reg(int m) {
	pols<cr::do_not_care>(m, M{}, C_DONT_CARE); pols<cr::tie_to_even>(m, M{}, C_EVEN);
#if FORM_ALL
	pols<cr::tie_to_odd>(m, M{}, C_ODD); pols<cr::tie_to_up>(m, M{}, C_UP); pols<cr::tie_to_down>(m, M{}, C_DOWN);
#endif
}
#if FORM == 0
template <class E, class Q> int caught(U bits, E e, Q q) {
	try { jkj::grisu_exact(from_bits(bits), rm::nearest_to_even{}, cr::tie_to_even{}, [&](auto) { throw e; }); }
	catch (E const& g) { return q(g) ? 1 : 2; }
	catch (...) { return 3; }
	return 0;
}
int throws(U bits, int what) {
	switch (what) {
	case 0: return caught(bits, 42, [](int v) { return v == 42; });
	case 1: return caught(bits, std::runtime_error("not finite"), [](std::runtime_error const& e) { return std::string(e.what()) == "not finite"; });
	case 2: return caught(bits, (void const*)&forms<T>(), [](void const* p) { return p == &forms<T>(); });
	default: return caught(bits, std::string(300, 'x'), [](std::string const& s) { return s == std::string(300, 'x'); });
	}
}
void dflt(U bits, cres& r) { auto g = jkj::grisu_exact(from_bits(bits)); put(g, r); r.neg = g.is_negative; }
void bare(U bits) { jkj::grisu_exact_case_handlers::assert_finite{}(jkj::get_bit_representation(from_bits(bits))); }
void ign(U bits, cres& r) { auto g = jkj::grisu_exact(from_bits(bits), rm::nearest_to_even{}, cr::tie_to_even{}, jkj::grisu_exact_case_handlers::ignore_special_cases{}); put(g, r); r.neg = g.is_negative; }
#endif
struct init {
	init() {
#if FORM == 0
		forms<T>().throws = throws; forms<T>().default_handler = dflt; forms<T>().ignoring_handler = ign; forms<T>().bare_default = bare;
#ifdef NDEBUG
		forms<T>().checked_build = false;
#else
		forms<T>().checked_build = true;
#endif
#endif
		reg<rm::nearest_to_even>(M_NTE); reg<rm::nearest_to_odd>(M_NTO); reg<rm::nearest_toward_plus_infinity>(M_NTPI); reg<rm::nearest_toward_minus_infinity>(M_NTMI);
		reg<rm::nearest_toward_zero>(M_NTZ); reg<rm::nearest_away_from_zero>(M_NAFZ);
		reg<rm::nearest_to_even_static_boundary>(M_NTE_SB); reg<rm::nearest_to_odd_static_boundary>(M_NTO_SB);
		reg<rm::nearest_toward_plus_infinity_static_boundary>(M_NTPI_SB); reg<rm::nearest_toward_minus_infinity_static_boundary>(M_NTMI_SB);
		reg<rm::toward_plus_infinity>(M_TPI); reg<rm::toward_minus_infinity>(M_TMI); reg<rm::toward_zero>(M_TZ); reg<rm::away_from_zero>(M_AFZ);
	}
} init_;
}
