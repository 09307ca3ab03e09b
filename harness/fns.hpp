// Reference definitions of every floating-point function: MPFR evaluation, a fast long-double filter, and input profiles.
#pragma once
#include "common.hpp"
#include "subject_abi.h"
#include <dlfcn.h>

typedef int (*MpU)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
typedef int (*MpB)(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
inline int mp_lgam(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t m) { if (mpfr_inf_p(x)) { mpfr_set_inf(r, 1); return 0; } int s; return mpfr_lgamma(r, &s, x, m); }
inline int mp_tgam(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t m) {
	// MPFR needs huge working precision for very negative arguments; the value is then 0 or NaN (pole) anyway.
	if (mpfr_number_p(x) && mpfr_sgn(x) < 0 && mpfr_get_exp(x) > 12) {
		if (mpfr_integer_p(x)) { mpfr_set_nan(r); return 0; }
		mpfr_t f; mpfr_init2(f, 64); mpfr_floor(f, x); mpfr_div_2ui(f, f, 1, MPFR_RNDN); bool odd = !mpfr_integer_p(f); mpfr_clear(f);
		mpfr_set_si_2exp(r, odd ? -1 : 1, -2000000, MPFR_RNDN); return 0;
	}
	if (mpfr_number_p(x) && mpfr_sgn(x) > 0 && mpfr_get_exp(x) > 12) { mpfr_set_si_2exp(r, 1, 2000000, MPFR_RNDN); return 0; }
	return mpfr_gamma(r, x, m);
}
inline int mp_exp_c(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t m) { if (mpfr_number_p(x) && mpfr_get_exp(x) > 40) { if (mpfr_sgn(x) > 0) mpfr_set_si_2exp(r, 1, 2000000, MPFR_RNDN); else mpfr_set_si_2exp(r, 1, -2000000, MPFR_RNDN); return 0; } return mpfr_exp(r, x, m); }
inline int mp_exp2_c(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t m) { if (mpfr_number_p(x) && mpfr_get_exp(x) > 40) { if (mpfr_sgn(x) > 0) mpfr_set_si_2exp(r, 1, 2000000, MPFR_RNDN); else mpfr_set_si_2exp(r, 1, -2000000, MPFR_RNDN); return 0; } return mpfr_exp2(r, x, m); }
inline int mp_expm1_c(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t m) { if (mpfr_number_p(x) && mpfr_get_exp(x) > 40) { if (mpfr_sgn(x) > 0) mpfr_set_si_2exp(r, 1, 2000000, MPFR_RNDN); else { mpfr_set_si(r, -1, MPFR_RNDN); mpfr_nextabove(r); } return 0; } return mpfr_expm1(r, x, m); }

struct UFn { const char *name; MpU mp; ld (*fast)(ld); int crit; ld lo, hi; int elo, ehi; };
inline const UFn kU[] = {
	{ "exp", mp_exp_c, expl, 1, -110, 92, -70, 14 }, { "exp2", mp_exp2_c, exp2l, 2, -152, 130, -70, 14 }, { "expm1", mp_expm1_c, expm1l, 1, -40, 92, -70, 14 },
	{ "log", mpfr_log, logl, 3, 0, 4, -1100, 1023 }, { "log2", mpfr_log2, log2l, 3, 0, 4, -1100, 1023 }, { "log10", mpfr_log10, log10l, 3, 0, 4, -1100, 1023 },
	{ "log1p", mpfr_log1p, log1pl, 4, -1, 3, -70, 1023 }, { "sqrt", mpfr_sqrt, sqrtl, 3, 0, 4, -1100, 1023 }, { "cbrt", mpfr_cbrt, cbrtl, 3, -8, 8, -1100, 1023 },
	{ "sin", mpfr_sin, sinl, 5, -10, 10, -40, 1023 }, { "cos", mpfr_cos, cosl, 5, -10, 10, -40, 1023 }, { "tan", mpfr_tan, tanl, 5, -10, 10, -40, 1023 },
	{ "asin", mpfr_asin, asinl, 6, -1, 1, -70, 2 }, { "acos", mpfr_acos, acosl, 6, -1, 1, -70, 2 }, { "atan", mpfr_atan, atanl, 7, -4, 4, -70, 90 },
	{ "tgamma", mp_tgam, tgammal, 8, -40, 180, -70, 11 }, { "gamma", mp_tgam, tgammal, 8, -40, 180, -70, 11 }, { "lgamma", mp_lgam, lgammal, 9, -40, 180, -70, 200 },
};
inline int mp_pow(mpfr_ptr r, mpfr_srcptr x, mpfr_srcptr y, mpfr_rnd_t m) {
	// avoid huge exponents: decide over/underflow from log2
	if (mpfr_number_p(x) && mpfr_number_p(y) && !mpfr_zero_p(x) && !mpfr_zero_p(y)) {
		static thread_local Mp t(80), u(80);
		mpfr_abs(t, x, MPFR_RNDN); mpfr_log2(u, t, MPFR_RNDN); mpfr_mul(u, u, y, MPFR_RNDN);
		bool neg = mpfr_sgn(x) < 0; bool isint = mpfr_integer_p(y);
		if (!(neg && !isint) && mpfr_cmp_si((mpfr_ptr)u, 40000) > 0) { bool odd = false; if (neg) { mpfr_set(t, y, MPFR_RNDN); mpfr_div_2ui(t, t, 1, MPFR_RNDN); odd = !mpfr_integer_p((mpfr_ptr)t); } mpfr_set_si_2exp(r, odd ? -1 : 1, 2000000, MPFR_RNDN); return mpfr_get_prec(r) < 100 ? (mpfr_check_range(r, 0, m)) : 0; }
		if (!(neg && !isint) && mpfr_cmp_si((mpfr_ptr)u, -40000) < 0) { bool odd = false; if (neg) { mpfr_set(t, y, MPFR_RNDN); mpfr_div_2ui(t, t, 1, MPFR_RNDN); odd = !mpfr_integer_p((mpfr_ptr)t); } mpfr_set_si_2exp(r, odd ? -1 : 1, -2000000, MPFR_RNDN); return 0; }
	}
	return mpfr_pow(r, x, y, m);
}
inline int mp_rootn3(mpfr_ptr r, mpfr_srcptr x, mpfr_rnd_t m) { return mpfr_cbrt(r, x, m); }
struct BFn { const char *name; MpB mp; ld (*fast)(ld, ld); int crit; };
inline int mp_fdim(mpfr_ptr r, mpfr_srcptr x, mpfr_srcptr y, mpfr_rnd_t m) { return mpfr_dim(r, x, y, m); }
inline const BFn kB[] = {
	{ "pow", mp_pow, powl, 1 }, { "hypot", mpfr_hypot, hypotl, 2 }, { "atan2", mpfr_atan2, atan2l, 3 }, { "fdim", mp_fdim, fdiml, 4 },
	{ "fmod", mpfr_fmod, fmodl, 5 }, { "remainder", mpfr_remainder, remainderl, 5 },
};

// ---- input profiles
// denominators q of the convergents of frac(2^e * 2/pi), at most 2^p: q * 2^e is as near a multiple of pi/2 as a number of its magnitude gets
template <class T> const std::vector<uint64_t> &pio2_convergents(int e) {
	static thread_local std::map<int, std::vector<uint64_t>> tab; auto it = tab.find(e); if (it != tab.end()) return it->second;
	std::vector<uint64_t> v; static thread_local Mp c(1400), t(1400), f(1400), a(1400); static thread_local bool init = false;
	if (!init) { mpfr_const_pi(c, MPFR_RNDN); mpfr_ui_div(c, 2, c, MPFR_RNDN); init = true; }
	mpfr_mul_2si(t, c, e, MPFR_RNDN); mpfr_frac(f, t, MPFR_RNDN);
	unsigned __int128 q0 = 0, q1 = 1, lim = (unsigned __int128)1 << std::min(Fmt<T>::p, 63);
	for (int i = 0; i < 200 && !mpfr_zero_p((mpfr_ptr)f); ++i) {
		mpfr_ui_div(t, 1, f, MPFR_RNDN); mpfr_floor(a, t); mpfr_sub(f, t, a, MPFR_RNDN);
		if (mpfr_cmp_ui_2exp((mpfr_ptr)a, 1, 62) >= 0) break;
		unsigned __int128 q = q1 * mpfr_get_uj(a, MPFR_RNDN) + q0; if (q >= lim) break;
		v.push_back((uint64_t)q); q0 = q1; q1 = q;
	}
	return tab.emplace(e, std::move(v)).first->second;
}
template <class T> T hard_pio2(Rng &g) {
	for (int n = 0; n < 20; ++n) {
		int e = (int)g.range(-Fmt<T>::p - 2, std::min(Fmt<T>::emax, 1024) - Fmt<T>::p); auto &v = pio2_convergents<T>(e); if (v.size() < 2) continue;
		size_t i = v.size() - 1 - std::min<size_t>(v.size() - 1, (size_t)g.below(g.chance(1, 2) ? 2 : 12)); uint64_t q = v[i], lim = (uint64_t)1 << std::min(Fmt<T>::p, 63), m = q;
		if (g.chance(1, 3)) m = q * (1 + g.below(std::min<uint64_t>(lim / q, 64))); // small multiples
		else if (g.chance(1, 2) && i) m = q + v[i - 1] * (1 + g.below(8)); // combinations
		if (m == 0 || m >= lim) continue;
		T x = std::ldexp((T)m, e); if (!is_inf(x)) return x;
	}
	return (T)1.5707963267948966192L;
}
template <class T> T near_pio2(Rng &g) { // a value close to k*pi/2 (or pi/4)
	static thread_local Mp t(1400), k(1400);
	int e = (int)g.range(0, std::min(Fmt<T>::emax, 1024) - 1);
	if (g.chance(3, 4)) e = (int)g.range(0, 40);
	mpfr_set_ui_2exp(k, 1, 0, MPFR_RNDN);
	// k = random integer of e bits
	mpfr_set_ui(k, 0, MPFR_RNDN);
	uint64_t top = g.u64();
	if (e < 64) mpfr_set_uj(k, e ? (top >> (64 - e)) : 0, MPFR_RNDN);
	else { mpfr_set_uj_2exp(k, top, e - 64, MPFR_RNDN); Mp lo(1400); mpfr_set_uj(lo, g.u64(), MPFR_RNDN); mpfr_add(k, k, lo, MPFR_RNDN); }
	mpfr_const_pi(t, MPFR_RNDN);
	mpfr_mul(t, t, k, MPFR_RNDN);
	mpfr_div_2ui(t, t, g.chance(1, 4) ? 2 : 1, MPFR_RNDN);
	T v;
	if constexpr (std::is_same_v<T, float>) v = mpfr_get_flt(t, MPFR_RNDN); else if constexpr (std::is_same_v<T, double>) v = mpfr_get_d(t, MPFR_RNDN); else v = mpfr_get_ld(t, MPFR_RNDN);
	if (is_inf(v)) v = max_of<T>();
	return v;
}
template <class T> T crit_unary(Gen<T> &G, int crit) {
	Rng &g = G.g;
	switch (crit) {
	case 1: { // exp-like: thresholds and multiples of ln2/128
		switch (g.below(4)) {
		case 0: return G.jitter((T)(Fmt<T>::emax * 0.693147180559945309417232121458176568L));
		case 1: return G.jitter((T)((Fmt<T>::emin - (int)g.range(-2, 2)) * 0.693147180559945309417232121458176568L));
		case 2: return G.jitter((T)((Fmt<T>::emin + Fmt<T>::p - 1) * 0.693147180559945309417232121458176568L));
		default: return G.jitter((T)(g.range(-Fmt<T>::emax * 64, Fmt<T>::emax * 64) * (0.693147180559945309417232121458176568L / 128)));
		} }
	case 2: { switch (g.below(4)) { case 0: return G.jitter((T)Fmt<T>::emax); case 1: return G.jitter((T)(Fmt<T>::emin - (int)g.range(-2, 2))); case 2: return G.jitter((T)(Fmt<T>::emin + Fmt<T>::p - 1)); default: return G.jitter((T)g.range(-Fmt<T>::emax * 64, Fmt<T>::emax * 64) / 64); } }
	case 3: switch (g.below(4)) { case 0: return G.jitter((T)1); case 1: return std::fabs(G.subnormal()); case 2: return std::fabs(G.jitter(std::ldexp((T)1, (int)g.range(Fmt<T>::emin, Fmt<T>::emax - 1)))); default: return (T)1 + std::ldexp(G.sign(G.mant()), -(int)g.range(2, Fmt<T>::p)); }
	case 4: switch (g.below(3)) { case 0: return G.jitter((T)-1); case 1: return std::ldexp(G.sign(G.mant()), -(int)g.range(1, Fmt<T>::p + 4)); default: return G.jitter(std::ldexp((T)1, (int)g.range(-4, Fmt<T>::p + 4))) - 1; }
	case 5: return g.chance(1, 3) ? G.sign(hard_pio2<T>(g)) : G.jitter(G.sign(near_pio2<T>(g)));
	case 6: { const ld c[] = { 1, 0.5L, 0.975L, 0.70710678118654752440L, 0.25L, 0.125L }; T x = G.jitter((T)c[g.below(6)]); return G.sign(x > 1 && g.chance(3, 4) ? (T)1 : x); }
	case 7: { const ld c[] = { 1, 0.4375L, 0.6875L, 1.1875L, 2.4375L, 0.5L, 2, 0.41421356237309504880L, 2.41421356237309504880L }; return G.sign(G.jitter((T)c[g.below(9)])); }
	case 8: { ld top = Fmt<T>::c == 'f' ? 35.04010009765625L : Fmt<T>::c == 'd' ? 171.62437695630272L : 1755.548342L; if (g.chance(1, 3)) return G.jitter((T)top); return G.jitter((T)g.range(Fmt<T>::c == 'f' ? -45 : -190, Fmt<T>::c == 'f' ? 36 : 172)); }
	default: { switch (g.below(4)) { case 0: return G.jitter((T)1); case 1: return G.jitter((T)2); case 2: return G.jitter((T)g.range(-60, 60)); default: { const ld z[] = { -2.4570247382208005L, -2.7476826467274127L, -3.1435808883499798L, -3.9552942848585979L }; return G.jitter((T)z[g.below(4)]); } } }
	}
}
template <class T> T gen_unary(Gen<T> &G, const UFn &f, int *cls) {
	Rng &g = G.g;
	int k = (int)g.below(20); *cls = k < 5 ? 0 : k < 9 ? 1 : k < 14 ? 2 : k < 17 ? 3 : k < 19 ? 4 : 5;
	switch (*cls) {
	case 0: { ld s = Fmt<T>::c == 'l' && f.crit <= 2 ? 100 : Fmt<T>::c == 'd' && f.crit <= 2 ? 7.6L : 1; return G.uniform(f.lo * s, f.hi * s); }
	case 1: return G.logu(std::max(f.elo, Fmt<T>::emin), std::min(f.ehi, Fmt<T>::emax - 1));
	case 2: return crit_unary<T>(G, f.crit);
	case 3: return G.smallrat();
	case 4: return G.any();
	default: return G.special();
	}
}
inline const char *const kUClass[6] = { "uniform", "loguniform", "critical", "small-rational", "any", "special" };

template <class T> void gen_binary(Gen<T> &G, int crit, T &x, T &y, int *cls) {
	Rng &g = G.g;
	int k = (int)g.below(20);
	*cls = k < 14 ? 0 : k < 18 ? 1 : 2;
	if (*cls == 2) { x = g.chance(1, 2) ? G.special() : G.any(); y = G.special(); if (g.chance(1, 2)) std::swap(x, y); return; }
	if (*cls == 1) { x = G.any(); y = G.any(); return; }
	using F = Fmt<T>;
	switch (crit) {
	case 1: switch (g.below(8)) {
		case 0: x = std::fabs(G.logu(-10, 10)); y = G.logu(-6, 7); break;
		case 1: x = G.jitter((T)1); y = G.logu(0, F::p + 8); break;
		case 2: x = (T)g.range(-40, 40); y = (T)g.range(-80, 80) / (T)(1 << g.below(3)); break;          // exact / halfway cases
		case 3: { int n = (int)g.range(2, 8); x = (T)(2 * g.range(0, (1 << (F::p / n / 2)) - 1) + 1); y = g.chance(1, 3) ? (T)n : (T)n + (T)0.5; x = x * (g.chance(1, 2) ? x : 1); if (g.chance(1, 2)) x = std::ldexp(x, 2 * (int)g.range(-20, 20)); if (g.chance(1, 4)) x = -x; break; }
		case 4: { x = std::fabs(G.logu(-30, 30)); ld l = log2l((ld)x); ld t = (g.chance(1, 2) ? F::emax : g.chance(1, 2) ? F::emin : F::emin + F::p - 1) + (g.unit() - 0.5L) * (g.chance(1, 2) ? 4 : 0.001L); y = l != 0 ? (T)(t / l) : (T)1; break; } // range thresholds
		case 5: x = std::ldexp((T)1, (int)g.range(-12, 12)); y = G.jitter((T)g.range(-2 * F::emax, 2 * F::emax) / (T)16); break;
		case 6: x = std::fabs(G.finite()); y = G.logu(-F::p - 6, 3); break;
		default: x = -std::fabs(G.logu(-6, 6)); y = (T)g.range(-100, 100); if (g.chance(1, 4)) y = G.near_int(); break;
		} break;
	case 2: { int e = (int)g.range(F::emin, F::emax - 1); x = G.sign(std::ldexp(G.mant(), e)); y = G.sign(std::ldexp(G.mant(), std::clamp(e + (int)g.range(-F::p - 3, F::p + 3), F::emin, F::emax - 1))); if (g.chance(1, 6)) { const int t[][2] = { { 3, 4 }, { 5, 12 }, { 8, 15 }, { 7, 24 }, { 20, 21 } }; auto &q = t[g.below(5)]; int s = (int)g.range(-20, 20); x = std::ldexp((T)q[0], s); y = std::ldexp((T)q[1], s); } break; }
	case 3: { int e = (int)g.range(F::emin, F::emax - 1); if (g.chance(2, 3)) e = (int)g.range(-10, 10); x = G.sign(std::ldexp(G.mant(), e)); y = G.sign(std::ldexp(G.mant(), std::clamp(e + (int)g.range(-F::p - 12, F::p + 12), F::emin, F::emax - 1))); if (g.chance(1, 5)) y = G.jitter(x); break; }
	case 4: { x = G.logu(-8, 8); y = g.chance(1, 2) ? G.jitter(x) : G.logu(-12, 12); if (g.chance(1, 4)) { int e = (int)g.range(F::emin, F::emax - 1); x = G.sign(std::ldexp(G.mant(), e)); y = G.sign(std::ldexp(G.mant(), std::clamp(e + (int)g.range(-F::p - 3, F::p + 3), F::emin, F::emax - 1))); } break; }
	default: { // fmod/remainder/remquo
		switch (g.below(5)) {
		case 0: { int e = (int)g.range(F::emin, F::emax - 1); y = std::ldexp(G.mant(), e); x = std::ldexp(G.mant(), std::clamp(e + (int)g.range(-3, F::p + 3), F::emin, F::emax - 1)); break; }
		case 1: y = std::fabs(G.smallrat()); if (y == 0) y = 1; x = y * (T)g.range(0, 4096) / (T)2; x = G.jitter(x); break; // multiples & half multiples
		case 2: { int e = (int)g.range(F::emin, F::emin + 2 * F::p); y = std::ldexp(G.mant(), e); x = std::ldexp(G.mant(), (int)g.range(F::emin, F::emin + 3 * F::p)); break; }
		case 3: y = std::ldexp(G.mant(), (int)g.range(F::emax - 4, F::emax - 1)); x = std::ldexp(G.mant(), (int)g.range(F::emax - 6, F::emax - 1)); break;
		default: y = std::fabs(G.finite()); x = std::fabs(G.finite()); if (g.chance(1, 2)) x = G.jitter(y); break;
		}
		if (y == 0) y = 1;
		x = G.sign(x); y = G.sign(y); break; }
	}
}

struct Subject {
	std::string path; void *h = nullptr; const SubjTable *t = nullptr;
	bool load(const std::string &p) { path = p; h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); return false; } auto f = (const SubjTable *(*)())dlsym(h, "ccm_subject_table"); if (!f) return false; t = f(); return true; }
	const SubjEntry *find(const std::string &n, char ty, char sig) const { for (int i = 0; i < t->n; ++i) if (n == t->e[i].name && t->e[i].type == ty && t->e[i].sig == sig) return &t->e[i]; return nullptr; }
};
