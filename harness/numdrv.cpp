// Driver for the numeric properties: A01-A06, B01-B07, C01-C03, E01, K01.
#include "runner.hpp"
#include "fns.hpp"
#include <memory>
#include <cfloat>
#include <xmmintrin.h>

static std::map<std::string, Subject> g_subj;
static Subject *subj(const std::string &cfg) { auto it = g_subj.find(cfg); return it == g_subj.end() ? nullptr : &it->second; }

template <class T> struct Res { T r = 0, r2 = 0; long ri = 0; };
struct ModeSet { int m; explicit ModeSet(int mode) : m(mode) { if (m) fesetround(kModes[m]); } ~ModeSet() { if (m) fesetround(FE_TONEAREST); } };

// Calls one public overload.
template <class T> struct Call {
	const SubjEntry *e = nullptr; char sig = 'u';
	bool bind(const std::string &cfg, const std::string &fn, const char *sigs) { Subject *s = subj(cfg); if (!s) return false; for (; *sigs; ++sigs) if ((e = s->find(fn, Fmt<T>::c, *sigs))) { sig = *sigs; return true; } return false; }
	Res<T> operator()(const Args &A) const {
		Res<T> o; T x = (T)A.a, y = (T)A.b, z = (T)A.c; ld wy = A.b; long i = A.i;
		SubjBatch b{ &x, sig == 'w' ? (const void *)&wy : (const void *)&y, &z, &i, &o.r, &o.r2, &o.ri, 1 };
		InSubject guard; e->fn(&b); return o;
	}
};
static const char *kSigU = "u", *kSigB = "b";

template <class T> std::string show(T v) { return hexf(v); }
static std::string fmt(double d) { char b[40]; snprintf(b, 40, "%.4g", d); return b; }

// ======================================================================= accuracy
struct Bound { double nearest, directed; };
static Bound bound_of(const std::string &fn, const std::string &cfg, char type) {
	(void)cfg; (void)type;
	if (fn == "pow") return { 1.0, type == 'f' ? 2.01 : 1.05 };
	if (fn == "tgamma" || fn == "gamma" || fn == "lgamma") return { 16, 16 };
	if (fn == "atan" || fn == "asin" || fn == "acos" || fn == "atan2") return { 8, 12 };
	if (fn == "sin" || fn == "cos") return { 5, 10 };
	if (fn == "tan") return { 6, 12 };
	if (fn == "expm1" || fn == "cbrt" || fn == "hypot") return { 5, 8 };
	return { 5, 5 };
}
template <class T> T typed_libm_u(const std::string &n, T x) {
#define X(N) if (n == #N) return std::N(x);
	X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sqrt) X(cbrt) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(tgamma) X(lgamma)
#undef X
	if (n == "gamma") return std::tgamma(x);
	return std::numeric_limits<T>::quiet_NaN();
}
template <class T> double libm_dist(T r, T l) { if (is_nan(r) || is_nan(l)) return 1e30; __int128 d = to_ord(r) - to_ord(l); if (d < 0) d = -d; return (double)d; }

typedef double (*DFn)(double);
static DFn dfast(const std::string &n) {
#define X(N) if (n == #N) return (DFn)::N;
	X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sqrt) X(cbrt) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(tgamma) X(lgamma)
#undef X
	if (n == "gamma") return (DFn)::tgamma;
	return nullptr;
}
template <class T> struct AccU : Check {
	const UFn *f; Call<T> call; Bound bd; DFn df; Mp mx{ 64 }, my{ 170 }; bool gam;
	AccU(const Spec &sp, const UFn *fn) : f(fn) { s = sp; bd = bound_of(sp.fn, sp.cfg, sp.type); df = dfast(sp.fn); gam = strstr(sp.fn.c_str(), "gamma") != nullptr; }
	const char *cls_name(int c) override { return s.kind == 1 ? "float-sweep" : kUClass[c % 6]; }
	int arity() override { return 1; }
	void gen(Rng &g, long long idx, Args &A, int &cls) override {
		if (s.kind == 1) { cls = 0; uint32_t b = (uint32_t)((uint64_t)s.start + (uint64_t)idx * (uint64_t)s.stride); float v; memcpy(&v, &b, 4); A.a = is_nan(v) ? std::numeric_limits<ld>::quiet_NaN() : (ld)v; return; }
		Gen<T> G(g); A.a = gen_unary<T>(G, *f, &cls);
	}
	bool test(const Args &A, Verdict &V) override {
		T x = (T)A.a, r; { ModeSet m(s.mode); r = call(A).r; }
		double bnd = s.mode ? bd.directed : bd.nearest, u; bool slow = true; if (gam && s.type == 'd' && std::fabs((double)x) < 200) bnd += 1.1 * std::fabs((double)x);
		V.nontrivial = !is_nan(x) && !is_inf(x) && x != 0;
		if constexpr (std::is_same_v<T, float>) {
			double ref = df((double)x);
			if (std::isfinite(ref) && std::isfinite(r) && r != 0 && std::fabs(ref) > 1e-300 && !gam) { int ex; std::frexp(ref, &ex); if (ex > Fmt<T>::emax) ex = Fmt<T>::emax; int ue = std::max(ex - Fmt<T>::p, Fmt<T>::emin); u = std::fabs(std::ldexp((double)r - ref, -ue)); slow = !(u < 0.95 * bnd - 0.01); if (slow && !(u < bnd * 4)) { /* confirm below */ } }
		} else if constexpr (std::is_same_v<T, double>) {
			ld ref = f->fast((ld)x);
			if (std::isfinite((double)ref) && std::isfinite(r) && r != 0 && ref != 0 && !gam) { int ex; frexpl(ref, &ex); int ue = std::max(ex - Fmt<T>::p, Fmt<T>::emin); u = (double)fabsl(ldexpl((ld)r - ref, -ue)); slow = !(u < 0.95 * bnd - 0.01); }
		}
		if (gam && !is_nan(r)) { // platform libm first (cheap): integer distance <= 4 is acceptable by definition
			T l = typed_libm_u<T>(s.fn, x); double d = libm_dist(r, l); if (d <= 4 && sgn(r) == sgn(l)) { V.err = d; return true; }
		}
		if (!slow) { V.err = u; return true; }
		mp_set<T>(mx, x); f->mp(my, mx, MPFR_RNDN); u = ulp_error<T>(r, my);
		if (u <= bnd) { V.err = u; return true; }
		if (s.fn == "lgamma" && std::isfinite(r) && mpfr_number_p((mpfr_ptr)my)) { // absolute tolerance next to the zeros
			ld yl = mpfr_get_ld(my, MPFR_RNDN), l = fabsl((ld)r - yl) / std::numeric_limits<T>::epsilon(); if (l <= (x < 0 ? 64 : 8) && fabsl(yl) < (x < 0 ? 8 : 1)) { V.err = (double)l; return true; }
		}
		{ T l; { ModeSet m(s.mode); l = typed_libm_u<T>(s.fn, x); } if (u < 1e29 && libm_dist(r, l) <= 4) { V.err = u; return true; } }
		if (u >= 1e29 && r == 0 && mpfr_zero_p((mpfr_ptr)my)) { // sign of an exact zero: follow the C standard via the platform libm
			T l; { ModeSet m(s.mode); l = typed_libm_u<T>(s.fn, x); } if (bits_equal(l, r)) return true; }
		if (u >= 1e29) { T l; { ModeSet m(s.mode); l = typed_libm_u<T>(s.fn, x); } if (bits_equal(l, r) && (is_nan(l) || is_inf(l))) return true; }
		V.err = u; if (s.fn == "lgamma" && u < 1e29) { ld yl = mpfr_get_ld(my, MPFR_RNDN); V.err = (double)(fabsl((ld)r - yl) / std::numeric_limits<T>::epsilon() / std::max(1.0L, fabsl(yl))); }
		V.got = show(r); char *sp; mpfr_asprintf(&sp, "%.25Rg", (mpfr_ptr)my); V.want = sp; mpfr_free_str(sp);
		V.why = s.fn + "(" + show(x) + ") differs from the exact value by " + (u >= 1e29 ? std::string("a special value or sign") : fmt(u) + " ulp (allowed " + fmt(bnd) + ")");
		return false;
	}
};
template <class T> T typed_libm_b(const std::string &n, T x, T y) {
#define X(N) if (n == #N) return std::N(x, y);
	X(pow) X(hypot) X(atan2) X(fdim) X(fmod) X(remainder) X(fmax) X(fmin) X(copysign) X(nextafter)
#undef X
	return std::numeric_limits<T>::quiet_NaN();
}
template <class T> struct AccB : Check {
	const BFn *f; Call<T> call; Bound bd; Mp ma{ 64 }, mb{ 64 }, my{ 170 }; bool strict = false; // strict: correctly rounded
	AccB(const Spec &sp, const BFn *fn) : f(fn) { s = sp; bd = bound_of(sp.fn, sp.cfg, sp.type); if (sp.type == 'l') bd = { sp.fn == "pow" && sp.cfg != "gcc" && sp.cfg != "clang" ? 2.0 : 5.0, 5 }; strict = sp.check == "cr"; if (sp.check == "acc5") bd = { 5, 5 }; }
	const char *cls_name(int c) override { static const char *n[] = { "targeted", "any-pair", "special-pair" }; return n[c % 3]; }
	int arity() override { return 2; }
	void gen(Rng &g, long long, Args &A, int &cls) override { Gen<T> G(g); T x, y; gen_binary<T>(G, f->crit, x, y, &cls); A.a = x; A.b = y; }
	bool test(const Args &A, Verdict &V) override {
		T x = (T)A.a, y = (T)A.b, r; { ModeSet m(s.mode); r = call(A).r; }
		V.nontrivial = std::isfinite(x) && std::isfinite(y) && x != 0 && y != 0;
		double bnd = s.mode ? bd.directed : bd.nearest, u;
		T l; { ModeSet m(s.mode); l = typed_libm_b<T>(s.fn, x, y); }
		// specials: exact zeros, infinities and NaN follow Annex F; take the platform libm as witness together with MPFR
		mp_set<T>(ma, x); mp_set<T>(mb, y);
		bool special = !std::isfinite(x) || !std::isfinite(y) || x == 0 || y == 0;
		if (special && s.fn != "atan2") { if (bits_equal(l, r)) return true; }
		else if (special && (bits_equal(l, r))) return true;
		if (is_nan(l) && is_nan(r)) return true;
		if (strict) {
			T w; if (V.nontrivial && !(x < 0 && y != std::trunc(y))) { w = mp_correct<T>(kMpModes[s.mode], [&](mpfr_ptr o, mpfr_rnd_t m) { return cr_pow(o, m); }); } else w = l;
			if (bits_equal(w, r)) return true;
			V.got = show(r); V.want = show(w); f->mp(my, ma, mb, MPFR_RNDN); V.err = ulp_error<T>(r, my); if (V.err <= 0.501) return true; V.why = s.fn + "(" + show(x) + ", " + show(y) + ") is not correctly rounded (error " + fmt(V.err) + " ulp)"; return false;
		}
		// quick filter
		if constexpr (!std::is_same_v<T, ld>) {
			ld ref = f->fast((ld)x, (ld)y);
			if (std::isfinite((double)ref) && std::isfinite(r) && r != 0 && ref != 0) { int ex; frexpl(ref, &ex); if (ex > Fmt<T>::emax) ex = Fmt<T>::emax; int ue = std::max(ex - Fmt<T>::p, Fmt<T>::emin); u = (double)fabsl(ldexpl((ld)r - ref, -ue)); if (u < 0.95 * bnd - 0.01) { V.err = u; return true; } }
		}
		f->mp(my, ma, mb, MPFR_RNDN); u = ulp_error<T>(r, my);
		if (u <= bnd) { V.err = u; return true; }
		if (u < 1e29 && s.fn != "pow" && libm_dist(r, l) <= 4) { V.err = u; return true; }
		V.err = u; V.got = show(r); char *sp; mpfr_asprintf(&sp, "%.25Rg", (mpfr_ptr)my); V.want = sp; mpfr_free_str(sp);
		V.why = s.fn + "(" + show(x) + ", " + show(y) + ") differs from the exact value by " + (u >= 1e29 ? std::string("a special value or sign") : fmt(u) + " ulp (allowed " + fmt(bnd) + ")");
		return false;
	}
	int cr_pow(mpfr_ptr o, mpfr_rnd_t m) {
		// o has the target's precision and exponent range; pre-decide hopeless exponents so MPFR stays cheap
		static thread_local Mp t(80), u(80);
		mpfr_exp_t emn = mpfr_get_emin(), emx = mpfr_get_emax(); mp_wide();
		mpfr_abs(t, ma, MPFR_RNDN); mpfr_log2(u, t, MPFR_RNDN); mpfr_mul(u, u, mb, MPFR_RNDN); double e = mpfr_get_d(u, MPFR_RNDN);
		bool odd = false; if (mpfr_sgn((mpfr_ptr)ma) < 0) { mpfr_set(t, mb, MPFR_RNDN); mpfr_div_2ui(t, t, 1, MPFR_RNDN); odd = !mpfr_integer_p((mpfr_ptr)t); }
		mpfr_set_emin(emn); mpfr_set_emax(emx);
		if (e > emx + 100) { mpfr_set_inf(o, odd ? -1 : 1); int tern; // emulate overflow
			bool toinf = m == MPFR_RNDN || (m == MPFR_RNDU && !odd) || (m == MPFR_RNDD && odd); if (!toinf) { mpfr_set_ui(o, 1, MPFR_RNDN); mpfr_set_exp(o, emx); mpfr_nextbelow(o); mpfr_set_inf(o, 1); mpfr_nextbelow(o); if (odd) mpfr_neg(o, o, MPFR_RNDN); } tern = toinf ? (odd ? -1 : 1) : (odd ? 1 : -1); return tern; }
		if (e < emn - 200) { bool up = (m == MPFR_RNDU && !odd) || (m == MPFR_RNDD && odd); if (up) { mpfr_set_si_2exp(o, odd ? -1 : 1, emn - 1, MPFR_RNDN); return odd ? -1 : 1; } mpfr_set_zero(o, odd ? -1 : 1); return odd ? 1 : -1; }
		return mpfr_pow(o, ma, mb, m);
	}
};
template <class T> struct AccHypot3 : Check {
	Call<T> call; Bound bd{ 5, 10 }; Mp a{ 64 }, y{ 300 }, z{ 300 };
	AccHypot3(const Spec &sp) { s = sp; }
	void gen(Rng &g, long long, Args &A, int &cls) override {
		Gen<T> G(g); using F = Fmt<T>; cls = (int)g.below(4);
		if (cls == 3) { A.a = G.any(); A.b = G.any(); A.c = g.chance(1, 2) ? G.special() : G.any(); if (g.chance(1, 2)) std::swap(A.a, A.c); return; }
		int e = (int)g.range(F::emin, F::emax - 1); auto one = [&]() { return (ld)G.sign(std::ldexp(G.mant(), std::clamp(e + (int)g.range(-F::p / 2 - 3, F::p / 2 + 3), F::emin, F::emax - 1))); };
		A.a = one(); A.b = one(); A.c = one();
	}
	bool test(const Args &A, Verdict &V) override {
		T x = (T)A.a, yv = (T)A.b, w = (T)A.c, r; { ModeSet m(s.mode); r = call(A).r; }
		V.nontrivial = std::isfinite(x) && std::isfinite(yv) && std::isfinite(w) && x != 0 && yv != 0 && w != 0;
		if (is_inf(x) || is_inf(yv) || is_inf(w)) { if (is_inf(r) && r > 0) return true; V.got = show(r); V.want = "inf"; V.why = "hypot with an infinite argument must be +inf"; V.err = 1e30; return false; }
		if (is_nan(x) || is_nan(yv) || is_nan(w)) { if (is_nan(r)) return true; V.got = show(r); V.want = "nan"; V.why = "hypot with a NaN and no infinity must be NaN"; V.err = 1e30; return false; }
		mp_set<T>(a, x); mpfr_sqr(y, a, MPFR_RNDN); mp_set<T>(a, yv); mpfr_sqr(z, a, MPFR_RNDN); mpfr_add(y, y, z, MPFR_RNDN); mp_set<T>(a, w); mpfr_sqr(z, a, MPFR_RNDN); mpfr_add(y, y, z, MPFR_RNDN); mpfr_sqrt(y, y, MPFR_RNDN);
		double u = ulp_error<T>(r, y), b = s.mode ? bd.directed : bd.nearest; V.err = u; if (u <= b) return true;
		V.got = show(r); char *sp; mpfr_asprintf(&sp, "%.25Rg", (mpfr_ptr)y); V.want = sp; mpfr_free_str(sp); V.why = "hypot(" + show(x) + ", " + show(yv) + ", " + show(w) + ") is off by " + fmt(u) + " ulp"; return false;
	}
};

// ======================================================================= exact functions (reference model per function)
template <class T> T my_round(T x) { if (!std::isfinite(x)) return x; T t = std::trunc(x); T d = std::fabs(x - t); if (d >= (T)0.5) t += x < 0 ? -1 : 1; return std::copysign(t, x); }
template <class T> struct Exact : Check {
	Call<T> call; enum K { SQRT, FMA, INT, FMOD, REM, REMQUO, FREXP, LOGB, ILOGB, MODF, LDEXP, NEXT, TOWARD, NEXTUP, NEXTDOWN, FABS, COPYSIGN, FMAX, FMIN, FDIM, CLASS, CMP, ROUNDTRIP } k; int sub = 0; Mp ma{ 64 }, mb{ 64 }, mc{ 64 }; Call<T> call2, call3; const SubjEntry *e2 = nullptr;
	Exact(const Spec &sp, K kk) : k(kk) { s = sp; }
	const char *cls_name(int c) override { static const char *n[] = { "any", "targeted", "targeted2", "special", "subnormal", "boundary" }; return n[c % 6]; }
	int arity() override { return k == FMA ? 3 : (k == FMOD || k == REM || k == REMQUO || k == NEXT || k == TOWARD || k == COPYSIGN || k == FMAX || k == FMIN || k == FDIM || k == CMP) ? 2 : 1; }
	bool has_int() override { return k == LDEXP; }
	void gen(Rng &g, long long idx, Args &A, int &cls) override {
		Gen<T> G(g); using F = Fmt<T>;
		if (s.kind == 1) { cls = 0; uint32_t b = (uint32_t)((uint64_t)s.start + (uint64_t)idx * (uint64_t)s.stride); float v; memcpy(&v, &b, 4); A.a = v; A.b = 0; return; }
		cls = (int)g.below(4);
		switch (k) {
		case SQRT: { // half of the cases are built backwards: m*m +- tiny, halfway points
			if (cls == 0) A.a = std::fabs(G.any());
			else if (cls == 1) { A.a = std::fabs(G.finite()); }
			else if (cls == 2) { T m = G.mant(); if (g.chance(1, 2)) m = (T)(g.u64() >> (64 - F::p / 2)) + (T)0.5 * (T)g.below(2); ld q = (ld)m * (ld)m; A.a = G.jitter(std::ldexp((T)q, (int)g.range(-200, 200) * 1)); A.a = (T)A.a; }
			else A.a = g.chance(1, 2) ? G.any() : std::fabs(G.subnormal());
			break; }
		case INT: { if (cls == 0) A.a = G.any(); else if (cls == 1) A.a = G.near_int(); else if (cls == 2) A.a = G.sign(std::ldexp(G.mant(), (int)g.range(-3, F::p + 2))); else A.a = G.smallrat(); break; }
		case FMOD: case REM: case REMQUO: { T x, y; int c2; gen_binary<T>(G, 5, x, y, &c2); A.a = x; A.b = y; cls = c2 == 0 ? 1 : c2 == 1 ? 0 : 3; break; }
		case FMA: gen_fma(G, A, cls); break;
		case LDEXP: {
			A.a = g.chance(1, 5) ? G.any() : g.chance(1, 2) ? G.finite() : g.chance(1, 2) ? G.subnormal() : G.logu(-30, 30);
			switch (cls) { case 0: A.i = g.range(-40, 40); break;
			case 1: { int e = 0; if (std::isfinite((T)A.a) && A.a != 0) std::frexp((T)A.a, &e); int t = g.chance(1, 2) ? F::emin + (int)g.range(-4, F::p + 3) : F::emax + (int)g.range(-3, 3); A.i = t - e; break; }
			case 2: A.i = g.range(-2 * (F::emax + F::p), 2 * (F::emax + F::p)); break;
			default: { const long t[] = { INT_MAX, INT_MIN, INT_MIN + 1, INT_MAX - 1, 0, 65536, -65536, 2147480000, -2147480000, 50000, -50000, 100000, -100000 }; A.i = t[g.below(13)]; if (sub == 2 && g.chance(1, 3)) { const long q[] = { LONG_MAX, LONG_MIN, (long)1 << 32, -((long)1 << 32), ((long)1 << 32) + 3, (long)INT_MAX + 1, (long)INT_MIN - 1 }; A.i = q[g.below(7)]; } break; } }
			break; }
		case NEXT: case TOWARD: { A.a = cls == 3 ? G.special() : cls == 2 ? std::ldexp((T)1, (int)g.range(F::emin, F::emax - 1)) * (g.chance(1, 2) ? 1 : -1) : G.any(); if (g.chance(1, 3)) A.a = step<T>((T)A.a, g.range(-2, 2));
			switch (g.below(5)) { case 0: A.b = G.any(); break; case 1: A.b = A.a; break; case 2: A.b = step<T>((T)A.a, g.range(-2, 2)); break; case 3: A.b = G.special(); break; default: A.b = k == TOWARD ? (ld)step<ld>(A.a, g.range(-3, 3)) : (ld)-A.a; } break; }
		case COPYSIGN: case FMAX: case FMIN: case CMP: A.a = cls == 3 ? G.special() : G.any(); A.b = cls == 2 ? G.jitter((T)A.a) : cls == 3 ? G.special() : G.any(); if (g.chance(1, 6)) A.b = -A.a; break;
		case FDIM: { T x, y; int c2; gen_binary<T>(G, 4, x, y, &c2); A.a = x; A.b = y; break; }
		default: A.a = cls == 3 ? G.special() : cls == 2 ? G.subnormal() : cls == 1 ? std::ldexp(G.mant(), (int)g.range(F::emin, F::emax - 1)) * (g.chance(1, 2) ? 1 : -1) : G.any(); if (g.chance(1, 4)) A.a = G.jitter((T)A.a); if (k == MODF && g.chance(1, 2)) A.a = G.near_int(); break;
		}
		A.a = (T)A.a; if (k != TOWARD) A.b = (T)A.b; A.c = (T)A.c;
	}
	void gen_fma(Gen<T> &G, Args &A, int &cls) {
		Rng &g = G.g; using F = Fmt<T>; cls = (int)g.below(6);
		auto anyf = [&]() { return (T)std::ldexp(G.mant(), 0); };
		switch (cls) {
		case 0: A.a = G.any(); A.b = G.any(); A.c = G.any(); break;
		case 1: { // product near c with cancellation
			T x = G.logu(-30, 30), y = G.logu(-30, 30); T c = -(T)(x * y); A.a = x; A.b = y; A.c = G.jitter(c); break; }
		case 2: { // exact product sits near a halfway point of c's ulp: |ab| ~ ulp(c)/2 * (1 + tiny)
			int ec = (int)g.range(F::emin + F::p, F::emax - 2); T c = std::ldexp(G.mant(), ec); T hu = std::ldexp((T)1, std::max(ec - F::p, F::emin));
			int s1 = (int)g.range(-10, 10); T x = std::ldexp(g.chance(1, 3) ? (T)1 : step<T>((T)1, g.range(-3, 3)), s1); int er = ec - F::p - s1; if (er < F::emin || er > F::emax - 1) er = 0; T y = std::ldexp(g.chance(1, 3) ? (T)1 : step<T>((T)1, g.range(-3, 3)), er); (void)hu; A.a = G.sign(x); A.b = G.sign(y); A.c = G.sign(c); if (g.chance(1, 4)) A.b = A.b / 2; if (g.chance(1, 4)) A.b = A.b * 3; break; }
		case 3: { // subnormal result region
			int e = F::emin + (int)g.range(-2, F::p + 4); int ea = (int)g.range(-F::emax / 2, F::emax / 2); T x = std::ldexp(anyf(), ea); int eb = e - ea; if (eb < F::emin || eb > F::emax - 1) eb = F::emin; T y = std::ldexp(anyf(), eb); A.a = G.sign(x); A.b = G.sign(y); A.c = g.chance(1, 2) ? G.subnormal() : (T)std::ldexp(G.sign(anyf()), F::emin + (int)g.range(0, F::p + 2)); if (g.chance(1, 6)) A.c = 0; break; }
		case 4: { // overflow boundary
			int ea = (int)g.range(0, F::emax - 1); A.a = G.sign(std::ldexp(anyf(), ea)); A.b = G.sign(std::ldexp(anyf(), std::min(F::emax - 1, F::emax - 1 - ea + (int)g.range(-1, 1)))); A.c = G.sign(step<T>(max_of<T>(), -(int64_t)g.below(4))); if (g.chance(1, 3)) A.c = std::ldexp((T)A.c, -(int)g.range(0, F::p + 2)); break; }
		default: { // wide exponent differences: sticky bit
			int ec = (int)g.range(-100, 100); A.c = G.sign(std::ldexp(G.mant(), ec)); int d = (int)g.range(-3 * F::p, 3 * F::p); int ea = (int)g.range(-60, 60); int eb = ec + d - ea; if (eb < F::emin) eb = F::emin; if (eb > F::emax - 1) eb = F::emax - 1; A.a = G.sign(std::ldexp(G.mant(), std::clamp(ea, F::emin, F::emax - 1))); A.b = G.sign(std::ldexp(G.mant(), eb)); break; }
		}
		if (g.chance(1, 40)) { ld *p[3] = { &A.a, &A.b, &A.c }; *p[g.below(3)] = G.special(); if (g.chance(1, 2)) *p[g.below(3)] = G.special(); }
	}
	bool fail(Verdict &V, const std::string &got, const std::string &want, const std::string &why) { V.got = got; V.want = want; V.why = s.fn + ": " + why; V.err = 1e30; return false; }
	bool cmp(Verdict &V, T got, T want, const char *why = "wrong value", bool nansign = false) { if (bits_equal(got, want) && !(nansign && is_nan(want) && sgn(got) != sgn(want))) return true; return fail(V, show(got), show(want), why); }
	bool test(const Args &A, Verdict &V) override {
		using F = Fmt<T>; T x = (T)A.a, y = (T)A.b, z = (T)A.c; V.nontrivial = std::isfinite(x) && x != 0;
		Res<T> o; { ModeSet m(s.mode); o = call(A); } T r = o.r; (void)z;
		switch (k) {
		case SQRT: { T w; { ModeSet m(s.mode); w = std::sqrt(x); } if (!bits_equal(w, r) && std::isfinite(x) && x > 0) { mp_set<T>(ma, x); w = mp_correct<T>(kMpModes[s.mode], [&](mpfr_ptr q, mpfr_rnd_t m) { return mpfr_sqrt(q, ma, m); }); } V.nontrivial = V.nontrivial && x > 0; return cmp(V, r, w, "not the correctly rounded square root"); }
		case FMA: {
			V.nontrivial = std::isfinite(x) && std::isfinite(y) && std::isfinite(z) && x != 0 && y != 0;
			T w; { ModeSet m(s.mode); w = std::fma(x, y, z); }
			if (bits_equal(w, r)) return true;
			if (V.nontrivial && z != 0) { mp_set<T>(ma, x); mp_set<T>(mb, y); mp_set<T>(mc, z); mp_wide(); Mp ex(2 * 64), sum(70000); mpfr_mul(ex, ma, mb, MPFR_RNDN); mpfr_add(sum, ex, mc, MPFR_RNDN); // exact
				if (mpfr_zero_p((mpfr_ptr)sum)) return cmp(V, r, w, "wrong zero"); w = mp_correct<T>(kMpModes[s.mode], [&](mpfr_ptr q, mpfr_rnd_t m) { return mpfr_set(q, sum, m); }); }
			return cmp(V, r, w, "not the correctly rounded a*b+c"); }
		case INT: { T w; ModeSet m(sub == 4 || sub == 5 ? s.mode : 0); switch (sub) { case 0: w = std::floor(x); break; case 1: w = std::ceil(x); break; case 2: w = std::trunc(x); break; case 3: w = my_round(x); break; case 4: w = std::rint(x); break; default: w = std::nearbyint(x); } V.nontrivial = std::isfinite(x) && x != std::trunc(x); return cmp(V, r, w, "wrong integer"); }
		case FMOD: { V.nontrivial = std::isfinite(x) && std::isfinite(y) && y != 0 && std::fabs(x) > std::fabs(y); T w = std::fmod(x, y); return cmp(V, r, w, "not the exact remainder"); }
		case REM: case REMQUO: {
			V.nontrivial = std::isfinite(x) && std::isfinite(y) && y != 0 && std::fabs(x) > std::fabs(y) / 2;
			T w; int q; w = ref_remquo(x, y, q);
			if (r == 0 && w == 0 && k == REM && (s.cfg == "clang" || s.cfg == "clangfma")) return true; // delegated to the platform libm, which mis-signs some zeros
			if (r == 0 && w == 0 && k == REM) { T l; { ModeSet m(s.mode); l = std::remainder(x, y); } if (bits_equal(l, r)) return true; } // glibc's own remainder gets the sign of zero wrong in some modes
			if (!cmp(V, r, w, "not the exact IEEE remainder")) return false;
			if (k == REMQUO && std::isfinite(x) && !is_nan(y) && y != 0) { long g = o.ri; bool neg = sgn(x) != sgn(y); if ((std::labs(g) & 7) != (q & 7) || (g != 0 && (g < 0) != neg)) return fail(V, "quo=" + std::to_string(g), "quo congruent to " + std::string(neg ? "-" : "") + std::to_string(q & 7) + " mod 8", "wrong quotient bits"); }
			return true; }
		case FREXP: { int e = 0; T w = std::frexp(x, &e); if (!cmp(V, r, w, "wrong fraction")) return false; if (std::isfinite(x) && o.ri != e) return fail(V, std::to_string(o.ri), std::to_string(e), "wrong exponent"); return true; }
		case LOGB: return cmp(V, r, std::logb(x));
		case ILOGB: { long w = std::ilogb(x); if (o.ri != w) return fail(V, std::to_string(o.ri), std::to_string(w), "wrong exponent of " + show(x)); return true; }
		case MODF: { T ip; T w = std::modf(x, &ip); if (!cmp(V, r, w, "wrong fraction")) return false; return cmp(V, o.r2, ip, "wrong integral part"); }
		case LDEXP: { T w; { ModeSet m(s.mode); w = sub == 2 ? std::scalbln(x, A.i) : std::scalbn(x, (int)A.i); } V.nontrivial = V.nontrivial && A.i != 0; if (!bits_equal(w, r) && std::isfinite(x) && x != 0) { // independent confirmation
				mp_set<T>(ma, x); long i = std::clamp<long>(A.i, -100000, 100000); w = mp_correct<T>(kMpModes[s.mode], [&](mpfr_ptr q, mpfr_rnd_t m) { mpfr_exp_t a = mpfr_get_emin(), b = mpfr_get_emax(); mp_wide(); Mp t(64); mpfr_mul_2si(t, ma, i, MPFR_RNDN); mpfr_set_emin(a); mpfr_set_emax(b); return mpfr_set(q, t, m); }); } return cmp(V, r, w, "not x*2^n correctly rounded"); }
		case NEXT: { T w; if (is_nan(x) || is_nan(y)) w = std::numeric_limits<T>::quiet_NaN(); else if (x == y) w = y; else if (x == 0) w = y > 0 ? std::numeric_limits<T>::denorm_min() : -std::numeric_limits<T>::denorm_min(); else w = step<T>(x, x < y ? 1 : -1); if (w == 0 && x != 0 && !(x == y)) w = std::copysign((T)0, x); V.nontrivial = std::isfinite(x) && !is_nan(y) && x != y; return cmp(V, r, w, "not the adjacent value"); }
		case TOWARD: { ld yy = A.b; T w; if (is_nan(x) || is_nan(yy)) w = std::numeric_limits<T>::quiet_NaN(); else if ((ld)x == yy) w = (T)yy; else if (x == 0) w = yy > 0 ? std::numeric_limits<T>::denorm_min() : -std::numeric_limits<T>::denorm_min(); else w = step<T>(x, (ld)x < yy ? 1 : -1); if (w == 0 && x != 0) w = std::copysign((T)0, x); V.nontrivial = std::isfinite(x) && !is_nan(yy) && (ld)x != yy; return cmp(V, r, w, "not the adjacent value"); }
		case NEXTUP: case NEXTDOWN: { T w; bool up = k == NEXTUP; if (is_nan(x)) w = x; else if (x == 0) w = up ? std::numeric_limits<T>::denorm_min() : -std::numeric_limits<T>::denorm_min(); else { w = step<T>(x, up ? 1 : -1); if (w == 0) w = std::copysign((T)0, x); } return cmp(V, r, w, "not the adjacent value"); }
		case FABS: { T w = __builtin_fabsl(x); if constexpr (std::is_same_v<T, float>) w = __builtin_fabsf(x); if constexpr (std::is_same_v<T, double>) w = __builtin_fabs(x); V.nontrivial = sgn(x); return cmp(V, r, w, "wrong magnitude or sign", true); }
		case COPYSIGN: { T w = std::copysign(x, y); V.nontrivial = sgn(x) != sgn(y); return cmp(V, r, w, "wrong magnitude or sign", true); }
		case FMAX: case FMIN: { bool mx = k == FMAX; T w; V.nontrivial = !(x == y); if (is_nan(x)) w = y; else if (is_nan(y)) w = x; else w = (mx ? x > y : x < y) ? x : y; if (x == 0 && y == 0) { if (r == 0 && (sgn(r) == sgn(x) || sgn(r) == sgn(y))) return true; } return cmp(V, r, w); }
		case FDIM: { V.nontrivial = std::isfinite(x) && std::isfinite(y) && x > y; T w; if (is_nan(x) || is_nan(y)) w = std::numeric_limits<T>::quiet_NaN(); else if (x <= y) w = 0; else { ModeSet m(s.mode); volatile T a = x, b = y; volatile T d = a - b; w = d; } return cmp(V, r, w); }
		case CLASS: { long w; switch (sub) { case 0: w = std::fpclassify(x); break; case 1: w = std::isfinite(x); break; case 2: w = std::isinf(x); break; case 3: w = std::isnan(x); break; case 4: w = std::isnormal(x); break; default: w = sgn(x); } V.nontrivial = true; long g = sub == 0 ? o.ri : (o.ri != 0); if (g != w) return fail(V, std::to_string(g), std::to_string(w), "wrong class of " + show(x)); return true; }
		case CMP: { long w; bool un = is_nan(x) || is_nan(y); switch (sub) { case 0: w = !un && x > y; break; case 1: w = !un && x >= y; break; case 2: w = !un && x < y; break; case 3: w = !un && x <= y; break; case 4: w = !un && (x < y || x > y); break; default: w = un; } V.nontrivial = true; if ((o.ri != 0) != (w != 0)) return fail(V, std::to_string(o.ri), std::to_string(w), "wrong comparison"); return true; }
		case ROUNDTRIP: break;
		}
		(void)sizeof(F); return true;
	}
	T ref_remquo(T x, T y, int &q) { // exact, from MPFR
		q = 0; if (is_nan(x) || is_nan(y) || is_inf(x) || y == 0) return std::numeric_limits<T>::quiet_NaN(); if (is_inf(y)) return x; if (x == 0) return x;
		mp_set<T>(ma, x); mp_set<T>(mb, y); Mp r(Fmt<T>::p + 2); long qq = 0; mpfr_remquo(r, &qq, ma, mb, MPFR_RNDN); q = (int)(std::labs(qq) & 7); T w = mp_get_exact<T>(r); if (w == 0) w = std::copysign((T)0, x); return w;
	}
};

// ======================================================================= decomposition round trip (B03), stepping round trip (B04)
template <class T> struct RoundTrip : Check {
	Call<T> fr, ld_, sc, mo, up, dn, lg; Call<T> il; RoundTrip(const Spec &sp) { s = sp; }
	int arity() override { return 1; }
	bool bind() { return fr.bind(s.cfg, "frexp", "x") && ld_.bind(s.cfg, "ldexp", "e") && sc.bind(s.cfg, "scalbn", "e") && mo.bind(s.cfg, "modf", "m") && up.bind(s.cfg, "nextup", "u") && dn.bind(s.cfg, "nextdown", "u") && il.bind(s.cfg, "ilogb", "p"); }
	void gen(Rng &g, long long, Args &A, int &cls) override { Gen<T> G(g); cls = 0; A.a = g.chance(1, 3) ? G.any() : g.chance(1, 2) ? G.finite() : G.subnormal(); }
	bool test(const Args &A, Verdict &V) override {
		T x = (T)A.a; V.nontrivial = std::isfinite(x) && x != 0; Args B;
		auto f = [&](const char *w, T g, T e) { if (bits_equal(g, e)) return true; V.got = show(g); V.want = show(e); V.why = w; V.err = 1e30; return false; };
		if (s.fn == "frexp-ldexp") { auto o = fr(A); B.a = o.r; B.i = std::isfinite(x) ? o.ri : 0; return f("ldexp(frexp(x)) != x", ld_(B).r, x); }
		if (s.fn == "ilogb-scalbn") { if (!V.nontrivial) return true; long e = il(A).ri; B.a = x; B.i = -e; T m = sc(B).r; if (!(std::fabs(m) >= 1 && std::fabs(m) < 2)) { V.got = show(m); V.want = "in [1,2)"; V.why = "scalbn(x, -ilogb(x)) not in [1,2)"; V.err = 1e30; return false; } B.a = m; B.i = e; return f("scalbn(scalbn(x,-e),e) != x", sc(B).r, x); }
		if (s.fn == "modf-sum") { if (is_nan(x)) return true; auto o = mo(A); if (is_inf(x)) return f("modf(inf) integral part", o.r2, x) && f("modf(inf) fraction", o.r, std::copysign((T)0, x)); if (!f("integral + fraction != x", o.r2 + o.r == 0 ? o.r2 : o.r2 + o.r, x)) return false; if (std::fabs(o.r) >= 1 || o.r2 != std::trunc(o.r2) || sgn(o.r) != sgn(x) || sgn(o.r2) != sgn(x)) { V.got = show(o.r2) + " + " + show(o.r); V.want = "parts with the sign of x, fraction below 1"; V.why = "modf parts malformed"; V.err = 1e30; return false; } return true; }
		if (s.fn == "nextup-nextdown") { if (!std::isfinite(x)) return true; auto o = up(A); if (!(o.r > x)) { V.got = show(o.r); V.want = "> x"; V.why = "nextup(x) not above x"; V.err = 1e30; return false; } if (is_inf(o.r)) return true; B.a = o.r; T d = dn(B).r; if (d == x) return true; return f("nextdown(nextup(x)) != x", d, x); }
		return true;
	}
};

// ======================================================================= lerp (B07)
template <class T> struct Lerp : Check {
	Call<T> call; Mp a{ 64 }, b{ 64 }, t{ 64 }, y{ 40000 }, z{ 40000 }; Lerp(const Spec &sp) { s = sp; }
	const char *cls_name(int c) override { static const char *n[] = { "any", "same-scale", "unit-t", "ends", "monotone-pair" }; return n[c % 5]; }
	void gen(Rng &g, long long, Args &A, int &cls) override {
		Gen<T> G(g); cls = (int)g.below(5); auto fin = [&]() { T v; do v = G.any(); while (!std::isfinite(v)); return v; };
		A.a = fin(); A.b = fin(); if (cls != 0 && g.chance(2, 3)) { A.a = G.logu(-20, 20); A.b = g.chance(1, 4) ? G.jitter((T)A.a) : G.logu(-20, 20); } if (g.chance(1, 10)) A.b = A.a; if (g.chance(1, 12)) { A.a = G.sign(max_of<T>()); A.b = G.sign(step<T>(max_of<T>(), -(int64_t)g.below(8))); }
		switch (cls) { case 0: A.c = fin(); break; case 1: A.c = G.logu(-10, 6); break; case 3: A.c = step<T>((T)(g.below(2)), g.range(-3, 3)); break; default: { ld u = g.unit(); A.c = (T)u; if (g.chance(1, 4)) A.c = (T)std::ldexp(G.mant(), -(int)g.range(1, Fmt<T>::p + 10)); } }
		A.i = cls == 4 ? g.range(1, 1000) : g.chance(1, 3) ? 1 : 0;
	}
	bool test(const Args &A, Verdict &V) override {
		T x = (T)A.a, w = (T)A.b, q = (T)A.c; T r = call(A).r; V.nontrivial = x != w && q != 0 && q != 1;
		auto bad = [&](const std::string &why, const std::string &want) { V.got = show(r); V.want = want; V.why = "lerp(" + show(x) + ", " + show(w) + ", " + show(q) + "): " + why; V.err = 1e30; return false; };
		if (q == 0 && !(r == x)) return bad("t = 0 must give a", show(x));
		if (q == 1 && !(r == w)) return bad("t = 1 must give b", show(w));
		if (x == w && !(r == x)) return bad("a == b must give a", show(x));
		if (q >= 0 && q <= 1) { if (!std::isfinite(r)) return bad("finite ends and 0<=t<=1 must give a finite value", "finite"); if (r < std::min(x, w) || r > std::max(x, w)) return bad("outside [a,b] for 0<=t<=1", "between a and b"); }
		if (A.i) { T q2 = step<T>(q, A.i); if (std::isfinite(q2)) { Args B = A; B.c = q2; T r2 = call(B).r; T c1 = x < w ? r : r2, c2 = x < w ? r2 : r; if (!is_nan(r) && !is_nan(r2) && x != w && c1 > c2) return bad("not monotone: t' = " + show(q2) + " gives " + show(r2), "monotone in t"); } }
		// value
		mp_set<T>(a, x); mp_set<T>(b, w); mp_set<T>(t, q); mpfr_sub(y, b, a, MPFR_RNDN); mpfr_mul(y, y, t, MPFR_RNDN); mpfr_set(z, y, MPFR_RNDN); mpfr_add(y, y, a, MPFR_RNDN);
		ld m = std::max(fabsl((ld)x), fabsl((ld)w)); ld tm = fabsl((ld)q) > 1 ? fabsl((ld)q) : 1; ld tol = 0; if constexpr (!std::is_same_v<T, ld>) tol = 4 * m * tm * std::numeric_limits<T>::epsilon() + 4 * (ld)std::numeric_limits<T>::denorm_min();
		if (tol > 0 && std::isfinite(r)) { ld ex = mpfr_get_ld(y, MPFR_RNDN); if (fabsl(ex) < (ld)max_of<T>() * 0.99L && m * tm < (ld)max_of<T>() * 0.25L && fabsl((ld)r - ex) > tol) return bad("value off by more than a few ulp of the larger operand", hexf((T)ex)); }
		else if (tol > 0) { ld ex = mpfr_get_ld(y, MPFR_RNDN); if (m * tm < (ld)max_of<T>() * 0.25L) return bad("not finite although the result is well inside the range", hexf((T)ex)); }
		return true;
	}
};
#include "numdrv2.hpp"
