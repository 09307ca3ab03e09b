// Continuation of numdrv.cpp: special values, flags, environment, determinism, identities, job tables, main.
#pragma once
// ---- generic table of functions by signature
struct FnInfo { const char *name; char sig; int crit; };
static const FnInfo kAll[] = {
	{ "abs", 'u', 0 }, { "fabs", 'u', 0 }, { "exp", 'u', 1 }, { "exp2", 'u', 2 }, { "expm1", 'u', 1 }, { "log", 'u', 3 }, { "log2", 'u', 3 }, { "log10", 'u', 3 }, { "log1p", 'u', 4 }, { "sqrt", 'u', 3 }, { "cbrt", 'u', 3 },
	{ "sin", 'u', 5 }, { "cos", 'u', 5 }, { "tan", 'u', 5 }, { "asin", 'u', 6 }, { "acos", 'u', 6 }, { "atan", 'u', 7 }, { "ceil", 'u', 0 }, { "floor", 'u', 0 }, { "trunc", 'u', 0 }, { "round", 'u', 0 }, { "rint", 'u', 0 }, { "nearbyint", 'u', 0 },
	{ "logb", 'u', 0 }, { "nextup", 'u', 0 }, { "nextdown", 'u', 0 }, { "tgamma", 'u', 8 }, { "gamma", 'u', 8 }, { "lgamma", 'u', 9 },
	{ "fdim", 'b', 4 }, { "fmax", 'b', 0 }, { "fmin", 'b', 0 }, { "fmod", 'b', 5 }, { "remainder", 'b', 5 }, { "copysign", 'b', 0 }, { "nextafter", 'b', 0 }, { "pow", 'b', 1 }, { "hypot", 'b', 2 }, { "atan2", 'b', 3 },
	{ "fma", 't', 0 }, { "hypot", 't', 0 }, { "lerp", 't', 0 }, { "ldexp", 'e', 0 }, { "scalbn", 'e', 0 }, { "scalbln", 'l', 0 },
	{ "frexp", 'x', 0 }, { "modf", 'm', 0 }, { "remquo", 'r', 5 }, { "nexttoward", 'w', 0 },
	{ "fpclassify", 'p', 0 }, { "isfinite", 'p', 0 }, { "isinf", 'p', 0 }, { "isnan", 'p', 0 }, { "isnormal", 'p', 0 }, { "signbit", 'p', 0 }, { "ilogb", 'p', 0 },
	{ "isgreater", 'q', 0 }, { "isgreaterequal", 'q', 0 }, { "isless", 'q', 0 }, { "islessequal", 'q', 0 }, { "islessgreater", 'q', 0 }, { "isunordered", 'q', 0 },
};
static const FnInfo *info(const std::string &n, char sig) { for (auto &f : kAll) if (n == f.name && (!sig || sig == f.sig)) return &f; return nullptr; }
static const UFn *ufn(const std::string &n) { for (auto &f : kU) if (n == f.name) return &f; return nullptr; }
static const BFn *bfn(const std::string &n) { for (auto &f : kB) if (n == f.name) return &f; return nullptr; }
// reference call through the platform libm, same type, current mode
template <class T> Res<T> libm_call(const FnInfo &f, const Args &A, bool &known) {
	Res<T> o; T x = (T)A.a, y = (T)A.b, z = (T)A.c; std::string n = f.name; known = true;
	switch (f.sig) {
	case 'u':
#define X(N) if (n == #N) { o.r = std::N(x); return o; }
		X(abs) X(fabs) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sqrt) X(cbrt) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(ceil) X(floor) X(trunc) X(round) X(rint) X(nearbyint) X(logb) X(tgamma) X(lgamma)
#undef X
		if (n == "gamma") { o.r = std::tgamma(x); return o; }
		break;
	case 'b':
#define X(N) if (n == #N) { o.r = std::N(x, y); return o; }
		X(fdim) X(fmax) X(fmin) X(fmod) X(remainder) X(copysign) X(nextafter) X(pow) X(hypot) X(atan2)
#undef X
		break;
	case 't': if (n == "fma") { o.r = std::fma(x, y, z); return o; } if (n == "hypot") { if (is_inf(x) || is_inf(y) || is_inf(z)) o.r = std::numeric_limits<T>::infinity(); else if (is_nan(x) || is_nan(y) || is_nan(z)) o.r = std::numeric_limits<T>::quiet_NaN(); else o.r = std::hypot(std::hypot(x, y), z); return o; } break;
	case 'e': o.r = std::ldexp(x, (int)A.i); return o;
	case 'l': o.r = std::scalbln(x, A.i); return o;
	case 'x': { int e = 0; o.r = std::frexp(x, &e); o.ri = e; return o; }
	case 'm': { o.r = std::modf(x, &o.r2); return o; }
	case 'r': { int q = 0; o.r = std::remquo(x, y, &q); o.ri = q; return o; }
	case 'w': o.r = std::nexttoward(x, A.b); return o;
	}
	known = false; return o;
}
template <class T> void gen_for(const FnInfo &f, Rng &g, Args &A, int &cls) {
	Gen<T> G(g); cls = 0; A.a = G.any(); A.b = G.any(); A.c = G.any();
	if (g.chance(1, 6)) { cls = 1; (g.chance(1, 2) ? A.a : g.chance(1, 2) ? A.b : A.c) = G.special(); return; }
	switch (f.sig) {
	case 'u': if (auto u = ufn(f.name)) { int c; A.a = gen_unary<T>(G, *u, &c); cls = 2 + c; } break;
	case 'b': case 'r': if (f.crit) { T x, y; int c; gen_binary<T>(G, f.crit, x, y, &c); A.a = x; A.b = y; cls = 8 + c; } break;
	case 'e': case 'l': A.i = g.chance(1, 3) ? g.range(-70, 70) : g.chance(1, 2) ? g.range(-2 * Fmt<T>::emax, 2 * Fmt<T>::emax) : (long)(int)g.u64(); if (f.sig == 'l' && g.chance(1, 8)) A.i = (long)g.u64(); break;
	case 't': if (g.chance(1, 2)) { A.a = G.logu(-20, 20); A.b = G.logu(-20, 20); A.c = g.chance(1, 2) ? (ld)G.uniform(-1, 2) : (ld)G.logu(-40, 40); } break;
	case 'w': if (g.chance(1, 2)) A.b = step<ld>(A.a, g.range(-4, 4)); break;
	default: break;
	}
	A.a = (T)A.a; if (f.sig != 'w') A.b = (T)A.b; A.c = (T)A.c;
}
static bool narrow_fn(const FnInfo &f) { return ufn(f.name) || (f.sig == 'b' && (!strcmp(f.name, "pow") || !strcmp(f.name, "hypot") || !strcmp(f.name, "atan2"))) || (f.sig == 't' && !strcmp(f.name, "hypot")); }
static bool beyond_double(ld v) { return std::isfinite(v) && v != 0 && (fabsl(v) > 0x1p1023L || fabsl(v) < 0x1p-1020L); }
static bool big(ld v) { return std::isfinite(v) && v != 0 && (v != (ld)(double)v || fabsl(v) < 0x1p-60L || fabsl(v) > 200); }
// ======================================================================= C01
template <class T> struct Special : Check {
	const FnInfo &f; Call<T> call; std::vector<T> vals; bool extreme;
	Special(const Spec &sp, const FnInfo &fi) : f(fi) {
		s = sp; extreme = sp.kind == 2; const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN(), dn = std::numeric_limits<T>::denorm_min(), mn = std::numeric_limits<T>::min(), mx = max_of<T>();
		for (T v : { (T)0, inf, nan, (T)1, (T)2, (T)3, (T)4, (T)0.5, (T)1.5, (T)2.5, (T)5, (T)10 }) { vals.push_back(v); vals.push_back(-v); }
		if (f.sig != 't') for (T v : { dn, mn, mx, step<T>((T)1, 1), step<T>((T)1, -1), (T)1000, (T)1e5, std::ldexp((T)1, Fmt<T>::p), std::ldexp((T)1, Fmt<T>::p) - 1, std::ldexp((T)1, Fmt<T>::p + 1), std::ldexp((T)1, Fmt<T>::p - 1) + (T)0.5 }) { vals.push_back(v); vals.push_back(-v); }
		if (f.sig == 't') { vals.push_back(mx); vals.push_back(dn); vals.push_back(-mx); vals.push_back(-dn); }
	}
	int arity() override { return f.sig == 'u' ? 1 : f.sig == 'b' ? 2 : 3; }
	static long count(const FnInfo &f) { long v = f.sig == 't' ? 28 : 46; return f.sig == 'u' ? v : f.sig == 'b' ? v * v : v * v * v; }
	void gen(Rng &, long long idx, Args &A, int &cls) override { size_t n = vals.size(); cls = 0; A.a = vals[idx % n]; idx /= n; A.b = f.sig == 'u' ? (T)0 : vals[idx % n]; idx /= n; A.c = f.sig == 't' ? vals[idx % n] : (T)0; }
	const char *cls_name(int) override { return "special operands"; }
	bool test(const Args &A, Verdict &V) override {
		T r, w; bool known, inexact, over; if (s.type == 'l' && via_double() && (big(A.a) || big(A.b) || big(A.c))) { V.nontrivial = false; return true; } { ModeSet m(s.mode); r = call(A).r; }
		{ ModeSet m(s.mode); feclearexcept(FE_ALL_EXCEPT); w = libm_call<T>(f, A, known).r; inexact = fetestexcept(FE_INEXACT); over = fetestexcept(FE_OVERFLOW | FE_UNDERFLOW); }
		if (std::string(f.name) == "lerp" && f.sig == 't') { // NaN propagation and exact ends only
			T x = (T)A.a, y = (T)A.b, q = (T)A.c; V.nontrivial = true; if (is_nan(x) || is_nan(y) || is_nan(q)) { if (is_nan(r)) return true; return fail(V, r, std::numeric_limits<T>::quiet_NaN(), A); } return true; }
		V.nontrivial = true; if (!known) return true;
		if (f.sig == 'b' && (!strcmp(f.name, "fmax") || !strcmp(f.name, "fmin")) && (T)A.a == 0 && (T)A.b == 0) return r == 0 ? true : fail(V, r, w, A);
		if (bits_equal(r, w)) return true;
		if (!strcmp(f.name, "remainder") && w == 0 && r == 0 && std::isfinite((T)A.a) && (T)A.a != 0) { T e = std::copysign((T)0, (T)A.a); return bits_equal(r, e) || bits_equal(r, w) || (s.mode && s.cfg.compare(0, 5, "clang") == 0) ? true : fail(V, r, e, A); } // glibc's zero sign varies with the mode
		if (s.type == 'l' && via_double() && beyond_double(w)) { V.nontrivial = false; return true; }
		if (is_nan(r) || is_nan(w)) return fail(V, r, w, A);
		if (s.fn == "lgamma" && std::isfinite(r) && std::isfinite(w) && fabsl((ld)r - (ld)w) < 1e-5L) return true; // the sign of an exact zero of lgamma is not specified
		bool exact_special = (w == 0 || is_inf(w)) && !inexact && !over;
		if (exact_special) return fail(V, r, w, A);
		// inexact results: only sign and magnitude class are in scope here (accuracy is checked elsewhere)
		if (sgn(r) != sgn(w) && !(r == 0 && w == 0)) return fail(V, r, w, A);
		if (sgn(r) != sgn(w)) return fail(V, r, w, A);
		double d = libm_dist(r, w); if (d <= 16) return true; { ld rel = fabsl((ld)r - (ld)w); if (rel <= 0.05L * fabsl((ld)w) || (rel < 1e-5L && s.fn == "lgamma")) return true; } if (over && (is_inf(r) || std::fabs(r) >= max_of<T>() / 64) && (is_inf(w) || std::fabs(w) >= max_of<T>() / 64)) return true; if (std::fabs(w) <= 4 * std::numeric_limits<T>::denorm_min() && std::fabs(r) <= 8 * std::numeric_limits<T>::denorm_min()) return true;
		return fail(V, r, w, A);
	}
	// long double transcendentals evaluate in double precision in the library's own kernels: operands outside double's comfortable range are out of scope
	bool via_double() const { return narrow_fn(f); }
	bool fail(Verdict &V, T r, T w, const Args &) { V.got = show(r); V.want = show(w); V.why = s.fn + " on special operands"; V.err = 1e30; return false; }
};
// ======================================================================= C02 flags and errno
template <class T> struct Flags : Check {
	const FnInfo &f; Call<T> call; Flags(const Spec &sp, const FnInfo &fi) : f(fi) { s = sp; }
	int arity() override { return f.sig == 'u' || f.sig == 'p' || f.sig == 'x' || f.sig == 'm' || f.sig == 'e' || f.sig == 'l' ? 1 : f.sig == 't' ? 3 : 2; }
	void gen(Rng &g, long long, Args &A, int &cls) override { gen_for<T>(f, g, A, cls); A.j = (long)g.below(3); }
	const char *cls_name(int c) override { return c == 0 ? "any" : c == 1 ? "special" : c < 8 ? kUClass[(c - 2) % 6] : "pair"; }
	static std::string names(int fl) { std::string o; if (fl & FE_INVALID) o += "INVALID "; if (fl & FE_DIVBYZERO) o += "DIVBYZERO "; if (fl & FE_OVERFLOW) o += "OVERFLOW "; if (fl & FE_UNDERFLOW) o += "UNDERFLOW "; return o.empty() ? "none" : o; }
	bool test(const Args &A, Verdict &V) override {
		if (s.type == 'l' && narrow_fn(f) && (big(A.a) || big(A.b) || big(A.c))) { V.nontrivial = false; return true; }
		Res<T> o, w; int fl, wf, e, we; bool known = true; const int kErr[3] = { 0, EDOM, 4242 };
		int e0 = kErr[A.j % 3];
		{ ModeSet m(s.mode); feclearexcept(FE_ALL_EXCEPT); errno = e0; o = call(A); fl = fetestexcept(FE_ALL_EXCEPT); e = errno; }
		{ ModeSet m(s.mode); feclearexcept(FE_ALL_EXCEPT); errno = 0; if (f.sig == 'p' || f.sig == 'q') { w = o; } else w = libm_call<T>(f, A, known); wf = fetestexcept(FE_ALL_EXCEPT); we = errno; }
		if (s.type == 'l' && narrow_fn(f) && beyond_double(w.r)) { V.nontrivial = false; errno = 0; feclearexcept(FE_ALL_EXCEPT); return true; }
		std::string n = f.name;
		if (n == "ilogb") { errno = 0; feclearexcept(FE_ALL_EXCEPT); (void)std::ilogb((T)A.a); wf = fetestexcept(FE_ALL_EXCEPT); we = errno; }
		errno = 0; feclearexcept(FE_ALL_EXCEPT);
		if (!known) return true;
		const int main3 = FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW; bool pred = f.sig == 'p' || f.sig == 'q';
		V.nontrivial = (wf & ~FE_INEXACT) != 0 || A.j;
		T x = (T)A.a, y = (T)A.b; bool nanin = is_nan(x) || ((f.sig == 'b' || f.sig == 't' || f.sig == 'q' || f.sig == 'r') && is_nan(y)) || (f.sig == 't' && is_nan((T)A.c));
		int want = wf & main3, got = fl & main3;
		bool near_over = std::isfinite(w.r) ? fabsl((ld)w.r) > (ld)max_of<T>() * (1 - 16 * std::numeric_limits<T>::epsilon()) : is_inf(w.r);
		if (pred && n != "ilogb") want = 0;
		auto bad = [&](const std::string &why, const std::string &g, const std::string &wt) { V.got = g; V.want = wt; V.why = s.fn + ": " + why + " (result " + show(o.r) + ")"; V.err = 1; return false; };
		// domain error <=> NaN from non-NaN operands
		int diff = want ^ got;
		if ((diff & FE_OVERFLOW) && near_over && std::isfinite(w.r) ) diff &= ~FE_OVERFLOW; // rounding decides
		if ((diff & FE_OVERFLOW) && is_inf(w.r) && std::isfinite(o.r)) diff &= ~FE_OVERFLOW;
		if (n == "pow" && x == 0 && is_inf(y)) diff &= ~FE_DIVBYZERO; // C allows either
		const bool exactfn = n == "ldexp" || n == "scalbn" || n == "scalbln" || (n == "fma" && s.type != 'l');
		if (nanin) diff &= FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW; 
		if (diff & FE_INVALID) return bad((got & FE_INVALID) ? "raises FE_INVALID without a domain error" : "domain error without FE_INVALID", names(got), names(want));
		if (diff & FE_DIVBYZERO) return bad((got & FE_DIVBYZERO) ? "raises FE_DIVBYZERO without a pole" : "pole without FE_DIVBYZERO", names(got), names(want));
		if (diff & FE_OVERFLOW) return bad((got & FE_OVERFLOW) ? "raises FE_OVERFLOW without overflow" : "overflow without FE_OVERFLOW", names(got), names(want));
		// underflow: required when the result is clearly subnormal/zero and inexact, forbidden when clearly normal
		if (!nanin) {
			ld m = fabsl((ld)w.r); ld mn = std::numeric_limits<T>::min(); bool tiny = (wf & FE_UNDERFLOW) && m < mn * (1 - 16 * std::numeric_limits<T>::epsilon()); bool clearly_normal = m > mn * (1 + 16 * std::numeric_limits<T>::epsilon());
			if (exactfn && tiny && !(fl & FE_UNDERFLOW) && (o.r == w.r || libm_dist(o.r, w.r) <= 4)) return bad("underflow without FE_UNDERFLOW", names(fl), names(wf));
			if (((exactfn && clearly_normal) || pred) && (fl & FE_UNDERFLOW)) return bad("raises FE_UNDERFLOW for a normal result", names(fl), names(wf));
			if (exactfn && w.r == 0 && !(wf & (FE_UNDERFLOW | FE_INEXACT)) && (fl & FE_UNDERFLOW)) return bad("raises FE_UNDERFLOW for an exact zero", names(fl), names(wf));
		}
		// errno
		bool range_like = (wf & (FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW)) || (fl & FE_UNDERFLOW) || (near_over && (fl & FE_OVERFLOW)) || we == ERANGE, dom_like = (wf & FE_INVALID) || (wf & FE_DIVBYZERO) || we == EDOM;
		if (s.check == "noerrno") { if (e != e0) return bad("errno written although errno support is disabled", std::to_string(e), std::to_string(e0)); return true; }
		if (e != e0) { if ((e == ERANGE || e == EDOM) && n == "pow" && x == 0 && y < 0) {} else if (e == EDOM && dom_like) {} else if (e == ERANGE && range_like) {} else return bad("errno changed without a matching error", std::to_string(e), std::to_string(e0)); }
		return true;
	}
};
// ======================================================================= C03 environment
template <class T> struct Env : Check {
	const FnInfo &f; Call<T> call; Env(const Spec &sp, const FnInfo &fi) : f(fi) { s = sp; }
	void gen(Rng &g, long long, Args &A, int &cls) override { gen_for<T>(f, g, A, cls); A.j = (long)g.below(64); }
	const char *cls_name(int c) override { return c == 0 ? "any" : c == 1 ? "special" : c < 8 ? kUClass[(c - 2) % 6] : "pair"; }
	static unsigned short cw() { unsigned short v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
	bool test(const Args &A, Verdict &V) override {
		fenv_t saved; fegetenv(&saved); fesetround(kModes[s.mode]); feclearexcept(FE_ALL_EXCEPT);
		int pre = 0; const int fl[5] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT }; for (int k = 0; k < 5; ++k) if (A.j >> k & 1) pre |= fl[k];
		fexcept_t ex; feraiseexcept(0); { fenv_t t; fegetenv(&t); t.__mxcsr |= (unsigned)pre; fesetenv(&t); } (void)ex;
		unsigned c0 = _mm_getcsr(); unsigned short w0 = cw(); Res<T> o = call(A); unsigned c1 = _mm_getcsr(); unsigned short w1 = cw(); int rm = fegetround(); int post = fetestexcept(FE_ALL_EXCEPT);
		fesetenv(&saved); feclearexcept(FE_ALL_EXCEPT);
		V.nontrivial = s.mode != 0 || pre; char b[120];
		if (rm != kModes[s.mode] || ((c0 ^ c1) & 0x6000) || ((w0 ^ w1) & 0x0c00)) { snprintf(b, 120, "fegetround=%#x mxcsr=%#x cw=%#x", rm, c1, w1); V.got = b; V.want = kModeNames[s.mode]; V.why = s.fn + " changed the rounding mode"; V.err = 1; return false; }
		if (((c0 ^ c1) & ~0x3fu) || w0 != w1) { snprintf(b, 120, "mxcsr %#x -> %#x, cw %#x -> %#x", c0, c1, w0, w1); V.got = b; V.want = "unchanged control bits"; V.why = s.fn + " changed the floating-point control state"; V.err = 1; return false; }
		if (pre & ~post) { V.got = Flags<T>::names(post) + std::to_string(post); V.want = Flags<T>::names(pre) + std::to_string(pre) + " kept"; V.why = s.fn + " cleared an exception flag that was set before the call"; V.err = 1; return false; }
		(void)o; return true;
	}
};
// ======================================================================= J01 undefined behaviour and completion (the subjects trap on undefined operations)
template <class T> struct Prompt : Check {
	const FnInfo &f; Call<T> call; Prompt(const Spec &sp, const FnInfo &fi) : f(fi) { s = sp; }
	int arity() override { return f.sig == 'u' || f.sig == 'p' || f.sig == 'x' || f.sig == 'm' || f.sig == 'e' || f.sig == 'l' ? 1 : f.sig == 't' ? 3 : 2; }
	bool has_int() override { return f.sig == 'e' || f.sig == 'l'; }
	void gen(Rng &g, long long idx, Args &A, int &cls) override { if (s.kind == 1) { cls = 15; uint32_t b = (uint32_t)((uint64_t)s.start + (uint64_t)idx * (uint64_t)s.stride); float v; memcpy(&v, &b, 4); A.a = v; return; } gen_for<T>(f, g, A, cls); }
	const char *cls_name(int c) override { return c == 15 ? "float-sweep" : c == 0 ? "any" : c == 1 ? "special" : c < 8 ? kUClass[(c - 2) % 6] : "pair"; }
	static double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
	bool test(const Args &A, Verdict &V) override {
		V.nontrivial = std::isfinite((T)A.a) && A.a != 0; ModeSet m(s.mode);
		unsigned long long t0 = __rdtsc(); call(A); unsigned long long t1 = __rdtsc();
		if (t1 - t0 < 20000000ull) return true;
		double best = 1e9; for (int k = 0; k < 3 && best > 0.02; ++k) { double c = cpu(); call(A); best = std::min(best, cpu() - c); } // the first measurement may have been preempted
		if (best <= 0.02) return true;
		V.got = std::to_string(best) + " s of CPU time"; V.want = "a prompt return (20 ms)"; V.why = s.fn + " does not return promptly"; V.err = best; return false;
	}
};
// ======================================================================= E01 determinism between builds
template <class T> struct Det : Check {
	const FnInfo &f; Call<T> ca, cb; Det(const Spec &sp, const FnInfo &fi) : f(fi) { s = sp; }
	int arity() override { return f.sig == 'u' || f.sig == 'p' || f.sig == 'x' || f.sig == 'm' || f.sig == 'e' || f.sig == 'l' ? 1 : f.sig == 't' ? 3 : 2; }
	void gen(Rng &g, long long idx, Args &A, int &cls) override { if (s.kind == 1) { cls = 15; uint32_t b = (uint32_t)((uint64_t)s.start + (uint64_t)idx * (uint64_t)s.stride); float v; memcpy(&v, &b, 4); A.a = v; return; } gen_for<T>(f, g, A, cls); }
	const char *cls_name(int c) override { return c == 15 ? "float-sweep" : c == 0 ? "any" : c == 1 ? "special" : c < 8 ? kUClass[(c - 2) % 6] : "pair"; }
	bool test(const Args &A, Verdict &V) override {
		auto x = ca(A), y = cb(A); V.nontrivial = std::isfinite((T)A.a) && A.a != 0;
		bool iok = x.ri == y.ri || (f.sig == 'x' && !std::isfinite((T)A.a)) || (f.sig == 'r' && is_nan(x.r));
		if (bits_equal(x.r, y.r) && bits_equal(x.r2, y.r2) && iok) return true;
		V.got = show(x.r) + " / " + show(x.r2) + " / " + std::to_string(x.ri); V.want = show(y.r) + " / " + show(y.r2) + " / " + std::to_string(y.ri); V.err = libm_dist(x.r, y.r); V.why = s.fn + " differs between builds " + s.cfg; return false;
	}
};
// ======================================================================= K01 identities
template <class T> struct Ident : Check {
	std::vector<Call<T>> c; std::string rel; Ident(const Spec &sp) { s = sp; rel = sp.check; }
	const FnInfo *f = nullptr;
	int arity() override { return rel == "fma-sym" ? 3 : 2; }
	bool bind() { std::string n = s.fn; f = info(n, 0); if (rel == "fma-sym") f = info("fma", 't'); if (rel == "floorceil") { c.resize(2); return c[0].bind(s.cfg, "floor", "u") && c[1].bind(s.cfg, "ceil", "u"); } c.resize(1); const char sg[2] = { f->sig, 0 }; return c[0].bind(s.cfg, n, sg); }
	void gen(Rng &g, long long idx, Args &A, int &cls) override {
		using F = Fmt<T>; Gen<T> G(g);
		if (s.kind == 1) { cls = 15; uint32_t b = (uint32_t)((uint64_t)s.start + (uint64_t)idx * (uint64_t)s.stride); float v; memcpy(&v, &b, 4); A.a = std::isfinite(v) ? v : 1.f; return; }
		gen_for<T>(*f, g, A, cls);
		if (rel == "exact") { std::string n = s.fn; cls = 14;
			if (n == "exp2") A.a = g.range(F::emin, F::emax - 1); else if (n == "log2") A.a = std::ldexp((T)1, (int)g.range(F::emin, F::emax - 1));
			else if (n == "log10") { int m = F::p == 24 ? 10 : F::p == 53 ? 22 : 27; int k = (int)g.range(0, m); ld v = 1; while (k--) v *= 10; A.a = v; }
			else if (n == "sqrt") { T m = (T)(g.u64() >> (64 - F::p / 2)); int e = (int)g.range(-60, 60) * 2; A.b = std::ldexp(m, e / 2); A.a = std::ldexp(m * m, e); }
			else if (n == "hypot") { const int t[][3] = { { 3, 4, 5 }, { 5, 12, 13 }, { 8, 15, 17 }, { 7, 24, 25 }, { 20, 21, 29 }, { 9, 40, 41 } }; auto &q = t[g.below(6)]; int sc = (int)g.range(F::emin + 8, F::emax - 8); A.a = std::ldexp((T)q[0], sc); A.b = std::ldexp((T)q[1], sc); A.c = std::ldexp((T)q[2], sc); if (g.chance(1, 2)) std::swap(A.a, A.b); if (g.chance(1, 2)) A.a = -A.a; }
			else if (n == "pow") { switch (g.below(4)) { case 0: A.b = 1; break; case 1: A.b = 0; break; case 2: A.a = 1; break; default: { T m = (T)(g.u64() >> (64 - F::p / 2)); A.a = m; A.b = 2; } } } }
		if (rel == "pow-sign") { A.b = g.chance(1, 2) ? (ld)g.range(-200, 200) : (ld)G.near_int(); A.b = std::trunc((T)A.b); A.a = g.chance(1, 2) ? G.logu(-10, 10) : G.finite(); }
	}
	const char *cls_name(int q) override { return q == 15 ? "float-sweep" : q == 14 ? "exact-result" : "generated"; }
	bool test(const Args &A, Verdict &V) override {
		Args B = A; T x = (T)A.a, y = (T)A.b; auto eq = [&](T g, T w, const char *why) { if (bits_equal(g, w)) return true; V.got = show(g); V.want = show(w); V.why = s.fn + ": " + why; V.err = libm_dist(g, w); return false; };
		V.nontrivial = std::isfinite(x) && x != 0; ModeSet ms(0);
		if (rel == "odd") { B.a = -A.a; return eq(c[0](B).r, -c[0](A).r, "f(-x) != -f(x)"); }
		if (rel == "even") { B.a = -A.a; return eq(c[0](B).r, c[0](A).r, "f(-x) != f(x)"); }
		if (rel == "odd1") { B.a = -A.a; return eq(c[0](B).r, -c[0](A).r, "f(-x, y) != -f(x, y)"); }
		if (rel == "signless2") { B.b = -A.b; return eq(c[0](B).r, c[0](A).r, "f(x, -y) != f(x, y)"); }
		if (rel == "sym") { std::swap(B.a, B.b); if (x == 0 && y == 0) return true; return eq(c[0](B).r, c[0](A).r, "f(y, x) != f(x, y)"); }
		if (rel == "signless") { B.a = -A.a; if (!eq(c[0](B).r, c[0](A).r, "f(-x, y) != f(x, y)")) return false; B = A; B.b = -A.b; return eq(c[0](B).r, c[0](A).r, "f(x, -y) != f(x, y)"); }
		if (rel == "fma-sym") { std::swap(B.a, B.b); T r = c[0](A).r; if (!eq(c[0](B).r, r, "fma(y,x,z) != fma(x,y,z)")) return false; B = A; B.a = -A.a; B.c = -A.c; if (r == 0) return true; return eq(c[0](B).r, -r, "fma(-x,y,-z) != -fma(x,y,z)"); }
		if (rel == "floorceil") { B.a = -A.a; return eq(c[0](A).r, -c[1](B).r, "floor(x) != -ceil(-x)"); }
		if (rel == "fdim-one") { std::swap(B.a, B.b); T p = c[0](A).r, q = c[0](B).r; if (is_nan(x) || is_nan(y)) return true; if ((p == 0 || q == 0) && p >= 0 && q >= 0 && !(x != y && p == 0 && q == 0)) return true; V.got = show(p) + ", " + show(q); V.want = "exactly one positive unless x == y"; V.why = "fdim(x,y), fdim(y,x)"; V.err = 1; return false; }
		if (rel == "pow-sign") { if (!std::isfinite(y) || !std::isfinite(x)) return true; bool odd = std::fmod(y, (T)2) != 0; B.a = -std::fabs(x); Args P = A; P.a = std::fabs(x); T n = c[0](B).r, p = c[0](P).r; return eq(n, odd ? -p : p, "pow(-x, n) != +-pow(x, n)"); }
		if (rel == "exact") { std::string n = s.fn; T r = c[0](A).r;
			if (n == "exp2") return eq(r, std::ldexp((T)1, (int)x), "exp2(n) != 2^n");
			if (n == "log2") return eq(r, (T)std::ilogb(x), "log2(2^n) != n");
			if (n == "log10") { int k = 0; ld v = 1; while (v < (ld)x) { v *= 10; ++k; } if (v != (ld)x) return true; return eq(r, (T)k, "log10(10^n) != n"); }
			if (n == "sqrt") { if ((T)(y * y) != x || !((ld)y * (ld)y == (ld)x)) return true; return eq(r, std::fabs(y), "sqrt(m*m) != m"); }
			if (n == "hypot") { if ((ld)x * x + (ld)y * y != A.c * A.c && Fmt<T>::p <= 53) {} return eq(r, (T)A.c, "Pythagorean triple not exact"); }
			if (n == "pow") { if (y == 1) return eq(r, x, "pow(x,1) != x"); if (y == 0) return eq(r, (T)1, "pow(x,0) != 1"); if (x == 1) return eq(r, (T)1, "pow(1,y) != 1"); if (y == 2 && (ld)x * (ld)x == (ld)(T)(x * x)) return eq(r, x * x, "pow(x,2) != x*x"); return true; } }
		return true;
	}
};

// ======================================================================= construction and job tables
template <class T> Check *make_t(const Spec &sp) {
	const std::string &k = sp.check;
	using E = Exact<T>;
	auto ex = [&](typename E::K kk, const char *sg, int sub = 0) -> Check * { auto *c = new E(sp, kk); c->sub = sub; if (!c->call.bind(sp.cfg, sp.fn, sg)) { delete c; return nullptr; } return c; };
	if (k == "acc") { if (auto f = ufn(sp.fn)) { auto *c = new AccU<T>(sp, f); if (c->call.bind(sp.cfg, sp.fn, kSigU)) return c; delete c; return nullptr; } }
	if (k == "acc" || k == "acc5" || k == "cr") { if (auto f = bfn(sp.fn)) { auto *c = new AccB<T>(sp, f); if (c->call.bind(sp.cfg, sp.fn, kSigB)) return c; delete c; return nullptr; } }
	if (k == "hypot3") { auto *c = new AccHypot3<T>(sp); if (c->call.bind(sp.cfg, "hypot", "t")) return c; delete c; return nullptr; }
	if (k == "sqrt") return ex(E::SQRT, "u"); if (k == "fma") return ex(E::FMA, "t");
	if (k == "int") { const char *n[] = { "floor", "ceil", "trunc", "round", "rint", "nearbyint" }; for (int q = 0; q < 6; ++q) if (sp.fn == n[q]) return ex(E::INT, "u", q); }
	if (k == "fmod") return ex(E::FMOD, "b"); if (k == "remainder") return ex(E::REM, "b"); if (k == "remquo") return ex(E::REMQUO, "r");
	if (k == "frexp") return ex(E::FREXP, "x"); if (k == "logb") return ex(E::LOGB, "u"); if (k == "ilogb") return ex(E::ILOGB, "p"); if (k == "modf") return ex(E::MODF, "m");
	if (k == "scale") return ex(E::LDEXP, "el", sp.fn == "scalbln" ? 2 : 0);
	if (k == "nextafter") return ex(E::NEXT, "b"); if (k == "nexttoward") return ex(E::TOWARD, "w"); if (k == "nextup") return ex(E::NEXTUP, "u"); if (k == "nextdown") return ex(E::NEXTDOWN, "u");
	if (k == "fabs") return ex(E::FABS, "u"); if (k == "copysign") return ex(E::COPYSIGN, "b"); if (k == "fmax") return ex(E::FMAX, "b"); if (k == "fmin") return ex(E::FMIN, "b"); if (k == "fdim") return ex(E::FDIM, "b");
	if (k == "class") { const char *n[] = { "fpclassify", "isfinite", "isinf", "isnan", "isnormal", "signbit" }; for (int q = 0; q < 6; ++q) if (sp.fn == n[q]) return ex(E::CLASS, "p", q); }
	if (k == "cmp") { const char *n[] = { "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered" }; for (int q = 0; q < 6; ++q) if (sp.fn == n[q]) return ex(E::CMP, "q", q); }
	if (k == "roundtrip") { auto *c = new RoundTrip<T>(sp); if (c->bind()) return c; delete c; return nullptr; }
	if (k == "lerp") { auto *c = new Lerp<T>(sp); if (c->call.bind(sp.cfg, "lerp", "t")) return c; delete c; return nullptr; }
	if (k.rfind("annexf", 0) == 0 || k.rfind("flags", 0) == 0 || k == "noerrno" || k.rfind("env", 0) == 0 || k.rfind("det", 0) == 0 || k.rfind("ub", 0) == 0) {
		char sig = k.size() > 0 && k.find('-') != std::string::npos ? k.back() : 0; const FnInfo *f = info(sp.fn, sig); if (!f) return nullptr; const char sg[2] = { f->sig, 0 };
		if (k[0] == 'a') { auto *c = new Special<T>(sp, *f); if (c->call.bind(sp.cfg, sp.fn, sg)) return c; delete c; return nullptr; }
		if (k[0] == 'f' || k[0] == 'n') { auto *c = new Flags<T>(sp, *f); if (c->call.bind(sp.cfg, sp.fn, sg)) return c; delete c; return nullptr; }
		if (k[0] == 'e') { auto *c = new Env<T>(sp, *f); if (c->call.bind(sp.cfg, sp.fn, sg)) return c; delete c; return nullptr; }
		if (k[0] == 'u') { auto *c = new Prompt<T>(sp, *f); if (c->call.bind(sp.cfg, sp.fn, sg)) return c; delete c; return nullptr; }
		size_t p = sp.cfg.find('|'); auto *c = new Det<T>(sp, *f); if (c->ca.bind(sp.cfg.substr(0, p), sp.fn, sg) && c->cb.bind(sp.cfg.substr(p + 1), sp.fn, sg)) return c; delete c; return nullptr;
	}
	{ auto *c = new Ident<T>(sp); if (c->bind()) return c; delete c; }
	return nullptr;
}
static Check *make_check(const Spec &sp) { return sp.type == 'f' ? make_t<float>(sp) : sp.type == 'd' ? make_t<double>(sp) : make_t<ld>(sp); }

struct Plan {
	std::vector<Spec> v; std::string prop; bool thorough; double mult; uint64_t seed;
	void add(const std::string &check, const std::string &fn, const std::string &cfg, char type, int mode, long n) { size_t p = cfg.find('|'); if (p == std::string::npos ? !subj(cfg) : (!subj(cfg.substr(0, p)) || !subj(cfg.substr(p + 1)))) return; Spec s; s.prop = prop; s.check = check; s.fn = fn; s.cfg = cfg; s.type = type; s.mode = mode; s.n = (long)(n * mult); if (s.n < 1) s.n = 1; v.push_back(s); }
	void sweep(const std::string &check, const std::string &fn, const std::string &cfg, int mode, long pts) { // strided walk over all float bit patterns
		add(check, fn, cfg, 'f', mode, 1); if (v.empty()) return; Spec &s = v.back(); if (s.check != check || s.fn != fn || s.cfg != cfg) return; double np = (double)pts * mult; long long stride = thorough && np >= 4.0e9 ? 1 : std::max<long long>(1, (long long)(4294967296.0 / np)); Rng g(seed, "sweep" + fn + cfg); s.kind = 1; s.stride = stride; s.start = stride > 1 ? (long long)g.below((uint64_t)stride) : 0; s.n = 4294967296ll / stride; }
	void enumerate(const std::string &check, const std::string &fn, const std::string &cfg, char type, int mode, long n) { add(check, fn, cfg, type, mode, 1); if (!v.empty() && v.back().fn == fn && v.back().cfg == cfg && v.back().check == check) { v.back().kind = 2; v.back().n = n; } }
};
static bool in(const std::string &x, std::initializer_list<const char *> l) { for (auto s : l) if (x == s) return true; return false; }
// Configurations: gcc clang (default run time), gccdet clangdet (deterministic), clangct gccct (constant evaluation),
// clangfma (AVX2+FMA, runtime SIMD on), gccnb (builtin-free pow), ...
static void plan(Plan &P) {
	const std::string &p = P.prop; const long K = 1000;
	struct CM { const char *cfg; int modes; }; // how many modes
	auto acc_cfgs = std::vector<CM>{ { "gccdet", 4 }, { "clangct", 1 }, { "gccct", 1 }, { "clang", 4 }, { "gcc", 4 }, { "clangfma", 4 } };
	auto unary = [&](std::initializer_list<const char *> fns, long nf, long nd, long sw) {
		for (auto f : fns) for (auto &c : acc_cfgs) for (int m = 0; m < c.modes; ++m) {
			bool kernel = in(c.cfg, { "gccdet", "clangct" }); double w = kernel ? (m ? 0.5 : 1) : m ? 0.4 : 0.2;
			P.add("acc", f, c.cfg, 'f', m, (long)(nf * w)); P.add("acc", f, c.cfg, 'd', m, (long)(nd * w)); P.sweep("acc", f, c.cfg, m, (long)(sw * w));
		}
	};
	if (p == "A01") unary({ "exp", "exp2", "expm1", "log", "log2", "log10", "log1p" }, 300 * K, 3000 * K, 5000 * K);
	if (p == "A02") { unary({ "sin", "cos", "tan", "asin", "acos", "atan" }, 400 * K, 2500 * K, 5000 * K); for (auto &c : acc_cfgs) for (int m = 0; m < c.modes; ++m) for (char t : { 'f', 'd' }) P.add("acc", "atan2", c.cfg, t, m, in(c.cfg, { "gccdet", "clangct" }) ? 1500 * K : 500 * K); }
	if (p == "A03") for (auto c : { "gccdet", "clangct", "clang", "gcc", "gccct" }) for (auto f : { "tgamma", "lgamma", "gamma" }) { long w = in(c, { "gccdet", "clangct" }) ? 4 : 1; if (in(f, { "gamma" })) w = 1; P.add("acc", f, c, 'f', 0, 150 * K * w); P.add("acc", f, c, 'd', 0, 150 * K * w); P.sweep("acc", f, c, 0, 400 * K * w); }
	if (p == "A04") {
		for (auto c : { "gcc", "clang", "gccdet", "clangct", "gccct", "clangfma" }) for (int m = 0; m < (strstr(c, "ct") ? 1 : 4); ++m) for (char t : { 'f', 'd', 'l' }) { P.add("sqrt", "sqrt", c, t, m, 1500 * K); if (t != 'l') { P.add("acc", "cbrt", c, t, m, 700 * K); P.add("acc", "hypot", c, t, m, 700 * K); P.add("hypot3", "hypot", c, t, m, 200 * K); } }
		for (auto c : { "gccdet", "clangct", "clang" }) for (int m = 0; m < (strstr(c, "ct") ? 1 : 4); ++m) { P.sweep("acc", "cbrt", c, m, 2000 * K); P.sweep("sqrt", "sqrt", c, m, 2000 * K); }
	}
	if (p == "A05") {
		for (auto c : { "gccdet", "gccnb", "clangct", "clangnb", "clangfma" }) for (int m = 0; m < (strstr(c, "ct") ? 1 : 4); ++m) { P.add(m || in(c, { "clangfma" }) ? "acc" : "cr", "pow", c, 'd', m, (in(c, { "gccdet", "clangnb" }) ? 900 : 600) * K); P.add("acc", "pow", c, 'f', m, 1000 * K); }
		for (auto c : { "gcc", "clang" }) for (int m = 0; m < 4; ++m) { P.add("acc5", "pow", c, 'd', m, 300 * K); P.add("acc5", "pow", c, 'f', m, 300 * K); }
		for (auto c : { "gcc", "clang", "gccnb", "clangnb", "clangct" }) for (int m = 0; m < (strstr(c, "ct") ? 1 : 4); ++m) P.add("acc", "pow", c, 'l', m, 150 * K);
	}
	if (p == "A06") for (auto c : { "gcc", "clang", "gccdet", "clangct", "gccct", "clangfma" }) for (int m = 0; m < (strstr(c, "ct") ? 1 : 4); ++m) for (char t : { 'f', 'd', 'l' }) P.add("fma", "fma", c, t, m, 1500 * K);
	const std::vector<const char *> allc = { "gcc", "clang", "gccdet", "clangct", "gccct", "clangfma" };
	auto modes_of = [&](const char *c) { return strstr(c, "ct") ? 1 : 4; };
	if (p == "B01") for (auto f : { "floor", "ceil", "trunc", "round", "rint", "nearbyint" }) for (auto c : allc) for (int m = 0; m < modes_of(c); ++m) { for (char t : { 'f', 'd', 'l' }) P.add("int", f, c, t, m, 400 * K); P.sweep("int", f, c, m, 2000 * K); }
	if (p == "B02") for (auto f : { "fmod", "remainder", "remquo" }) for (auto c : allc) for (int m = 0; m < modes_of(c); ++m) for (char t : { 'f', 'd', 'l' }) P.add(f, f, c, t, m, (t == 'l' ? 60 : t == 'd' ? 250 : 300) * K);
	if (p == "B03") for (auto c : allc) for (int m = 0; m < modes_of(c); ++m) for (char t : { 'f', 'd', 'l' }) { for (auto f : { "frexp", "logb", "ilogb", "modf" }) P.add(f, f, c, t, m, 300 * K); for (auto f : { "ldexp", "scalbn", "scalbln" }) P.add("scale", f, c, t, m, 900 * K); for (auto f : { "frexp-ldexp", "ilogb-scalbn", "modf-sum" }) P.add("roundtrip", f, c, t, m, 150 * K); if (t == 'f') for (auto f : { "frexp", "logb", "ilogb", "modf" }) P.sweep(f, f, c, m, 1000 * K); }
	if (p == "B04") for (auto c : allc) for (int m = 0; m < modes_of(c); ++m) for (char t : { 'f', 'd', 'l' }) { for (auto f : { "nextafter", "nexttoward", "nextup", "nextdown" }) P.add(f, f, c, t, m, 500 * K); P.add("roundtrip", "nextup-nextdown", c, t, m, 200 * K); if (t == 'f') { P.sweep("nextup", "nextup", c, m, 1000 * K); P.sweep("nextdown", "nextdown", c, m, 1000 * K); } }
	if (p == "B05") for (auto c : allc) for (int m = 0; m < modes_of(c); ++m) for (char t : { 'f', 'd', 'l' }) { for (auto f : { "fabs", "abs" }) P.add("fabs", f, c, t, m, 200 * K); for (auto f : { "copysign", "fmax", "fmin" }) P.add(f, f, c, t, m, 400 * K); P.add("fdim", "fdim", c, t, m, 800 * K); }
	if (p == "B06") for (auto c : allc) for (char t : { 'f', 'd', 'l' }) { for (auto f : { "fpclassify", "isfinite", "isinf", "isnan", "isnormal", "signbit" }) { P.add("class", f, c, t, 0, 500 * K); if (t == 'f') P.sweep("class", f, c, 0, 1500 * K); } for (auto f : { "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isunordered" }) P.add("cmp", f, c, t, 0, 500 * K); }
	if (p == "B07") for (auto c : allc) for (char t : { 'f', 'd', 'l' }) P.add("lerp", "lerp", c, t, 0, (t == 'l' ? 300 : 600) * K);
	if (p == "C01") for (auto &f : kAll) if (f.sig == 'u' || f.sig == 'b' || f.sig == 't') for (auto c : allc) for (int m = 0; m < modes_of(c); ++m) for (char t : { 'f', 'd', 'l' }) P.enumerate(std::string("annexf-") + f.sig, f.name, c, t, m, Special<double>::count(f));
	if (p == "C02") for (auto &f : kAll) { for (auto c : { "gcc", "clang", "gccdet", "clangnb" }) for (int m = 0; m < 4; ++m) for (char t : { 'f', 'd', 'l' }) P.add(std::string("flags-") + f.sig, f.name, c, t, m, 30 * K); for (int m = 0; m < 4; ++m) for (char t : { 'f', 'd' }) P.add(std::string("noerrno-") + f.sig, f.name, "gccnoerr", t, m, 15 * K); }
	if (p == "C03") for (auto &f : kAll) for (auto c : { "gcc", "clang", "gccdet", "clangnb", "clangfma" }) for (int m = 0; m < 4; ++m) for (char t : { 'f', 'd', 'l' }) P.add(std::string("env-") + f.sig, f.name, c, t, m, 20 * K);
	if (p == "E01") for (auto &f : kAll) for (auto c : { "gccdet|clangdet", "gccdet|gccdet0", "gccdet|gccdet3", "gccdet|clangdet3" }) { for (char t : { 'f', 'd' }) P.add(std::string("det-") + f.sig, f.name, c, t, 0, (t == 'd' && f.sig == 'u' ? 600 : 400) * K); if (f.sig == 'u') P.sweep("det-u", f.name, c, 0, 1500 * K); }
	if (p == "J01") for (auto &f : kAll) {
		for (auto c : { "ubgcc", "ubclang", "ubdet", "ubcdet", "ubct", "ubgct", "ubnb", "ubfma" }) for (int m = 0; m < modes_of(c); ++m) { for (char t : { 'f', 'd', 'l' }) P.add(std::string("ub-") + f.sig, f.name, c, t, m, 40 * K); if (f.sig == 'u') P.sweep("ub-u", f.name, c, m, 60 * K); }
		for (auto c : { "initz|initp", "cinitz|cinitp", "ctinitz|ctinitp" }) for (char t : { 'f', 'd', 'l' }) P.add(std::string("det-") + f.sig, f.name, c, t, 0, 40 * K);
	}
	if (p == "K01") for (auto c : { "gcc", "clang", "gccdet", "clangct", "clangfma" }) for (char t : { 'f', 'd', 'l' }) {
		const bool narrow = t == 'l' && in(c, { "gccdet", "clangct" }); // long double transcendentals evaluate in double there
		for (auto f : { "sin", "tan", "cbrt", "trunc", "round", "rint" }) { P.add("odd", f, c, t, 0, 300 * K); if (t == 'f') P.sweep("odd", f, c, 0, 1000 * K); }
		for (auto f : { "cos", "fabs" }) { P.add("even", f, c, t, 0, 300 * K); if (t == 'f') P.sweep("even", f, c, 0, 1000 * K); }
		for (auto f : { "fmod", "remainder" }) P.add("odd1", f, c, t, 0, 200 * K);
		for (auto f : { "fmod", "remainder" }) P.add("signless2", f, c, t, 0, 200 * K);
		for (auto f : { "hypot", "fmax", "fmin" }) P.add("sym", f, c, t, 0, 200 * K);
		P.add("signless", "hypot", c, t, 0, 200 * K); P.add("fma-sym", "fma", c, t, 0, 200 * K); P.add("floorceil", "floor", c, t, 0, 200 * K); P.add("fdim-one", "fdim", c, t, 0, 200 * K); if (!narrow) P.add("pow-sign", "pow", c, t, 0, 150 * K);
		if (!narrow) for (auto f : { "exp2", "log2", "sqrt", "hypot", "pow" }) P.add("exact", f, c, t, 0, 50 * K);
	}
}
static Spec spec_of(const std::string &prop, const Case &c) { Spec s; s.prop = prop; s.check = c.check; s.fn = c.fn; s.cfg = c.cfg; s.type = c.type; s.mode = c.mode; return s; }
int main(int argc, char **argv) {
	if (argc < 3) { fprintf(stderr, "usage: numdrv run PROP tier seed tmpdir findings mult workers name=lib.so... | replay PROP casefile name=lib.so...\n"); return 2; }
	mp_wide(); std::string cmd = argv[1], prop = argv[2];
	int first = cmd == "run" ? 9 : 4;
	for (int k = first; k < argc; ++k) { std::string a = argv[k]; size_t e = a.find('='); if (e == std::string::npos) continue; Subject s; if (!s.load(a.substr(e + 1))) return 2; g_subj[a.substr(0, e)] = s; }
	if (cmd == "replay") {
		FILE *f = fopen(argv[3], "r"); if (!f) return 2; std::string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
		Case c = case_parse(t); std::unique_ptr<Check> ck(make_check(spec_of(prop, c))); if (!ck) { fprintf(stderr, "cannot rebuild the check\n"); return 2; }
		struct rlimit rl { 60, 60 }; setrlimit(RLIMIT_CPU, &rl);
		Args A = to_args(c); Verdict V; bool ok = ck->test(A, V);
		if (ok) { printf("PASS %s\n", case_json(c).c_str()); return 0; }
		printf("FAIL %s\n  got  %s\n  want %s\n  %s\n", case_json(c).c_str(), V.got.c_str(), V.want.c_str(), V.why.c_str()); return 1;
	}
	Campaign C; C.prop = prop; C.seed = strtoull(argv[4], nullptr, 10); C.make = make_check; C.findings.load(argv[6]); C.workers = atoi(argv[8]);
	Plan P; P.prop = prop; P.thorough = !strcmp(argv[3], "thorough"); P.mult = atof(argv[7]); P.seed = C.seed; plan(P);
	if (const char *only = getenv("ONLY")) { std::string o = only; P.v.erase(std::remove_if(P.v.begin(), P.v.end(), [&](const Spec &s) { std::string d = s.check + ":" + s.fn + ":" + s.cfg + ":" + s.type + ":" + kModeNames[s.mode]; return !glob(o.c_str(), d.c_str()); }), P.v.end()); }
	C.specs = P.v; C.run(argv[5]);
	// shrink (crashes and hangs keep the generated case)
	size_t k = 0;
	for (auto &F : C.fails) { if (F.err >= 1e299 || ++k > 8) continue; std::unique_ptr<Check> ck(make_check(spec_of(prop, F.c))); if (!ck) continue; auto fails = [&](const Args &A) { Verdict V; if (ck->test(A, V)) return false; Case cc = to_case(ck->s, A); return C.findings.match(prop, cc, V.err) < 0; }; Args A = to_args(F.c); if (!fails(A)) { F.why += " (not reproducible in the parent)"; F.err = -1; continue; } A = shrink(A, F.c.type, ck->arity(), ck->has_int(), fails); Verdict V; ck->test(A, V); F.c = to_case(ck->s, A); F.got = V.got; F.want = V.want; F.why = V.why; F.err = V.err; }
	C.print(stdout);
	return 0;
}
