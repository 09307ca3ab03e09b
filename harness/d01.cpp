// D01/D02: constant evaluation of every public function on generated arguments (args.inc), against the run-time call.
// Each case is a separate constant expression, so that a refusal is seen case by case.
#include "pbt.hpp"
#include <ccmath/ccmath.hpp>
using std::string;
template <class T> struct Arg { T a, b, c; long i; long double w; };
template <class T> struct Out { T r; T r2; long i; };
template <class T> constexpr Out<T> out(T r) { return { r, 0, 0 }; }
template <class T> constexpr Out<T> outi(long i) { return { 0, 0, i }; }
#define U_(n) struct F_##n { static constexpr const char *name = #n; template <class T> static constexpr Out<T> f(Arg<T> x) { return out<T>(ccm::n(x.a)); } };
#define P_(n) struct F_##n { static constexpr const char *name = #n; template <class T> static constexpr Out<T> f(Arg<T> x) { return outi<T>(ccm::n(x.a)); } };
#define B_(n) struct F_##n { static constexpr const char *name = #n; template <class T> static constexpr Out<T> f(Arg<T> x) { return out<T>(ccm::n(x.a, x.b)); } };
#define Q_(n) struct F_##n { static constexpr const char *name = #n; template <class T> static constexpr Out<T> f(Arg<T> x) { return outi<T>(ccm::n(x.a, x.b)); } };
#define T_(n, nm) struct F_##nm { static constexpr const char *name = #nm; template <class T> static constexpr Out<T> f(Arg<T> x) { return out<T>(ccm::n(x.a, x.b, x.c)); } };
#define E_(n, C) struct F_##n { static constexpr const char *name = #n; template <class T> static constexpr Out<T> f(Arg<T> x) { return out<T>(ccm::n(x.a, (C)x.i)); } };
U_(abs) U_(fabs) U_(exp) U_(exp2) U_(expm1) U_(log) U_(log2) U_(log10) U_(log1p) U_(sqrt) U_(cbrt) U_(sin) U_(cos) U_(tan) U_(asin) U_(acos) U_(atan) U_(ceil) U_(floor) U_(trunc) U_(round) U_(rint) U_(nearbyint) U_(logb) U_(nextup) U_(nextdown) U_(tgamma) U_(gamma) U_(lgamma)
P_(fpclassify) P_(isfinite) P_(isinf) P_(isnan) P_(isnormal) P_(signbit) P_(ilogb)
B_(fdim) B_(fmax) B_(fmin) B_(max) B_(min) B_(fmod) B_(remainder) B_(copysign) B_(nextafter) B_(pow) B_(hypot) B_(atan2)
Q_(isgreater) Q_(isgreaterequal) Q_(isless) Q_(islessequal) Q_(islessgreater) Q_(isunordered)
T_(fma, fma) T_(hypot, hypot3) T_(lerp, lerp)
E_(ldexp, int) E_(scalbn, int) E_(scalbln, long)
struct F_frexp { static constexpr const char *name = "frexp"; template <class T> static constexpr Out<T> f(Arg<T> x) { int e = 0x5a; T r = ccm::frexp(x.a, &e); return { r, 0, e }; } };
struct F_modf { static constexpr const char *name = "modf"; template <class T> static constexpr Out<T> f(Arg<T> x) { T p = 0; T r = ccm::modf(x.a, &p); return { r, p, 0 }; } };
struct F_remquo { static constexpr const char *name = "remquo"; template <class T> static constexpr Out<T> f(Arg<T> x) { int q = 0x5a; T r = ccm::remquo(x.a, x.b, &q); return { r, 0, q }; } };
struct F_nexttoward { static constexpr const char *name = "nexttoward"; template <class T> static constexpr Out<T> f(Arg<T> x) { return out<T>(ccm::nexttoward(x.a, x.w)); } };
#define INF_ __builtin_infl()
#define NAN_ __builtin_nanl("")
// args.inc: #define GROUP(X) X(exp, float) ... and one constexpr Arg<T> array A_<fn>_<T> per entry
typedef long double ldouble;
#include "args.inc"
template <class F, class T> struct Args;
#define SPEC(n, T) template <> struct Args<F_##n, T> { static constexpr int n_ = (int)(sizeof(A_##n##_##T) / sizeof(A_##n##_##T[0])); static constexpr const Arg<T> &at(int i) { return A_##n##_##T[i]; } };
GROUP(SPEC)
template <class T> struct Row { bool ok; Out<T> v; };
template <class F, class T, int I, class = void> struct Ev { static Row<T> row() { return { false, { 0, 0, 0 } }; } };
#ifndef PBT_NO_CT
template <class F, class T, int I> struct Ev<F, T, I, std::enable_if_t<(F::template f<T>(Args<F, T>::at(I)), true)>> { static constexpr Out<T> v = F::template f<T>(Args<F, T>::at(I)); static Row<T> row() { return { true, v }; } };
#endif
template <class F, class T, int... I> void rows(std::vector<Row<T>> &v, std::integer_sequence<int, I...>) { v = { Ev<F, T, I>::row()... }; }
template <class T> string sh(T v) { char b[64]; snprintf(b, sizeof b, "%La", (long double)v); return b; }
#ifndef D_MODE
#define D_MODE FE_TONEAREST
#endif
template <class F, class T> void group(const char *tn) {
	std::vector<Row<T>> v; rows<F, T>(v, std::make_integer_sequence<int, Args<F, T>::n_>{});
	for (int i = 0; i < (int)v.size(); ++i) {
		Arg<T> a = Args<F, T>::at(i); asm volatile("" : "+m"(a)); fesetround(D_MODE); feclearexcept(FE_ALL_EXCEPT); Out<T> r = F::template f<T>(a); fesetround(FE_TONEAREST); double dd = 0; if constexpr (std::is_same_v<T, long double>) dd = F::template f<double>({ (double)a.a, (double)a.b, (double)a.c, a.i, a.w }).r;
		// fn type index ok | ct value, second value, integer | rt ... | value in double | arguments
		printf("%s\t%s\t%d\t%d\t%s\t%s\t%ld\t%s\t%s\t%ld\t%s\t%s\t%s\t%s\t%ld\t%s\n", F::name, tn, i, (int)v[i].ok, sh(v[i].v.r).c_str(), sh(v[i].v.r2).c_str(), v[i].v.i, sh(r.r).c_str(), sh(r.r2).c_str(), r.i, sh(dd).c_str(), sh(a.a).c_str(), sh(a.b).c_str(), sh(a.c).c_str(), a.i, sh(a.w).c_str());
	}
}
int main() {
#define RUN(n, T) group<F_##n, T>(#T);
	GROUP(RUN)
	return 0;
}
