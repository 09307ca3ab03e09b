// F01: every overload taking integer or mixed arguments against the promoted floating-point call, every suffixed alias against its overload.
#include "pbt.hpp"
#include <ccmath/ccmath.hpp>
using pbt::Src; using pbt::want; using std::string;
template <class T> struct TN;
#define TNAME(T) template <> struct TN<T> { static constexpr const char *v = #T; };
TNAME(float) TNAME(double) TNAME(long double) TNAME(bool) TNAME(char) TNAME(signed char) TNAME(unsigned char) TNAME(short) TNAME(unsigned short) TNAME(int) TNAME(unsigned) TNAME(long) TNAME(unsigned long) TNAME(long long) TNAME(unsigned long long)
template <class T> string tn() { return TN<T>::v; }
template <class... A> string sig() { string r; ((r += (r.empty() ? "" : ",") + tn<A>()), ...); return "(" + r + ")"; }
template <class T> using pr = std::conditional_t<std::is_integral_v<T>, double, T>;
template <class... T> using PT = std::common_type_t<pr<T>...>; // [c.math] promotion
template <class... T> using CTy = std::common_type_t<T...>;    // what min, max, fma and lerp document
// --------------------------------------------------------------------------------------------------- arguments
static const int kModes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
template <class T> T arg(Src &s) {
	T v;
	if constexpr (std::is_same_v<T, bool>) v = s.chance(1, 2);
	else if constexpr (std::is_integral_v<T>) v = s.chance(1, 3) ? (T)s.range(std::is_signed_v<T> ? -12 : 0, 40) : s.integer<T>();
	else v = s.chance(2, 3) ? s.real_near<T>(sizeof(T) == 4 ? 12 : 40) : s.real_any<T>();
	s.note(tn<T>().c_str(), v); return v;
}
struct Mode { int old; explicit Mode(Src &s) : old(fegetround()) { int k = s.chance(1, 4) ? (int)s.below(4) : 0; s.note("mode", k); fesetround(kModes[k]); } ~Mode() { fesetround(old); } };
template <class T> T opaque(T v) { volatile T x = v; return x; }
template <class T> int nexpo(Src &s) { int e = s.chance(1, 8) ? s.integer<int>() : (int)s.range(-1200, 1200); s.note("n", e); return e; }
// --------------------------------------------------------------------------------------------------- functions
#define FN(n) struct S_##n { template <class... A> static auto call(A... a) -> decltype(ccm::n(a...)) { return ccm::n(a...); } static constexpr const char *name = #n; };
template <class F, class V, class... A> struct can_ : std::false_type {};
template <class F, class... A> struct can_<F, std::void_t<decltype(F::call(std::declval<A>()...))>, A...> : std::true_type {};
template <class F, class... A> constexpr bool can = can_<F, void, A...>::value;
struct Cell { string what; string (*fn)(Src &); };
// R<A...>: the type the operands are converted to
template <class F, template <class...> class R, class Ret, class... A> struct Check {
	static string run(Src &s) {
		using P = R<A...>; using W = std::conditional_t<std::is_void_v<Ret>, P, Ret>;
		if constexpr (!can<F, A...>) return string("no viable overload for ") + F::name + sig<A...>();
		else {
			using G = decltype(F::call(std::declval<A>()...));
			if constexpr (!std::is_same_v<G, W>) return string("the type of ") + F::name + sig<A...>() + " is not " + tn<W>();
			else {
				std::tuple<A...> t{ arg<A>(s)... }; Mode m(s); s.nontrivial = std::apply([](auto... x) { return ((x == x && x != 0) && ...); }, t);
				G g = std::apply([](auto... x) { return F::call(opaque(x)...); }, t), w = std::apply([](auto... x) { return F::call((P)opaque(x)...); }, t);
				if (!pbt::same(g, w)) return want((string(F::name) + sig<A...>() + " against " + F::name + "(" + tn<P>() + "...)").c_str(), g, w);
				return "";
			}
		}
	}
};
template <class Cells> string pickcell(Src &s, const Cells &c) { const Cell &k = c[s.below(c.size())]; s.label = k.what.c_str(); if (s.verbose) s.notes += k.what + " "; return k.fn(s); }
#define INTS bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long
#define BTYPES float, double, long double, int, unsigned, long long, unsigned long long, signed char, unsigned short, bool
#define TTYPES float, double, long double, int, unsigned long long, short
template <class... T> struct Ty {};
// one argument
template <class F, class Ret, class... T> std::vector<Cell> cells1(Ty<T...>) { return { Cell{ F::name + sig<T>(), Check<F, PT, Ret, T>::run }... }; }
template <class F, template <class...> class R, class Ret, class A, class... T> void row2(std::vector<Cell> &v, Ty<T...>) { (v.push_back(Cell{ F::name + sig<A, T>(), Check<F, R, Ret, A, T>::run }), ...); }
template <class F, template <class...> class R, class Ret, class... T> std::vector<Cell> cells2(Ty<T...> t) { std::vector<Cell> v; (row2<F, R, Ret, T>(v, t), ...); return v; }
// functions whose integer overload wants both arguments of one type
template <class F, class Ret, class... T> std::vector<Cell> diag2(Ty<T...>) { return { Cell{ F::name + sig<T, T>(), Check<F, PT, Ret, T, T>::run }... }; }
template <class F, template <class...> class R, class A, class B, class... T> void row3(std::vector<Cell> &v, Ty<T...>) {
	auto one = [&](auto x) { using C = decltype(x); if constexpr (!std::is_integral_v<R<A, B, C>>) v.push_back(Cell{ F::name + sig<A, B, C>(), Check<F, R, void, A, B, C>::run }); }; (one(T{}), ...); }
template <class F, template <class...> class R, class A, class... T> void mid3(std::vector<Cell> &v, Ty<T...> t) { (row3<F, R, A, T>(v, t), ...); }
template <class F, template <class...> class R, class... T> std::vector<Cell> cells3(Ty<T...> t) { std::vector<Cell> v; (mid3<F, R, T>(v, t), ...); return v; }
#define REG(n, CASES, ...) static string run_##n(Src &s) { static const std::vector<Cell> c = __VA_ARGS__; return pickcell(s, c); } static pbt::Reg reg_##n("F01", #n, run_##n, CASES);
#define U1(n, Ret) FN(n) REG(n, 150000, cells1<S_##n, Ret>(Ty<INTS>{}))
#ifndef PART
#define PART 0
#endif
#define IN(k) (PART == 0 || PART == k)
#ifndef PBT_BASE
#if IN(1)
U1(fabs, void) U1(exp, void) U1(exp2, void) U1(expm1, void) U1(log, void) U1(log2, void) U1(log10, void) U1(log1p, void) U1(tgamma, void) U1(gamma, void) U1(lgamma, void) U1(ceil, void) U1(floor, void) U1(nearbyint, void) U1(rint, void) U1(round, void) U1(trunc, void) U1(sqrt, void) U1(sin, void) U1(cos, void) U1(tan, void) U1(asin, void) U1(acos, void) U1(atan, void) U1(nextup, void) U1(nextdown, void)
U1(isfinite, bool) U1(isinf, bool) U1(isnan, bool) U1(isnormal, bool)
#endif
#if IN(2)
#define B2(n, Ret) FN(n) REG(n, 400000, cells2<S_##n, PT, Ret>(Ty<BTYPES>{}))
B2(fmod, void) B2(fmin, void) B2(fmax, void) B2(nextafter, void) B2(pow, void)
#endif
#if IN(3)
#define B2(n, Ret) FN(n) REG(n, 400000, cells2<S_##n, PT, Ret>(Ty<BTYPES>{}))
B2(isgreater, bool) B2(isgreaterequal, bool) B2(isless, bool) B2(islessequal, bool) B2(islessgreater, bool) B2(isunordered, bool)
#define C2(n) FN(n) REG(n, 400000, cells2<S_##n, CTy, void>(Ty<BTYPES>{}))
C2(min) C2(max)
#endif
#if IN(1)
#define D2(n) FN(n) REG(n, 150000, diag2<S_##n, void>(Ty<INTS>{}))
D2(remainder) D2(copysign)
FN(fdim) static std::vector<Cell> fdim_cells() { auto v = diag2<S_fdim, void>(Ty<INTS>{}); auto w = cells2<S_fdim, PT, void>(Ty<float, double, long double>{}); v.insert(v.end(), w.begin(), w.end()); return v; }
REG(fdim, 200000, fdim_cells())
#endif
#if IN(4)
FN(hypot) REG(hypot3, 400000, cells3<S_hypot, PT>(Ty<TTYPES>{}))
FN(fma) REG(fma, 400000, cells3<S_fma, CTy>(Ty<TTYPES>{}))
FN(lerp) REG(lerp, 400000, cells3<S_lerp, CTy>(Ty<TTYPES>{}))
// integers only: the value in the integers' common type, where it does not overflow
template <class A, class B, class C> string fma_int(Src &s) {
	using R = std::common_type_t<A, B, C>; A a = arg<A>(s); B b = arg<B>(s); C c = arg<C>(s); __int128 w = (__int128)a * (__int128)b; if (std::is_signed_v<R> && (w > std::numeric_limits<R>::max() || w < std::numeric_limits<R>::min())) { s.nontrivial = false; return ""; } w += (__int128)c;
	if (w > (__int128)std::numeric_limits<R>::max() || w < (__int128)std::numeric_limits<R>::min()) { s.nontrivial = false; return ""; }
	auto g = ccm::fma(a, b, c); if ((__int128)g != w) return want("fma of integers", (__int128)g, w); if (!std::is_same_v<decltype(g), R>) return "the type of fma" + sig<A, B, C>() + " is not the common type"; return ""; }
REG(fma_integers, 100000, { Cell{ "int", fma_int<int, int, int> }, Cell{ "u", fma_int<unsigned, unsigned, unsigned> }, Cell{ "mix", fma_int<int, long long, int> }, Cell{ "mix2", fma_int<long, int, long long> }, Cell{ "mix3", fma_int<unsigned, unsigned long long, unsigned> }, Cell{ "ll", fma_int<long long, long long, long long> } })
// abs keeps the integer type; the value is exact unless the result does not exist
template <class T> string abs_int(Src &s) { T v = arg<T>(s); s.nontrivial = v != 0; if (std::is_signed_v<T> && v == std::numeric_limits<T>::min()) { s.nontrivial = false; return ""; } auto g = ccm::abs(v); if (!std::is_same_v<decltype(g), T>) return "the type of abs" + sig<T>(); T w = v < 0 ? (T)-v : v; if (g != w) return want("abs", g, w); return ""; }
template <class... T> std::vector<Cell> abs_cells(Ty<T...>) { return { Cell{ "abs" + sig<T>(), abs_int<T> }... }; }
REG(abs, 200000, abs_cells(Ty<INTS>{}))
template <class T> string signbit_int(Src &s) { T v = arg<T>(s); s.nontrivial = v != 0; bool g = ccm::signbit(v), w = ccm::signbit((double)v); if (g != w) return want("signbit", g, w); return ""; }
template <class... T> std::vector<Cell> sb_cells(Ty<T...>) { return { Cell{ "signbit" + sig<T>(), signbit_int<T> }... }; }
REG(signbit, 100000, sb_cells(Ty<INTS>{}))
template <class L> string labs_(Src &s) { L v = arg<L>(s); if (v == std::numeric_limits<L>::min()) return ""; s.nontrivial = v < 0; L g; if constexpr (std::is_same_v<L, long>) g = ccm::labs(v); else g = ccm::llabs(v); L w = v < 0 ? -v : v; if (g != w) return want("labs", g, w); return ""; }
REG(labs, 40000, { Cell{ "labs", labs_<long> }, Cell{ "llabs", labs_<long long> } })
// second argument of another kind
template <class T> string scale(Src &s) {
	T v = arg<T>(s); int e = nexpo<T>(s); Mode m(s); s.nontrivial = v != 0; double x = (double)v;
	auto a = ccm::ldexp(v, e); auto b = ccm::scalbn(v, e); auto c = ccm::scalbn(v, (long)e); auto d = ccm::scalbln(v, (long)e);
	if (!std::is_same_v<decltype(a), double> || !std::is_same_v<decltype(b), double> || !std::is_same_v<decltype(c), double> || !std::is_same_v<decltype(d), double>) return "ldexp/scalbn/scalbln of an integer is not double";
	if (!pbt::same(a, ccm::ldexp(x, e))) return want("ldexp", a, ccm::ldexp(x, e)); if (!pbt::same(b, ccm::scalbn(x, e))) return want("scalbn", b, ccm::scalbn(x, e)); if (!pbt::same(c, ccm::scalbn(x, (long)e))) return want("scalbn long", c, ccm::scalbn(x, (long)e)); if (!pbt::same(d, ccm::scalbln(x, (long)e))) return want("scalbln", d, ccm::scalbln(x, (long)e));
	return ""; }
template <class... T> std::vector<Cell> scale_cells(Ty<T...>) { return { Cell{ "scale" + sig<T>(), scale<T> }... }; }
REG(scale_integers, 200000, scale_cells(Ty<INTS>{}))
template <class T> string toward(Src &s) { T v = arg<T>(s); long double t = s.chance(1, 3) ? (long double)v + (long double)s.range(-1, 1) * 1e-4L : arg<long double>(s); s.note("to", t); auto g = ccm::nexttoward(v, t); if (!std::is_same_v<decltype(g), double>) return "nexttoward of an integer is not double"; double w = ccm::nexttoward((double)v, t); if (!pbt::same(g, w)) return want("nexttoward", g, w); return ""; }
template <class... T> std::vector<Cell> toward_cells(Ty<T...>) { return { Cell{ "nexttoward" + sig<T>(), toward<T> }... }; }
REG(nexttoward_integers, 150000, toward_cells(Ty<INTS>{}))
template <class A, class B> string rq(Src &s) { using P = PT<A, B>; A a = arg<A>(s); B b = arg<B>(s); Mode m(s); s.nontrivial = b != 0 && a != 0; int q = 77, r = 77; auto g = ccm::remquo(a, b, &q); P w = ccm::remquo((P)a, (P)b, &r); if (!std::is_same_v<decltype(g), P>) return "the type of remquo" + sig<A, B>() + " is not " + tn<P>(); if (!pbt::same((P)g, w)) return want(("remquo" + sig<A, B>()).c_str(), (P)g, w); if (q != r) return want(("remquo quotient" + sig<A, B>()).c_str(), q, r); return ""; }
template <class A, class... T> void rq_row(std::vector<Cell> &v, Ty<T...>) { (v.push_back(Cell{ "remquo" + sig<A, T>(), rq<A, T> }), ...); }
template <class... T> std::vector<Cell> rq_cells(Ty<T...> t) { std::vector<Cell> v; (rq_row<T>(v, t), ...); return v; }
REG(remquo, 300000, rq_cells(Ty<BTYPES>{}))
#endif
#endif
// --------------------------------------------------------------------------------------------------- suffixed aliases
#if IN(5)
template <class T, class G> string alias(const char *n, const G &g, const T &w) { if (!std::is_same_v<G, T>) return string("the type of ") + n; if (!pbt::same((T)g, w)) return want(n, (T)g, w); return ""; }
#define TRY(E) do { string e_ = E; if (!e_.empty()) return e_; } while (0)
#define A1(n, T, sfx, CASES) static string al_##n##sfx(Src &s) { T x = arg<T>(s); Mode m(s); s.nontrivial = x == x && x != 0; return alias(#n #sfx, ccm::n##sfx(opaque(x)), ccm::n(opaque(x))); } static pbt::Reg ral_##n##sfx("F01", #n #sfx, al_##n##sfx, CASES);
#define A2(n, T, sfx, CASES) static string al_##n##sfx(Src &s) { T x = arg<T>(s), y = s.chance(1, 6) ? x : arg<T>(s); Mode m(s); s.nontrivial = x == x && y == y && x != 0; return alias(#n #sfx, ccm::n##sfx(opaque(x), opaque(y)), ccm::n(opaque(x), opaque(y))); } static pbt::Reg ral_##n##sfx("F01", #n #sfx, al_##n##sfx, CASES);
#define A1B(n) A1(n, float, f, 60000) A1(n, long double, l, 60000)
#define A2B(n) A2(n, float, f, 80000) A2(n, long double, l, 80000)
A1B(fabs) A1B(exp) A1B(exp2) A1B(expm1) A1B(log) A1B(log2) A1B(log10) A1B(log1p) A1B(tgamma) A1B(lgamma) A1B(ceil) A1B(floor) A1B(nearbyint) A1B(rint) A1B(round) A1B(trunc) A1B(sqrt) A1B(cbrt) A1B(sin) A1B(cos) A1B(tan) A1B(asin) A1B(acos) A1B(atan) A1B(nextup) A1B(nextdown) A1B(logb)
A2B(fdim) A2B(fmod) A2B(remainder) A2B(fmax) A2B(copysign) A2B(nextafter) A2B(pow) A2B(hypot) A2B(atan2)
template <class T> string misc(Src &s) { // ilogb, ldexp, scalbn, scalbln, frexp, modf, remquo, fma, nexttoward, gamma
	constexpr bool F = sizeof(T) == 4; T x = arg<T>(s), y = arg<T>(s), z = arg<T>(s); int n = nexpo<T>(s); Mode m(s); s.nontrivial = x == x && x != 0; if constexpr (!F) n = (int)((unsigned)n * (s.chance(1, 2) ? 1u : 13u));
#define SEL(f, ...) [&] { if constexpr (F) return ccm::f##f(__VA_ARGS__); else return ccm::f##l(__VA_ARGS__); }()
#define PICK(nm, ...) [&] { if constexpr (F) return ccm::nm##f(__VA_ARGS__); else return ccm::nm##l(__VA_ARGS__); }()
	TRY(alias("ilogb", PICK(ilogb, x), ccm::ilogb(x))); TRY(alias("ldexp", PICK(ldexp, x, n), ccm::ldexp(x, n))); TRY(alias("scalbn", PICK(scalbn, x, n), ccm::scalbn(x, n))); TRY(alias("scalbn long", PICK(scalbn, x, (long)n), ccm::scalbn(x, (long)n))); TRY(alias("scalbln", PICK(scalbln, x, (long)n), ccm::scalbln(x, (long)n)));
	TRY(alias("fma", PICK(fma, x, y, z), ccm::fma(x, y, z))); TRY(alias("nexttoward", PICK(nexttoward, x, (long double)y), ccm::nexttoward(x, (long double)y))); TRY(alias("gamma", ccm::gamma(x), ccm::tgamma(x)));
	if (std::isfinite(x)) { int a = 77, b = 77, c = 77; T g = PICK(frexp, x, &a), w = ccm::frexp(x, &b); TRY(alias("frexp", g, w)); if (a != b) return want("frexp exponent", a, b); TRY(alias("frexp&", PICK(frexp, x, c), w)); if (c != b) return want("frexp& exponent", c, b); int d = 77; TRY(alias("frexp(x, int&)", ccm::frexp(x, d), w)); if (d != b) return want("frexp(x, int&) exponent", d, b); }
	{ T a = 77, b = 77; T g = PICK(modf, x, &a), w = ccm::modf(x, &b); TRY(alias("modf", g, w)); if (!pbt::same(a, b)) return want("modf integral part", a, b); }
	{ int a = 77, b = 77; T g = PICK(remquo, x, y, &a), w = ccm::remquo(x, y, &b); TRY(alias("remquo", g, w)); if (a != b) return want("remquo quotient", a, b); }
	return ""; }
static pbt::Reg rmf("F01", "misc-f", misc<float>, 200000), rml("F01", "misc-l", misc<long double>, 200000);
#endif
int main(int c, char **v) { return pbt::main_(c, v); }
