// G02: SIMD math functions lane by lane against the scalar functions. G03: the instruction-set wrapper types (ccm::intrin) against arrays of scalars.
#include "pbt.hpp"
#include <array>
#include <cerrno>
#include <cfenv>
#include <cmath>
#include <sys/mman.h>
#include <unistd.h>
#if PART == 3
#ifndef CCM_CONFIG_USE_RT_SIMD
#define CCM_CONFIG_USE_RT_SIMD
#endif
#include "ccmath/ccmath.hpp"
#include "ccmath/internal/math/runtime/simd/simd.hpp"
#include "ccmath/internal/math/runtime/simd/func/pow.hpp"
#include "ccmath/internal/math/runtime/simd/func/sqrt.hpp"
#else
#include "ccmath/ccmath.hpp"
#include "ccmath/internal/math/runtime/pp/pp.hpp"
#include "ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp"
#endif
using pbt::Src; using pbt::want; using std::string;
static const int kModes[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static const char *kModeName[] = { "nearest", "up", "down", "zero" };
struct Mode { int old; Mode(int m) : old(fegetround()) { fesetround(kModes[m]); } ~Mode() { fesetround(old); } };
template <class T> int expo(T x) { int e = 0; std::frexp(x, &e); return e; }
template <class T> T ulp_of(long double t) { t = fabsl(t); if (!(t < (long double)std::numeric_limits<T>::max())) t = std::numeric_limits<T>::max(); int e; frexpl(t, &e); e -= std::numeric_limits<T>::digits; int m = std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits; return std::ldexp((T)1, e < m ? m : e); }
// the value is within n ulp of a truth known to long double precision (overflow and underflow to the nearest representable value allowed)
template <class T> bool within(T got, long double truth, double n) {
	if (std::isnan(truth)) return std::isnan(got); if (std::isnan(got)) return false; if (std::isinf(truth)) return got == (T)truth;
	long double lim = (long double)std::numeric_limits<T>::max(), u = ulp_of<T>(truth); if (std::isinf(got)) return fabsl(truth) >= lim - n * u && std::signbit(got) == std::signbit(truth);
	return fabsl((long double)got - truth) <= n * u;
}
// glibc's x87 powl returns inf for (-inf)^(-2^63), so those arguments use pow
inline long double ref_pow(double x, double y) { return std::isfinite(x) && x != 0 && std::fabs(y) < 0x1p60 ? powl(x, y) : (long double)std::pow(x, y); }
// lanes: mixtures of ordinary and special values, so that a vector has both most of the time
template <class T> T lane_any(Src &s) { switch (s.below(6)) { case 0: case 1: return s.real_near<T>(); case 2: return s.real_any<T>(); case 3: { T v = (T)s.range(-40, 40) / 2; return s.chance(1, 2) ? std::nextafter(v, (T)s.range(-50, 50)) : v; }
	case 4: { int e = std::numeric_limits<T>::digits + (int)s.range(-4, 3); T v = std::ldexp(s.mantissa<T>(), e - 1); return s.chance(1, 2) ? -v : v; } default: return s.real_fin<T>(-4, 9); } }
template <class T> string arr(const T *p, int n) { string o = "{"; for (int i = 0; i < n; ++i) o += (i ? "," : "") + Src::show(p[i]); return o + "}"; }
template <class T> void pow_args(Src &s, T &x, T &y) {
	constexpr int E = std::numeric_limits<T>::max_exponent;
	switch (s.below(8)) {
	case 0: x = s.real_any<T>(); y = s.real_any<T>(); break;
	case 1: x = 1 + std::ldexp((T)s.range(-64, 64), -(int)s.range(4, std::numeric_limits<T>::digits)); y = s.real_fin<T>(0, std::numeric_limits<T>::digits + 8); break; // close to one, large exponents
	case 2: x = s.real_any<T>(); y = (T)s.range(-70, 70) / 2; break; // integers and halves
	case 3: { x = s.real_fin<T>(-E + 1, E - 1); if (!s.chance(1, 8)) x = std::fabs(x); T lg = std::log2(std::fabs(x)); T target = (T)(s.chance(1, 2) ? E : -E - std::numeric_limits<T>::digits) + (T)s.range(-100, 100) / 4; y = lg != 0 ? target / lg : 0; break; } // results around overflow and underflow
	case 4: x = std::ldexp((T)1, (int)s.range(-E, E - 1)); y = s.real_near<T>(); break;
	case 5: x = s.real_near<T>(); y = s.real_near<T>(); break;
	case 6: x = std::fabs(s.real_fin<T>(-20, 20)); y = s.real_fin<T>(-30, 6); break;
	default: x = std::fabs(s.real_fin<T>(-3, 3)); y = s.real_fin<T>(-2, 6); break;
	}
}
#if PART == 1 || PART == 2
namespace pp = ccm::pp;
template <int N> using AbiOf = std::conditional_t<N == 1, pp::ScalarAbi, pp::VecAbi<N>>;
template <class T, int N> struct V_ { using V = pp::basic_simd<T, AbiOf<N>>; static V load(const T *p) { V v; v.copy_from(p); return v; } };
#endif
#if PART == 1
enum { SQRT, FLOOR, CEIL, TRUNC, ROUND, FABS, ABS, FMA, MIN, MAX, EXP, LOG, POW, NF };
static const char *fname[] = { "sqrt", "floor", "ceil", "trunc", "round", "fabs", "abs", "fma", "min", "max", "exp", "log", "pow" };
template <class T, int N> __attribute__((noinline)) void eval(int f, const T *a, const T *b, const T *c, T *r) {
	using L = V_<T, N>; auto x = L::load(a), y = L::load(b), z = L::load(c); typename L::V o;
	switch (f) { case SQRT: o = pp::sqrt(x); break; case FLOOR: o = pp::floor(x); break; case CEIL: o = pp::ceil(x); break; case TRUNC: o = pp::trunc(x); break; case ROUND: o = pp::round(x); break; case FABS: o = pp::fabs(x); break; case ABS: o = pp::abs(x); break;
		case FMA: o = pp::fma(x, y, z); break; case MIN: o = pp::min(x, y); break; case MAX: o = pp::max(x, y); break; case EXP: o = pp::exp(x); break; case LOG: o = pp::log(x); break; default: o = pp::pow(x, y); }
	o.copy_to(r);
}
template <class T> string lane_ok(int f, T got, T a, T b, T c) {
	volatile T x = a, y = b, z = c; T e;
	switch (f) {
	case SQRT: e = std::sqrt(x); break; case FLOOR: e = std::floor(x); break; case CEIL: e = std::ceil(x); break; case TRUNC: e = std::trunc(x); break; case ROUND: e = std::round(x); break; case FABS: case ABS: e = std::fabs(x); break; case FMA: e = std::fma(x, y, z); break;
	case MIN: case MAX: if (std::isnan(a) || std::isnan(b)) return pbt::same(got, a) || pbt::same(got, b) ? "" : "neither operand"; e = f == MIN ? (b < a ? b : a) : (a < b ? b : a); if (e == 0) return got == 0 && (pbt::same(got, a) || pbt::same(got, b)) ? "" : want("zero operands", got, e); break;
	case EXP: return within(got, expl(a), 1.5) ? "" : "exp beyond 1.5 ulp"; case LOG: return within(got, logl(a), 1.5) ? "" : "log beyond 1.5 ulp"; default: return within(got, ref_pow(a, b), 1.5) ? "" : "pow beyond 1.5 ulp";
	}
	return pbt::same(got, e) ? "" : want(fname[f], got, e);
}
template <class T, int N> string ppmath(Src &s) {
	int f = (int)s.below(NF), m = f >= EXP ? 0 : s.chance(1, 3) ? (int)s.below(4) : 0; T a[N], b[N], c[N], r[N];
	for (int i = 0; i < N; ++i) { if (f == POW) pow_args(s, a[i], b[i]); else { a[i] = lane_any<T>(s); b[i] = lane_any<T>(s); if (f == EXP) a[i] = s.chance(1, 2) ? a[i] : s.real_fin<T>(-10, 9); if (f == LOG && !s.chance(1, 8)) a[i] = std::fabs(a[i]); }
		c[i] = f != FMA ? 0 : s.chance(1, 2) ? lane_any<T>(s) : (T)(-(a[i] * b[i])) * (1 + std::ldexp((T)s.range(-2, 2), -(std::numeric_limits<T>::digits - 1))); }
	s.label = fname[f]; s.nontrivial = false; for (int i = 0; i < N; ++i) s.nontrivial |= std::isfinite(a[i]) && a[i] != 0;
	if (s.verbose) s.notes = string(fname[f]) + " mode=" + kModeName[m] + " a=" + arr(a, N) + " b=" + arr(b, N) + (f == FMA ? " c=" + arr(c, N) : "");
	Mode g(m); eval<T, N>(f, a, b, c, r);
	for (int i = 0; i < N; ++i) { string e = lane_ok<T>(f, r[i], a[i], b[i], c[i]); if (!e.empty()) return "lane " + std::to_string(i) + ": " + e + " (got " + Src::show(r[i]) + ")"; }
	if (N > 1) { int k = (int)s.below(N); T a2[N], b2[N], c2[N], r2[N]; for (int i = 0; i < N; ++i) { a2[i] = a[k]; b2[i] = b[k]; c2[i] = c[k]; } eval<T, N>(f, a2, b2, c2, r2); // the value of a lane depends on that lane only
		for (int i = 0; i < N; ++i) if (!pbt::same(r2[i], r[k]) && !(f >= MIN && f <= MAX)) return string(fname[f]) + " of lane " + std::to_string(k) + " depends on the other lanes: " + Src::show(r[k]) + " among them, " + Src::show(r2[i]) + " when every lane is equal"; }
	return "";
}
template <class T, int N> string iabs(Src &s) {
	using V = pp::basic_simd<T, AbiOf<N>>; T a[N], b[N], g[N]; for (int i = 0; i < N; ++i) { a[i] = s.integer<T>(); b[i] = s.integer<T>(); if (std::is_signed_v<T> && a[i] == std::numeric_limits<T>::min()) a[i] = std::numeric_limits<T>::max(); }
	V x, y; x.copy_from(a); y.copy_from(b); if (s.verbose) s.notes = "a=" + arr(a, N) + " b=" + arr(b, N);
	if constexpr (std::is_signed_v<T>) { pp::abs(x).copy_to(g); for (int i = 0; i < N; ++i) if (g[i] != (T)(a[i] < 0 ? -a[i] : a[i])) return "abs lane " + std::to_string(i) + want("", g[i], (T)-a[i]); }
	pp::min(x, y).copy_to(g); for (int i = 0; i < N; ++i) if (g[i] != std::min(a[i], b[i])) return "min lane " + std::to_string(i) + want("", g[i], std::min(a[i], b[i]));
	pp::max(x, y).copy_to(g); for (int i = 0; i < N; ++i) if (g[i] != std::max(a[i], b[i])) return "max lane " + std::to_string(i) + want("", g[i], std::max(a[i], b[i]));
	return "";
}
#define I(T, N) static pbt::Reg PBT_CAT(reg_, __COUNTER__)("G02", "pp/" #T "x" #N, ppmath<T, N>, 12000 / N + 3000);
#define J(T, N) static pbt::Reg PBT_CAT(reg_, __COUNTER__)("G02", "ppint/" #T "x" #N, iabs<T, N>, 1500);
I(float, 1) I(float, 2) I(float, 4) I(float, 8) I(float, 16) I(double, 1) I(double, 2) I(double, 4) I(double, 8)
J(int, 4) J(int, 8) J(long, 2) J(long, 4) J(short, 8) J(unsigned, 4)
typedef signed char schar; J(schar, 16)
#endif
#if PART == 2
template <class T> T scalar_pow(T x, T y) { if constexpr (sizeof(T) == 4) return ccm::gen::impl::powf_impl(x, y); else return ccm::gen::impl::pow_impl(x, y); }
template <class T, int N> __attribute__((noinline)) void vpow(const T *a, const T *b, T *r) { auto x = V_<T, N>::load(a), y = V_<T, N>::load(b); if constexpr (sizeof(T) == 4) ccm::gen::impl::powf_simd(x, y).copy_to(r); else ccm::gen::impl::pow_simd(x, y).copy_to(r); }
// clang without a strict floating-point model may evaluate the operation a select discards, so only gcc builds are held to the flags
#ifdef __clang__
constexpr bool kFlags = false;
#else
constexpr bool kFlags = true;
#endif
constexpr int FLAGS = FE_OVERFLOW | FE_UNDERFLOW | FE_INVALID | FE_DIVBYZERO;
static string flagset(int f) { return string(f & FE_OVERFLOW ? "O" : "") + (f & FE_UNDERFLOW ? "U" : "") + (f & FE_INVALID ? "I" : "") + (f & FE_DIVBYZERO ? "Z" : "") + "."; }
template <class T, int N> string kern(Src &s) {
	T a[N], b[N], r[N], e[N]; T sx, sy; pow_args(s, sx, sy); bool mostly = s.chance(1, 2);
	for (int i = 0; i < N; ++i) { pow_args(s, a[i], b[i]); if (mostly && !s.chance(1, N > 1 ? N : 2)) { a[i] = std::fabs(s.real_fin<T>(-3, 3)); b[i] = s.real_fin<T>(-2, 4); } }
	if (s.verbose) s.notes = "a=" + arr(a, N) + " b=" + arr(b, N); int sp = 0; for (int i = 0; i < N; ++i) sp += !(std::isnormal(a[i]) && a[i] > 0 && std::isnormal(b[i])); s.nontrivial = sp < N; s.label = sp == 0 ? "all ordinary" : sp < N ? "mixed" : "all special";
	feclearexcept(FE_ALL_EXCEPT); errno = 0; int fs, ers; for (int i = 0; i < N; ++i) e[i] = scalar_pow(a[i], b[i]); fs = fetestexcept(FLAGS); ers = errno;
	feclearexcept(FE_ALL_EXCEPT); errno = 0; vpow<T, N>(a, b, r); int fv = fetestexcept(FLAGS), erv = errno;
	for (int i = 0; i < N; ++i) if (!pbt::same(r[i], e[i])) return "lane " + std::to_string(i) + " x=" + Src::show(a[i]) + " y=" + Src::show(b[i]) + want("", r[i], e[i]);
	if (kFlags && fv != fs) return "flags " + flagset(fv) + ", the scalar calls raise " + flagset(fs);
	if ((erv != 0) != (ers != 0)) return "errno " + std::to_string(erv) + ", the scalar calls set " + std::to_string(ers);
	return "";
}
#define I(T, N) static pbt::Reg PBT_CAT(reg_, __COUNTER__)("G02", "kernel/pow/" #T "x" #N, kern<T, N>, 30000 / N + 3000);
I(float, 1) I(float, 2) I(float, 4) I(float, 8) I(float, 16) I(double, 1) I(double, 2) I(double, 4) I(double, 8)
#endif
#if PART == 3
namespace in = ccm::intrin;
template <class V> constexpr bool is_pack = false; template <class T, int N> constexpr bool is_pack<in::simd<T, in::abi::pack<N>>> = true;
template <class V> constexpr bool is_scalar = false; template <class T> constexpr bool is_scalar<in::simd<T, in::abi::scalar>> = true;
// a buffer whose end is an unmapped page, the rest patterned
template <class T> T *guarded(int n) { static unsigned char *base = [] { auto *p = (unsigned char *)mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 4096, 4096, PROT_READ | PROT_WRITE); return p + 4096; }(); memset(base, 0xA5, 4096); return (T *)(base + 4096 - sizeof(T) * (size_t)n); }
template <class T> bool clean_before(T *p) { auto *q = (unsigned char *)p; for (int i = 1; i <= 128; ++i) if (q[-i] != 0xA5) return false; return true; }
template <class V> void out(const V &v, typename V::value_type *r) { v.copy_to(r, in::element_aligned_tag()); }
template <class V> V make(const typename V::value_type *p) { auto *g = guarded<typename V::value_type>(V::size()); for (int i = 0; i < V::size(); ++i) g[i] = p[i]; V v; v.copy_from(g, in::element_aligned_tag()); return v; }
template <class V, class M> void bits_of(const M &k, bool *b) { using T = typename V::value_type; T g[V::size()]; out(in::choose(k, V((T)1), V((T)0)), g); for (int i = 0; i < V::size(); ++i) b[i] = g[i] == 1; }
template <class V> string math(Src &s) {
	using T = typename V::value_type; constexpr int N = V::size(); T a[N], b[N], g[N]; bool two = !is_pack<V> && s.chance(1, 2); int m = two ? 0 : s.chance(1, 3) ? (int)s.below(4) : 0;
	for (int i = 0; i < N; ++i) { if (two) pow_args(s, a[i], b[i]); else { a[i] = lane_any<T>(s); if (!s.chance(1, 6)) a[i] = std::fabs(a[i]); b[i] = 0; } }
	s.label = two ? "pow" : "sqrt"; if (s.verbose) s.notes = string(s.label) + " mode=" + kModeName[m] + " a=" + arr(a, N) + " b=" + arr(b, N); Mode md(m);
	if constexpr (!is_pack<V>) { if (two) { out(in::pow(make<V>(a), make<V>(b)), g); for (int i = 0; i < N; ++i) { T e = ccm::gen::pow_gen(a[i], b[i]); if (!pbt::same(g[i], e)) return "pow lane " + std::to_string(i) + " x=" + Src::show(a[i]) + " y=" + Src::show(b[i]) + want("", g[i], e); } return ""; } }
	out(in::sqrt(make<V>(a)), g); for (int i = 0; i < N; ++i) { volatile T x = a[i]; T e = std::sqrt(x); if (!pbt::same(g[i], e)) return "sqrt lane " + std::to_string(i) + " x=" + Src::show(a[i]) + want("", g[i], e); }
	return "";
}
template <class V> string ops(Src &s) {
	using T = typename V::value_type; using M = typename V::mask_type; using S = typename V::storage_type; constexpr int N = V::size(); in::element_aligned_tag tag; if (M::size() != N) return want("number of mask lanes", M::size(), N);
	auto lane = [&] { return s.chance(1, 2) ? s.real_near<T>() : s.real_any<T>(); };
	T a[N], b[N], c[N], g[N]; for (int i = 0; i < N; ++i) { a[i] = lane(); b[i] = s.chance(1, 4) ? a[i] : lane(); c[i] = lane(); } T x = lane(); int op = (int)s.below(14), m = s.chance(1, 4) ? (int)s.below(4) : 0; s.nontrivial = a[0] != 0 && b[0] != 0;
	static const char *nm[] = { "+", "-", "*", "/", "negation", "==", "<", "||", "&&", "!", "choose", "compound", "broadcast", "load and store" }; s.label = nm[op]; if (s.verbose) s.notes = string(nm[op]) + " mode=" + kModeName[m] + " a=" + arr(a, N) + " b=" + arr(b, N) + " x=" + Src::show(x);
	Mode md(m); V va = make<V>(a), vb = make<V>(b), vc = make<V>(c); auto f = [&](int o, T p, T q) { volatile T y = p, z = q; return (T)(o == 0 ? y + z : o == 1 ? y - z : o == 2 ? y * z : y / z); };
	auto eq = [&](auto e) { for (int i = 0; i < N; ++i) if (!pbt::same(g[i], (T)e(i))) return string(nm[op]) + " lane " + std::to_string(i) + want("", g[i], (T)e(i)); return string(); };
	bool k1[N], k2[N], kg[N]; M m1 = va == vb, m2 = va < vc; for (int i = 0; i < N; ++i) { k1[i] = a[i] == b[i]; k2[i] = a[i] < c[i]; }
	auto meq = [&](const M &k, auto e) { bits_of<V>(k, kg); bool all = true, any = false; for (int i = 0; i < N; ++i) { bool w = e(i); all &= w; any |= w; if (kg[i] != w) return string(nm[op]) + " lane " + std::to_string(i) + want("", kg[i], w); } if (in::all_of(k) != all) return "all_of after " + string(nm[op]) + want("", in::all_of(k), all); if (in::any_of(k) != any) return "any_of after " + string(nm[op]) + want("", in::any_of(k), any); return string(); };
	switch (op) {
	case 0: case 1: case 2: case 3: { out(op == 0 ? va + vb : op == 1 ? va - vb : op == 2 ? va * vb : va / vb, g); string e = eq([&](int i) { return f(op, a[i], b[i]); }); if (!e.empty()) return e;
		if constexpr (is_pack<V>) { out(op == 0 ? va + x : op == 1 ? va - x : op == 2 ? va * x : va / x, g); e = eq([&](int i) { return f(op, a[i], x); }); if (!e.empty()) return "vector, scalar: " + e; out(op == 0 ? x + va : op == 1 ? x - va : op == 2 ? x * va : x / va, g); e = eq([&](int i) { return f(op, x, a[i]); }); if (!e.empty()) return "scalar, vector: " + e; }
		break; }
	case 4: out(-va, g); return eq([&](int i) { return std::isnan(a[i]) ? a[i] : std::copysign(a[i], std::signbit(a[i]) ? (T)1 : (T)-1); });
	case 5: return meq(m1, [&](int i) { return k1[i]; });
	case 6: return meq(m2, [&](int i) { return k2[i]; });
	case 7: return meq(m1 || m2, [&](int i) { return k1[i] || k2[i]; });
	case 8: return meq(m1 && m2, [&](int i) { return k1[i] && k2[i]; });
	case 9: { bool w = s.chance(1, 2); string e = meq(!m1, [&](int i) { return !k1[i]; }); return e.empty() ? meq(M(w), [&](int) { return w; }) : e; }
	case 10: out(in::choose(m1, vb, vc), g); return eq([&](int i) { return k1[i] ? b[i] : c[i]; });
	case 11: { int o = (int)s.below(4); V r = va; if (o == 0) r += vb; else if (o == 1) r -= vb; else if (o == 2) r *= vb; else r /= vb; out(r, g); return eq([&](int i) { return f(o, a[i], b[i]); }); }
	case 12: out(V(x), g); return eq([&](int) { return x; });
	default: { T *p = guarded<T>(N); out(va, p); memcpy(g, p, sizeof g); if (!clean_before(p)) return "copy_to wrote outside its lanes"; string e = eq([&](int i) { return a[i]; }); if (!e.empty()) return e;
		memcpy(p, b, sizeof g); out(V(p, tag), g); e = eq([&](int i) { return b[i]; }); if (!e.empty()) return "pointer constructor: " + e;
		S st(va); out(V(st), g); e = eq([&](int i) { return a[i]; }); if (!e.empty()) return "storage: " + e; for (int i = 0; i < N; ++i) if (!pbt::same((T)st[i], a[i]) || !pbt::same((T)st.data()[i], a[i])) return "storage element " + std::to_string(i); st = vb; V w = va; w = st; out(w, g); e = eq([&](int i) { return b[i]; }); if (!e.empty()) return "storage assignment: " + e; static_assert(S::size() == N);
		if constexpr (!is_pack<V>) { int str = 1 + (int)s.below(3); T *q = guarded<T>((N - 1) * str + 1); for (int i = 0; i < N; ++i) q[i * str] = c[i]; out(V((const T *)q, str), g); e = eq([&](int i) { return c[i]; }); if (!e.empty()) return "strided constructor: " + e; T z = va.convert(); if (!pbt::same(z, a[0])) return want("convert", z, a[0]); }
		else { V r = va; int i = (int)s.below(N); r[i] = x; out(r, g); return eq([&](int j) { return j == i ? x : a[j]; }); } }
	}
	return "";
}
// the scalar functions as run-time SIMD dispatch serves them
typedef long double ld;
template <class T> struct Fn { const char *n; T (*f)(T); ld (*t)(ld); double tol; };
template <class T> string scalars(Src &s) {
	static const Fn<T> fs[] = {
#define F(N, TOL) { #N, [](T x) -> T { return ccm::N(x); }, [](ld x) -> ld { return std::N(x); }, TOL }
		F(sqrt, 0.5001), F(sin, 1.5), F(cos, 1.5), F(tan, 2), F(exp, 1.5), F(log, 1.5), F(log2, 1.5), F(log10, 2), F(exp2, 1.5), F(expm1, 2), F(log1p, 2), F(floor, 0), F(ceil, 0), F(trunc, 0), F(round, 0), F(rint, 0), F(fabs, 0), F(cbrt, 5) };
#undef F
	int k = (int)s.below(sizeof fs / sizeof *fs + 1); T x, y = 0; if (k == (int)(sizeof fs / sizeof *fs)) { pow_args(s, x, y); s.label = "pow"; if (s.verbose) s.notes = "pow x=" + Src::show(x) + " y=" + Src::show(y); volatile T vx = x, vy = y; T g = ccm::pow((T)vx, (T)vy); return within(g, ref_pow(x, y), 1.5) ? "" : want("pow", g, (T)ref_pow(x, y)); }
	x = lane_any<T>(s); if (k >= 4 && k < 11 && s.chance(1, 2)) x = s.real_fin<T>(-12, 10); auto &f = fs[k]; s.label = f.n; if (s.verbose) s.notes = string(f.n) + " x=" + Src::show(x); volatile T vx = x; T g = f.f(vx); ld t = f.t(x);
	if (k >= 1 && k <= 3 && std::fabs(x) > 0x1p60) { T r = k == 1 ? std::sin(x) : k == 2 ? std::cos(x) : std::tan(x); return std::isnan(r) ? (std::isnan(g) ? "" : want(f.n, g, r)) : within(g, (ld)r, 2.5) ? "" : want(f.n, g, r); } // the x87 reduction is not a reference there
	return within(g, t, f.tol) ? "" : want(f.n, g, (T)t);
}
#define R_(P, NAME, C, ...) static pbt::Reg PBT_CAT(reg_, __COUNTER__)(P, NAME, __VA_ARGS__, C);
#define I(ABI) R_("G03", "ops/float/" #ABI, 12000, ops<in::simd<float, in::abi::ABI>>) R_("G03", "ops/double/" #ABI, 12000, ops<in::simd<double, in::abi::ABI>>)
#define K(ABI) R_("G02", "intrin/float/" #ABI, 8000, math<in::simd<float, in::abi::ABI>>) R_("G02", "intrin/double/" #ABI, 8000, math<in::simd<double, in::abi::ABI>>)
#ifndef PBT_BASE
I(scalar) I(pack<1>) I(pack<3>) I(pack<4>) I(pack<8>)
#endif
K(scalar)
#ifndef PBT_BASE
K(pack<1>) K(pack<3>) K(pack<8>)
#endif
#ifdef CCMATH_HAS_SIMD_SSE2
K(sse2)
#ifndef PBT_BASE
I(sse2)
#endif
#endif
#ifdef CCMATH_HAS_SIMD_SSE4
K(sse4)
#ifndef PBT_BASE
I(sse4)
#endif
#endif
#ifdef CCMATH_HAS_SIMD_AVX2
K(avx2)
#ifndef PBT_BASE
I(avx2)
#endif
#endif
R_("G02", "dispatch/float", 60000, scalars<float>) R_("G02", "dispatch/double", 60000, scalars<double>)
#endif
int main(int c, char **v) { return pbt::main_(c, v); }
