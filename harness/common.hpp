// Shared by the drivers: PRNG, value generators, floating-point formats, MPFR oracle, failure records.
#pragma once
#include <algorithm>
#include <array>
#include <cerrno>
#include <cfenv>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
#include <mpfr.h>

using ld = long double;

// ---------------------------------------------------------------- PRNG (splitmix64 / xoshiro256**)
struct Rng {
	uint64_t s[4];
	static uint64_t mix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	explicit Rng(uint64_t seed) { for (auto &v : s) v = mix(seed); }
	Rng(uint64_t seed, const std::string &tag) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : tag) { h ^= ch; h *= 1099511628211ull; } h ^= seed * 0x9e3779b97f4a7c15ull; for (auto &v : s) v = mix(h); }
	static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t u64() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
	uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)u64() * n) >> 64) : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)hi - (uint64_t)lo + 1); }
	ld unit() { return (ld)(u64() >> 1) * 0x1p-63L; }
	bool chance(int num, int den) { return (int)below(den) < num; }
};

// ---------------------------------------------------------------- formats
template <class T> struct Fmt;
template <> struct Fmt<float> { static constexpr int p = 24, emax = 128, emin = -149; static constexpr char c = 'f'; using U = uint32_t; };
template <> struct Fmt<double> { static constexpr int p = 53, emax = 1024, emin = -1074; static constexpr char c = 'd'; using U = uint64_t; };
template <> struct Fmt<ld> { static constexpr int p = 64, emax = 16384, emin = -16445; static constexpr char c = 'l'; using U = unsigned __int128; };

template <class T> bool is_nan(T x) { return __builtin_isnan(x); }
template <class T> bool is_inf(T x) { return __builtin_isinf(x); }
template <class T> bool sgn(T x) { return __builtin_signbit(x) != 0; }
template <class T> bool bits_equal(T a, T b) { if (is_nan(a) || is_nan(b)) return is_nan(a) && is_nan(b); return a == b && sgn(a) == sgn(b); }

// order-preserving integer map (for neighbours, ulp walks, shrinking)
template <class T> T from_ord(__int128 o) {
	bool neg = o < 0; unsigned __int128 m = neg ? -o : o;
	if constexpr (std::is_same_v<T, float>) { uint32_t b = (uint32_t)m | (neg ? 0x80000000u : 0); float f; memcpy(&f, &b, 4); return f; }
	else if constexpr (std::is_same_v<T, double>) { uint64_t b = (uint64_t)m | (neg ? 1ull << 63 : 0); double f; memcpy(&f, &b, 8); return f; }
	else { uint64_t man = (uint64_t)m & 0x7fffffffffffffffull; unsigned e = (unsigned)(m >> 63); if (e) man |= 1ull << 63; unsigned char b[16] = {}; memcpy(b, &man, 8); uint16_t se = (uint16_t)(e | (neg ? 0x8000 : 0)); memcpy(b + 8, &se, 2); ld f = 0; memcpy(&f, b, 10); return f; }
}
template <class T> __int128 to_ord(T x) {
	if constexpr (std::is_same_v<T, float>) { uint32_t b; memcpy(&b, &x, 4); __int128 m = b & 0x7fffffffu; return (b >> 31) ? -m : m; }
	else if constexpr (std::is_same_v<T, double>) { uint64_t b; memcpy(&b, &x, 8); __int128 m = (int64_t)(b & ~(1ull << 63)); return (b >> 63) ? -m : m; }
	else { uint64_t man; uint16_t se; memcpy(&man, &x, 8); memcpy(&se, (char *)&x + 8, 2); __int128 m = ((__int128)(se & 0x7fff) << 63) | (man & 0x7fffffffffffffffull); return (se >> 15) ? -m : m; }
}
template <class T> T max_of() { return std::numeric_limits<T>::max(); }
template <class T> __int128 ord_inf() { return to_ord(std::numeric_limits<T>::infinity()); }
template <class T> T step(T x, int64_t k) { // k representable values away, saturating at +-inf; NaN unchanged
	if (is_nan(x)) return x;
	__int128 o = to_ord(x) + k, li = ord_inf<T>();
	if (o > li) o = li; if (o < -li) o = -li;
	return from_ord<T>(o);
}
template <class T> std::string hexf(T x) {
	if (is_nan(x)) return sgn(x) ? "-nan" : "nan";
	if (is_inf(x)) return sgn(x) ? "-inf" : "inf";
	char b[80]; snprintf(b, sizeof b, "%La", (ld)x); return b;
}
template <class T> T parse_val(const std::string &s) {
	if (s == "nan") return std::numeric_limits<T>::quiet_NaN();
	if (s == "-nan") return -std::numeric_limits<T>::quiet_NaN();
	return (T)strtold(s.c_str(), nullptr);
}
static const int kModes[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static const char *const kModeNames[4] = { "nearest", "upward", "downward", "towardzero" };
static const mpfr_rnd_t kMpModes[4] = { MPFR_RNDN, MPFR_RNDU, MPFR_RNDD, MPFR_RNDZ };
struct ModeGuard { int old; explicit ModeGuard(int m) : old(fegetround()) { fesetround(m); } ~ModeGuard() { fesetround(old); } };

// ---------------------------------------------------------------- MPFR helpers
struct Mp {
	mpfr_t v;
	explicit Mp(int prec = 256) { mpfr_init2(v, prec); }
	Mp(const Mp &) = delete;
	~Mp() { mpfr_clear(v); }
	operator mpfr_ptr() { return v; }
};
template <class T> void mp_set(mpfr_ptr r, T x) {
	if constexpr (std::is_same_v<T, float>) mpfr_set_flt(r, x, MPFR_RNDN);
	else if constexpr (std::is_same_v<T, double>) mpfr_set_d(r, x, MPFR_RNDN);
	else mpfr_set_ld(r, x, MPFR_RNDN);
}
template <class T> T mp_get_exact(mpfr_srcptr r) { // value is representable
	if constexpr (std::is_same_v<T, float>) return mpfr_get_flt(r, MPFR_RNDN);
	else if constexpr (std::is_same_v<T, double>) return mpfr_get_d(r, MPFR_RNDN);
	else return mpfr_get_ld(r, MPFR_RNDN);
}
inline void mp_wide() { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); }

// error of r against the exact value y (y known to >= 150 bits), in ulps of T at y; sign / nan / inf mismatches -> 1e30
template <class T> double ulp_error(T r, mpfr_srcptr y) {
	using F = Fmt<T>;
	const double BAD = 1e30;
	if (mpfr_nan_p(y)) return is_nan(r) ? 0 : BAD;
	if (is_nan(r)) return BAD;
	if (mpfr_inf_p(y)) return (is_inf(r) && sgn(r) == (mpfr_signbit(y) != 0)) ? 0 : BAD;
	if (mpfr_zero_p(y)) return (r == 0 && sgn(r) == (mpfr_signbit(y) != 0)) ? 0 : (r == 0 ? BAD : BAD);
	static thread_local Mp a(320), b(320);
	int e = (int)std::clamp<mpfr_exp_t>(mpfr_get_exp(y), -40000, 40000);
	// overflowed exact value: clamp to 2^emax
	if (e > F::emax) { mpfr_set_si_2exp(b, mpfr_sgn(y) < 0 ? -1 : 1, F::emax, MPFR_RNDN); e = F::emax; }
	else mpfr_set(b, y, MPFR_RNDN);
	if (is_inf(r)) { mpfr_set_si_2exp(a, sgn(r) ? -1 : 1, F::emax, MPFR_RNDN); }
	else mp_set<T>(a, r);
	int ue = std::max(e - F::p, F::emin);
	if (r == 0 && sgn(r) != (mpfr_sgn(y) < 0)) return BAD;
	mpfr_sub(a, a, b, MPFR_RNDN);
	if (mpfr_zero_p((mpfr_ptr)a)) return 0;
	mpfr_mul_2si(a, a, -ue, MPFR_RNDN);
	double d = std::fabs(mpfr_get_d(a, MPFR_RNDN));
	return d;
}
// Correctly rounded evaluation into T in MPFR mode `rnd`; fn(out, rnd) must compute out and return the ternary value.
template <class T, class F> T mp_correct(mpfr_rnd_t rnd, F fn) {
	using M = Fmt<T>;
	static thread_local Mp o(M::p);
	mpfr_set_prec(o, M::p);
	mpfr_set_emin(M::emin + 1); mpfr_set_emax(M::emax);
	int t = fn((mpfr_ptr)o, rnd);
	t = mpfr_check_range(o, t, rnd);
	t = mpfr_subnormalize(o, t, rnd);
	T v = mp_get_exact<T>(o);
	mp_wide();
	return v;
}

// ---------------------------------------------------------------- generators
template <class T> struct Gen {
	using F = Fmt<T>;
	Rng &g;
	explicit Gen(Rng &r) : g(r) {}
	T bits() { __int128 o = (__int128)(((unsigned __int128)g.u64() << 64 | g.u64()) % (unsigned __int128)(ord_inf<T>() + 1)); T x = from_ord<T>(o); return g.u64() & 1 ? -x : x; }
	T finite() { T x; do x = bits(); while (is_inf(x)); return x; }
	T mant() { // significand in [1,2), several shapes
		switch (g.below(6)) {
		case 0: return (T)1;
		case 1: { T m = 1; int k = (int)g.below(4); for (int i = 0; i <= k; ++i) m += std::ldexp((T)1, -(int)g.range(1, F::p - 1)); return m >= 2 ? (T)1.5 : m; }
		case 2: return step<T>((T)2, -(int64_t)g.range(1, 8));
		case 3: return step<T>((T)1, (int64_t)g.range(1, 8));
		default: return (T)1 + (T)std::ldexp((T)(g.u64() >> (64 - F::p + 1)), -(F::p - 1));
		}
	}
	T sign(T x) { return g.u64() & 1 ? -x : x; }
	T logu(int lo, int hi) { return sign(std::ldexp(mant(), (int)g.range(lo, hi))); } // +-[2^lo, 2^(hi+1))
	T uniform(ld lo, ld hi) { return (T)(lo + (hi - lo) * g.unit()); }
	T smallrat() { T x = (T)g.range(-2048, 2048) / (T)(1ll << g.below(11)); return jitter(x); }
	T near_int() { int e = (int)g.range(0, F::p + 2); T x = std::trunc(std::ldexp(mant(), e)); if (g.chance(1, 3)) x += (T)0.5; return jitter(sign(x)); }
	T jitter(T x) { // 0..few ulps, occasionally more
		switch (g.below(5)) { case 0: case 1: return x; case 2: return step<T>(x, g.range(-2, 2)); case 3: return step<T>(x, g.range(-64, 64)); default: { int sh = (int)g.below(F::p - 4); int64_t k = (int64_t)(g.u64() >> (63 - sh)); return step<T>(x, g.u64() & 1 ? k : -k); } }
	}
	T subnormal() { T x = from_ord<T>((__int128)g.below((uint64_t)1 << std::min(62, F::p - 1))); if (g.chance(1, 3)) x = from_ord<T>((__int128)1 << g.below(F::p - 1)); return sign(x); }
	T special() {
		static const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN();
		const T tab[] = { 0, inf, nan, 1, 2, (T)0.5, (T)1.5, (T)2.5, 3, 10, std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min(), step<T>(std::numeric_limits<T>::min(), -1), max_of<T>(), step<T>(max_of<T>(), -1), step<T>((T)1, 1), step<T>((T)1, -1), std::ldexp((T)1, F::p), std::ldexp((T)1, F::p - 1), step<T>(std::ldexp((T)1, F::p - 1), -1), (T)3.14159265358979323846264338327950288L, (T)1.57079632679489661923132169163975144L, (T)0.693147180559945309417232121458176568L, std::numeric_limits<T>::epsilon() };
		T x = tab[g.below(sizeof tab / sizeof tab[0])];
		return g.u64() & 1 ? -x : x;
	}
	T any() { switch (g.below(10)) { case 0: case 1: case 2: return bits(); case 3: case 4: return logu(-20, 20); case 5: return smallrat(); case 6: return near_int(); case 7: return subnormal(); case 8: return logu(-F::p - 4, F::p + 4); default: return special(); } }
};

// ---------------------------------------------------------------- misc
inline std::string jstr(const std::string &s) { std::string o = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o + "\""; }
