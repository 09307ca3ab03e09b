// H03: bit utilities and floating-point representation access against their definitions, at run time and in constant evaluation.
#include "pbt.hpp"
#include "ccmath/internal/support/bits.hpp"
#include "ccmath/internal/support/ctz.hpp"
#include "ccmath/internal/support/floating_point_traits.hpp"
#include "ccmath/internal/support/fp/fp_bits.hpp"
#include "ccmath/internal/support/helpers/digit_to_int.hpp"
#include "ccmath/internal/support/math_support.hpp"
using pbt::Src; using pbt::want; using std::string; namespace S = ccm::support; namespace F = ccm::support::fp; using ccm::types::Sign;
typedef unsigned __int128 u128;
#define EQ(EXPR, EXPECT) do { auto g_ = (EXPR); decltype(g_) w_ = (decltype(g_))(EXPECT); if (!pbt::same(g_, w_)) return want(#EXPR, g_, w_); } while (0)
// ------------------------------------------------------------------------------------------------ bit utilities
// Everything the utilities say about one value; built by the same code at compile time and at run time.
template <class T> struct Row {
	T v = 0; int n = 0; int crz = 0, clz = 0, cro = 0, clo = 0, bw = 0, pc = 0, sb = 0, tz = 0; T ceil = 0, rr = 0, rl = 0; T sum = 0, co = 0, dif = 0, bo = 0; int ao = 0, so = 0;
	constexpr bool operator==(const Row &o) const { return v == o.v && n == o.n && crz == o.crz && clz == o.clz && cro == o.cro && clo == o.clo && bw == o.bw && pc == o.pc && sb == o.sb && tz == o.tz && ceil == o.ceil && rr == o.rr && rl == o.rl && sum == o.sum && co == o.co && dif == o.dif && bo == o.bo && ao == o.ao && so == o.so; }
};
template <class T> using stdU = std::bool_constant<sizeof(T) <= 8>;
template <class T> constexpr Row<T> row(T v, T b, T cin, int n) {
	Row<T> r; r.v = v; r.n = n; r.crz = S::countr_zero(v); r.clz = S::countl_zero(v); r.cro = S::countr_one(v); r.clo = S::countl_one(v); r.bw = S::bit_width(v); r.pc = S::popcount(v); r.sb = S::has_single_bit(v);
	if (v != 0) r.tz = S::ctz(v);
	constexpr int d = (int)sizeof(T) * 8;
	if constexpr (d <= 64) if (!(v & (T)((T)1 << (d - 1)))) r.ceil = S::bit_ceil(v);
	r.rr = S::rotr(v, n); r.rl = S::rotl(v, n);
	r.sum = S::add_with_carry(v, b, cin, r.co); r.dif = S::sub_with_borrow(v, b, cin, r.bo);
	T t = 0; r.ao = S::add_overflow(v, b, t); r.so = S::sub_overflow(v, b, t);
	return r;
}
template <class T> Row<T> ref(T v, T b, T cin, int n) {
	constexpr int d = (int)sizeof(T) * 8; Row<T> r; r.v = v; r.n = n; auto bit = [&](int i) { return (int)((v >> i) & 1); };
	while (r.crz < d && !bit(r.crz)) ++r.crz; while (r.clz < d && !bit(d - 1 - r.clz)) ++r.clz; while (r.cro < d && bit(r.cro)) ++r.cro; while (r.clo < d && bit(d - 1 - r.clo)) ++r.clo;
	r.bw = d - r.clz; for (int i = 0; i < d; ++i) r.pc += bit(i); r.sb = r.pc == 1; r.tz = v ? r.crz : 0;
	if (d <= 64 && !bit(d - 1)) { r.ceil = 1; while (r.ceil < v) r.ceil = (T)(r.ceil << 1); }
	int k = (int)((((long)n % d) + d) % d); for (int i = 0; i < d; ++i) { if (bit((i + k) % d)) r.rr = (T)(r.rr | (T)((T)1 << i)); if (bit((i - k + d) % d)) r.rl = (T)(r.rl | (T)((T)1 << i)); }
	// carries by schoolbook bits
	int c = (int)cin, bo = (int)cin; int c0 = 0, b0 = 0; for (int i = 0; i < d; ++i) { int x = bit(i), y = (int)((b >> i) & 1); int s = x + y + c; r.sum = (T)(r.sum | (T)((T)(s & 1) << i)); c = s >> 1; int q = x - y - bo; r.dif = (T)(r.dif | (T)((T)(q & 1) << i)); bo = q < 0; s = x + y + c0; c0 = s >> 1; q = x - y - b0; b0 = q < 0; }
	r.co = (T)c; r.bo = (T)bo; r.ao = c0; r.so = b0; return r;
}
template <class T> string cmp(const Row<T> &g, const Row<T> &w) {
#define C(f) if (!(g.f == w.f)) return want(#f, g.f, w.f);
	C(crz) C(clz) C(cro) C(clo) C(bw) C(pc) C(sb) C(tz) C(ceil) C(rr) C(rl) C(sum) C(co) C(dif) C(bo) C(ao) C(so)
#undef C
	return "";
}
template <class T> T wide(Src &s) { if constexpr (sizeof(T) == 16) return ((u128)s.bits(64) << 64) | s.bits(64); else return s.integer<T>(); }
template <class T> string bitutil(Src &s) {
	T v = wide<T>(s), b = wide<T>(s), cin = (T)s.below(2); int n = s.chance(1, 8) ? (s.chance(1, 2) ? std::numeric_limits<int>::max() - (int)s.below(200) : std::numeric_limits<int>::min() + (int)s.below(200)) : (int)s.range(-300, 300);
	s.note("v", v); s.note("b", b); s.note("cin", cin); s.note("n", n); s.nontrivial = v != 0 && n != 0; return cmp(row<T>(v, b, cin, n), ref<T>(v, b, cin, n));
}
// the same at compile time, over a fixed pseudo-random table
constexpr uint64_t cmix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
template <class T> constexpr T tabval(int i, int salt) {
	constexpr int d = (int)sizeof(T) * 8; uint64_t k = cmix((uint64_t)i * 8 + (uint64_t)salt); T u = (T)cmix(k); if constexpr (d == 128) u = (T)(((u128)cmix(k) << 64) | cmix(k + 1));
	int sh = (int)(k % (uint64_t)d);
	switch (i % 6) { case 0: return (T)((T)1 << (i / 6 % d)); case 1: return (T)(((T)1 << (i / 6 % d)) - 1); case 2: return (T)~(T)((T)1 << (i / 6 % d)); case 3: return (T)(u >> sh); case 4: return (T)(u << sh); default: return i == 5 ? (T)0 : i == 11 ? (T)~(T)0 : u; }
}
constexpr int tabn(int i) { return (int)(cmix((uint64_t)i) % 301) - 150; }
constexpr int kRows = 300;
template <class T> struct Table { Row<T> r[kRows]; };
template <class T> constexpr Table<T> make_table() { Table<T> t; for (int i = 0; i < kRows; ++i) t.r[i] = row<T>(tabval<T>(i, 1), tabval<T>(i + 7, 2), (T)(i & 1), tabn(i)); return t; }
// PBT_NO_CT: built only to tell "constant evaluation is refused" from "does not compile at all"
#ifdef PBT_NO_CT
#define CT const
#else
#define CT constexpr
#endif
template <class T> CT Table<T> kTable = make_table<T>();
template <class T> string bitutil_ct(Src &s) { int i = (int)s.below(kRows); T v = tabval<T>(i, 1), b = tabval<T>(i + 7, 2), c = (T)(i & 1); s.note("v", v); s.note("b", b); s.note("n", tabn(i)); s.nontrivial = v != 0; return cmp(kTable<T>.r[i], ref<T>(v, b, c, tabn(i))); }
template <class T> string signed_ovf(Src &s) {
	T a = s.integer<T>(), b = s.integer<T>(), r = 0; s.note("a", a); s.note("b", b); s.nontrivial = a != 0 && b != 0; __int128 w = (__int128)a + b, d = (__int128)a - b; auto in = [](__int128 x) { return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max(); };
	bool o = S::add_overflow(a, b, r); EQ(o, !in(w)); if (!o) EQ(r, w); o = S::sub_overflow(a, b, r); EQ(o, !in(d)); if (!o) EQ(r, d); return "";
}
template <class T, size_t N> string mask1() {
	constexpr size_t d = sizeof(T) * 8; if constexpr (N <= d) { T lo = 0, hi = 0; for (size_t i = 0; i < N; ++i) { lo = (T)(lo | (T)((T)1 << i)); hi = (T)(hi | (T)((T)1 << (d - 1 - i))); }
		CT T a = S::mask_trailing_ones<T, N>(), b = S::mask_leading_ones<T, N>(), c = S::mask_trailing_zeros<T, N>(), e = S::mask_leading_zeros<T, N>();
		EQ(a, lo); EQ(b, hi); EQ(c, (T)~lo); EQ(e, (T)~hi); EQ((S::mask_trailing_ones<T, N>()), lo); EQ((S::mask_leading_ones<T, N>()), hi); }
	return "";
}
template <class T, size_t... I> string masks_seq(size_t i, std::index_sequence<I...>) { using Fn = string (*)(); static const Fn f[] = { mask1<T, I>... }; return f[i](); }
template <class T> string masks(Src &s) { constexpr size_t d = sizeof(T) * 8; size_t i = s.below(d + 1); s.note("count", i); s.nontrivial = i != 0; return masks_seq<T>(i, std::make_index_sequence<d + 1>()); }
#define U(T, N) static pbt::Reg PBT_CAT(reg_u_, __LINE__)("H03", "bits:" #T, bitutil<T>, N); static pbt::Reg PBT_CAT(reg_c_, __LINE__)("H03", "bits-constexpr:" #T, bitutil_ct<T>, 3000); static pbt::Reg PBT_CAT(reg_m_, __LINE__)("H03", "masks:" #T, masks<T>, 2000);
U(unsigned char, 400000)
U(unsigned short, 400000)
U(unsigned int, 400000)
U(unsigned long, 400000)
U(unsigned long long, 200000)
U(u128, 200000)
#define SG(T) static pbt::Reg PBT_CAT(reg_s_, __LINE__)("H03", "overflow:" #T, signed_ovf<T>, 300000);
SG(signed char)
SG(short)
SG(int)
SG(long)
SG(long long)
PROPERTY("H03", "digit_to_int", 3000) { int c = (int)s.range(-300, 300); s.note("c", c); int w = 0; if (c >= '0' && c <= '9') w = c - '0'; else if (c >= 'a' && c <= 'f') w = c - 'a' + 10; else if (c >= 'A' && c <= 'F') w = c - 'A' + 10; s.nontrivial = w != 0; EQ(S::helpers::digit_to_int(c), w); return ""; }
// ------------------------------------------------------------------------------------------------ representation
template <class T> struct L;
template <> struct L<float> { static constexpr int eb = 8, sb = 23, fb = 23; typedef uint32_t st; };
template <> struct L<double> { static constexpr int eb = 11, sb = 52, fb = 52; typedef uint64_t st; };
template <> struct L<long double> { static constexpr int eb = 15, sb = 64, fb = 63; typedef u128 st; };
template <class T> u128 raw(T x) { u128 r = 0; memcpy(&r, &x, sizeof(T) == 16 ? 10 : sizeof(T)); return r; }
template <class T> T unraw(u128 b) { T x = 0; memcpy(&x, &b, sizeof(T) == 16 ? 10 : sizeof(T)); return x; }
template <class T> constexpr bool x87 = std::is_same_v<T, long double>;
// what a value is, straight from the format definition (valid x87 encodings only)
template <class T> struct Rep { bool neg; unsigned be; u128 sig, frac; };
template <class T> Rep<T> rep(u128 b) { constexpr int eb = L<T>::eb, sb = L<T>::sb; Rep<T> r; r.neg = (int)((b >> (eb + sb)) & 1); r.be = (unsigned)((b >> sb) & ((1u << eb) - 1)); r.sig = b & ((((u128)1) << sb) - 1); r.frac = r.sig & ((((u128)1) << L<T>::fb) - 1); return r; }
template <class T> u128 bits_of(Src &s) { // any valid encoding
	constexpr int eb = L<T>::eb, sb = L<T>::sb; unsigned emax = (1u << eb) - 1, be; switch (s.below(5)) { case 0: be = 0; break; case 1: be = emax; break; case 2: be = emax - 1; break; case 3: be = (unsigned)s.below(4); break; default: be = (unsigned)s.below(emax + 1); }
	u128 sig = s.bits(sb == 64 ? 64 : sb); if (s.chance(1, 5)) sig = 0; if (s.chance(1, 5)) sig = (((u128)1) << L<T>::fb) - 1; if (x87<T>) { u128 top = ((u128)1) << 63; sig = be == 0 ? sig & ~top : sig | top; }
	u128 sgn = s.chance(1, 2); return (sgn << (eb + sb)) | ((u128)be << sb) | sig;
}
template <class T> string access(Src &s) {
	using FB = F::FPBits<T>; using st = typename L<T>::st; constexpr int eb = L<T>::eb, sb = L<T>::sb, fb = L<T>::fb; constexpr unsigned emax = (1u << eb) - 1; constexpr int bias = (1 << (eb - 1)) - 1; u128 b = bits_of<T>(s); T x = unraw<T>(b); auto r = rep<T>(b); string pat = Src::show(b); s.note("bits", b); s.nontrivial = r.sig != 0 && r.be != 0;
	u128 msb = ((u128)1) << (sb - 1), q = x87<T> ? msb >> 1 : msb; bool nan = r.be == emax && r.frac != 0, inf = r.be == emax && r.frac == 0, zero = r.be == 0 && r.sig == 0;
	// Both ways in: from the value and from the storage integer.  (A signalling NaN may not travel by value.)
	for (int way = 0; way < 2; ++way) {
		if (way == 0 && nan && !(r.frac & q)) continue;
		FB f = way ? FB((st)b) : FB(x);
		EQ((u128)f.uintval(), b); EQ(f.is_nan(), nan); EQ(f.is_inf(), inf); EQ(f.is_finite(), r.be != emax); EQ(f.is_inf_or_nan(), r.be == emax); EQ(f.is_zero(), zero); EQ(f.is_quiet_nan(), nan && (r.frac & q) != 0); EQ(f.is_signaling_nan(), nan && (r.frac & q) == 0);
		EQ(f.is_normal(), r.be != 0 && r.be != emax); EQ(f.is_subnormal(), r.be == 0); EQ(f.is_neg(), r.neg); EQ(f.is_pos(), !r.neg); EQ(f.sign().is_neg(), r.neg); EQ(f.get_biased_exponent(), r.be); EQ(f.get_exponent(), (int)r.be - bias);
		EQ(f.get_explicit_exponent(), zero ? 0 : r.be == 0 ? 1 - bias : (int)r.be - bias); EQ((u128)f.get_mantissa(), r.frac); EQ((u128)f.get_explicit_mantissa(), x87<T> ? r.sig : r.be == 0 ? r.sig : r.sig | ((u128)1 << fb));
		EQ((u128)f.abs().uintval(), b & ~((u128)1 << (eb + sb))); EQ(raw<T>(f.get_val()), b);
		EQ(f == FB((st)b), true); EQ(f != FB((st)b), false); EQ(f == FB((st)(b ^ 1)), false);
		FB nx = f.next_toward_inf(); EQ((u128)nx.uintval(), r.be == emax ? b : raw<T>(std::nextafter(x, r.neg ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity())));
		if (!nan && !inf && !zero) { T back = std::ldexp((T)(u128)f.get_explicit_mantissa(), f.get_explicit_exponent() - fb); if (r.neg) back = -back; EQ(back, x); }
		// modifiers change their field and nothing else
		u128 o = bits_of<T>(s); auto ro = rep<T>(o); u128 sm = ((u128)1) << (eb + sb), em = (((u128)emax) << sb), gm = ((((u128)1) << sb) - 1), fm = ((((u128)1) << fb) - 1); s.note("other", o);
		{ FB g = f; g.set_sign(ro.neg ? Sign::NEG : Sign::POS); EQ((u128)g.uintval(), (b & ~sm) | (o & sm)); }
		{ FB g = f; g.set_biased_exponent((st)ro.be); EQ((u128)g.uintval(), (b & ~em) | (o & em)); }
		{ FB g = f; g.set_mantissa((st)(o & fm)); EQ((u128)g.uintval(), (b & ~fm) | (o & fm)); }
		{ FB g = f; g.set_significand((st)(o & gm)); EQ((u128)g.uintval(), (b & ~gm) | (o & gm)); }
		{ FB g = f; g.set_uintval((st)o); EQ((u128)g.uintval(), o); }
		{ FB g = FB::create_value(ro.neg ? Sign::NEG : Sign::POS, (st)ro.be, (st)ro.sig); EQ((u128)g.uintval(), o); }
		if constexpr (x87<T>) { FB g = f; EQ(g.get_implicit_bit(), (b >> 63 & 1) != 0); g.set_implicit_bit(ro.neg); EQ((u128)g.uintval(), (b & ~((u128)1 << 63)) | ((u128)(ro.neg ? 1 : 0) << 63)); }
	}
	return "";
}
template <class T> struct Consts { T z[2], one[2], mins[2], maxs[2], minn[2], maxn[2], inf[2]; };
template <class T> constexpr Consts<T> consts() { using FB = F::FPBits<T>; Consts<T> c{}; for (int i = 0; i < 2; ++i) { Sign g = i ? Sign::NEG : Sign::POS; c.z[i] = FB::zero(g).get_val(); c.one[i] = FB::one(g).get_val(); c.mins[i] = FB::min_subnormal(g).get_val(); c.maxs[i] = FB::max_subnormal(g).get_val(); c.minn[i] = FB::min_normal(g).get_val(); c.maxn[i] = FB::max_normal(g).get_val(); c.inf[i] = FB::inf(g).get_val(); } return c; }
template <class T> CT Consts<T> kConsts = consts<T>();
template <class T> string builders(Src &s) {
	using FB = F::FPBits<T>; using N = std::numeric_limits<T>; using st = typename L<T>::st; volatile int opaque = 1; Consts<T> rt = opaque ? consts<T>() : Consts<T>{};
	for (int way = 0; way < 2; ++way) for (int i = 0; i < 2; ++i) { const Consts<T> &c = way ? kConsts<T> : rt; T g = i ? -1 : 1;
		EQ(c.z[i], (T)(g * 0)); EQ(c.one[i], g); EQ(c.mins[i], g * N::denorm_min()); EQ(c.maxs[i], g * (N::min() - N::denorm_min())); EQ(c.minn[i], g * N::min()); EQ(c.maxn[i], g * N::max()); EQ(c.inf[i], g * N::infinity()); }
	u128 msb = ((u128)1) << (L<T>::sb - 1), q = x87<T> ? msb >> 1 : msb, top = x87<T> ? msb : 0, em = (((u128)((1u << L<T>::eb) - 1)) << L<T>::sb), sm = ((u128)1) << (L<T>::eb + L<T>::sb); u128 pay = s.bits(L<T>::fb - 1); bool neg = s.chance(1, 2); s.note("payload", pay); s.nontrivial = pay != 0; Sign g = neg ? Sign::NEG : Sign::POS;
	EQ((u128)FB::quiet_nan(g, (st)pay).uintval(), em | top | q | pay | (neg ? sm : 0)); if (pay) EQ((u128)FB::signaling_nan(g, (st)pay).uintval(), em | top | pay | (neg ? sm : 0));
	EQ(FB::signaling_nan(g).is_signaling_nan(), true); EQ(FB::quiet_nan(g).is_quiet_nan(), true); EQ(FB::quiet_nan(g).is_neg(), neg); EQ(FB::signaling_nan(g).is_neg(), neg);
	// make_value: number * 2^(expo + 1 - bias - fraction bits), truncated when subnormal
	u128 n = s.bits(L<T>::fb + 1 > 63 ? 64 : L<T>::fb + 1); if (!n) n = 1; constexpr int bias = (1 << (L<T>::eb - 1)) - 1; int e = (int)(s.chance(1, 2) ? s.range(-L<T>::fb, L<T>::fb + 4) : s.range(0, 2 * bias - 2)); int w = 128 - (n >> 64 ? __builtin_clzll((uint64_t)(n >> 64)) : 64 + __builtin_clzll((uint64_t)n)); int lz = L<T>::fb + 1 - w; s.note("number", n); s.note("expo", e);
	if (e - lz <= 2 * bias - 1 && -(e - lz) < (int)sizeof(st) * 8) { T want_v; if (e >= 0 || (-e < 100)) { u128 m = e < 0 && e - lz < 0 ? n >> -e : n; int ee = e < 0 && e - lz < 0 ? 0 : e; want_v = std::ldexp((T)m, ee + 1 - bias - L<T>::fb); EQ(FB::make_value((st)n, e).get_val(), want_v); } }
	return "";
}
template <class T> string casts(Src &s) {
	using st = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>; using sst = std::make_signed_t<st>; u128 b = bits_of<T>(s); T x = unraw<T>(b); auto r = rep<T>(b); s.note("bits", b); s.nontrivial = r.sig != 0 && r.be != 0;
	EQ(S::bit_cast<st>(x), (st)b); EQ(S::bit_cast<sst>(x), (sst)(st)b); EQ(raw<T>(S::bit_cast<T>((st)b)), b); EQ(raw<T>(S::bit_cast<T>((sst)(st)b)), b);
	EQ((S::top_bits<T, 12>(x)), (uint32_t)(b >> (sizeof(T) * 8 - 12))); EQ((S::top_bits<T, 16>(x)), (uint32_t)(b >> (sizeof(T) * 8 - 16))); EQ((S::top_bits<T, 1>(x)), (uint32_t)r.neg);
	if constexpr (sizeof(T) == 8) { EQ(S::top16_bits_of_double(x), (uint32_t)(b >> 48)); EQ(S::top12_bits_of_double(x), (uint32_t)(b >> 52)); EQ(S::double_to_uint64(x), (uint64_t)b); EQ(S::double_to_int64(x), (int64_t)(uint64_t)b); EQ(raw(S::uint64_to_double((uint64_t)b)), b); EQ(raw(S::int64_to_double((int64_t)(uint64_t)b)), b); }
	else { EQ(S::top12_bits_of_float(x), (uint32_t)b >> 20); EQ(S::float_to_uint32(x), (uint32_t)b); EQ(S::float_to_int32(x), (int32_t)(uint32_t)b); EQ(raw(S::uint32_to_float((uint32_t)b)), b); EQ(raw(S::int32_to_float((int32_t)(uint32_t)b)), b); }
	EQ((int)S::get_exponent_of_floating_point(x), (int)r.be - (sizeof(T) == 4 ? 127 : 1023)); int e = (int)s.range(sizeof(T) == 4 ? -127 : -1023, sizeof(T) == 4 ? 128 : 1024); u128 em = (u128)((1u << L<T>::eb) - 1) << L<T>::sb;
	EQ(raw(S::set_exponent_of_floating_point(x, e)), (b & ~em) | ((u128)(unsigned)(e + (sizeof(T) == 4 ? 127 : 1023)) << L<T>::sb));
	EQ((u128)S::sign_mask_v<T>, (u128)1 << (sizeof(T) * 8 - 1));
	return "";
}
// compile-time twins of the accessors
template <class T> struct FRow { int e, ee, be; typename L<T>::st man, eman, abs, nxt; int cls; T back; };
template <class T> constexpr FRow<T> frow(typename L<T>::st b) { using FB = F::FPBits<T>; FB f(b); T v = f.get_val(); FB g(v); FRow<T> r{}; r.e = g.get_exponent(); r.ee = g.get_explicit_exponent(); r.be = g.get_biased_exponent(); r.man = (typename L<T>::st)g.get_mantissa(); r.eman = (typename L<T>::st)g.get_explicit_mantissa(); r.abs = (typename L<T>::st)g.abs().uintval(); r.nxt = (typename L<T>::st)g.next_toward_inf().uintval(); r.cls = g.is_nan() | g.is_inf() << 1 | g.is_zero() << 2 | g.is_subnormal() << 3 | g.is_normal() << 4 | g.is_finite() << 5 | g.is_neg() << 6; r.back = v; return r; }
template <class T> constexpr typename L<T>::st ctbits(int i) { // never a signalling NaN
	constexpr int eb = L<T>::eb, sb = L<T>::sb; uint64_t k = cmix((uint64_t)i); unsigned emax = (1u << eb) - 1; unsigned be = i % 5 == 0 ? 0u : i % 5 == 1 ? emax : i % 5 == 2 ? emax - 1 : (unsigned)(k % (emax + 1)); u128 sig = cmix(k); if (i % 3 == 0) sig = ~(u128)0; if (i % 7 == 0) sig = 0; sig &= (((u128)1) << L<T>::fb) - 1; if (be == emax && sig) sig |= ((u128)1) << (L<T>::fb - 1); if (x87<T> && be) sig |= (u128)1 << 63;
	return (typename L<T>::st)(((u128)(k >> 63) << (eb + sb)) | ((u128)be << sb) | sig); }
template <class T> struct FTable { FRow<T> r[200]; };
template <class T> constexpr FTable<T> mkf() { FTable<T> t{}; for (int i = 0; i < 200; ++i) t.r[i] = frow<T>(ctbits<T>(i)); return t; }
template <class T> CT FTable<T> kF = mkf<T>();
template <class T> string frow_ct(Src &s) { int i = (int)s.below(200); auto b = ctbits<T>(i); s.note("bits", (u128)b); const FRow<T> &c = kF<T>.r[i]; volatile int z = 0; FRow<T> r = frow<T>((typename L<T>::st)(b + (unsigned)z)); 
	EQ(c.e, r.e); EQ(c.ee, r.ee); EQ(c.be, r.be); EQ(c.man, r.man); EQ(c.eman, r.eman); EQ(c.abs, r.abs); EQ(c.nxt, r.nxt); EQ(c.cls, r.cls); EQ(raw(c.back), (u128)b); EQ(raw(r.back), (u128)b); return ""; }
#define R(T) static pbt::Reg PBT_CAT(reg_a_, __LINE__)("H03", "fpbits:" #T, access<T>, 600000); static pbt::Reg PBT_CAT(reg_b_, __LINE__)("H03", "fpbits-builders:" #T, builders<T>, 200000); static pbt::Reg PBT_CAT(reg_d_, __LINE__)("H03", "fpbits-constexpr:" #T, frow_ct<T>, 2000);
R(float)
R(double)
R(long double)
static pbt::Reg reg_cf("H03", "casts:float", casts<float>, 400000), reg_cd("H03", "casts:double", casts<double>, 400000);
int main(int c, char **v) { return pbt::main_(c, v); }
