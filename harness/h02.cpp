// H02: dyadic floats, normalised floats and double-doubles against exact integer arithmetic (GMP).
#include "pbt.hpp"
#include <gmp.h>
#include "ccmath/internal/support/math_support.hpp"
#include "ccmath/internal/types/double_double.hpp"
#include "ccmath/internal/types/dyadic_float.hpp"
#include "ccmath/internal/types/normalized_float.hpp"
#ifndef NO_CAST
#include "ccmath/internal/support/fp/cast.hpp"
#endif
using pbt::Src; using pbt::want; using std::string; using ccm::types::DyadicFloat; using ccm::types::NormalizedFloat; using ccm::types::UInt; using ccm::types::Sign; namespace TY = ccm::types; namespace S = ccm::support;
#define EQ(EXPR, EXPECT) do { auto g_ = (EXPR); decltype(g_) w_ = (decltype(g_))(EXPECT); if (!pbt::same(g_, w_)) return want(#EXPR, g_, w_); } while (0)
static const int kModes[] = { FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD, FE_DOWNWARD };
struct Mode { explicit Mode(int m) { fesetround(m); } ~Mode() { fesetround(FE_TONEAREST); } };
// ------------------------------------------------------------------------------------------------ exact numbers m * 2^e
struct Z { mpz_t z; Z() { mpz_init(z); } Z(const Z &o) { mpz_init_set(z, o.z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); } operator mpz_ptr() { return z; } operator mpz_srcptr() const { return z; } };
struct Ex { Z m; long e = 0; bool zero() const { return mpz_sgn(m.z) == 0; } };
static Ex mk(uint64_t m, long e, bool neg) { Ex r; mpz_set_ui(r.m, m); if (neg) mpz_neg(r.m, r.m); r.e = e; return r; }
template <class T> Ex ex(T x) { int e; T f = std::frexp(std::fabs(x), &e); uint64_t m = (uint64_t)std::ldexp(f, 64); return mk(m, (long)e - 64, std::signbit(x)); }
template <size_t B> Ex ex(const DyadicFloat<B> &d) { Ex r; mpz_import(r.m, sizeof d.mantissa.val / sizeof d.mantissa.val[0], -1, sizeof d.mantissa.val[0], 0, 0, &d.mantissa.val[0]); if (d.sign.is_neg()) mpz_neg(r.m, r.m); r.e = d.exponent; return r; }
static void align(Ex &a, Ex &b) { long e = std::min(a.e, b.e); if (a.e > e) { mpz_mul_2exp(a.m, a.m, (unsigned long)(a.e - e)); a.e = e; } if (b.e > e) { mpz_mul_2exp(b.m, b.m, (unsigned long)(b.e - e)); b.e = e; } }
static Ex add(Ex a, Ex b) { if (a.zero()) return b; if (b.zero()) return a; align(a, b); mpz_add(a.m, a.m, b.m); return a; }
static Ex neg(Ex a) { mpz_neg(a.m, a.m); return a; }
static Ex mul(Ex a, const Ex &b) { mpz_mul(a.m, a.m, b.m); a.e += b.e; return a; }
static Ex absx(Ex a) { mpz_abs(a.m, a.m); return a; }
static int cmpx(Ex a, Ex b) { if (a.zero() || b.zero()) return mpz_sgn(a.m.z) - mpz_sgn(b.m.z); align(a, b); return mpz_cmp(a.m, b.m); }
static long msb(const Ex &a) { return a.e + (long)mpz_sizeinbase(a.m.z, 2) - 1; } // exponent of the leading bit, a != 0
static Ex pow2(long e) { return mk(1, e, false); }
static string showx(const Ex &a) { char *s = mpz_get_str(nullptr, 16, a.m.z); string r = string(s) + "p" + std::to_string(a.e); free(s); return r; }
// magnitude of a rounded to a multiple of 2^q
static Ex rnd(const Ex &a, long q, int mode) {
	Ex r = a; if (a.zero() || a.e >= q) return r; unsigned long k = (unsigned long)(q - a.e); bool ng = mpz_sgn(a.m.z) < 0; Z m, rest, half; mpz_abs(m, a.m); mpz_fdiv_r_2exp(rest, m, k); mpz_fdiv_q_2exp(m, m, k); mpz_set_ui(half, 1); mpz_mul_2exp(half, half, k - 1); int c = mpz_cmp(rest, half); bool up = false;
	if (mpz_sgn((mpz_ptr)rest)) { if (mode == FE_TONEAREST) up = c > 0 || (c == 0 && mpz_odd_p((mpz_ptr)m)); else if (mode == FE_UPWARD) up = !ng; else if (mode == FE_DOWNWARD) up = ng; }
	if (up) mpz_add_ui(m, m, 1); if (ng) mpz_neg(m, m); r.m = m; r.e = q; return r;
}
static Ex round_bits(const Ex &a, long p, int mode) { if (a.zero()) return a; return rnd(a, msb(a) - p + 1, mode); }
template <class T> T to_native(const Ex &a, int mode, bool negzero) {
	using N = std::numeric_limits<T>; if (a.zero()) return negzero ? -(T)0 : (T)0; bool ng = mpz_sgn(a.m.z) < 0; Ex r = rnd(a, std::max(msb(a) - N::digits + 1, (long)N::min_exponent - N::digits), mode); if (r.zero()) return ng ? -(T)0 : (T)0;
	if (msb(r) >= N::max_exponent) { bool toinf = mode == FE_TONEAREST || (mode == FE_UPWARD && !ng) || (mode == FE_DOWNWARD && ng); T v = toinf ? N::infinity() : N::max(); return ng ? -v : v; }
	Z m; mpz_abs(m, r.m); unsigned long tz = mpz_scan1(m, 0); mpz_fdiv_q_2exp(m, m, tz); T v = std::ldexp((T)mpz_get_ui(m), (int)(r.e + (long)tz)); return ng ? -v : v;
}
// ------------------------------------------------------------------------------------------------ dyadic floats
template <size_t B> DyadicFloat<B> rdy(Src &s, int elo, int ehi) { // normalised, the leading bit near 2^[elo, ehi]
	UInt<B> m(0); for (auto &w : m.val) w = s.bits(64); switch (s.below(5)) { case 0: for (auto &w : m.val) w = 0; m.val[0] = s.bits(64); break; case 1: for (auto &w : m.val) w = ~0ull; m.val[0] = ~s.below(4); break; case 2: for (size_t i = 0; i + 1 < std::size(m.val); ++i) m.val[i] = 0; break; default: break; }
	if (m.is_zero()) m.val[0] = 1; int e = (int)s.range(elo, ehi); bool ng = s.chance(1, 2); DyadicFloat<B> d(ng ? Sign::NEG : Sign::POS, 0, m); d.exponent = e - (int)B + 1; if (s.verbose) s.notes += "[" + showx(ex(d)) + "] "; return d;
}
template <size_t B> bool normal(const DyadicFloat<B> &d) { return d.mantissa.is_zero() || d.mantissa.get_bit(B - 1); }
template <class T> T finite(Src &s) { T x; do x = s.real_any<T>(); while (!std::isfinite(x) && !s.fixed); if (!std::isfinite(x)) x = 0; s.note("x", x); return x; }
template <size_t B, class T> string from_native(Src &s) {
	T x = finite<T>(s); s.nontrivial = x != 0; DyadicFloat<B> d(x); if (cmpx(ex(d), ex(x)) != 0) return "not represented exactly: " + showx(ex(d)); if (d.sign.is_neg() != std::signbit(x)) return "sign"; if (!normal(d)) return "not normalised";
	if (cmpx(ex(-d), neg(ex(x))) != 0 || (-d).sign == d.sign) return "negation";
	if (x != 0) EQ(d.get_unbiased_exponent(), std::ilogb(x));
	for (int m : kModes) { Mode md(m); EQ((T)d, x); EQ((d.template as<T, false>()), x); EQ((d.template generic_as<T, false>()), x); EQ((d.template generic_as<T, true>()), x); }
	return "";
}
template <size_t B, class T> string to(Src &s) { // any dyadic float to a native type, every mode, one rounding
	using N = std::numeric_limits<T>; DyadicFloat<B> d;
	switch (s.below(6)) { case 0: d = rdy<B>(s, N::min_exponent - N::digits - 4, N::min_exponent + 4); break; case 1: d = rdy<B>(s, N::max_exponent - 3, N::max_exponent + 3); break; case 2: d = rdy<B>(s, -3, 3); break; case 3: d = rdy<B>(s, N::min_exponent - 3 * N::digits - 200, N::max_exponent + 400); break;
	default: { // a neighbour of a midpoint or of a representable value
		T x; do x = s.real_fin<T>(N::min_exponent - N::digits, N::max_exponent - 1); while (x == 0 && !s.fixed); if (x == 0) x = 1; Ex e = ex(x); d = DyadicFloat<B>(x); long q = std::max(msb(e) - N::digits + 1, (long)N::min_exponent - N::digits); long k = s.range(1, 4); long bit = q - k - d.exponent; if (bit >= 0 && bit < (long)B) d.mantissa.set_bit((size_t)bit); if (s.chance(1, 2)) d.mantissa.val[0] |= s.chance(1, 2) ? 1 : 0; if (s.verbose) s.notes += "[" + showx(ex(d)) + "] "; } }
	Ex e = ex(d); s.nontrivial = to_native<T>(e, FE_UPWARD, false) != to_native<T>(e, FE_DOWNWARD, false);
	for (int m : kModes) { T w = to_native<T>(e, m, d.sign.is_neg()); Mode md(m); s.note("mode", m); T g = d.template generic_as<T, false>(), h = d.template as<T, false>(), i = d.template generic_as<T, true>(), j = (T)d, k = d.template fast_as<T, false>(); fesetround(FE_TONEAREST);
		if (!pbt::same(g, w)) return want("generic_as<T,false>", g, w); if (!pbt::same(h, w)) return want("as<T,false>", h, w); if (!pbt::same(i, w)) return want("generic_as<T,true>", i, w); if (!pbt::same(j, w)) return want("operator T", j, w); if (!pbt::same(k, w)) return want("fast_as<T,false>", k, w);
#ifndef NO_CAST
		{ Mode md2(m); T l = d.template as<T, true>(); fesetround(FE_TONEAREST); if (!pbt::same(l, w)) return want("as<T,true>", l, w); }
#endif
	}
	return "";
}
// |g - w| < u
static string within(const Ex &g, const Ex &w, const Ex &u, const char *what) { if (cmpx(absx(add(g, neg(w))), u) <= 0) return ""; return string(what) + ": got " + showx(g) + " exact " + showx(w); }
template <size_t B> string arith(Src &s) {
	constexpr long W = (long)B / 64; DyadicFloat<B> a = rdy<B>(s, -400, 400), b = s.chance(1, 2) ? rdy<B>(s, (int)(a.get_unbiased_exponent() - 3 - (s.chance(1, 2) ? (int)B : 0)), a.get_unbiased_exponent() + 3 + (s.chance(1, 2) ? (int)B : 0)) : rdy<B>(s, -400, 400); if (s.chance(1, 12)) b = a; if (s.chance(1, 16)) b.mantissa = UInt<B>(0); if (s.chance(1, 16)) a.mantissa = UInt<B>(0); if (s.chance(1, 3)) b.sign = a.sign.is_neg() ? Sign::POS : Sign::NEG;
	Ex x = ex(a), y = ex(b); s.nontrivial = !x.zero() && !y.zero(); string r;
	// operands and results stay normalised; sums are within two units of the larger operand's last place and truncated towards it
	Ex sum = add(x, y), dif = add(x, neg(y)), prod = mul(x, y); long top = x.zero() ? (y.zero() ? 0 : msb(y)) : y.zero() ? msb(x) : std::max(msb(x), msb(y));
	DyadicFloat<B> g = TY::quick_add(a, b); if (!normal(g)) return "quick_add: not normalised"; if (x.zero() || y.zero()) { if (cmpx(ex(g), sum)) return "quick_add with zero is not exact: " + showx(ex(g)); } else if (!(r = within(ex(g), sum, pow2(top + 1 - (long)B + 1), "quick_add")).empty()) return r;
	DyadicFloat<B> h = TY::quick_sub(a, b); if (!normal(h)) return "quick_sub: not normalised"; if (!(r = within(ex(h), dif, pow2(top + 1 - (long)B + 1), "quick_sub")).empty()) return r;
	if (x.zero() || y.zero()) { if (!ex(TY::quick_mul(a, b)).zero()) return "quick_mul with zero"; return ""; }
	DyadicFloat<B> p = TY::quick_mul(a, b); if (!normal(p)) return "quick_mul: not normalised"; if ((a.sign == b.sign) != p.sign.is_pos()) return "quick_mul: sign"; if (cmpx(absx(ex(p)), absx(prod)) > 0) return "quick_mul rounded away from zero"; if (!(r = within(ex(p), prod, mul(mk(2 * (uint64_t)W, 0, false), pow2(msb(prod) - (long)B + 1)), "quick_mul")).empty()) return r;
	for (int m : kModes) { Ex wr = round_bits(prod, (long)B, m); DyadicFloat<B> q; { Mode md(m); q = TY::rounded_mul(a, b); } s.note("mode", m); if (!normal(q)) return "rounded_mul: not normalised"; if (cmpx(ex(q), wr)) return "rounded_mul: got " + showx(ex(q)) + " want " + showx(wr);
		// correctly rounded quotient: the exact one, cut far below the last place, with a sticky bit
		Ex num = absx(x); long sh = 2 * (long)B + 40; mpz_mul_2exp(num.m, num.m, (unsigned long)sh); Ex quo; Z rem; mpz_tdiv_qr(quo.m, rem, num.m, absx(y).m); mpz_mul_2exp(quo.m, quo.m, 1); if (mpz_sgn((mpz_ptr)rem)) mpz_setbit(quo.m, 0); quo.e = x.e - y.e - sh - 1; if (a.sign != b.sign) mpz_neg(quo.m, quo.m); Ex wq = round_bits(quo, (long)B, m); DyadicFloat<B> dq; { Mode md(m); dq = TY::rounded_div(a, b); } if (!normal(dq)) return "rounded_div: not normalised"; if (cmpx(ex(dq), wq)) return "rounded_div: got " + showx(ex(dq)) + " want " + showx(wq); }
	int k = (int)s.range(-1000, 1000); Ex sc = x; sc.e += k; if (cmpx(ex(TY::mul_pow_2(a, k)), sc)) return "mul_pow_2";
	// fused step: the errors of the product and of the sum
	DyadicFloat<B> c = rdy<B>(s, (int)std::max(-900L, msb(prod) - 3 - (s.chance(1, 2) ? (long)B : 0)), (int)(std::max(-900L, msb(prod)) + 3 + (s.chance(1, 2) ? (long)B : 0))); Ex z = ex(c), fm = add(prod, z); long t2 = std::max(msb(prod), msb(z)); if (!(r = within(ex(TY::multiply_add(a, b, c)), fm, add(mul(mk(2 * (uint64_t)W, 0, false), pow2(msb(prod) - (long)B + 1)), pow2(t2 + 2 - (long)B)), "multiply_add")).empty()) return r;
	// powers: every multiplication contributes at most 2W units
	unsigned n = (unsigned)s.below(12); DyadicFloat<B> pw = TY::pow_n(a, n); Ex wp = pow2(0); for (unsigned i = 0; i < n; ++i) wp = mul(wp, x); if (!(r = within(ex(pw), wp, mul(mk((uint64_t)(4 * W * (n + 1)), 0, false), pow2(msb(wp) - (long)B + 2)), "pow_n")).empty()) return r; if (n == 0 && cmpx(ex(pw), pow2(0))) return "pow_n(a, 0)";
	return "";
}
template <size_t B> string recip(Src &s) { // a * approx_reciprocal(a) is one, to nearly all bits
	DyadicFloat<B> a = rdy<B>(s, -300, 300); a.sign = Sign::POS; DyadicFloat<B> x = TY::approx_reciprocal(a); Ex p = mul(ex(x), ex(a)); return within(p, pow2(0), pow2(-(long)B + 8), "approx_reciprocal"); }
template <size_t B> string shifts(Src &s) {
	DyadicFloat<B> a = rdy<B>(s, -200, 200), b = a; unsigned k = (unsigned)s.below(B + 20); s.note("k", k); Ex x = ex(a); b.shift_right(k); Ex cut = absx(x); if (k < B) { cut = rnd(cut, a.exponent + (long)k, FE_TOWARDZERO); if (a.sign.is_neg()) cut = neg(cut); if (cmpx(ex(b), cut)) return "shift_right"; if (b.exponent != a.exponent + (int)k) return "shift_right: exponent"; } else if (!b.mantissa.is_zero()) return "shift_right past the width";
	DyadicFloat<B> c = b; c.normalize(); if (!normal(c) || cmpx(ex(c), ex(b))) return "normalize"; DyadicFloat<B> d(b.sign, b.exponent, b.mantissa); if (!normal(d) || cmpx(ex(d), ex(b))) return "constructor from parts"; unsigned lz = (unsigned)S::countl_zero(b.mantissa); if (lz && lz < B) { DyadicFloat<B> e = b; e.shift_left((unsigned)s.below(lz + 1)); if (cmpx(ex(e), ex(b))) return "shift_left"; }
	return "";
}
template <size_t B> string integers(Src &s) { // integer part, truncated and rounded, as two's complement
	DyadicFloat<B> a = rdy<B>(s, s.chance(1, 2) ? -3 : -(int)B - 5, (int)B - 2); if (s.chance(1, 16)) a.mantissa = UInt<B>(0); Ex x = ex(a); s.nontrivial = !x.zero(); auto enc = [&](Ex v) { Z t; if (v.zero()) mpz_set_ui(t, 0); else if (v.e >= 0) mpz_mul_2exp(t, v.m, (unsigned long)v.e); else mpz_tdiv_q_2exp(t, v.m, (unsigned long)-v.e); mpz_fdiv_r_2exp(t, t, B); return t; };
	auto val = [&](const UInt<B> &u) { Z t; mpz_import(t, std::size(u.val), -1, 8, 0, 0, &u.val[0]); return t; };
	{ Z w = enc(rnd(x, 0, FE_TOWARDZERO)), g = val(a.as_mantissa_type()); if (mpz_cmp(w, g)) { Ex t; t.m = g; return "as_mantissa_type: got " + showx(t); } }
	for (int m : kModes) { Ex rr = rnd(x, 0, m); int dir = 7; UInt<B> g; { Mode md(m); g = a.as_mantissa_type_rounded(&dir); } Z gw = val(g), w = enc(rr); s.note("mode", m); if (mpz_cmp(w, gw)) { Ex t; t.m = gw; return "as_mantissa_type_rounded: got " + showx(t) + " want " + showx(rr); } int c = cmpx(absx(rr), absx(x)); if (dir != (c > 0 ? 1 : c < 0 ? -1 : 0)) return want("round_dir", dir, c); }
	return "";
}
template <size_t B> string rdir(Src &s) { // rounding_direction against its definition
	UInt<B> v(0); for (auto &w : v.val) w = s.bits(64); if (s.chance(1, 4)) for (size_t i = 0; i < std::size(v.val); ++i) if (s.chance(1, 2)) v.val[i] = 0; size_t sh = s.chance(1, 3) ? (size_t)s.range(0, 3) + s.below(2) * (B - 2) : s.below(B + 10); bool ng = s.chance(1, 2); s.note("shift", sh); s.note("neg", ng); Ex x; mpz_import(x.m, std::size(v.val), -1, 8, 0, 0, &v.val[0]); if (s.verbose) s.notes += showx(x) + " "; s.nontrivial = sh > 0 && !x.zero(); if (ng) mpz_neg(x.m, x.m);
	for (int m : kModes) { Ex r = rnd(x, (long)sh, m); int c = cmpx(absx(r), absx(x)); int g; { Mode md(m); g = TY::rounding_direction(v, sh, ng ? Sign::NEG : Sign::POS); } s.note("mode", m); if (g != (c > 0 ? 1 : c < 0 ? -1 : 0)) return want("rounding_direction", g, c > 0 ? 1 : c < 0 ? -1 : 0); }
	return "";
}
#define DY(B) static pbt::Reg PBT_CAT(reg_a_, __LINE__)("H02", "dyadic-arith:" #B, arith<B>, 120000); static pbt::Reg PBT_CAT(reg_s_, __LINE__)("H02", "dyadic-shift:" #B, shifts<B>, 60000); static pbt::Reg PBT_CAT(reg_i_, __LINE__)("H02", "dyadic-integer:" #B, integers<B>, 80000); static pbt::Reg PBT_CAT(reg_d_, __LINE__)("H02", "rounding_direction:" #B, rdir<B>, 80000); \
	static pbt::Reg PBT_CAT(reg_f_, __LINE__)("H02", "dyadic-from:float/" #B, from_native<B, float>, 60000); static pbt::Reg PBT_CAT(reg_g_, __LINE__)("H02", "dyadic-from:double/" #B, from_native<B, double>, 60000); static pbt::Reg PBT_CAT(reg_h_, __LINE__)("H02", "dyadic-from:long double/" #B, from_native<B, long double>, 60000); \
	static pbt::Reg PBT_CAT(reg_t_, __LINE__)("H02", "dyadic-to:float/" #B, to<B, float>, 120000); static pbt::Reg PBT_CAT(reg_u_, __LINE__)("H02", "dyadic-to:double/" #B, to<B, double>, 120000); static pbt::Reg PBT_CAT(reg_v_, __LINE__)("H02", "dyadic-to:long double/" #B, to<B, long double>, 120000);
DY(64)
DY(128)
DY(192)
DY(256)
static pbt::Reg rec1("H02", "reciprocal:64", recip<64>, 40000), rec2("H02", "reciprocal:128", recip<128>, 40000), rec3("H02", "reciprocal:256", recip<256>, 40000);
// ------------------------------------------------------------------------------------------------ normalised floats
template <class T> Ex ex(const NormalizedFloat<T> &n) { uint64_t m = (uint64_t)n.mantissa; return mk(m, (long)n.exponent - S::fp::FPBits<T>::fraction_length, n.sign.is_neg()); }
template <class T> string normalized(Src &s) {
	using NF = NormalizedFloat<T>; using N = std::numeric_limits<T>; constexpr int fl = S::fp::FPBits<T>::fraction_length; using st = typename NF::StorageType; const st one = (st)1 << fl; auto norm = [&](const NF &n) { return n.mantissa >= one && (n.mantissa >> fl) == 1; };
	T x = finite<T>(s), y = finite<T>(s); if (s.chance(1, 4)) y = std::nextafter(x, s.chance(1, 2) ? N::infinity() : -N::infinity()); if (!std::isfinite(y)) y = 1; if (s.chance(1, 8)) y = -x; if (x == 0) x = 1; if (y == 0) y = -1; NF a(x), b(y);
	if (!norm(a) || cmpx(ex(a), ex(x))) return "not represented exactly: " + showx(ex(a)); EQ((T)a, x); EQ(a.exponent, std::ilogb(x)); EQ(a.cmp(b), x < y ? -1 : x > y); EQ(a.cmp(a), 0);
	{ NF z((T)(s.chance(1, 2) ? -(T)0 : (T)0)); EQ((uint64_t)z.mantissa, 0u); NF i(N::infinity()); EQ((uint64_t)i.mantissa, 0u); }
	// parts: any mantissa up to the leading bit
	st m = (st)s.bits(fl + 1); if (!m) m = 1; int e = (int)(s.chance(1, 2) ? s.range(N::min_exponent - N::digits - 5, N::min_exponent + 5) : s.chance(1, 2) ? s.range(N::max_exponent - 5, N::max_exponent + 3) : s.range(N::min_exponent - 2 * N::digits, N::max_exponent + 20)); bool ng = s.chance(1, 2); s.note("m", (uint64_t)m); s.note("e", e); s.note("neg", ng); NF c(ng ? Sign::NEG : Sign::POS, e, m); Ex w = mk((uint64_t)m, (long)e - fl, ng); if (!norm(c) || cmpx(ex(c), w)) return "constructor from parts: " + showx(ex(c)); s.nontrivial = msb(w) < N::min_exponent - 1;
	int k = (int)s.range(-60, 60); Ex w2 = w; w2.e += k; if (cmpx(ex(c.mul2(k)), w2)) return "mul2";
	// one rounding to nearest, infinity above the range
	for (int md : kModes) { T g; { Mode q(md); g = (T)c; } T wv = to_native<T>(w, FE_TONEAREST, ng); if (!pbt::same(g, wv)) return want("operator T", g, wv); }
	return "";
}
static pbt::Reg nf1("H02", "normalized:float", normalized<float>, 400000), nf2("H02", "normalized:double", normalized<double>, 400000), nf3("H02", "normalized:long double", normalized<long double>, 400000);
// ------------------------------------------------------------------------------------------------ double-doubles
static double opq(double x) { volatile double v = x; return v; }
static string exact_pair(const char *what, double hi, double lo, const Ex &w) { if (cmpx(add(ex(hi), ex(lo)), w) == 0) return ""; return string(what) + ": hi + lo is " + showx(add(ex(hi), ex(lo))) + ", exact " + showx(w); }
PROPERTY("H02", "double-double:exact", 1000000) {
	double a = s.real_fin<double>(-400, 400), b = s.chance(1, 2) ? s.real_fin<double>(-400, 400) : std::ldexp(s.mantissa<double>(), std::ilogb(a) + (int)s.range(-110, 3)); if (s.chance(1, 2)) b = -b; s.note("a", a); s.note("b", b); a = opq(a); b = opq(b); string r;
	double p = std::fabs(a) >= std::fabs(b) ? a : b, q = std::fabs(a) >= std::fabs(b) ? b : a; auto sum = TY::exact_add(p, q); EQ(sum.hi, p + q); if (!(r = exact_pair("exact_add", sum.hi, sum.lo, add(ex(a), ex(b)))).empty()) return r;
	{ double h = 0, l = 0; S::fast_two_sum(h, l, p, q); EQ(h, p + q); if (!(r = exact_pair("fast_two_sum", h, l, add(ex(a), ex(b)))).empty()) return r; S::two_sum(h, l, a, b); EQ(h, a + b); if (!(r = exact_pair("two_sum", h, l, add(ex(a), ex(b)))).empty()) return r; S::two_sum(h, l, q, p); if (!(r = exact_pair("two_sum", h, l, add(ex(a), ex(b)))).empty()) return r; }
	auto sp = TY::split(a); if (!(r = exact_pair("split", sp.hi, sp.lo, ex(a))).empty()) return r; { Ex h = ex(sp.hi); if (sp.hi != 0 && msb(h) - (h.e + (long)mpz_scan1(h.m, 0)) >= 26) return "split: the high part has more than 26 bits"; Ex l = ex(sp.lo); if (sp.lo != 0 && msb(l) - (l.e + (long)mpz_scan1(l.m, 0)) >= 26) return "split: the low part has more than 26 bits"; }
	if (std::abs(std::ilogb(a) + std::ilogb(b)) < 800) { auto pr = TY::exact_mult(a, b); EQ(pr.hi, a * b); if (!(r = exact_pair("exact_mult", pr.hi, pr.lo, mul(ex(a), ex(b)))).empty()) return r; }
	double c = std::ldexp(s.mantissa<double>(), std::ilogb(a * b) + (int)s.range(-60, 60)); s.note("c", c); if (std::fabs(a * b) > 0x1p-700 && std::fabs(a * b) < 0x1p700) { EQ(TY::exact_fma(a, b, -(a * b)), (to_native<double>(add(mul(ex(a), ex(b)), ex(-(a * b))), FE_TONEAREST, false))); EQ(TY::exact_fma(a, b, c), (to_native<double>(add(mul(ex(a), ex(b)), ex(c)), FE_TONEAREST, false))); }
	return "";
}
static TY::DoubleDouble rdd(Src &s, int lo, int hi) { double h = s.real_fin<double>(lo, hi), l = s.chance(1, 6) ? 0.0 : std::ldexp(s.real_fin<double>(0, 0), std::ilogb(h) - 54 - (int)s.below(12)); TY::DoubleDouble d{ 0, 0 }; d.hi = opq(h + l); d.lo = opq(l - (d.hi - h)); s.note("hi", d.hi); s.note("lo", d.lo); return d; }
static Ex exd(const TY::DoubleDouble &d) { return add(ex(d.hi), ex(d.lo)); }
PROPERTY("H02", "double-double:arith", 600000) {
	TY::DoubleDouble a = rdd(s, -200, 200), b = s.chance(1, 2) ? rdd(s, -200, 200) : rdd(s, std::ilogb(a.hi) - 60, std::ilogb(a.hi) + 1); string r; Ex x = exd(a), y = exd(b), p = mul(x, y);
	auto q = TY::quick_mult(a, b); if (!(r = within(exd(q), p, pow2(msb(p) - 98), "quick_mult(dd, dd)")).empty()) return r; Ex p1 = mul(ex(a.hi), y); auto q1 = TY::quick_mult(a.hi, b); if (!(r = within(exd(q1), p1, pow2(msb(p1) - 100), "quick_mult(d, dd)")).empty()) return r;
	TY::DoubleDouble u = std::fabs(a.hi) >= std::fabs(b.hi) ? a : b, v = std::fabs(a.hi) >= std::fabs(b.hi) ? b : a; Ex su = add(x, y); long top = msb(exd(u)); auto g = TY::add(u, v); if (!(r = within(exd(g), su, pow2(top - 98), "add(dd, dd)")).empty()) return r; Ex s1 = add(exd(u), ex(v.hi)); auto g1 = TY::add(u, v.hi); if (!(r = within(exd(g1), s1, pow2(top - 98), "add(dd, d)")).empty()) return r;
	TY::DoubleDouble c = rdd(s, std::ilogb(a.hi * b.hi), std::ilogb(a.hi * b.hi) + 40); if (std::fabs(c.hi) >= std::fabs(a.hi * b.hi)) { Ex w = add(p, exd(c)); auto f = S::multiply_add(a, b, c); if (!(r = within(exd(f), w, pow2(msb(exd(c)) - 96), "multiply_add(dd)")).empty()) return r; }
	return "";
}
PROPERTY("H02", "long-double:sums", 400000) {
	long double a = s.real_fin<long double>(-5000, 5000), b = s.chance(1, 2) ? s.real_fin<long double>(-5000, 5000) : std::ldexp(s.mantissa<long double>(), std::ilogb(a) + (int)s.range(-130, 3)); s.note("a", a); s.note("b", b); auto sub = [](long double h, long double l, const Ex &w) { return cmpx(add(ex(h), ex(l)), w) == 0; }; if (std::abs(std::ilogb(a) - std::ilogb(b)) < 9000) { long double h = 0, l = 0; S::two_sum(h, l, a, b); EQ(h, a + b); if (!sub(h, l, add(ex(a), ex(b)))) return "two_sum is not exact"; if (std::fabs(a) >= std::fabs(b)) { S::fast_two_sum(h, l, a, b); EQ(h, a + b); if (!sub(h, l, add(ex(a), ex(b)))) return "fast_two_sum is not exact"; } }
	long double xh = 0, xl = 0; S::veltkamp_split(xh, xl, a); if (!sub(xh, xl, ex(a))) return "veltkamp_split is not exact"; Ex h = ex(xh); if (xh != 0 && msb(h) - (h.e + (long)mpz_scan1(h.m, 0)) >= 32) return "veltkamp_split: the high part has more than 32 bits"; return "";
}
#ifndef NO_CAST
template <class O, class I> string cast(Src &s) {
	I x = s.real_any<I>(); if (s.chance(1, 2)) { O o = s.real_any<O>(); if (std::isfinite(o)) { I u = (I)o, v = (I)std::nextafter(o, std::numeric_limits<O>::infinity()); x = (I)(u / 2 + v / 2); if (s.chance(1, 2)) x = std::nextafter(x, s.chance(1, 2) ? std::numeric_limits<I>::infinity() : -std::numeric_limits<I>::infinity()); } } s.note("x", x); s.nontrivial = std::isfinite(x) && x != (I)(O)x;
	for (int m : kModes) { O g; { Mode md(m); g = S::fp::cast<O>(x); } if (std::isnan(x)) { if (!std::isnan(g) || std::signbit(g) != std::signbit(x)) return "NaN"; continue; } O w = std::isinf(x) ? (std::signbit(x) ? -std::numeric_limits<O>::infinity() : std::numeric_limits<O>::infinity()) : to_native<O>(ex(x), m, std::signbit(x)); if (!pbt::same(g, w)) return want("cast", g, w); }
	return "";
}
static pbt::Reg ca1("H02", "cast:double->float", cast<float, double>, 300000), ca2("H02", "cast:long double->double", cast<double, long double>, 300000), ca3("H02", "cast:long double->float", cast<float, long double>, 300000), ca4("H02", "cast:float->double", cast<double, float>, 100000), ca5("H02", "cast:double->long double", cast<long double, double>, 100000), ca6("H02", "cast:double->double", cast<double, double>, 50000);
#endif
int main(int c, char **v) { return pbt::main_(c, v); }
