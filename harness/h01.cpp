// H01: BigInt against GMP.
#include "pbt.hpp"
#include <gmp.h>
#include "ccmath/internal/types/big_int.hpp"
using namespace ccm::types;
struct Z { mpz_t z; Z() { mpz_init(z); } explicit Z(long v) { mpz_init_set_si(z, v); } Z(const Z &o) { mpz_init_set(z, o.z); } Z &operator=(const Z &o) { mpz_set(z, o.z); return *this; } ~Z() { mpz_clear(z); } operator mpz_ptr() { return z; } operator mpz_srcptr() const { return z; } };
static std::string zs(const Z &a) { char *c = mpz_get_str(nullptr, 16, a); std::string s = c; void (*fr)(void *, size_t); mp_get_memory_functions(nullptr, nullptr, &fr); fr(c, strlen(c) + 1); return s; }
template <class B> struct Tr; template <size_t Bits, bool S, class W> struct Tr<BigInt<Bits, S, W>> { static constexpr size_t bits = Bits; static constexpr bool sgn = S; using word = W; using U = BigInt<Bits, false, W>; };
// the value as an unsigned pattern / with its sign
template <class B> Z pat(const B &v) { using T = Tr<B>; Z r; for (size_t i = T::bits / (8 * sizeof(typename T::word)); i-- > 0;) { mpz_mul_2exp(r, r, 8 * sizeof(typename T::word)); mpz_add_ui(r, r, (unsigned long)v[i]); } return r; }
template <class B> Z val(const B &v) { Z r = pat(v); if (Tr<B>::sgn && mpz_tstbit(r, Tr<B>::bits - 1)) { Z m(1); mpz_mul_2exp(m, m, Tr<B>::bits); mpz_sub(r, r, m); } return r; }
template <class B> void wrap(Z &a) { mpz_fdiv_r_2exp(a, a, Tr<B>::bits); }
template <class B> bool eqz(const B &got, Z exp) { wrap<B>(exp); return mpz_cmp(pat(got), exp) == 0; }
template <class B> B draw(pbt::Src &s) {
	using T = Tr<B>; using W = typename T::word; constexpr int wb = 8 * sizeof(W); constexpr size_t n = T::bits / wb; B r;
	switch (s.below(6)) {
	case 0: for (size_t i = 0; i < n; ++i) r[i] = (W)s.bits(wb); break;
	case 1: for (size_t i = 0; i < n; ++i) r[i] = 0; r[s.below(n)] = (W)s.bits(wb); break;                                   // one word
	case 2: for (size_t i = 0; i < n; ++i) r[i] = (W)~(W)0; r[s.below(n)] = (W)s.bits(wb); break;                            // all ones but one word
	case 3: { size_t a = s.below(T::bits), b = s.below(T::bits); if (a > b) std::swap(a, b); for (size_t i = 0; i < n; ++i) r[i] = 0; for (size_t i = a; i <= b; ++i) r[i / wb] = (W)(r[i / wb] | (W)((W)1 << (i % wb))); break; } // a run
	case 4: { size_t k = 1 + s.below(n); for (size_t i = 0; i < n; ++i) r[i] = i < k ? (W)s.bits(wb) : 0; break; }           // short
	default: { bool ones = s.chance(1, 2); for (size_t i = 0; i < n; ++i) r[i] = ones ? (W)~(W)0 : 0; r[0] = (W)(r[0] + (W)s.below(7) - 3); if (s.chance(1, 3)) r[n - 1] = (W)(r[n - 1] ^ (W)((W)1 << (wb - 1))); break; }
	}
	return r;
}
template <class B> void nt(pbt::Src &s, const char *n, const B &v) { if (s.verbose) s.notes += std::string(n) + "=0x" + zs(pat(v)) + " "; }
#define CHK(WHAT, GOT, EXP) do { if (!eqz(GOT, EXP)) return std::string(WHAT) + ": got 0x" + zs(pat(GOT)) + " want 0x" + [&] { Z e_ = EXP; wrap<std::decay_t<decltype(GOT)>>(e_); return zs(e_); }(); } while (0)
template <class B> std::string arith(pbt::Src &s) {
	using T = Tr<B>; B a = draw<B>(s), b = draw<B>(s); nt(s, "a", a); nt(s, "b", b); Z x = val(a), y = val(b), e; s.nontrivial = mpz_sgn((mpz_srcptr)x) && mpz_sgn((mpz_srcptr)y);
	mpz_add(e, x, y); CHK("a + b", B(a + b), e); CHK("a + B(b)", B(a + B(b)), e); { B t = a; t += b; CHK("a += b", t, e); t = a; auto c = t.add_overflow(b); Z f; mpz_add(f, pat(a), pat(b)); if ((c != 0) != (mpz_sizeinbase(f, 2) > T::bits)) return "add_overflow: carry"; CHK("add_overflow", t, e); }
	mpz_sub(e, x, y); CHK("a - b", B(a - b), e); CHK("a - B(b)", B(a - B(b)), e); { B t = a; t -= b; CHK("a -= b", t, e); t = a; auto c = t.sub_overflow(b); if ((c != 0) != (mpz_cmp(pat(a), pat(b)) < 0)) return "sub_overflow: borrow"; CHK("sub_overflow", t, e); }
	mpz_neg(e, x); CHK("-a", B(-a), e);
	mpz_add_ui(e, x, 1); { B t = a; B o = t++; CHK("a++", t, e); CHK("a++ (old)", o, x); t = a; CHK("++a", B(++t), e); } mpz_sub_ui(e, x, 1); { B t = a; B o = t--; CHK("a--", t, e); CHK("a-- (old)", o, x); t = a; CHK("--a", B(--t), e); }
	mpz_mul(e, x, y); CHK("a * b", B(a * b), e); { B t = a; t *= b; CHK("a *= b", t, e); }
	if constexpr (!T::sgn) {
		auto p = a.ful_mul(b); CHK("a.ful_mul(b)", p, e);
		B q = a.quick_mul_hi(b); Z hi; mpz_fdiv_q_2exp(hi, e, T::bits); mpz_sub(hi, hi, pat(q)); constexpr size_t n = T::bits / (8 * sizeof(typename T::word)); if (mpz_sgn((mpz_srcptr)hi) < 0 || mpz_cmp_ui((mpz_srcptr)hi, n - 1) > 0) return "quick_mul_hi: error " + zs(hi) + " outside 0.." + std::to_string(n - 1);
	}
	{ B t = a; auto w = (typename T::word)b[0]; auto c = t.mul(w); Z f, g; mpz_mul_ui(f, pat(a), (unsigned long)w); CHK("a.mul(word)", t, f); mpz_fdiv_q_2exp(g, f, T::bits); if (mpz_cmp_ui((mpz_srcptr)g, (unsigned long)c)) return "a.mul(word): carry"; }
	return "";
}
template <class B> std::string divi(pbt::Src &s) {
	using T = Tr<B>; B a = draw<B>(s), b = draw<B>(s); nt(s, "a", a); nt(s, "b", b); Z x = val(a), y = val(b), q, r; if (mpz_sgn((mpz_srcptr)y) == 0) { s.nontrivial = false; B t = a; if (t.div(b).has_value()) return "division by zero returns a value"; return ""; }
	mpz_tdiv_qr(q, r, x, y); s.nontrivial = mpz_sgn((mpz_srcptr)q) != 0; CHK("a / b", B(a / b), q); CHK("a % b", B(a % b), r); { B t = a; auto rem = t.div(b); if (!rem) return "div: no remainder"; CHK("div: quotient", t, q); CHK("div: remainder", *rem, r); t = a; t /= b; CHK("a /= b", t, q); }
	if constexpr (!T::sgn && sizeof(typename T::word) > 1) {
		auto h = (multiword::half_width_t<typename T::word>)s.bits(4 * sizeof(typename T::word)); size_t e = s.below(T::bits + 8); s.note("x", (uint64_t)h); s.note("e", e); B t = a; auto rem = t.div_uint_half_times_pow_2(h, e);
		if (!h) { if (rem) return "div_uint_half_times_pow_2 by zero returns a value"; return ""; }
		Z d((long)0); mpz_set_ui(d, h); mpz_mul_2exp(d, d, e); mpz_tdiv_qr(q, r, x, d); if (!rem) return "div_uint_half_times_pow_2: no remainder"; CHK("div_uint_half_times_pow_2: quotient", t, q); CHK("div_uint_half_times_pow_2: remainder", *rem, r);
		t = a; uint64_t n = s.chance(1, 3) ? s.bits(64) : s.below(200); s.note("n", n); t.pow_n(n); Z m(1), pw; mpz_mul_2exp(m, m, T::bits); Z ne; mpz_set_ui(ne, n); mpz_powm(pw, x, ne, m); CHK("pow_n", t, pw);
	}
	return "";
}
template <class B> std::string bitsp(pbt::Src &s) {
	using T = Tr<B>; B a = draw<B>(s), b = draw<B>(s); size_t k = s.below(T::bits); nt(s, "a", a); nt(s, "b", b); s.note("k", k); Z x = pat(a), y = pat(b), sx = val(a), sy = val(b), e;
	s.nontrivial = mpz_sgn((mpz_srcptr)x) && k;
	mpz_and(e, x, y); CHK("a & b", B(a & b), e); { B t = a; t &= b; CHK("a &= b", t, e); } mpz_ior(e, x, y); CHK("a | b", B(a | b), e); { B t = a; t |= b; CHK("a |= b", t, e); } mpz_xor(e, x, y); CHK("a ^ b", B(a ^ b), e); { B t = a; t ^= b; CHK("a ^= b", t, e); } mpz_com(e, x); CHK("~a", B(~a), e);
	mpz_mul_2exp(e, x, k); CHK("a << k", B(a << k), e); { B t = a; t <<= k; CHK("a <<= k", t, e); CHK("a << int(k)", B(a << (int)k), e); } mpz_fdiv_q_2exp(e, sx, k); CHK("a >> k", B(a >> k), e); { B t = a; t >>= k; CHK("a >>= k", t, e); }
	if (a.get_bit(k) != (bool)mpz_tstbit((mpz_srcptr)x, k)) return "get_bit"; { B t = a; t.set_bit(k); e = x; mpz_setbit(e, k); CHK("set_bit", t, e); }
	B c = s.chance(1, 4) ? a : b; if (s.chance(1, 4)) { c = a; c.set_bit(k); } nt(s, "c", c); int cm = mpz_cmp(sx, val(c));
	if ((a == c) != (cm == 0) || (a != c) != (cm != 0) || (a < c) != (cm < 0) || (a > c) != (cm > 0) || (a <= c) != (cm <= 0) || (a >= c) != (cm >= 0)) return "comparison of a and c";
	if (a.is_zero() != (mpz_sgn((mpz_srcptr)x) == 0) || (bool)a == a.is_zero()) return "is_zero / bool"; if (a.is_neg() != (mpz_sgn((mpz_srcptr)sx) < 0)) return "is_neg";
	// bit queries
	int pc = (int)mpz_popcount((mpz_srcptr)x), bl = mpz_sgn((mpz_srcptr)x) ? (int)mpz_sizeinbase((mpz_srcptr)x, 2) : 0, N = (int)T::bits; Z cx; mpz_com(cx, x); mpz_fdiv_r_2exp(cx, cx, T::bits); int cbl = mpz_sgn((mpz_srcptr)cx) ? (int)mpz_sizeinbase((mpz_srcptr)cx, 2) : 0;
	using namespace ccm::support;
#define Q(EXPR, EXPECT) do { int g_ = (int)(EXPR), w_ = (int)(EXPECT); if (g_ != w_) return pbt::want(#EXPR, g_, w_); } while (0)
	int tz = pc ? (int)mpz_scan1((mpz_srcptr)x, 0) : N, to = pc < N ? (int)mpz_scan0((mpz_srcptr)x, 0) : N;
	Q(popcount(a), pc); Q(has_single_bit(a), pc == 1); Q(countl_zero(a), N - bl); Q(countr_zero(a), tz); Q(countl_one(a), N - cbl); Q(countr_one(a), to); Q(count_zeros(a), N - pc);
	if constexpr (!T::sgn) {
		Q(bit_width(a), bl); Q(first_leading_zero(a), pc == N ? 0 : N - cbl + 1); Q(first_leading_one(a), pc == 0 ? 0 : N - bl + 1); Q(first_trailing_zero(a), pc == N ? 0 : to + 1); Q(first_trailing_one(a), pc == 0 ? 0 : tz + 1);
		int r = (int)s.range(-2 * N, 2 * N); s.note("r", r); int m = ((r % N) + N) % N; Z l, h; mpz_mul_2exp(l, x, m); mpz_fdiv_q_2exp(h, x, N - m); mpz_ior(e, l, h); CHK("rotl", B(rotl(a, r)), e); m = (N - m) % N; mpz_mul_2exp(l, x, m); mpz_fdiv_q_2exp(h, x, N - m); mpz_ior(e, l, h); CHK("rotr", B(rotr(a, r)), e);
	}
	return "";
}
template <class B, class I> std::string conv1(pbt::Src &s, const B &a, const Z &x) {
	I i = s.integer<I>(); s.note("i", i); Z e; if (std::is_signed_v<I>) mpz_set_si(e, (long)i); else mpz_set_ui(e, (unsigned long)i); B f(i); if (mpz_cmp_si((mpz_srcptr)e, 0) >= 0 || Tr<B>::sgn || true) { CHK("B(integer)", f, e); }
	{ B t; t = i; CHK("b = integer", t, e); if (!(t == i)) return "b == integer"; }
	Z w = x; mpz_fdiv_r_2exp(w, w, 8 * sizeof(I)); I g = a.template to<I>(), g2 = static_cast<I>(a); unsigned long p = mpz_get_ui((mpz_srcptr)w); if ((std::make_unsigned_t<I>)g != (std::make_unsigned_t<I>)p) return "to<integer of " + std::to_string(sizeof(I)) + " bytes>: got " + std::to_string((long long)g) + " want pattern 0x" + zs(w); if (g != g2) return "static_cast<integer> differs from to<>";
	return "";
}
template <class B> std::string conv(pbt::Src &s) {
	using T = Tr<B>; B a = draw<B>(s); nt(s, "a", a); Z x = val(a); std::string r;
#define C1(I) if (!(r = conv1<B, I>(s, a, x)).empty()) return r;
	C1(signed char) C1(unsigned char) C1(short) C1(unsigned short) C1(int) C1(unsigned) C1(long) C1(unsigned long) C1(long long) C1(unsigned long long)
	{ __uint128_t g = a.template to<__uint128_t>(); Z w = x; mpz_fdiv_r_2exp(w, w, 128); Z l, h; mpz_fdiv_r_2exp(l, w, 64); mpz_fdiv_q_2exp(h, w, 64); if (g != (((__uint128_t)mpz_get_ui((mpz_srcptr)h) << 64) | mpz_get_ui((mpz_srcptr)l))) return "to<unsigned __int128>"; __int128_t g3 = a.template to<__int128_t>(); if ((__uint128_t)g3 != g) return "to<__int128>"; }
	{ __int128_t i = (__int128_t)(((__uint128_t)s.bits(64) << 64) | s.bits(64)); s.note("i128", i); B f(i); Z e; mpz_set_si(e, (long)(i >> 64)); mpz_mul_2exp(e, e, 64); Z l; mpz_set_ui(l, (unsigned long)(__uint128_t)i); mpz_add(e, e, l); CHK("B(__int128)", f, e); }
	// other widths, same word type
	using W = typename T::word;
	{ BigInt<T::bits * 2, T::sgn, W> w(a); CHK("widening", w, x); B back(w); CHK("narrowing", back, x); auto y = draw<BigInt<T::bits * 2, T::sgn, W>>(s); nt(s, "y", y); B n(y); CHK("narrowing conversion", n, val(y)); B n2 = static_cast<B>(y); CHK("explicit narrowing", n2, val(y)); }
	{ BigInt<T::bits, !T::sgn, W> o(a); CHK("signedness conversion", o, x); }
	if constexpr (T::sgn) { using U = typename T::U; if (mpz_sgn((mpz_srcptr)x) >= 0) { BigInt<T::bits * 2, false, W> w(a); CHK("signed to wider unsigned", w, x); } U u(a); CHK("signed to unsigned", u, x); }
	else { BigInt<T::bits * 2, true, W> w(a); CHK("unsigned to wider signed", w, x); }
	// other word sizes, other widths
	if constexpr (sizeof(W) == 8) { BigInt<T::bits * 2, T::sgn, uint32_t> w(a); CHK("wider, 32-bit words", w, x); B back(w); CHK("narrower, from 32-bit words", back, x); if constexpr (T::bits > 64) { BigInt<T::bits / 2, T::sgn, uint32_t> n(a); CHK("narrower, 32-bit words", n, x); B up(n); CHK("wider, from 32-bit words", up, val(n)); BigInt<96, T::sgn, uint32_t> k(a); CHK("96 bits", k, x); B kk(k); if constexpr (T::bits >= 96) CHK("from 96 bits", kk, val(k)); } else { BigInt<32, T::sgn, uint32_t> n(a); CHK("to 32 bits", n, x); B up(n); CHK("from 32 bits", up, val(n)); BigInt<96, T::sgn, uint32_t> k(a); CHK("to 96 bits", k, x); } }
	if (!eqz(B::zero(), Z(0)) || !eqz(B::one(), Z(1)) || !eqz(B::all_ones(), Z(-1))) return "zero/one/all_ones";
	{ Z m(1); mpz_mul_2exp(m, m, T::bits - T::sgn); mpz_sub_ui(m, m, 1); CHK("max()", B::max(), m); CHK("numeric_limits max", std::numeric_limits<B>::max(), m); Z n(0); if (T::sgn) { mpz_add_ui(n, m, 1); mpz_neg(n, n); } CHK("min()", B::min(), n); CHK("numeric_limits min", std::numeric_limits<B>::min(), n); }
	return "";
}
// a history: a random program over three registers, compared with the model after every step
template <class B> std::string history(pbt::Src &s) {
	using T = Tr<B>; B r[3]; Z m[3]; for (int i = 0; i < 3; ++i) { r[i] = draw<B>(s); nt(s, "r", r[i]); m[i] = val(r[i]); } int n = (int)s.range(1, 14);
	auto norm = [&](Z &z) { wrap<B>(z); if (T::sgn && mpz_tstbit((mpz_srcptr)z, T::bits - 1)) { Z k(1); mpz_mul_2exp(k, k, T::bits); mpz_sub(z, z, k); } };
	for (int i = 0; i < n; ++i) {
		int op = (int)s.below(14), d = (int)s.below(3), a = (int)s.below(3); size_t k = s.below(T::bits); if (s.verbose) s.notes += "op" + std::to_string(op) + "(r" + std::to_string(d) + ",r" + std::to_string(a) + "," + std::to_string(k) + ") "; Z t;
		switch (op) {
		case 0: r[d] += r[a]; mpz_add(m[d], m[d], m[a]); break; case 1: r[d] -= r[a]; mpz_sub(m[d], m[d], m[a]); break; case 2: r[d] *= r[a]; mpz_mul(m[d], m[d], m[a]); break;
		case 3: if (mpz_sgn((mpz_srcptr)m[a])) { r[d] /= B(r[a]); t = m[a]; mpz_tdiv_q(m[d], m[d], t); } break; case 4: if (mpz_sgn((mpz_srcptr)m[a])) { r[d] = r[d] % r[a]; t = m[a]; mpz_tdiv_r(m[d], m[d], t); } break;
		case 5: r[d] <<= k; mpz_mul_2exp(m[d], m[d], k); break; case 6: r[d] >>= k; mpz_fdiv_q_2exp(m[d], m[d], k); break; case 7: r[d] = ~r[a]; mpz_com(m[d], m[a]); break; case 8: r[d] = -r[a]; mpz_neg(m[d], m[a]); break;
		case 9: r[d] &= r[a]; mpz_and(m[d], m[d], m[a]); break; case 10: r[d] |= r[a]; mpz_ior(m[d], m[d], m[a]); break; case 11: r[d] ^= r[a]; mpz_xor(m[d], m[d], m[a]); break; case 12: ++r[d]; mpz_add_ui(m[d], m[d], 1); break; case 13: r[d].set_bit(k); mpz_setbit(m[d], k); break;
		}
		norm(m[d]); CHK("history: register after step " + std::to_string(i), r[d], m[d]);
	}
	return "";
}
#define ALL(NAME, ...) \
	static pbt::Reg reg_a_##NAME("H01", #NAME ":arith", arith<__VA_ARGS__>, 500000); static pbt::Reg reg_d_##NAME("H01", #NAME ":div", divi<__VA_ARGS__>, 200000); static pbt::Reg reg_b_##NAME("H01", #NAME ":bits", bitsp<__VA_ARGS__>, 400000); static pbt::Reg reg_c_##NAME("H01", #NAME ":conv", conv<__VA_ARGS__>, 300000); static pbt::Reg reg_h_##NAME("H01", #NAME ":history", history<__VA_ARGS__>, 150000);
ALL(u64, UInt<64>) ALL(u128, UInt<128>) ALL(u192, UInt<192>) ALL(u256, UInt<256>) ALL(u320, UInt<320>) ALL(u512, UInt<512>) ALL(u1024, UInt<1024>) ALL(u96, UInt<96>) ALL(u128w32, BigInt<128, false, uint32_t>) ALL(u160w32, BigInt<160, false, uint32_t>) ALL(u64w16, BigInt<64, false, uint16_t>)
ALL(i64, Int<64>) ALL(i128, Int<128>) ALL(i192, Int<192>) ALL(i256, Int<256>) ALL(i512, Int<512>) ALL(i96, Int<96>) ALL(i256w32, BigInt<256, true, uint32_t>) ALL(i64w16, BigInt<64, true, uint16_t>)
int main(int c, char **v) { return pbt::main_(c, v); }
