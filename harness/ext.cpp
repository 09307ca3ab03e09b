// I01, I02: the ext helpers against exact references.
#include "pbt.hpp"
extern "C" { __float128 floorq(__float128); __float128 fmodq(__float128, __float128); __float128 exp2q(__float128); __float128 fabsq(__float128); int quadmath_snprintf(char *, unsigned long, const char *, ...); } // quadmath.h is gcc's own
#define M_PIq 3.141592653589793238462643383279502884Q
#include "ccmath/ext/abs_diff.hpp"
#include "ccmath/ext/align.hpp"
#include "ccmath/ext/approximately.hpp"
#include "ccmath/ext/ceil_div.hpp"
#include "ccmath/ext/chgsign.hpp"
#include "ccmath/ext/clamp.hpp"
#include "ccmath/ext/cubic.hpp"
#include "ccmath/ext/degrees.hpp"
#include "ccmath/ext/delta_angle.hpp"
#include "ccmath/ext/fract.hpp"
#include "ccmath/ext/inverse_lerp.hpp"
#include "ccmath/ext/is_power_of_two.hpp"
#include "ccmath/ext/lerp_angle.hpp"
#include "ccmath/ext/lerp_smooth.hpp"
#include "ccmath/ext/mix.hpp"
#include "ccmath/ext/move_towards.hpp"
#include "ccmath/ext/move_towards_angle.hpp"
#include "ccmath/ext/normalize.hpp"
#include "ccmath/ext/ping_pong.hpp"
#include "ccmath/ext/radians.hpp"
#include "ccmath/ext/rcp.hpp"
#include "ccmath/ext/remap.hpp"
#include "ccmath/ext/repeat.hpp"
#include "ccmath/ext/saturate.hpp"
#include "ccmath/ext/sign.hpp"
#include "ccmath/ext/smoothstep.hpp"
#include "ccmath/ext/step.hpp"
#include "ccmath/ext/unlerp.hpp"
using pbt::Src; using pbt::want; using std::string; namespace ext = ccm::ext;
typedef __int128 W; typedef __float128 Q;
#define EQ(EXPR, EXPECT) do { auto g_ = (EXPR); decltype(g_) w_ = (decltype(g_))(EXPECT); if (!pbt::same(g_, w_)) return want(#EXPR, g_, w_); } while (0)
// ---------------------------------------------------------------- integers
template <class T> bool fits(W v) { return v >= (W)std::numeric_limits<T>::min() && v <= (W)std::numeric_limits<T>::max(); }
template <class T, size_t A> string align1(T v) {
	if constexpr (A - 1 <= (size_t)std::numeric_limits<T>::max()) {
		W x = v, a = (W)A, dn = x - (((x % a) + a) % a), up = dn == x ? x : dn + a;
		if (fits<T>(dn)) { EQ((ext::align_down<T, A>(v)), dn); EQ((ext::align<T, A, ext::AR::Direction::eDOWN>(v)), dn); }
		if (fits<T>(up)) { EQ((ext::align_up<T, A>(v)), up); EQ((ext::align<T, A, ext::AR::Direction::eUP>(v)), up); }
	}
	return "";
}
template <class T> string ints(Src &s) {
	T a = s.integer<T>(), b = s.integer<T>(), c = s.integer<T>(); if (s.chance(1, 4)) b = (T)((W)a + s.range(-3, 3)); s.note("a", a); s.note("b", b); s.note("c", c); string r; s.nontrivial = a != 0 && b != 0;
	W d = (W)a - (W)b; if (d < 0) d = -d; if (fits<T>(d)) EQ(ext::abs_diff(a, b), d);
	EQ(ext::sign(a), (a > 0) - (a < 0)); EQ(ext::step(a, b), b < a ? 0 : 1);
	T lo = std::min(b, c), hi = std::max(b, c); EQ(ext::clamp(a, lo, hi), a < lo ? lo : a > hi ? hi : a);
	if (a >= 0 && b > 0) { W q = ((W)a + (W)b - 1) / (W)b; EQ(ext::ceil_div(a, b), q); EQ(ext::safe::ceil_div(a, b), q); } EQ(ext::safe::ceil_div(a, (T)0), 0);
	auto u = (std::make_unsigned_t<T>)a; bool p2 = a > 0 && (u & (u - 1)) == 0; if (a != std::numeric_limits<T>::min() || std::is_unsigned_v<T>) { EQ(ext::is_power_of_two(a), p2); EQ(ext::ispow2(a), p2); } EQ(ext::safe::is_power_of_two(a), p2); EQ(ext::safe::ispow2(a), p2);
	T k = (T)((T)1 << s.below(8 * sizeof(T) - 1)); EQ(ext::is_power_of_two(k), true); EQ(ext::safe::is_power_of_two(k), true);
#define AL(A) if (!(r = align1<T, A>(a)).empty()) return r;
	AL(1) AL(2) AL(4) AL(8) AL(16) AL(32) AL(64) AL(128) AL(256) AL(1024) AL(4096) AL(32768) AL(65536) AL(1u << 20) AL(1u << 30) AL(1ull << 31) AL(1ull << 32) AL(1ull << 40) AL(1ull << 62) AL(1ull << 63)
	return "";
}
#define INT(T) static pbt::Reg PBT_CAT(reg_i_, __LINE__)("I02", "ints:" #T, ints<T>, 2500000);
INT(signed char)
INT(unsigned char)
INT(short)
INT(unsigned short)
INT(int)
INT(unsigned)
INT(long)
INT(unsigned long)
INT(long long)
INT(unsigned long long)
INT(char)
// every 8-bit operand pair
template <class T> string pairs8(Src &s) {
	T a = (T)s.below(256), b = (T)s.below(256), c = (T)s.below(256); s.note("a", a); s.note("b", b); s.note("c", c); s.nontrivial = true; W d = (W)a - (W)b; if (d < 0) d = -d; if (fits<T>(d)) EQ(ext::abs_diff(a, b), d); if (a >= 0 && b > 0) EQ(ext::ceil_div(a, b), (a + b - 1) / b); if (b <= c) EQ(ext::clamp(a, b, c), a < b ? b : a > c ? c : a); string r; AL(1) AL(2) AL(4) AL(8) AL(16) AL(32) AL(64) AL(128) return "";
}
static pbt::Reg reg_p8("I02", "pairs:signed char", pairs8<signed char>, 3000000), reg_pu8("I02", "pairs:unsigned char", pairs8<unsigned char>, 3000000);
// ---------------------------------------------------------------- reals
// the exact value carried in binary128 (113 bits: sums and products of a few long doubles are good to ~2^-110 relative per step)
template <class T> struct L { static constexpr Q eps = (Q)std::numeric_limits<T>::epsilon(); static constexpr Q tiny = (Q)std::numeric_limits<T>::denorm_min(); };
template <class T> string near(const char *what, T got, Q exp, Q tol) {
	if (fabsq(exp) > (Q)std::numeric_limits<T>::max() * (1 - 64 * L<T>::eps)) return ""; // the formula overflows
	if (std::isnan(got) || std::isinf(got)) return want(what, got, (T)exp); Q e = fabsq((Q)got - exp); if (e <= tol + 4 * L<T>::tiny) return "";
	char b[60]; quadmath_snprintf(b, sizeof b, "%.25Qg", exp); return string(what) + ": got " + Src::show(got) + " want " + b;
}
#define NEAR(EXPR, EXPECT, TOL) do { string r_ = near<T>(#EXPR, (EXPR), (EXPECT), (TOL)); if (!r_.empty()) return r_; } while (0)
template <class T> T arg(Src &s) { return s.chance(1, 4) ? s.real_fin<T>(-60, 60) : s.real_near<T>(); }
template <class T> T wide(Src &s) { return s.chance(1, 3) ? s.real_fin<T>(std::numeric_limits<T>::min_exponent, std::numeric_limits<T>::max_exponent - 12) : arg<T>(s); }
template <class T> string basic(Src &s) {
	T x = s.real_any<T>(), y = s.real_any<T>(), z = s.real_any<T>(); if (s.chance(1, 2)) { x = wide<T>(s); y = wide<T>(s); z = wide<T>(s); } s.note("x", x); s.note("y", y); s.note("z", z); s.nontrivial = std::isfinite(x) && std::isfinite(y) && x != 0;
	Q eps = L<T>::eps;
	EQ(ext::chgsign(x, y), std::copysign(x, y));
	if (!std::isnan(x)) { EQ(ext::sign(x), (T)((x > 0) - (x < 0))); T t = ext::saturate(x); if (!(t >= 0 && t <= 1)) return want("saturate outside [0, 1]", t, (T)0); if (x > 0 && x < 1) EQ(ext::saturate(x), x); if (x >= 1) EQ(ext::saturate(x), (T)1); if (x < 0) { if (ext::saturate(x) != 0) return want("saturate", ext::saturate(x), (T)0); } }
	if (!std::isnan(x) && !std::isnan(y)) { EQ(ext::step(x, y), y < x ? (T)0 : (T)1); }
	if (!std::isnan(x) && !std::isnan(y) && !std::isnan(z)) { T lo = std::min(y, z), hi = std::max(y, z), c = ext::clamp(x, lo, hi), w = x < lo ? lo : x > hi ? hi : x; if (c != w) return want("clamp", c, w); }
	if (std::isfinite(x)) { Q f = (Q)x - floorq((Q)x); NEAR(ext::fract(x), f, eps); T g = ext::fract(x); if (!(g >= 0 && g <= 1)) return want("fract outside [0, 1]", g, (T)f); }
	if (std::isfinite(x) && x != 0) { Q r = 1 / (Q)x; if (fabsq(r) < (Q)std::numeric_limits<T>::max()) NEAR(ext::rcp(x), r, fabsq(r) * eps); }
	if (std::isfinite(x) && fabsq(x) < (Q)std::numeric_limits<T>::max() / 200) { Q pi = M_PIq, d = (Q)x * 180 / pi, r = (Q)x * pi / 180; NEAR(ext::degrees(x), d, fabsq(d) * eps * 3 ); if (std::fabs(x) > std::numeric_limits<T>::min() * 1000 || x == 0) NEAR(ext::radians(x), r, fabsq(r) * eps * 3); }
	if (std::isfinite(x) && std::isfinite(y) && std::isfinite(z)) { T e = std::fabs(z); Q d = fabsq((Q)x - (Q)y); T fd = (T)d; // correctly rounded difference decides
		bool w = fd <= e; if (fabsq(d - (Q)e) > eps * d) { bool g = ext::approximately(x, y, e); if (g != w) return want("approximately", g, w); } if (ext::approximately(x, y, e) != ext::approximately(y, x, e)) return "approximately is not symmetric"; if (!ext::approximately(x, x, e)) return "approximately(x, x) is false"; }
	return "";
}
template <class T> string interp(Src &s) {
	T a = arg<T>(s), b = arg<T>(s), c = arg<T>(s), d = arg<T>(s), t = s.chance(1, 2) ? (T)s.range(0, 64) / 64 : arg<T>(s); if (s.chance(1, 10)) b = a; if (s.chance(1, 10)) t = s.pick(std::vector<T>{ a, b, 0, 1 }); s.note("a", a); s.note("b", b); s.note("c", c); s.note("d", d); s.note("t", t);
	Q eps = L<T>::eps, A = a, B = b, C = c, D = d, X = t; s.nontrivial = a != b && t != 0 && t != 1;
	{ Q u = A * (1 - X), v = B * X; NEAR(ext::mix(a, b, t), u + v, eps * (2 * fabsq(u) + 2 * fabsq(v) + fabsq(u + v))); if (a != 0 && std::isfinite(a)) EQ(ext::mix(a, b, (T)0), a); EQ(ext::mix(a, b, (T)1) + 0, b + 0); auto m = ext::mix(a, (double)b, t); if (std::fabs((double)(m - ext::mix((decltype(m))a, (decltype(m))b, (decltype(m))t))) > 1e-4 * (std::fabs((double)u) + std::fabs((double)v))) return "mixed-type mix differs"; }
	if (a != b) {
		Q u = (X - A) / (B - A), tol = 4 * eps * fabsq(u);
		NEAR(ext::unlerp(a, b, t), u, tol); NEAR(ext::inverse_lerp(a, b, t), u, tol); NEAR(ext::safe::unlerp(a, b, t), u, tol); NEAR(ext::safe::inverse_lerp(a, b, t), u, tol);
		Q n = u < 0 ? 0 : u > 1 ? 1 : u; NEAR(ext::normalize(t, a, b), n, tol); NEAR(ext::safe::normalize(t, a, b), n, tol); T g = ext::normalize(t, a, b); if (!(g >= 0 && g <= 1)) return want("normalize outside [0, 1]", g, (T)n);
		Q dd = D - C, m = u * dd, r = C + m; NEAR(ext::remap(a, b, c, d, t), r, 8 * eps * fabsq(m) + eps * fabsq(r)); NEAR(ext::safe::remap(a, b, c, d, t), r, 8 * eps * fabsq(m) + eps * fabsq(r)); EQ(ext::remap(a, b, c, d, a) + 0, c + 0);
		Q ss = n * n * (3 - 2 * n); NEAR(ext::smoothstep(a, b, t), ss, 16 * eps * n); T sv = ext::smoothstep(a, b, t); if (!(sv >= 0 && sv <= 1)) return want("smoothstep outside [0, 1]", sv, (T)ss);
	} else { EQ(ext::safe::unlerp(a, b, t), (T)0); EQ(ext::safe::inverse_lerp(a, b, t), (T)0); EQ(ext::safe::normalize(t, a, b), (T)0); EQ(ext::safe::remap(a, b, c, d, t), c); }
	{ Q a0 = D - C - A + B, a1 = A - B - a0, a2 = C - A, r = a0 * X * X * X + a1 * X * X + a2 * X + B, M = fabsq(A) + fabsq(B) + fabsq(C) + fabsq(D), tx = fabsq(X); NEAR(ext::cubic(a, b, c, d, t), r, 16 * eps * M * (1 + tx + tx * tx + tx * tx * tx)); EQ(ext::cubic(a, b, c, d, (T)0) + 0, b + 0); }
	{ T h = s.real_near<T>(); h = std::fabs(h) + std::ldexp((T)1, -5); T dt = std::fabs(t); s.note("h", h); Q e = exp2q(-(Q)dt / (Q)h), r = B + (A - B) * e; Q ex = fabsq((Q)dt / (Q)h) + 8; Q acc = std::is_same_v<T, long double> ? (Q)std::numeric_limits<double>::epsilon() : eps; if ((Q)dt / (Q)h < (std::is_same_v<T, float> ? 120 : 1000)) NEAR(ext::lerp_smooth(a, b, dt, h), r, acc * ex * fabsq(A - B) * e * 2 + eps * (fabsq(r) + fabsq(A - B) * e * 2)); EQ(ext::lerp_smooth(a, a, dt, h) + 0, a + 0); }
	return "";
}
template <class T> Q modq(Q v, Q m) { Q r = fmodq(v, m); return r < 0 ? r + m : r; }
template <class T> string cyclic(Src &s) {
	T x = arg<T>(s), y = arg<T>(s), md = std::fabs(arg<T>(s)); if (s.chance(1, 2)) { x *= 64; y *= 64; } if (s.chance(1, 4)) { x = (T)s.range(-40, 40) * 45; y = (T)s.range(-40, 40) * 45; } if (s.chance(1, 5)) x = y * (T)s.range(-20, 20); s.note("x", x); s.note("y", y); s.note("md", md); Q eps = L<T>::eps; T t = (T)s.range(-32, 64) / 32; s.note("t", t);
	T len = std::fabs(y); s.nontrivial = len != 0 && x != 0;
	if (len == 0) { EQ(ext::safe::repeat(x, len), (T)0); EQ(ext::ping_pong(x, len), (T)0); }
	else {
		T g = ext::repeat(x, len), g2 = ext::safe::repeat(x, len); EQ(g2, g); if (!(g >= 0 && g < len)) return want("repeat outside [0, length)", g, len);
		Q e = modq<T>(x, len), d = fabsq((Q)g - e); if (d > (Q)len / 2) d = (Q)len - d; if (d > 4 * eps * (fabsq(x) + (Q)len) + 4 * L<T>::tiny) return want("repeat: value", g, (T)e);
		T p = ext::ping_pong(x, len); if (!(p >= 0 && p <= len)) return want("ping_pong outside [0, range]", p, len); Q f = modq<T>(x, 2 * (Q)len), w = f > (Q)len ? 2 * (Q)len - f : f; if (fabsq((Q)p - w) > 8 * eps * (fabsq(x) + (Q)len) + 4 * L<T>::tiny) return want("ping_pong: value", p, (T)w);
	}
	if (fabsq(x) < (Q)std::numeric_limits<T>::max() / 4) {
		T d = ext::delta_angle(x, y), d2 = ext::safe::delta_angle(x, y); EQ(d2, d); if (!(d >= -180 && d <= 180)) return want("delta_angle outside [-180, 180]", d, (T)0);
		Q df = modq<T>((Q)y - (Q)x, 360); if (df > 180) df -= 360; Q err = fabsq((Q)d - df); if (err > 180) err = 360 - err; Q tol = 4 * eps * (fabsq(x) + fabsq(y) + 360); if (err > tol) return want("delta_angle: value", d, (T)df);
		T la = ext::lerp_angle(x, y, t); EQ(ext::safe::lerp_angle(x, y, t), la); NEAR(la, (Q)x + (Q)d * (Q)t, eps * 2 * (fabsq(x) + 360 * fabsq(t)));
		T ma = ext::move_towards_angle(x, y, md); EQ(ext::safe::move_towards_angle(x, y, md), ma); Q mv = (Q)ma - (Q)x; if (fabsq(mv) > ((Q)md < fabsq(d) ? (Q)md : fabsq(d)) + eps * 2 * (fabsq(x) + 360)) return want("move_towards_angle moves too far", ma, x); if (fabsq(mv) < ((Q)md < fabsq(d) ? (Q)md : fabsq(d)) - eps * 2 * (fabsq(x) + 360)) return want("move_towards_angle moves too little", ma, x);
	}
	T m = ext::move_towards(x, y, md); if (fabsq((Q)y - (Q)x) <= (Q)md) EQ(m, y); else { NEAR(m, y > x ? (Q)x + (Q)md : (Q)x - (Q)md, eps * (fabsq(x) + (Q)md)); if (y > x ? m > y || m < x : m < y || m > x) return want("move_towards overshoots", m, y); }
	return "";
}
#define REAL(T) static pbt::Reg PBT_CAT(reg_b_, __LINE__)("I01", "basic:" #T, basic<T>, 1500000), PBT_CAT(reg_t_, __LINE__)("I01", "interpolation:" #T, interp<T>, 700000), PBT_CAT(reg_c_, __LINE__)("I01", "cyclic:" #T, cyclic<T>, 1000000);
REAL(float)
REAL(double)
REAL(long double)
int main(int c, char **v) { return pbt::main_(c, v); }
