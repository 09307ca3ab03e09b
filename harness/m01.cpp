// M01: nan tags and the named constants.
#include "pbt.hpp"
#include "ccmath/math/basic/nan.hpp"
#include "ccmath/math/numbers.hpp"
#include <mpfr.h>
using pbt::Src; using pbt::want; using std::string; typedef unsigned __int128 U;
template <class T> struct L;
template <> struct L<float> { static constexpr int bytes = 4, quiet = 22, top = 8; static float f(const char *s) { return ccm::nanf(s); } static constexpr float cf(const char *s) { return ccm::nanf(s); } };
template <> struct L<double> { static constexpr int bytes = 8, quiet = 51, top = 11; static double f(const char *s) { return ccm::nan(s); } static constexpr double cf(const char *s) { return ccm::nan(s); } };
template <> struct L<long double> { static constexpr int bytes = 10, quiet = 62, top = 15; static long double f(const char *s) { return ccm::nanl(s); } static constexpr long double cf(const char *s) { return ccm::nanl(s); } };
template <class T> U bits(T v) { U u = 0; memcpy(&u, &v, L<T>::bytes); return u; }
template <class T> U quiet_bits(U payload) { U one = 1; return payload | one << L<T>::quiet | (std::is_same_v<T, long double> ? one << 63 : U(0)) | ((one << L<T>::top) - 1) << (L<T>::bytes * 8 - 1 - L<T>::top); }
template <class T> string judge(T v, bool exact, U payload) {
	U u = bits(v), must = quiet_bits<T>(0), sign = U(1) << (L<T>::bytes * 8 - 1);
	if ((u & must) != must || (u & sign)) return want("a positive quiet NaN", u, must);
	if (exact && u != quiet_bits<T>(payload)) return want("the tag's payload", u, quiet_bits<T>(payload));
	return "";
}
// the largest tag value stored exactly: what fits beside the quiet bit, and at most 10^18
template <class T> constexpr uint64_t limit() { return std::is_same_v<T, long double> ? 1000000000000000000ull : 1ull << L<T>::quiet; }
static char *tail(const string &t) { // the terminator is the last mapped byte
	static char *pg = nullptr; static const size_t P = 4096;
	if (!pg) { pg = (char *)mmap(nullptr, 2 * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(pg + P, P, PROT_NONE); }
	memset(pg, 'f', P); char *p = pg + P - t.size() - 1; memcpy(p, t.c_str(), t.size() + 1); return p;
}
template <class T> uint64_t value(Src &s) { uint64_t m = limit<T>() - 1; uint64_t v = s.bits(64); switch (s.below(4)) { case 0: return v % (m + 1); case 1: return m - v % 20; case 2: return v % 100; default: return (v & ((1ull << s.range(1, 59)) - 1)) % (m + 1); } }
static string digits(uint64_t v, int base, Src &s) { string t; do { int d = (int)(v % base); t.insert(t.begin(), (char)(d < 10 ? '0' + d : (s.chance(1, 2) ? 'A' : 'a') + d - 10)); v /= base; } while (v); return t; }
template <class T> string tag(Src &s) {
	string t; bool exact = false; U pay = 0; const char *p = nullptr;
	switch (s.below(8)) {
	case 0: exact = true; s.label = "none"; s.nontrivial = false; if (s.chance(1, 2)) return judge(L<T>::f(nullptr), true, 0); break;
	case 1: case 2: { uint64_t v = value<T>(s); t = digits(v, 10, s); exact = true; pay = v; s.label = "decimal"; break; }
	case 3: case 4: { uint64_t v = value<T>(s); t = digits(v, 16, s); size_t z = s.chance(1, 3) ? s.below(16) : 0; if (t.size() + z > 40) z = 0; t = string(s.chance(1, 2) ? "0X" : "0x") + string(z, '0') + t; exact = true; pay = v; s.label = "hexadecimal"; break; }
	case 5: { size_t n = s.range(1, 60); for (size_t i = 0; i < n; ++i) t += (char)('0' + s.below(10)); if (s.chance(1, 3)) t = "0x" + t; s.label = "long"; break; }
	case 6: { // a decimal tag holding something that is no digit is no number: the default NaN
		size_t n = s.range(1, 30); for (size_t i = 0; i < n; ++i) t += (char)('0' + s.below(10)); size_t at = s.below(n); char c; do c = (char)s.range(1, 255); while (c >= '0' && c <= '9'); if (n > 1 && at == 1 && t[0] == '0' && (c == 'x' || c == 'X')) c = 'y'; t[at] = c; exact = true; s.label = "no number"; break; }
	default: { size_t n = s.chance(1, 8) ? s.range(1, 3000) : s.range(1, 24); for (size_t i = 0; i < n; ++i) t += (char)(s.chance(1, 2) ? s.range(1, 255) : "0123456789abcdefABCDEFxX-+ .gGzZ@`/:"[s.below(36)]); if (s.chance(1, 2)) t = "0x" + t; s.label = "arbitrary"; }
	}
	p = tail(t); s.note("tag", t); string r = judge(L<T>::f(p), exact, pay); if (!r.empty()) return r;
	U a = bits(L<T>::f(p)), b = bits(L<T>::f(p)); if (a != b) return want("the same tag again", b, a);
	return "";
}
// ---------------------------------------------------------------- constant evaluation
constexpr uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
struct Text { char c[32] = {}; };
constexpr Text text(int i) {
	Text t{}; uint64_t r = mix(i * 977 + 5); int n = (int)(r % 24), k = 0; bool hex = (r >> 8) % 2; if (hex) { t.c[k++] = '0'; t.c[k++] = 'x'; }
	const char *d = "0123456789abcdefABCDEFgz-"; int m = (r >> 16) % 4 == 0 ? 25 : hex ? 22 : 10;
	for (int j = 0; j < n; ++j) { r = mix(r); t.c[k++] = d[r % m]; }
	return t;
}
constexpr int kRows = 200;
template <class T> struct Table { T v[kRows] = {}; };
template <class T> constexpr Table<T> make_table() { Table<T> t{}; for (int i = 0; i < kRows; ++i) { Text x = text(i); t.v[i] = L<T>::cf(x.c); } return t; }
#ifdef PBT_NO_CT
#define CT const
#else
#define CT constexpr
#endif
template <class T> CT Table<T> kTable = make_table<T>();
template <class T> string ct(Src &s) {
	int i = (int)s.below(kRows); Text x = text(i); s.note("tag", string(x.c)); T rt = L<T>::f(tail(x.c)); s.label = "constant"; s.nontrivial = x.c[0] != 0;
	if (bits(kTable<T>.v[i]) != bits(rt)) return want("constant", bits(kTable<T>.v[i]), bits(rt)); return "";
}
// ---------------------------------------------------------------- named constants
struct Named { const char *name; void (*f)(mpfr_t); float f32; double f64, d; long double f80; };
#define N(n) #n, ccm::numbers::n##_v<float>, ccm::numbers::n##_v<double>, ccm::numbers::n, ccm::numbers::n##_v<long double>
struct Row { const char *name; float f; double d, e; long double l; };
static const Row kNamed[] = { { N(e) }, { N(log2e) }, { N(log10e) }, { N(pi) }, { N(inv_pi) }, { N(inv_sqrtpi) }, { N(ln2) }, { N(ln10) }, { N(sqrt2) }, { N(sqrt3) }, { N(inv_sqrt3) }, { N(egamma) }, { N(phi) } };
static void exact(int k, mpfr_t r) {
	const mpfr_rnd_t R = MPFR_RNDN; mpfr_t t; mpfr_init2(t, 400); mpfr_set_ui(t, 1, R);
	switch (k) {
	case 0: mpfr_exp(r, t, R); break;
	case 1: mpfr_const_log2(t, R); mpfr_ui_div(r, 1, t, R); break;
	case 2: mpfr_set_ui(t, 10, R); mpfr_log(t, t, R); mpfr_ui_div(r, 1, t, R); break;
	case 3: mpfr_const_pi(r, R); break;
	case 4: mpfr_const_pi(t, R); mpfr_ui_div(r, 1, t, R); break;
	case 5: mpfr_const_pi(t, R); mpfr_rec_sqrt(r, t, R); break;
	case 6: mpfr_const_log2(r, R); break;
	case 7: mpfr_set_ui(t, 10, R); mpfr_log(r, t, R); break;
	case 8: mpfr_sqrt_ui(r, 2, R); break;
	case 9: mpfr_sqrt_ui(r, 3, R); break;
	case 10: mpfr_set_ui(t, 3, R); mpfr_rec_sqrt(r, t, R); break;
	case 11: mpfr_const_euler(r, R); break;
	default: mpfr_sqrt_ui(t, 5, R); mpfr_add_ui(t, t, 1, R); mpfr_div_ui(r, t, 2, R);
	}
	mpfr_clear(t);
}
static string constants(Src &s) {
	int k = (int)s.below(13); const Row &w = kNamed[k]; s.note("constant", string(w.name)); s.label = "named"; mpfr_t r; mpfr_init2(r, 400); exact(k, r);
	float f = mpfr_get_flt(r, MPFR_RNDN); double d = mpfr_get_d(r, MPFR_RNDN); long double l = mpfr_get_ld(r, MPFR_RNDN); mpfr_clear(r);
	if (w.f != f) return want("float", w.f, f); if (w.d != d) return want("double", w.d, d); if (w.e != d) return want("unsuffixed", w.e, d); if (w.l != l) return want("long double", w.l, l); return "";
}
PROPERTY("M01", "constants", 400) { return constants(s); }
#define REAL(T) static pbt::Reg PBT_CAT(reg_t_, __LINE__)("M01", "tag:" #T, tag<T>, 1000000), PBT_CAT(reg_c_, __LINE__)("M01", "constant evaluation:" #T, ct<T>, 5000);
REAL(float)
REAL(double)
REAL(long double)
int main(int c, char **v) { return pbt::main_(c, v); }
