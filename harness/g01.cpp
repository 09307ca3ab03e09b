// G01: histories of operations on pp SIMD values and masks against arrays of scalars, with unmapped memory behind every buffer.
#include "pbt.hpp"
#include "ccmath/internal/math/runtime/pp/pp.hpp"
#include <array>
using pbt::Src; using pbt::want; using std::string; namespace pp = ccm::pp;
#ifndef PART
#define PART 0
#endif
template <class T> constexpr bool isf = std::is_floating_point_v<T>;
template <class T> using U_ = std::make_unsigned_t<std::conditional_t<isf<T>, int, T>>;
template <class T> constexpr int wid = (int)sizeof(T) * 8;
template <int N> using AbiOf = std::conditional_t<N == 1, pp::ScalarAbi, pp::VecAbi<N>>;
template <class T> T lane(Src &s) { if constexpr (isf<T>) { return s.chance(1, 3) ? s.real_any<T>() : s.real_near<T>(); } else { return (T)s.bits(wid<T>); } }
template <class T> using wide_t = __int128;
// ---- the scalar meaning of one lane -------------------------------------------------------------------------------------------
enum Op { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, SHL, SHR };
static const char *opname[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>" };
// whether the scalar operation is defined (no signed overflow in the lane type, no zero divisor, count in range)
template <class T> bool defined(Op o, T a, T b) {
	if constexpr (isf<T>) return o <= DIV; else {
		__int128 x = a, y = b, r = 0; bool sg = std::is_signed_v<T>; __int128 lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
		switch (o) { case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: if (sg) { r = x * y; } else return true; break;
			case DIV: case MOD: return b != 0 && !(sg && x == lo && y == -1); case SHL: case SHR: return y >= 0 && y < wid<T>; default: return true; }
		return !sg || (r >= lo && r <= hi);
	}
}
template <class T> T safe(Op o, T) { return o == ADD || o == SUB || o == SHL || o == SHR ? (T)0 : (T)1; }
template <class T> T apply(Op o, T a, T b) {
	if constexpr (isf<T>) { volatile T x = a, y = b; switch (o) { case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; default: return x / y; } }
	else { using U = U_<T>; uint64_t x = (U)a, y = (U)b;
		switch (o) { case ADD: return (T)(U)(x + y); case SUB: return (T)(U)(x - y); case MUL: return (T)(U)(x * y); case DIV: return (T)((__int128)a / (__int128)b); case MOD: return (T)((__int128)a % (__int128)b);
			case AND: return (T)(U)(x & y); case OR: return (T)(U)(x | y); case XOR: return (T)(U)(x ^ y); case SHL: return (T)(U)(x << y); default: { __int128 v = a; return (T)(v >> (int)b); } } }
}
template <class T> bool cmp(int o, T a, T b) { switch (o) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; } }
static const char *cmpname[] = { "==", "!=", "<", "<=", ">", ">=" };
// ---- a buffer that ends at an unmapped page ----------------------------------------------------------------------------------
struct Page { unsigned char *base = nullptr, *end = nullptr; Page() { long pg = 4096; base = (unsigned char *)mmap(nullptr, 3 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + pg, pg, PROT_READ | PROT_WRITE); base += pg; end = base + pg; } };
static Page &page() { static Page p; return p; }
template <class T> struct Mem { // n elements at p, surrounded by patterned bytes and, on one side, by the end of the page
	T *p; int n; size_t align; unsigned char *lo, *hi;
	Mem(Src &s, int n_, size_t align_) : n(n_), align(align_) {
		size_t bytes = sizeof(T) * (size_t)n; auto &pg = page(); size_t slack = 4096 - bytes; size_t off;
		switch (s.below(3)) { case 0: off = slack; break; case 1: off = 0; break; default: off = s.below(slack / sizeof(T) / 2 + 1) * sizeof(T); }
		off -= off % align; p = (T *)(pg.base + off); size_t m = 192; lo = pg.base + (off > m ? off - m : 0); hi = pg.base + std::min<size_t>(4096, off + bytes + m); fill();
	}
	static unsigned char pat(size_t i) { return (unsigned char)(0x5A + i * 37); }
	void fill() { for (auto *q = lo; q < hi; ++q) *q = pat((size_t)q & 4095); }
	string surround() { for (auto *q = lo; q < hi; ++q) { if (q >= (unsigned char *)p && q < (unsigned char *)(p + n)) continue; if (*q != pat((size_t)q & 4095)) return "wrote " + std::to_string((long)(q - (unsigned char *)p)) + " bytes from the start of an object of " + std::to_string(n * (int)sizeof(T)); } return ""; }
	string surround_lane(int i) { for (size_t k = 0; k < sizeof(T); ++k) { auto *q = (unsigned char *)(p + i) + k; if (*q != pat((size_t)q & 4095)) return "the masked store wrote the unselected lane " + std::to_string(i); } return ""; }
};
template <class T> bool same_lane(T a, T b) { return pbt::same(a, b); }
template <class T> bool close_sum(T got, const T *x, const bool *sel, int n) { // any order of addition
	long double sum = 0, mag = 0; bool special = false; bool pinf = false, ninf = false, nan = false;
	for (int i = 0; i < n; ++i) if (!sel || sel[i]) { T v = x[i]; if (std::isnan(v)) nan = true; if (std::isinf(v)) { special = true; (v > 0 ? pinf : ninf) = true; } if (std::isfinite(v)) { sum += v; mag += std::fabs((long double)v); } }
	if (nan || (pinf && ninf)) return std::isnan(got); if (mag > (long double)std::numeric_limits<T>::max()) return true; // an intermediate sum may overflow
	if (special) return got == (pinf ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
	bool negz = true; int cnt = 0; for (int i = 0; i < n; ++i) if (!sel || sel[i]) { ++cnt; negz &= x[i] == 0 && std::signbit(x[i]); } if (!sel && cnt && negz) return got == 0 && std::signbit(got);
	return std::fabs((long double)got - sum) <= mag * (n + 1) * std::numeric_limits<T>::epsilon() + std::numeric_limits<T>::denorm_min() * (long double)n;
}
template <class T, int N> struct H {
	static constexpr int n = N; using Abi = AbiOf<N>; using V = pp::basic_simd<T, Abi>; using M = typename V::mask_type; using Tr = pp::SimdTraits<T, Abi>;
	static_assert(std::is_same_v<V, pp::simd<T, N>> && V::size() == N && M::size() == N && pp::simd_size_v<T, Abi> == N);
	Src &s; V v[3]; T m[3][N]; M k[2]; bool b[2][N]; string last;
	explicit H(Src &s_) : s(s_) {}
	using Arr = std::array<T, (size_t)N>;
	Arr fresh() { Arr a; if (s.chance(1, 8)) { T x = lane<T>(s); for (auto &e : a) e = x; } else for (auto &e : a) e = lane<T>(s); return a; }
	uint64_t bits() { uint64_t x; switch (s.below(4)) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x = 1ull << s.below(N); break; default: x = s.u64(); } return N == 64 ? x : x & ((1ull << N) - 1); }
	__attribute__((noinline)) V loaded(const T *src) {
		switch (s.below(4)) {
		case 0: { Mem<T> me(s, N, sizeof(T)); memcpy(me.p, src, sizeof(T) * N); return V(me.p); }
		case 1: { Mem<T> me(s, N, Tr::simd_align < sizeof(T) ? sizeof(T) : Tr::simd_align); memcpy(me.p, src, sizeof(T) * N); V r; r.copy_from(me.p, pp::simd_flag_aligned); return r; }
		case 2: { Mem<T> me(s, N, 64); memcpy(me.p, src, sizeof(T) * N); return V(me.p, pp::simd_flag_overaligned<64>); }
		default: { Mem<T> me(s, N, sizeof(T)); memcpy(me.p, src, sizeof(T) * N); V r(T(1)); r.copy_from(me.p, pp::element_aligned); return r; }
		}
	}
	__attribute__((noinline)) string stored(const V &x, T *out) {
		int f = (int)s.below(3); Mem<T> me(s, N, f == 0 ? sizeof(T) : f == 1 ? (Tr::simd_align < sizeof(T) ? sizeof(T) : Tr::simd_align) : 64);
		if (f == 0) x.copy_to(me.p); else if (f == 1) x.copy_to(me.p, pp::vector_aligned); else x.copy_to(me.p, pp::simd_flag_overaligned<64>);
		memcpy(out, me.p, sizeof(T) * N); return me.surround();
	}
	string check_v(int i) {
		T o[N]; v[i].copy_to(o);
		for (int j = 0; j < N; ++j) if (!same_lane(o[j], m[i][j])) return last + ": lane " + std::to_string(j) + " of " + std::to_string(N) + ": got " + Src::show(o[j]) + " want " + Src::show(m[i][j]);
		const V &c = v[i]; int j = (int)s.below(N); if (!same_lane((T)c[j], m[i][j])) return last + ": element access to lane " + std::to_string(j) + ": got " + Src::show((T)c[j]) + " want " + Src::show(m[i][j]);
		if (!same_lane((T)v[i][j], m[i][j])) return last + ": proxy read of lane " + std::to_string(j);
		return "";
	}
	string check_k(int i) { for (int j = 0; j < N; ++j) if (k[i][j] != b[i][j]) return last + ": mask lane " + std::to_string(j) + " of " + std::to_string(N) + ": got " + Src::show(k[i][j]) + " want " + Src::show(b[i][j]); return ""; }
	__attribute__((noinline)) void fix(Op o, int a, int c, int d) { // make the operand lanes defined for this operation: the divisor or count may be replaced
		(void)d; bool ch = false; for (int j = 0; j < N; ++j) { if constexpr (!isf<T>) if ((o == SHL || o == SHR) && a != c) { T y = (T)((U_<T>)m[c][j] % wid<T>); if (y != m[c][j]) { m[c][j] = y; ch = true; } } if (!defined<T>(o, m[a][j], m[c][j])) { m[c][j] = safe<T>(o, m[c][j]); if (!defined<T>(o, m[a][j], m[c][j])) m[a][j] = m[c][j] = 1; ch = true; } }
		if (ch) { v[c] = V(m[c]); v[a] = V(m[a]); }
	}
	static V bin(Op o, const V &x, const V &y) {
		switch (o) { case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; case DIV: return x / y; default: break; }
		if constexpr (!isf<T>) switch (o) { case MOD: return x % y; case AND: return x & y; case OR: return x | y; case XOR: return x ^ y; case SHL: return x << y; case SHR: return x >> y; default: break; }
		return x;
	}
	static void cbin(Op o, V &x, const V &y) {
		switch (o) { case ADD: x += y; return; case SUB: x -= y; return; case MUL: x *= y; return; case DIV: x /= y; return; default: break; }
		if constexpr (!isf<T>) switch (o) { case MOD: x %= y; return; case AND: x &= y; return; case OR: x |= y; return; case XOR: x ^= y; return; case SHL: x <<= y; return; case SHR: x >>= y; return; default: break; }
	}
	__attribute__((noinline)) string do_create(int d) {
		switch (s.below(5)) {
		case 0: { last = "broadcast"; T x = lane<T>(s); if (s.chance(1, 2)) v[d] = V(x); else v[d] = x; for (auto &e : m[d]) e = x; break; }
		case 1: { last = "generator"; Arr a = fresh(); v[d] = V([&](auto i) { return a[(size_t)(int)i]; }); memcpy(m[d], a.data(), sizeof m[d]); break; }
		default: { last = "load"; Arr a = fresh(); v[d] = loaded(a.data()); memcpy(m[d], a.data(), sizeof m[d]); }
		}
		return check_v(d);
	}
	__attribute__((noinline)) string do_lane(int d, int a) {
		int i = (int)s.below(N), j = (int)s.below(N);
		switch (s.below(4)) {
		case 0: { last = "lane assignment"; T x = lane<T>(s); v[d][i] = x; m[d][i] = x; break; }
		case 1: { last = "lane assignment from a const object"; const V &c = v[a]; v[d][i] = c[j]; m[d][i] = m[a][j]; break; }
		case 2: { last = "lane assignment from a lane"; v[d][i] = v[a][j]; m[d][i] = m[a][j]; break; }
		default: { last = "lane swap"; T x = v[d][i]; v[d][i] = (T)v[a][j]; v[a][j] = x; std::swap(m[d][i], m[a][j]); }
		}
		string e = check_v(d); return e.empty() ? check_v(a) : e;
	}
	__attribute__((noinline)) string do_arith(int d, int a, int c) {
		Op o = (Op)s.below(isf<T> ? 4 : 10); fix(o, a, c, d); T r[N]; for (int j = 0; j < N; ++j) r[j] = apply<T>(o, m[a][j], m[c][j]);
		if (s.chance(1, 3)) { last = string("operator") + opname[o] + "="; cbin(o, v[a], v[c]); memcpy(m[a], r, sizeof r); string e = check_v(a); return !e.empty() || a == c ? e : check_v(c); }
		last = string("operator") + opname[o]; v[d] = bin(o, v[a], v[c]); memcpy(m[d], r, sizeof r); return check_v(d);
	}
	__attribute__((noinline)) string do_unary(int d, int a) {
		int o = (int)s.below(isf<T> ? 2 : 3);
		if (o == 0) { last = "unary +"; v[d] = +v[a]; memmove(m[d], m[a], sizeof m[d]); }
		else if (o == 1) { last = "unary -"; for (int j = 0; j < N; ++j) if constexpr (!isf<T>) if (std::is_signed_v<T> && m[a][j] == std::numeric_limits<T>::min()) { m[a][j] = 5; v[a][j] = T(5); } v[d] = -v[a]; for (int j = 0; j < N; ++j) { if constexpr (isf<T>) m[d][j] = -m[a][j]; else m[d][j] = apply<T>(SUB, T(0), m[a][j]); } }
		else if constexpr (!isf<T>) { last = "operator~"; v[d] = ~v[a]; for (int j = 0; j < N; ++j) m[d][j] = (T)(U_<T>)~(uint64_t)m[a][j]; }
		return check_v(d);
	}
	__attribute__((noinline)) string do_cmp(int q, int a, int c) {
		if (s.chance(1, 3)) { int i = (int)s.below(N); m[a][i] = m[c][i]; const V &cc = v[c]; v[a][i] = cc[i]; }
		int o = (int)s.below(6); last = string("operator") + cmpname[o];
		switch (o) { case 0: k[q] = v[a] == v[c]; break; case 1: k[q] = v[a] != v[c]; break; case 2: k[q] = v[a] < v[c]; break; case 3: k[q] = v[a] <= v[c]; break; case 4: k[q] = v[a] > v[c]; break; default: k[q] = v[a] >= v[c]; }
		for (int j = 0; j < N; ++j) b[q][j] = cmp<T>(o, m[a][j], m[c][j]); return check_k(q);
	}
	__attribute__((noinline)) string do_mask(int q) {
		int p = 1 - q; if (s.chance(1, 6)) p = q;
		switch (s.below(11)) {
		case 0: { last = "from_bits"; uint64_t x = bits(); k[q] = M::from_bits(x | (N < 64 && s.chance(1, 4) ? ~0ull << (N % 64) : 0)); for (int j = 0; j < N; ++j) b[q][j] = (x >> j) & 1; break; }
		case 1: { last = "mask(bool)"; bool x = s.chance(1, 2); k[q] = M(x); for (auto &e : b[q]) e = x; break; }
		case 2: last = "mask &"; k[q] = k[q] & k[p]; for (int j = 0; j < N; ++j) b[q][j] = b[q][j] & b[p][j]; break;
		case 3: last = "mask |"; k[q] = k[q] | k[p]; for (int j = 0; j < N; ++j) b[q][j] = b[q][j] | b[p][j]; break;
		case 4: last = "mask ^"; k[q] = k[q] ^ k[p]; for (int j = 0; j < N; ++j) b[q][j] = b[q][j] != b[p][j]; break;
		case 5: last = "mask &&"; k[q] = k[q] && k[p]; for (int j = 0; j < N; ++j) b[q][j] = b[q][j] && b[p][j]; break;
		case 6: last = "mask ||"; k[q] = k[q] || k[p]; for (int j = 0; j < N; ++j) b[q][j] = b[q][j] || b[p][j]; break;
		case 7: last = "mask !"; k[q] = !k[q]; for (auto &e : b[q]) e = !e; break;
		case 8: last = "mask ~"; k[q] = ~k[q]; for (auto &e : b[q]) e = !e; break;
		case 9: last = "mask =="; k[q] = k[q] == k[p]; for (int j = 0; j < N; ++j) b[q][j] = b[q][j] == b[p][j]; break;
		default: last = "mask !="; k[q] = k[q] != k[p]; for (int j = 0; j < N; ++j) b[q][j] = b[q][j] != b[p][j]; break;
		}
		return check_k(q);
	}
	__attribute__((noinline)) string do_mask_read(int q) {
		uint64_t w = 0; int cnt = 0, lo = N, hi = N; for (int j = 0; j < N; ++j) if (b[q][j]) { w |= 1ull << j; ++cnt; if (lo == N) lo = j; hi = j; } const M &x = k[q];
		if (x.to_ullong() != w) return want("to_ullong", (uint64_t)x.to_ullong(), w); auto bs = x.to_bitset(); for (int j = 0; j < N; ++j) if (bs[(size_t)j] != b[q][j]) return "to_bitset lane " + std::to_string(j); if (bs.size() != (size_t)N) return "to_bitset size";
		if (pp::all_of(x) != (cnt == N)) return want("all_of", pp::all_of(x), cnt == N); if (pp::any_of(x) != (cnt > 0)) return want("any_of", pp::any_of(x), cnt > 0); if (pp::none_of(x) != (cnt == 0)) return want("none_of", pp::none_of(x), cnt == 0);
		if (pp::reduce_count(x) != cnt) return want("reduce_count", pp::reduce_count(x), cnt); if (cnt && pp::reduce_min_index(x) != lo) return want("reduce_min_index", pp::reduce_min_index(x), lo); if (cnt && pp::reduce_max_index(x) != hi) return want("reduce_max_index", pp::reduce_max_index(x), hi);
		M r = M::from_bits(x.to_ullong()); for (int j = 0; j < N; ++j) if (r[j] != b[q][j]) return "from_bits(to_ullong) lane " + std::to_string(j);
		return "";
	}
	__attribute__((noinline)) string do_select(int d, int q, int a, int c) { last = "simd_select"; T r[N]; for (int j = 0; j < N; ++j) r[j] = b[q][j] ? m[a][j] : m[c][j]; v[d] = pp::simd_select(k[q], v[a], v[c]); memcpy(m[d], r, sizeof r); return check_v(d); }
	__attribute__((noinline)) string do_where(int d, int q, int a) {
		int o = (int)s.below(9);
		if (o == 0) { last = "where = simd"; pp::where(k[q], v[d]) = v[a]; for (int j = 0; j < N; ++j) if (b[q][j]) m[d][j] = m[a][j]; }
		else if (o == 1) { last = "where = value"; T x = lane<T>(s); pp::where(k[q], v[d]) = x; for (int j = 0; j < N; ++j) if (b[q][j]) m[d][j] = x; }
		else if (o <= 5) { // the selected lanes must be defined; unselected lanes may hold anything, including zero divisors
			Op p = (Op)(o - 2); bool ch = false; for (int j = 0; j < N; ++j) if (p != DIV ? !defined<T>(p, m[d][j], m[a][j]) : b[q][j] && !defined<T>(p, m[d][j], m[a][j])) { m[a][j] = safe<T>(p, m[a][j]); if (!defined<T>(p, m[d][j], m[a][j])) m[d][j] = m[a][j] = 1; ch = true; }
			if (ch) { v[a] = V(m[a]); v[d] = V(m[d]); }
			T r[N]; for (int j = 0; j < N; ++j) r[j] = b[q][j] ? apply<T>(p, m[d][j], m[a][j]) : m[d][j];
			last = string("where ") + opname[p] + "="; auto w = pp::where(k[q], v[d]); const V y = v[a]; switch (p) { case ADD: w += y; break; case SUB: w -= y; break; case MUL: w *= y; break; default: w /= y; } memcpy(m[d], r, sizeof r);
		} else if (o == 6) { // masked load: the lanes behind the last selected one are not even mapped
			last = "where copy_from"; int top = 0; for (int j = 0; j < N; ++j) if (b[q][j]) top = j + 1; Arr x = fresh(); Mem<T> me(s, std::max(1, top), sizeof(T)); for (int j = 0; j < top; ++j) me.p[j] = x[(size_t)j];
			switch (s.below(2)) { case 0: pp::where(k[q], v[d]).copy_from(me.p); break; default: pp::where(k[q], v[d]).copy_from(me.p, pp::element_aligned); } for (int j = 0; j < N; ++j) if (b[q][j]) m[d][j] = x[(size_t)j];
		} else { // masked store
			last = "where copy_to"; int top = 0; for (int j = 0; j < N; ++j) if (b[q][j]) top = j + 1; Mem<T> me(s, std::max(1, top), sizeof(T)); const V &c = v[d];
			if (o == 7) pp::where(k[q], v[d]).copy_to(me.p); else pp::where(k[q], c).copy_to(me.p);
			string e = me.surround(); if (!e.empty()) return "where copy_to: " + e;
			for (int j = 0; j < top; ++j) { if (b[q][j] ? !same_lane(me.p[j], m[d][j]) : false) return want("where copy_to", me.p[j], m[d][j]); if (!b[q][j]) { e = me.surround_lane(j); if (!e.empty()) return e; } }
		}
		string e = check_v(d); return e.empty() ? check_k(q) : e;
	}
	__attribute__((noinline)) string do_store(int a) { T o[N]; string e = stored(v[a], o); if (!e.empty()) return "copy_to: " + e; for (int j = 0; j < N; ++j) if (!same_lane(o[j], m[a][j])) return "copy_to lane " + std::to_string(j) + ": got " + Src::show(o[j]) + " want " + Src::show(m[a][j]); return ""; }
	__attribute__((noinline)) string do_reduce(int a, int q) {
		const V &x = v[a]; const T *y = m[a]; const bool *z = b[q];
		if constexpr (isf<T>) {
			bool nan = false, any = false; for (int j = 0; j < N; ++j) nan |= std::isnan(y[j]);
			if (!close_sum<T>(pp::reduce(x), y, nullptr, N)) return "reduce: got " + Src::show(pp::reduce(x)); if (!close_sum<T>(pp::reduce(x, std::plus<>()), y, nullptr, N)) return "reduce(plus): got " + Src::show(pp::reduce(x, std::plus<>())); if (!close_sum<T>(pp::reduce(x, k[q], T(0)), y, z, N)) return "masked reduce: got " + Src::show(pp::reduce(x, k[q], T(0)));
			if (!nan) { T lo = y[0], hi = y[0], ml = std::numeric_limits<T>::infinity(), mh = -ml; for (int j = 0; j < N; ++j) { lo = std::min(lo, y[j]); hi = std::max(hi, y[j]); if (z[j]) { any = true; ml = std::min(ml, y[j]); mh = std::max(mh, y[j]); } }
				if (pp::reduce_min(x) != lo) return want("reduce_min", pp::reduce_min(x), lo); if (pp::reduce_max(x) != hi) return want("reduce_max", pp::reduce_max(x), hi);
				if (any) { if (pp::reduce_min(x, k[q]) != ml) return want("masked reduce_min", pp::reduce_min(x, k[q]), ml); if (pp::reduce_max(x, k[q]) != mh) return want("masked reduce_max", pp::reduce_max(x, k[q]), mh); }
				T g = pp::reduce(x, [](T p, T r) { return p < r ? r : p; }); if (g != hi) return want("reduce(max)", g, hi); }
		} else {
			bool ok = true, okm = true; __int128 sum = 0, ms = 0; T lo = y[0], hi = y[0], ml = std::numeric_limits<T>::max(), mh = std::numeric_limits<T>::lowest(); U_<T> us = 0, um = 0, an = (U_<T>)~0ull, orr = 0, xo = 0, man = (U_<T>)~0ull, mor = 0;
			for (int j = 0; j < N; ++j) { sum += y[j]; ok &= sum >= (__int128)std::numeric_limits<T>::min() && sum <= (__int128)std::numeric_limits<T>::max(); us = (U_<T>)(us + (U_<T>)y[j]); lo = std::min(lo, y[j]); hi = std::max(hi, y[j]); U_<T> u = (U_<T>)y[j]; an &= u; orr |= u; xo ^= u;
				if (z[j]) { ms += y[j]; um = (U_<T>)(um + u); ml = std::min(ml, y[j]); mh = std::max(mh, y[j]); man &= u; mor |= u; } okm &= ms >= (__int128)std::numeric_limits<T>::min() && ms <= (__int128)std::numeric_limits<T>::max(); }
			if (!std::is_signed_v<T>) ok = okm = true; auto pairs = [&](const bool *sel) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if ((!sel || (sel[i] && sel[j])) && ((y[i] < 0) != (y[j] < 0))) return false; return true; };
			if (std::is_signed_v<T>) { if (!pairs(nullptr)) ok = std::all_of(y, y + N, [](T e) { return e > std::numeric_limits<T>::min() / N && e < std::numeric_limits<T>::max() / N; }); if (!pairs(z)) okm = ok; }
			if (ok && pp::reduce(x) != (T)us) return want("reduce", pp::reduce(x), (T)us); if (ok && pp::reduce(x, std::plus<>()) != (T)us) return want("reduce(plus)", pp::reduce(x, std::plus<>()), (T)us); if (okm && pp::reduce(x, k[q], T(0)) != (T)um) return want("masked reduce", pp::reduce(x, k[q], T(0)), (T)um);
			if (pp::reduce(x, std::bit_and<>()) != (T)an) return want("reduce(bit_and)", pp::reduce(x, std::bit_and<>()), (T)an); if (pp::reduce(x, std::bit_or<>()) != (T)orr) return want("reduce(bit_or)", pp::reduce(x, std::bit_or<>()), (T)orr); if (pp::reduce(x, std::bit_xor<>()) != (T)xo) return want("reduce(bit_xor)", pp::reduce(x, std::bit_xor<>()), (T)xo);
			if (pp::reduce(x, k[q], (T)~T(0), std::bit_and<>()) != (T)man) return want("masked reduce(bit_and)", pp::reduce(x, k[q], (T)~T(0), std::bit_and<>()), (T)man); if (pp::reduce(x, k[q], T(0), std::bit_or<>()) != (T)mor) return want("masked reduce(bit_or)", pp::reduce(x, k[q], T(0), std::bit_or<>()), (T)mor);
			if (pp::reduce_min(x) != lo) return want("reduce_min", pp::reduce_min(x), lo); if (pp::reduce_max(x) != hi) return want("reduce_max", pp::reduce_max(x), hi); if (pp::reduce_min(x, k[q]) != ml) return want("masked reduce_min", pp::reduce_min(x, k[q]), ml); if (pp::reduce_max(x, k[q]) != mh) return want("masked reduce_max", pp::reduce_max(x, k[q]), mh);
		}
		return "";
	}
	__attribute__((noinline)) string do_minmax(int d, int a, int c) {
		int o = (int)s.below(std::is_signed_v<T> ? 3 : 2);
		if (o == 2) { if constexpr (std::is_signed_v<T>) { last = "abs"; for (int j = 0; j < N; ++j) if (!isf<T> && m[a][j] == std::numeric_limits<T>::lowest()) { m[a][j] = (T)-3; v[a][j] = (T)-3; } v[d] = pp::abs(v[a]); for (int j = 0; j < N; ++j) { if constexpr (isf<T>) m[d][j] = std::fabs(m[a][j]); else m[d][j] = m[a][j] < 0 ? (T)-m[a][j] : m[a][j]; } return check_v(d); } }
		last = o ? "max" : "min"; V r = o ? pp::max(v[a], v[c]) : pp::min(v[a], v[c]); T g[N]; r.copy_to(g);
		for (int j = 0; j < N; ++j) { T x = m[a][j], y = m[c][j]; if constexpr (isf<T>) { if (std::isnan(x) || std::isnan(y)) { if (!same_lane(g[j], x) && !same_lane(g[j], y)) return last + " of a NaN lane is neither operand: " + Src::show(g[j]); continue; } if (g[j] != (o ? std::max(x, y) : std::min(x, y)) || (!same_lane(g[j], x) && !same_lane(g[j], y))) return want(last.c_str(), g[j], o ? std::max(x, y) : std::min(x, y)); } else if (g[j] != (o ? std::max(x, y) : std::min(x, y))) return want(last.c_str(), g[j], o ? std::max(x, y) : std::min(x, y)); }
		v[d] = r; memcpy(m[d], g, sizeof g); return check_v(d);
	}
	// conversions: lanes whose value does not fit the target are replaced first (out of range floating to integer is undefined)
	template <class U> __attribute__((noinline)) string conv(int a) {
		if constexpr (sizeof(U) * N <= 64) {
			for (int j = 0; j < N; ++j) { T x = m[a][j]; bool bad = false; if constexpr (isf<T> && !isf<U>) bad = !(x > (T)-std::ldexp((T)1, wid<U> - 1) && x < std::ldexp((T)1, wid<U> - 1)) || (std::is_unsigned_v<U> && x <= -1); if (bad) { m[a][j] = (T)(j % 100 + 0.75); v[a][j] = m[a][j]; } }
			using W = pp::basic_simd<U, Abi>; static_assert(std::is_same_v<pp::rebind_simd_t<U, V>, W>);
			W r = pp::static_simd_cast<U>(v[a]); U g[N]; r.copy_to(g); for (int j = 0; j < N; ++j) { U w = (U)m[a][j]; if (!pbt::same(g[j], w)) return "static_simd_cast lane " + std::to_string(j) + " of " + Src::show(m[a][j]) + ": got " + Src::show(g[j]) + " want " + Src::show(w); }
			if constexpr (!std::is_same_v<U, T>) { W r2(v[a]); r2.copy_to(g); for (int j = 0; j < N; ++j) if (!pbt::same(g[j], (U)m[a][j])) return "converting constructor lane " + std::to_string(j) + ": got " + Src::show(g[j]) + " want " + Src::show((U)m[a][j]); }
			if constexpr (sizeof(U) == sizeof(T)) { W r3 = pp::simd_bit_cast<U>(v[a]); r3.copy_to(g); T raw[N]; v[a].copy_to(raw); if (memcmp(g, raw, sizeof g) != 0) return "simd_bit_cast changes bits"; V back = pp::simd_bit_cast<T>(r3); T h[N]; back.copy_to(h); if (memcmp(h, raw, sizeof h) != 0) return "simd_bit_cast round trip"; }
			auto q = r == W(r); for (int j = 0; j < N; ++j) if (q[j] != (r[j] == r[j])) return "comparison after conversion, lane " + std::to_string(j);
		}
		return "";
	}
	__attribute__((noinline)) string do_convert(int a) { switch (s.below(7)) { case 0: return conv<float>(a); case 1: return conv<double>(a); case 2: return conv<int>(a); case 3: return conv<unsigned>(a); case 4: return conv<long>(a); case 5: return conv<short>(a); default: return conv<unsigned char>(a); } }
	__attribute__((noinline)) string do_cat(int a, int c, int q) {
		if constexpr (sizeof(T) * N * 2 <= 64 && N * 2 <= 64) {
			auto r = pp::simd_cat(v[a], v[c]); static_assert(std::is_same_v<decltype(r), pp::simd<T, 2 * N>> && std::is_same_v<pp::resize_simd_t<2 * N, V>, pp::simd<T, 2 * N>>); T g[2 * N]; r.copy_to(g);
			for (int j = 0; j < 2 * N; ++j) if (!same_lane(g[j], j < N ? m[a][j] : m[c][j - N])) return "simd_cat lane " + std::to_string(j);
			auto p = pp::simd_split<V>(r); static_assert(p.size() == 2); for (int h = 0; h < 2; ++h) { p[(size_t)h].copy_to(g); for (int j = 0; j < N; ++j) if (!same_lane(g[j], h ? m[c][j] : m[a][j])) return "simd_split part " + std::to_string(h) + " lane " + std::to_string(j); }
			auto rm = pp::simd_cat(k[q], k[1 - q]); for (int j = 0; j < 2 * N; ++j) if (rm[j] != (j < N ? b[q][j] : b[1 - q][j - N])) return "mask simd_cat lane " + std::to_string(j);
			auto pm = pp::simd_split<M>(rm); for (int j = 0; j < 2 * N; ++j) if (pm[(size_t)(j / N)][j % N] != (j < N ? b[q][j] : b[1 - q][j - N])) return "mask simd_split lane " + std::to_string(j);
			if constexpr (sizeof(T) * N * 4 <= 64 && N * 4 <= 64) { auto r4 = pp::simd_cat(v[a], v[c], r); T g4[4 * N]; r4.copy_to(g4); for (int j = 0; j < 4 * N; ++j) if (!same_lane(g4[j], (j / N) % 2 == 0 ? m[a][j % N] : m[c][j % N])) return "simd_cat of three, lane " + std::to_string(j); auto m4 = pp::simd_cat(rm, k[q], k[q]); for (int j = 0; j < 4 * N; ++j) if (m4[j] != (j < 2 * N ? (j < N ? b[q][j] : b[1 - q][j - N]) : b[q][j % N])) return "mask simd_cat of three, lane " + std::to_string(j); }
		}
		if constexpr (N >= 4) { using W = pp::simd<T, N / 4>; auto p = pp::simd_split<W>(v[a]); for (int j = 0; j < N; ++j) { const W &x = p[(size_t)(j / (N / 4))]; if (!same_lane((T)x[j % (N / 4)], m[a][j])) return "simd_split into four, lane " + std::to_string(j); } }
		return "";
	}
	string run() {
		Arr z = fresh(); for (int i = 0; i < 3; ++i) { if (i) z = fresh(); v[i] = loaded(z.data()); memcpy(m[i], z.data(), sizeof m[i]); last = "load"; string e = check_v(i); if (!e.empty()) return e; }
		for (int i = 0; i < 2; ++i) { uint64_t x = bits(); k[i] = M::from_bits(x); for (int j = 0; j < N; ++j) b[i][j] = (x >> j) & 1; last = "from_bits"; string e = check_k(i); if (!e.empty()) return e; }
		int steps = 1 + (int)s.below(10); string trace;
		for (int t = 0; t < steps; ++t) {
			int d = (int)s.below(3), a = (int)s.below(3), c = (int)s.below(3), q = (int)s.below(2); string e; last = "";
			switch (s.below(20)) {
			case 0: case 1: e = do_create(d); break; case 2: e = do_lane(d, a); break; case 3: case 4: case 5: e = do_arith(d, a, c); break; case 6: e = do_unary(d, a); break; case 7: case 8: e = do_cmp(q, a, c); break;
			case 9: case 10: e = do_mask(q); break; case 11: e = do_mask_read(q); last = "mask queries"; break; case 12: e = do_select(d, q, a, c); break; case 13: case 14: e = do_where(d, q, a); break; case 15: e = do_store(a); last = "store"; break;
			case 16: e = do_reduce(a, q); last = "reductions"; break; case 17: e = do_minmax(d, a, c); break; case 18: e = do_convert(a); last = "conversions"; break; default: e = do_cat(a, c, q); last = "concatenation"; break;
			}
			if (s.verbose) trace += (t ? ", " : "") + last;
			for (int i = 0; i < 3 && e.empty(); ++i) e = check_v(i); for (int i = 0; i < 2 && e.empty(); ++i) e = check_k(i); // nothing else has changed
			if (!e.empty()) { if (s.verbose) s.notes += "ops=[" + trace + "] "; return e; }
		}
		if (s.verbose) { s.notes += "ops=[" + trace + "] lanes="; for (int j = 0; j < N && j < 8; ++j) s.notes += Src::show(m[0][j]) + ","; }
		return "";
	}
};
template <class T, int N> string hist(Src &s) { H<T, N> h(s); return h.run(); }
static long cases(int bytes) { return bytes <= 16 ? 6000 : bytes <= 32 ? 4000 : 2500; }
#define I(T, N) static pbt::Reg PBT_CAT(reg_, __COUNTER__)("G01", "history/" #T "x" #N, hist<T, N>, cases(sizeof(T) * N));
typedef signed char schar; typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned long ulong; typedef long long llong; typedef unsigned long long ullong;
#ifdef PBT_BASE
I(float, 4) I(int, 4)
#else
#if PART == 0 || PART == 1
I(float, 1) I(float, 4) I(float, 8) I(float, 16) I(double, 2) I(double, 4) I(double, 8)
#endif
#if PART == 0 || PART == 2
I(int, 1) I(int, 4) I(int, 8) I(int, 16) I(unsigned, 2) I(unsigned, 4) I(unsigned, 8) I(wchar_t, 4)
#endif
#if PART == 0 || PART == 3
I(long, 2) I(long, 4) I(long, 8) I(ulong, 2) I(ulong, 4) I(ullong, 8) I(llong, 2) I(llong, 4) I(double, 1) I(float, 2)
#endif
#if PART == 0 || PART == 4
I(schar, 1) I(schar, 16) I(schar, 64) I(uchar, 8) I(uchar, 32) I(short, 2) I(short, 8) I(short, 32) I(ushort, 4) I(ushort, 16) I(char, 16) I(char16_t, 8) I(char32_t, 4)
#if defined(__cpp_char8_t)
I(char8_t, 16)
#endif
#endif
#endif
int main(int c, char **v) { return pbt::main_(c, v); }
