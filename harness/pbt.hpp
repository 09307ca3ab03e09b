// A small property-based testing engine.  A property is a function drawing every random choice from a Src; a failing case is a
// sequence of choices, which is shrunk (chunk deletion, zeroing, binary search on each choice) and stored as the replay file.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <vector>
namespace pbt {
struct Rng {
	uint64_t s[2];
	static uint64_t mix(uint64_t &x) { uint64_t z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	explicit Rng(uint64_t seed) { s[0] = mix(seed); s[1] = mix(seed); }
	uint64_t next() { uint64_t a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27); return r; }
};
constexpr int kMaxChoices = 6000;
// Shared with the parent so that a crash or hang leaves the choices behind.
struct Slot { volatile int prop; volatile int n; volatile long started; uint64_t c[kMaxChoices]; };
struct Src {
	Rng *rng = nullptr; const std::vector<uint64_t> *fixed = nullptr; std::vector<uint64_t> rec; Slot *slot = nullptr;
	bool verbose = false, nontrivial = true; std::string notes; const char *label = "";
	uint64_t draw(uint64_t n) { // uniform in [0, n), n == 0 means 2^64
		uint64_t v; size_t i = rec.size();
		if (fixed) v = i < fixed->size() ? (*fixed)[i] : 0; else v = rng->next();
		if (n) { if (fixed) { if (v >= n) v = v % n; } else v = (uint64_t)(((unsigned __int128)v * n) >> 64); }
		if (i < (size_t)kMaxChoices) { rec.push_back(v); if (slot) { slot->c[i] = v; slot->n = (int)i + 1; } }
		return v;
	}
	uint64_t u64() { return draw(0); }
	uint64_t below(uint64_t n) { return n <= 1 ? 0 : draw(n); }
	bool chance(int a, int b) { return draw(b) >= (uint64_t)(b - a); } // 0 (the shrunk choice) means "no"
	long range(long a, long b) { return a + (long)below((uint64_t)(b - a) + 1); }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	// an N-bit pattern: small numbers, patterns of long runs, single bits and their neighbours, uniform
	uint64_t bits(int w) {
		uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1, v = 0;
		switch (below(6)) {
		case 0: v = below(10); break;
		case 1: v = ~below(10); break;
		case 2: { int k = (int)below(w); v = (1ull << k) + below(5) - 2; break; }
		case 3: { int a = (int)below(w), b = (int)below(w); v = (~0ull << a) ^ (b + 1 < 64 ? ~0ull << (b + 1) : 0); break; }
		case 4: { v = u64() & u64() & u64(); if (chance(1, 2)) v = ~v; break; }
		default: v = u64();
		}
		return v & m;
	}
	template <class T> T integer() { return (T)bits((int)sizeof(T) * 8); }
	template <class T> T real_any() { // any finite value, infinity or NaN
		if (chance(1, 12)) { static const T sp[] = { 0, (T)-0.0, 1, -1, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), -std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min() }; return sp[below(12)]; }
		return real_fin<T>(std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits, std::numeric_limits<T>::max_exponent - 1);
	}
	template <class T> T mantissa() { // in [1, 2)
		constexpr int p = std::numeric_limits<T>::digits; uint64_t f;
		switch (below(5)) { case 0: f = 0; break; case 1: f = below(8) << (p - 4 > 60 ? 60 : p - 4); break; case 2: f = below(16); break; case 3: f = ~below(16); break; default: f = u64(); }
		f &= (p - 1 >= 64 ? ~0ull : (1ull << (p - 1)) - 1); return (T)1 + std::ldexp((T)f, -(p - 1));
	}
	template <class T> T real_fin(int elo, int ehi) { T m = mantissa<T>(); int e = (int)range(elo, ehi); bool neg = chance(1, 2); T v = std::ldexp(m, e); return neg ? -v : v; }
	template <class T> T real_near(int e = 6) { // human-scale values: small integers, halves, decimals, log-uniform
		T v;
		switch (below(6)) { case 0: v = (T)range(0, 16); break; case 1: v = (T)range(0, 64) / 4; break; case 2: v = (T)range(0, 1000) / 100; break; case 3: v = (T)0.5 + std::ldexp((T)range(-3, 3), -std::numeric_limits<T>::digits); break; case 4: v = 1 + std::ldexp((T)range(-3, 3), -std::numeric_limits<T>::digits); break; default: v = std::ldexp(mantissa<T>(), (int)range(-e, e)); }
		return chance(1, 2) ? -v : v;
	}
	template <class T> void note(const char *name, const T &v) { if (!verbose) return; std::ostringstream o; o << name << "=" << show(v) << " "; notes += o.str(); }
	template <class T> static std::string show(const T &v) {
		if constexpr (std::is_floating_point_v<T>) { char b[80]; snprintf(b, sizeof b, "%La", (long double)v); return b; }
		else if constexpr (std::is_same_v<T, unsigned __int128> || std::is_same_v<T, __int128>) { char b[80]; snprintf(b, sizeof b, "0x%016" PRIx64 "%016" PRIx64, (uint64_t)((unsigned __int128)v >> 64), (uint64_t)v); return b; }
		else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
		else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) return std::to_string((long long)v);
		else if constexpr (std::is_integral_v<T>) { char b[40]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
		else { std::ostringstream o; o << v; return o.str(); }
	}
};
template <class T> inline bool same(T a, T b) { // same value: bits equal, or both NaN
	if constexpr (std::is_floating_point_v<T>) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b && std::signbit(a) == std::signbit(b); } else return a == b;
}
// returns "" when the property held, otherwise what is wrong
using PropFn = std::string (*)(Src &);
struct Prop { std::string prop, name; PropFn fn; long cases; };
inline std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
// With PBT_CRASH_ONLY=PROP a harness serves property PROP instead: its answers are ignored and only traps, crashes and hangs count.
#ifdef PBT_CRASH_ONLY
#define PBT_STR_(x) #x
#define PBT_STR(x) PBT_STR_(x)
constexpr bool kCrashOnly = true;
struct Reg { Reg(const char *p, const std::string &n, PropFn f, long c) { props().push_back({ PBT_STR(PBT_CRASH_ONLY), std::string(p) + "/" + n, f, c }); } };
#else
constexpr bool kCrashOnly = false;
struct Reg { Reg(const char *p, const std::string &n, PropFn f, long c) { props().push_back({ p, n, f, c }); } };
#endif
// PROPERTY(Id, name, quick cases) { ... return ""; }
#define PBT_CAT_(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT_(a, b)
#define PROPERTY(PID, NAME, CASES) static std::string PBT_CAT(prop_fn_, __LINE__)(pbt::Src &); static pbt::Reg PBT_CAT(prop_reg_, __LINE__)(PID, NAME, PBT_CAT(prop_fn_, __LINE__), CASES); static std::string PBT_CAT(prop_fn_, __LINE__)(pbt::Src &s)
template <class A, class B> std::string want(const char *what, const A &got, const B &exp) { return std::string(what) + ": got " + Src::show(got) + " want " + Src::show(exp); }

inline std::string jesc(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
inline std::string run_fixed(const Prop &p, const std::vector<uint64_t> &c, std::vector<uint64_t> *used = nullptr, std::string *notes = nullptr) {
	Src s; s.fixed = &c; s.verbose = notes != nullptr; std::string r = p.fn(s); if (kCrashOnly) r.clear(); if (used) *used = s.rec; if (notes) *notes = s.notes; return r;
}
// In a child, so crashes and hangs count as failures.
inline bool fails_in_child(const Prop &p, const std::vector<uint64_t> &c, int secs = 10) {
	pid_t k = fork(); if (!k) { alarm(secs); signal(SIGALRM, SIG_DFL); if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(9); _exit(run_fixed(p, c).empty() ? 0 : 1); }
	int st = 0; waitpid(k, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
inline std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> c, bool crash) {
	long budget = crash ? 300 : 20000;
	auto bad = [&](const std::vector<uint64_t> &x, std::vector<uint64_t> *used) { if (--budget < 0) return false; if (crash) { if (used) *used = x; return fails_in_child(p, x); } return !run_fixed(p, x, used).empty(); };
	auto smaller = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
	bool prog = true;
	while (prog && budget > 0) {
		prog = false;
		for (size_t len = std::max<size_t>(1, c.size() / 2); len >= 1; len /= 2) { for (size_t i = 0; i + len <= c.size() && budget > 0;) { auto t = c; t.erase(t.begin() + i, t.begin() + i + len); std::vector<uint64_t> u; if (bad(t, &u) && smaller(u, c)) { c = u; prog = true; } else i += std::max<size_t>(1, len / 2); } if (len == 1) break; }
		for (size_t i = 0; i < c.size() && budget > 0; ++i) { if (!c[i]) continue; auto t = c; std::vector<uint64_t> u; t[i] = 0; if (bad(t, &u) && smaller(u, c)) { c = u; prog = true; continue; }
			if (i >= c.size()) break; uint64_t lo = 0, hi = c[i]; int n = 0; while (lo + 1 < hi && n++ < 64 && budget > 0) { uint64_t mid = lo + (hi - lo) / 2; t = c; if (i >= t.size()) break; t[i] = mid; if (bad(t, &u) && smaller(u, c)) { c = u; hi = mid; prog = true; } else lo = mid; } }
	}
	return c;
}
inline uint64_t hash_choices(const std::vector<uint64_t> &v, uint64_t h) { for (uint64_t x : v) { h ^= x; h *= 0x9FB21C651E98DF25ull; h ^= h >> 29; } h *= 0xD6E8FEB86659FD93ull; return h ^ (h >> 32); }
inline uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// drv run PROP SEED MULT DIR WORKERS | drv replay FILE
inline int main_(int argc, char **argv) {
	std::string mode = argc > 1 ? argv[1] : "";
	if (mode == "list") { for (auto &p : props()) printf("%s %s %ld\n", p.prop.c_str(), p.name.c_str(), p.cases); return 0; }
	if (mode == "replay") {
		FILE *f = fopen(argv[2], "r"); if (!f) return 2; std::string t; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f))) t.append(buf, n); fclose(f);
		auto field = [&](const std::string &k) { size_t i = t.find("\"" + k + "\": "); return i == std::string::npos ? std::string() : t.substr(i + k.size() + 4); };
		std::string nm = field("name"); nm = nm.substr(1, nm.find('"', 1) - 1); std::string ch = field("choices"); std::vector<uint64_t> c; size_t i = ch.find('['); const char *q = ch.c_str() + i + 1; while (*q && *q != ']') { char *e; uint64_t v = strtoull(q, &e, 10); if (e == q) { ++q; continue; } c.push_back(v); q = e; }
		alarm(20);
		for (auto &p : props()) if (p.name == nm) { std::string notes, r = run_fixed(p, c, nullptr, &notes); printf("%s | %s\n", r.empty() ? "holds" : r.c_str(), notes.c_str()); return r.empty() ? 0 : 1; }
		return 2;
	}
	if (mode != "run" || argc < 7) return 2;
	std::string prop = argv[2], dir = argv[5]; uint64_t seed = strtoull(argv[3], nullptr, 10); double mult = atof(argv[4]); int W = atoi(argv[6]);
	const char *only = getenv("ONLY"); std::vector<int> todo; for (size_t i = 0; i < props().size(); ++i) if (props()[i].prop == prop && (!only || props()[i].name.find(only) != std::string::npos)) todo.push_back((int)i);
	constexpr uint64_t BM = 1ull << 30; auto *bm = (uint64_t *)mmap(nullptr, BM / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	auto *slots = (Slot *)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto *failed = (volatile int *)mmap(nullptr, sizeof(int) * (props().size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto *crashed = failed; (void)crashed;
	constexpr long kBlock = 512;
	// per-worker position, so that a crashed worker resumes behind the offending case
	struct Pos { volatile int t; volatile long k; volatile int skip; }; auto *pos = (Pos *)mmap(nullptr, sizeof(Pos) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto body = [&](int w, int gen) {
		std::string fn = dir + "/w" + std::to_string(w) + "." + std::to_string(gen); FILE *o = fopen(fn.c_str(), "w"); if (!o) _exit(3);
		std::map<std::string, long> labels; long evals = 0, nontr = 0;
		auto flush = [&](const std::string &nm) { fprintf(o, "N\t%s\t%ld\t%ld\n", nm.c_str(), evals, nontr); for (auto &l : labels) fprintf(o, "L\t%s\t%ld\n", l.first.c_str(), l.second); labels.clear(); evals = nontr = 0; fflush(o); };
		for (int ti = pos[w].t; ti < (int)todo.size(); ++ti) {
			const Prop &p = props()[todo[ti]]; long total = std::max(1L, (long)(p.cases * mult)); uint64_t ph = hash_str(p.name) ^ (seed * 0x9E3779B97F4A7C15ull);
			long k0 = pos[w].t == ti ? pos[w].k : 0; pos[w].t = ti; bool sampled = k0 > 0; slots[w].prop = todo[ti];
			for (long blk = 0; blk * kBlock < total; ++blk) {
				if (blk % W != w) continue; if (failed[todo[ti]]) break;
				for (long k = std::max(k0, blk * kBlock); k < std::min(total, (blk + 1) * kBlock); ++k) {
					if (k < k0) continue; pos[w].k = k; slots[w].n = 0; slots[w].started = time(nullptr);
					Rng r(ph + (uint64_t)k * 0xD1342543DE82EF95ull); Src s; s.rng = &r; s.slot = &slots[w]; std::string e = p.fn(s); ++evals; if (kCrashOnly) e.clear();
					if (s.nontrivial) { ++nontr; uint64_t h = hash_choices(s.rec, ph) % BM; __atomic_fetch_or(&bm[h / 64], 1ull << (h % 64), __ATOMIC_RELAXED); }
					if (*s.label) ++labels[s.label];
					if (!sampled && s.nontrivial && k % 7 == 3) { sampled = true; std::string nt; auto c = s.rec; run_fixed(p, c, nullptr, &nt); fprintf(o, "S\t%s: %s\n", p.name.c_str(), nt.substr(0, 300).c_str()); }
					if (!e.empty()) { failed[todo[ti]] = 1; auto c = shrink(p, s.rec, false); std::string nt; std::string why = run_fixed(p, c, nullptr, &nt); fprintf(o, "F\t%s\t%s\t%s\t", p.name.c_str(), why.empty() ? e.c_str() : why.c_str(), nt.c_str()); for (auto x : c) fprintf(o, "%" PRIu64 ",", x); fprintf(o, "\n"); fflush(o); break; }
				}
				if (failed[todo[ti]]) break;
			}
			flush(p.name);
		}
		fprintf(o, "E\n"); fclose(o); _exit(0);
	};
	std::vector<pid_t> pid(W); std::vector<int> gen(W, 0); int live = 0, ngen = 0; std::string extra;
	auto start = [&](int w) { slots[w].started = 0; pid_t k = fork(); if (!k) body(w, gen[w]); pid[w] = k; ++live; };
	for (int w = 0; w < W; ++w) start(w);
	std::vector<std::string> files; std::vector<std::string> broken; std::string fl;
	while (live) {
		int st; pid_t k = waitpid(-1, &st, WNOHANG);
		if (k <= 0) { usleep(20000); long now = time(nullptr); for (int w = 0; w < W; ++w) if (pid[w] > 0 && slots[w].started && now - slots[w].started > 30 && !failed[slots[w].prop]) kill(pid[w], SIGXCPU); continue; }
		int w = -1; for (int i = 0; i < W; ++i) if (pid[i] == k) w = i; if (w < 0) continue;
		--live; pid[w] = -1; files.push_back(dir + "/w" + std::to_string(w) + "." + std::to_string(gen[w]));
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { broken.push_back("worker could not write"); continue; }
		// crash, sanitizer abort or hang: the choices are in the slot
		const Prop &p = props()[slots[w].prop]; std::vector<uint64_t> c(slots[w].c, slots[w].c + slots[w].n);
		if (!failed[slots[w].prop]) {
			failed[slots[w].prop] = 1; c = shrink(p, c, true); std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGXCPU ? "the call does not return within 30 s" : std::string("terminated by signal ") + std::to_string(WTERMSIG(st))) : "aborted with exit status " + std::to_string(WEXITSTATUS(st));
			fl += "F\t" + p.name + "\t" + why + "\t\t"; for (auto x : c) fl += std::to_string(x) + ","; fl += "\n";
		}
		pos[w].k = pos[w].k + 1; if (++gen[w] < 200 && ++ngen < 400) start(w); else broken.push_back("too many crashes");
	}
	long evals = 0, nontr = 0; std::map<std::string, long> labels, per; std::vector<std::string> samples; struct F { std::string name, why, notes, ch; }; std::vector<F> fails;
	auto line = [&](const std::string &l) { std::vector<std::string> v; size_t i = 0; while (true) { size_t j = l.find('\t', i); v.push_back(l.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; }
		if (v[0] == "N" && v.size() > 3) { evals += atol(v[2].c_str()); nontr += atol(v[3].c_str()); per[v[1]] += atol(v[2].c_str()); } else if (v[0] == "L" && v.size() > 2) labels[v[1]] += atol(v[2].c_str()); else if (v[0] == "S" && v.size() > 1) samples.push_back(v[1]); else if (v[0] == "F" && v.size() > 4) fails.push_back({ v[1], v[2], v[3], v[4] }); };
	std::sort(files.begin(), files.end());
	for (auto &fn : files) { FILE *f = fopen(fn.c_str(), "r"); if (!f) continue; std::string cur; int ch; while ((ch = fgetc(f)) != EOF) { if (ch == '\n') { line(cur); cur.clear(); } else cur += (char)ch; } fclose(f); }
	{ std::istringstream is(fl); std::string l; while (std::getline(is, l)) line(l); }
	uint64_t distinct = 0; for (uint64_t i = 0; i < BM / 64; ++i) distinct += (uint64_t)__builtin_popcountll(bm[i]);
	printf("{\"evaluations\": %ld, \"nontrivial\": %ld, \"distinct_nontrivial\": %" PRIu64 ", \"properties\": %zu,\n\"classes\": {", evals, nontr, distinct, todo.size()); bool first = true; for (auto &l : labels) { printf("%s%s: %ld", first ? "" : ", ", jesc(l.first).c_str(), l.second); first = false; }
	printf("},\n\"per_function\": {"); first = true; for (auto &l : per) { printf("%s%s: %ld", first ? "" : ", ", jesc(l.first).c_str(), l.second); first = false; }
	printf("},\n\"samples\": ["); first = true; std::sort(samples.begin(), samples.end()); std::string last; for (auto &x : samples) { std::string nm = x.substr(0, x.find(':')); if (nm == last) continue; last = nm; printf("%s%s", first ? "" : ",\n", jesc(x).c_str()); first = false; }
	printf("],\n\"broken\": ["); first = true; for (auto &b : broken) { printf("%s%s", first ? "" : ",", jesc(b).c_str()); first = false; }
	printf("],\n\"fails\": ["); first = true; for (auto &f : fails) { if (!f.ch.empty() && f.ch.back() == ',') f.ch.pop_back(); printf("%s{\"name\": %s, \"why\": %s, \"notes\": %s, \"choices\": [%s]}", first ? "" : ",\n", jesc(f.name).c_str(), jesc(f.why).c_str(), jesc(f.notes).c_str(), f.ch.c_str()); first = false; }
	printf("]}\n"); return 0;
}
} // namespace pbt
