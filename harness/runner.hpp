// Generic job runner: forks workers over chunks, records failures, survives crashes and hangs, shrinks, replays.
#pragma once
#include "common.hpp"
#include <atomic>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <ctime>
#include <x86intrin.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>

// One test case.  float and double operands embed exactly into long double.
struct Case {
	std::string check;  // which check function
	std::string fn;     // public function
	std::string cfg;    // configuration (subject) name
	char type = 'd';
	int mode = 0;       // index into kModes
	ld a = 0, b = 0, c = 0;
	long i = 0, j = 0;
};
inline std::string case_json(const Case &c) {
	return "{\"check\":" + jstr(c.check) + ",\"fn\":" + jstr(c.fn) + ",\"cfg\":" + jstr(c.cfg) + ",\"type\":\"" + c.type + "\",\"mode\":\"" + kModeNames[c.mode] + "\",\"a\":\"" + hexf(c.a) + "\",\"b\":\"" + hexf(c.b) + "\",\"c\":\"" + hexf(c.c) + "\",\"i\":" + std::to_string(c.i) + ",\"j\":" + std::to_string(c.j) + "}";
}
inline std::string json_get(const std::string &s, const std::string &k) { // flat, trusted JSON
	size_t p = s.find("\"" + k + "\""); if (p == std::string::npos) return "";
	p = s.find(':', p) + 1; while (p < s.size() && s[p] == ' ') ++p;
	if (s[p] == '"') { size_t q = s.find('"', p + 1); return s.substr(p + 1, q - p - 1); }
	size_t q = s.find_first_of(",}\n", p); return s.substr(p, q - p);
}
inline Case case_parse(const std::string &s) {
	Case c; c.check = json_get(s, "check"); c.fn = json_get(s, "fn"); c.cfg = json_get(s, "cfg"); std::string t = json_get(s, "type"); c.type = t.empty() ? 'd' : t[0];
	std::string m = json_get(s, "mode"); for (int k = 0; k < 4; ++k) if (m == kModeNames[k]) c.mode = k;
	c.a = parse_val<ld>(json_get(s, "a")); c.b = parse_val<ld>(json_get(s, "b")); c.c = parse_val<ld>(json_get(s, "c"));
	c.i = atol(json_get(s, "i").c_str()); c.j = atol(json_get(s, "j").c_str()); return c;
}

// A known finding: matches failing cases of a stated function/type/config/mode/region.
struct Finding { std::string id, prop, check, fn, types, cfg, modes; std::vector<std::string> conds; };
// cond syntax: <var><op><hexfloat>, var in a b c |a| |b| |c| i err
inline bool cond_ok(const std::string &s, const Case &c, double err) {
	size_t p = s.find_first_of("<>=!"); std::string v = s.substr(0, p), op = s.substr(p, 1); size_t q = p + 1; if (q < s.size() && s[q] == '=') { op += '='; ++q; }
	ld val = parse_val<ld>(s.substr(q)); ld x = 0;
	if (v == "a") x = c.a; else if (v == "b") x = c.b; else if (v == "c") x = c.c; else if (v == "|a|") x = fabsl(c.a); else if (v == "|b|") x = fabsl(c.b); else if (v == "|c|") x = fabsl(c.c); else if (v == "i") x = c.i; else if (v == "err") x = err; else if (v == "isint(a)") return c.a == rintl(c.a); else return false;
	if (op == "<") return x < val; if (op == "<=") return x <= val; if (op == ">") return x > val; if (op == ">=") return x >= val; if (op == "=" || op == "==") return x == val || (is_nan(x) && is_nan(val)); if (op == "!=") return !(x == val);
	return false;
}
inline bool glob(const char *p, const char *s) { // comma list of patterns with *
	std::string pat(p); size_t b = 0;
	while (b <= pat.size()) { size_t e = pat.find(',', b); std::string one = pat.substr(b, e == std::string::npos ? std::string::npos : e - b);
		std::function<bool(const char *, const char *)> m = [&](const char *x, const char *y) -> bool { if (!*x) return !*y; if (*x == '*') { do { if (m(x + 1, y)) return true; } while (*y++); return false; } return *x == *y && m(x + 1, y + 1); };
		if (m(one.c_str(), s)) return true; if (e == std::string::npos) break; b = e + 1; }
	return false;
}
struct Findings {
	std::vector<Finding> v;
	bool load(const char *path) { // tab separated: id prop check fn types cfg modes cond;cond
		FILE *f = fopen(path, "r"); if (!f) return false; char line[4096];
		while (fgets(line, sizeof line, f)) { std::string s(line); while (!s.empty() && (s.back() == '\n')) s.pop_back(); if (s.empty() || s[0] == '#') continue; std::vector<std::string> w; size_t b = 0; for (;;) { size_t e = s.find('\t', b); w.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; }
			if (w.size() < 7) continue; Finding k; k.id = w[0]; k.prop = w[1]; k.check = w[2]; k.fn = w[3]; k.types = w[4]; k.cfg = w[5]; k.modes = w[6]; if (w.size() > 7) { size_t p = 0; while (p < w[7].size()) { size_t e = w[7].find(';', p); std::string one = w[7].substr(p, e == std::string::npos ? e : e - p); if (!one.empty()) k.conds.push_back(one); if (e == std::string::npos) break; p = e + 1; } } v.push_back(k); }
		fclose(f); return true;
	}
	int match(const std::string &prop, const Case &c, double err) const {
		for (size_t n = 0; n < v.size(); ++n) { auto &k = v[n]; if (k.prop != prop) continue; if (!glob(k.check.c_str(), c.check.c_str()) || !glob(k.fn.c_str(), c.fn.c_str()) || !glob(k.cfg.c_str(), c.cfg.c_str())) continue; if (k.types != "*" && k.types.find(c.type) == std::string::npos) continue; if (!glob(k.modes.c_str(), kModeNames[c.mode])) continue; bool ok = true; for (auto &s : k.conds) if (!cond_ok(s, c, err)) { ok = false; break; } if (ok) return (int)n; }
		return -1;
	}
};

struct Fail { Case c; std::string got, want, why; double err = 0; };
struct Chunk { int job; long index; long n; };
struct JobStats { long evals = 0, nontrivial = 0, excluded = 0; double maxerr = 0; std::map<std::string, long> classes; std::map<int, long> known; std::vector<std::string> samples; };
struct Worker; // supplied by the driver

// shared state per worker for crash diagnosis
struct Slot { volatile int chunk; char cur[512]; volatile int have; };

struct Args { ld a = 0, b = 0, c = 0; long i = 0, j = 0; };
struct Verdict { bool nontrivial = true; std::string got, want, why; double err = 0; };
struct Spec { std::string prop, check, fn, cfg; char type = 'd'; int mode = 0; int kind = 0; /* 0 generator, 1 float sweep, 2 enumeration */ long n = 0; long long start = 0, stride = 1; };

struct Shared { std::atomic<int> next; std::atomic<int> stop; };
struct WSlot { std::atomic<long> count; std::atomic<int> phase; std::atomic<int> chunk; Args cur; };
inline WSlot *g_slot = nullptr;          // this worker's slot (null outside a campaign)
struct InSubject { InSubject() { if (g_slot) g_slot->phase.store(1, std::memory_order_relaxed); } ~InSubject() { if (g_slot) g_slot->phase.store(0, std::memory_order_relaxed); } };

struct Check {
	Spec s;
	virtual ~Check() {}
	virtual void gen(Rng &g, long long idx, Args &A, int &cls) = 0;
	virtual bool test(const Args &A, Verdict &V) = 0; // true = property holds on this case
	virtual const char *cls_name(int c) { static char b[8]; snprintf(b, 8, "c%d", c); return b; }
	virtual int arity() { return 3; }
	virtual bool has_int() { return true; }
};
inline Case to_case(const Spec &s, const Args &A) { Case c; c.check = s.check; c.fn = s.fn; c.cfg = s.cfg; c.type = s.type; c.mode = s.mode; c.a = A.a; c.b = A.b; c.c = A.c; c.i = A.i; c.j = A.j; return c; }
inline Args to_args(const Case &c) { Args A; A.a = c.a; A.b = c.b; A.c = c.c; A.i = c.i; A.j = c.j; return A; }

// --- shrinking: make operands simple while the case keeps failing
inline std::vector<ld> simpler(ld v, char type) {
	std::vector<ld> o; if (v == 0 || is_nan(v) || is_inf(v)) return o;
	ld s = sgn(v) ? -1 : 1, m = fabsl(v);
	for (ld t : { (ld)0, (ld)1, (ld)2, (ld)3 }) if (m != t && (t <= 1 || m > t)) o.push_back(s * t);
	if (s < 0) o.push_back(m);
	int e; ld f = frexpl(m, &e);
	for (int keep : { 1, 2, 3, 4, 6, 8, 12, 16, 20, 24, 32, 40, 48, 52 }) { ld t = ldexpl(truncl(ldexpl(f, keep)), e - keep); if (t != m && t != 0) o.push_back(s * t); }
	if (m != truncl(m)) { o.push_back(s * truncl(m)); } 
	if (e > 2) { o.push_back(s * ldexpl(f, e / 2)); o.push_back(s * ldexpl(f, e - 1)); }
	if (e < -1) { o.push_back(s * ldexpl(f, e / 2)); o.push_back(s * ldexpl(f, e + 1)); }
	for (auto &t : o) { if (type == 'f') t = (float)t; else if (type == 'd') t = (double)t; }
	o.erase(std::remove_if(o.begin(), o.end(), [&](ld t) { return t == v && sgn(t) == sgn(v); }), o.end());
	return o;
}
inline double cost(ld v) { if (v == 0) return 0; if (is_nan(v) || is_inf(v)) return 1; int e; ld f = frexpl(fabsl(v), &e); int bits = 0; while (f != 0 && bits < 70) { f *= 2; f -= floorl(f); ++bits; } return bits + 0.01 * std::abs(e - 1) + (sgn(v) ? 0.5 : 0) + 1; }
template <class Pred> Args shrink(Args A, char type, int arity, bool ints, Pred fails, int budget = 4000) {
	bool again = true;
	while (again && budget > 0) {
		again = false;
		ld Args::*fld[3] = { &Args::a, &Args::b, &Args::c };
		for (int k = 0; k < arity; ++k) for (ld t : simpler(A.*fld[k], type)) { if (cost(t) >= cost(A.*fld[k])) continue; if (--budget < 0) break; Args B = A; B.*fld[k] = t; if (fails(B)) { A = B; again = true; break; } }
		if (ints) for (long Args::*f : { &Args::i, &Args::j }) { long v = A.*f; for (long t : { 0l, 1l, -1l, v / 2, v - (v > 0) + (v < 0) }) { if (std::labs(t) >= std::labs(v) && v != LONG_MIN) continue; if (--budget < 0) break; Args B = A; B.*f = t; if (fails(B)) { A = B; again = true; break; } } }
	}
	return A;
}

struct Distinct { // lower bound on the number of distinct cases: set bits of a hashed bitmap
	static constexpr uint64_t BITS = 1ull << 31;
	uint64_t *m = nullptr;
	void init() { m = (uint64_t *)mmap(nullptr, BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	void add(uint64_t h) { h ^= h >> 31; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; h &= BITS - 1; uint64_t b = 1ull << (h & 63); if (!(m[h >> 6] & b)) m[h >> 6] |= b; }
	long count() { long c = 0; for (uint64_t k = 0; k < BITS / 64; ++k) if (m[k]) c += __builtin_popcountll(m[k]); return c; }
};
inline uint64_t hash_ld(ld v) { uint64_t man; uint16_t se; memcpy(&man, &v, 8); memcpy(&se, (char *)&v + 8, 2); return man * 0x9e3779b97f4a7c15ull + se * 0xc2b2ae3d27d4eb4full; }
inline uint64_t hash_args(uint64_t salt, const Args &A) { uint64_t h = salt; h = (h ^ hash_ld(A.a)) * 0xff51afd7ed558ccdull; h = (h ^ (h >> 33) ^ hash_ld(A.b)) * 0xc4ceb9fe1a85ec53ull; h = (h ^ (h >> 33) ^ hash_ld(A.c)) * 0xff51afd7ed558ccdull; return (h ^ (h >> 29) ^ (uint64_t)A.i * 31 ^ (uint64_t)A.j * 0x1000193) * 0x9e3779b97f4a7c15ull; }

typedef Check *(*MakeCheck)(const Spec &);

struct Campaign {
	std::string prop; uint64_t seed = 1; std::vector<Spec> specs; Findings findings; MakeCheck make; int workers = 8; double hang_s = 20; long max_fail_per_spec = 2;
	struct Ck { int spec; long long b, e; };
	// results
	long evals = 0, nontrivial = 0; std::map<std::string, long> classes; std::map<std::string, long> per_fn; std::map<std::string, double> maxerr; std::map<int, long> known; std::map<int, std::string> known_ex; std::vector<std::string> samples; std::vector<Fail> fails; std::vector<std::string> broken;
	long distinct = 0;

	static double cpu_of(pid_t p) { char b[64]; snprintf(b, 64, "/proc/%d/stat", p); FILE *f = fopen(b, "r"); if (!f) return 0; char buf[1024]; size_t n = fread(buf, 1, 1023, f); fclose(f); buf[n] = 0; char *q = strrchr(buf, ')'); if (!q) return 0; unsigned long ut = 0, st = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st); return (double)(ut + st) / sysconf(_SC_CLK_TCK); }

	void run(const std::string &tmpdir) {
		std::vector<Ck> chunks;
		for (size_t k = 0; k < specs.size(); ++k) { long long n = specs[k].n; long long per = std::max<long long>(1, std::min<long long>(n, 40000)); for (long long b = 0; b < n; b += per) chunks.push_back({ (int)k, b, std::min(n, b + per) }); }
		// interleave so that slow specs spread over the workers
		Rng sh(12345); for (size_t k = chunks.size(); k > 1; --k) std::swap(chunks[k - 1], chunks[sh.below(k)]);
		auto *S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		auto *slots = (WSlot *)mmap(nullptr, sizeof(WSlot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		auto *failcount = (std::atomic<int> *)mmap(nullptr, sizeof(std::atomic<int>) * specs.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		S->next = 0; Distinct D; D.init();
		struct W { pid_t pid; double cpu0; long last; int gen; };
		std::vector<W> ws(workers); std::vector<std::string> outs;
		int spawned = 0;
		auto spawn = [&](int w) {
			std::string out = tmpdir + "/w" + std::to_string(spawned++) + ".txt"; outs.push_back(out);
			slots[w].count = 0; slots[w].phase = 0; slots[w].chunk = -1; fflush(stdout);
			pid_t p = fork();
			if (p == 0) { worker(chunks, *S, slots[w], failcount, D, out); _exit(0); }
			ws[w] = { p, 0, -1, 0 };
		};
		for (int w = 0; w < workers; ++w) spawn(w);
		int alive = workers, restarts = 0;
		while (alive > 0) {
			usleep(100000);
			for (int w = 0; w < workers; ++w) {
				if (!ws[w].pid) continue;
				int st; pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
				bool dead = false; std::string why;
				if (r == ws[w].pid) {
					if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { ws[w].pid = 0; --alive; continue; }
					dead = true; why = WIFSIGNALED(st) ? std::string("crash: signal ") + strsignal(WTERMSIG(st)) : "worker exited with status " + std::to_string(WEXITSTATUS(st));
				} else {
					long c = slots[w].count.load(); double cpu = cpu_of(ws[w].pid);
					if (c != ws[w].last || slots[w].phase.load() == 0) { ws[w].last = c; ws[w].cpu0 = cpu; }
					else if (cpu - ws[w].cpu0 > hang_s) { kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0); dead = true; why = "no result after " + std::to_string((int)hang_s) + " s of CPU time"; }
				}
				if (dead) {
					int ck = slots[w].chunk.load(); bool in = slots[w].phase.load() == 1;
					if (ck >= 0 && in) {
						const Spec &sp = specs[chunks[ck].spec]; Fail F; F.c = to_case(sp, slots[w].cur); F.why = why; F.got = why; F.want = "a result"; F.err = 1e300;
						int kf = findings.match(prop, F.c, F.err);
						if (kf >= 0) known[kf]++; else { fails.push_back(F); failcount[chunks[ck].spec] += 100; }
					} else broken.push_back(why + " outside the code under test (chunk " + std::to_string(ck) + ")");
					if (++restarts < 200 && broken.size() < 4) spawn(w); else { ws[w].pid = 0; --alive; }
				}
			}
		}
		distinct = D.count();
		for (auto &o : outs) merge(o);
		munmap(D.m, Distinct::BITS / 8);
	}
	void worker(const std::vector<Ck> &chunks, Shared &S, WSlot &slot, std::atomic<int> *failcount, Distinct &D, const std::string &out) {
		g_slot = &slot; mp_wide();
		struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
		FILE *f = fopen(out.c_str(), "w"); if (!f) _exit(9);
		std::map<std::string, long> cl; std::map<std::string, double> me; std::map<std::string, long> pf; std::map<int, long> kn; std::map<int, std::string> knx; long ev = 0, nt = 0; int cur = -1; std::unique_ptr<Check> ck; 
		auto flush = [&](const char *head = nullptr) { (void)head; };
		(void)flush;
		for (;;) {
			int k = S.next.fetch_add(1); if (k >= (int)chunks.size()) break;
			const Ck &c = chunks[k]; const Spec &sp = specs[c.spec]; slot.chunk = k;
			if (failcount[c.spec] >= max_fail_per_spec) continue;
			if (cur != c.spec) { ck.reset(make(sp)); cur = c.spec; }
			if (!ck) continue;
			std::string tag = sp.prop + "|" + sp.check + "|" + sp.fn + "|" + sp.cfg + "|" + sp.type + "|" + std::to_string(sp.mode) + "|" + std::to_string(sp.kind) + "|" + std::to_string(c.b);
			Rng g(seed, tag); uint64_t salt = std::hash<std::string>()(sp.check + sp.fn + sp.cfg + sp.type) + sp.mode;
			std::array<long, 16> cc{}; double mx = 0; long n0 = 0, e0 = 0; bool sample = (g.below(40) == 0);
			for (long long idx = c.b; idx < c.e; ++idx) {
				Args A; int cls = 0; Verdict V;
				ck->gen(g, idx, A, cls); slot.cur = A; slot.count.fetch_add(1, std::memory_order_relaxed);
				bool ok = ck->test(A, V); ++e0; cc[cls & 15]++;
				if (V.nontrivial) { ++n0; D.add(hash_args(salt, A)); }
				if (ok) { if (V.err < 1e29 && V.err > mx) mx = V.err; if (sample && V.nontrivial && idx > c.b + 20) { sample = false; fprintf(f, "S\t%s\n", case_json(to_case(sp, A)).c_str()); } continue; }
				Case cs = to_case(sp, A); int kf = findings.match(prop, cs, V.err);
				if (kf >= 0) { kn[kf]++; if (!knx.count(kf)) knx[kf] = case_json(cs) + " got " + V.got + " want " + V.want; continue; }
				fprintf(f, "F\t%s\t%s\t%s\t%s\t%.17g\n", case_json(cs).c_str(), V.got.c_str(), V.want.c_str(), V.why.c_str(), V.err); fflush(f);
				if (failcount[c.spec].fetch_add(1) + 1 >= max_fail_per_spec) break;
			}
			ev += e0; nt += n0; for (int q = 0; q < 16; ++q) if (cc[q]) cl[ck->cls_name(q)] += cc[q];
			auto &m = me[sp.check + ":" + sp.fn + ":" + sp.type + ":" + sp.cfg + ":" + kModeNames[sp.mode]]; m = std::max(m, mx); pf[sp.fn] += e0;
			if (ev > 0) { fprintf(f, "E\t%ld\t%ld\n", ev, nt); ev = nt = 0; for (auto &x : cl) fprintf(f, "C\t%s\t%ld\n", x.first.c_str(), x.second); cl.clear(); for (auto &x : pf) fprintf(f, "P\t%s\t%ld\n", x.first.c_str(), x.second); pf.clear(); for (auto &x : me) fprintf(f, "M\t%s\t%.6g\n", x.first.c_str(), x.second); me.clear(); for (auto &x : kn) { fprintf(f, "K\t%d\t%ld\t%s\n", x.first, x.second, knx[x.first].c_str()); } kn.clear(); knx.clear(); fflush(f); }
		}
		fclose(f);
	}
	void merge(const std::string &o) {
		FILE *f = fopen(o.c_str(), "r"); if (!f) return; std::vector<char> buf(1 << 16);
		while (fgets(buf.data(), (int)buf.size(), f)) {
			std::string s(buf.data()); if (!s.empty() && s.back() == '\n') s.pop_back(); std::vector<std::string> w; size_t b = 0; for (;;) { size_t e = s.find('\t', b); w.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; }
			if (w[0] == "E" && w.size() > 2) { evals += atol(w[1].c_str()); nontrivial += atol(w[2].c_str()); }
			else if (w[0] == "C" && w.size() > 2) classes[w[1]] += atol(w[2].c_str());
			else if (w[0] == "P" && w.size() > 2) per_fn[w[1]] += atol(w[2].c_str());
			else if (w[0] == "M" && w.size() > 2) { auto &m = maxerr[w[1]]; m = std::max(m, atof(w[2].c_str())); }
			else if (w[0] == "K" && w.size() > 2) { int k = atoi(w[1].c_str()); known[k] += atol(w[2].c_str()); if (w.size() > 3 && !known_ex.count(k)) known_ex[k] = w[3]; }
			else if (w[0] == "S" && w.size() > 1) { if (samples.size() < 400) samples.push_back(w[1]); }
			else if (w[0] == "F" && w.size() > 5) { Fail F; F.c = case_parse(w[1]); F.got = w[2]; F.want = w[3]; F.why = w[4]; F.err = atof(w[5].c_str()); fails.push_back(F); }
		}
		fclose(f); unlink(o.c_str());
	}
	void print(FILE *o) {
		fprintf(o, "{\"evaluations\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%ld,", evals, nontrivial, distinct);
		auto mp = [&](const char *k, auto &m, const char *fmt) { fprintf(o, "\"%s\":{", k); bool first = true; for (auto &x : m) { fprintf(o, "%s%s:", first ? "" : ",", jstr(x.first).c_str()); fprintf(o, fmt, x.second); first = false; } fprintf(o, "},"); };
		mp("classes", classes, "%ld"); mp("per_function", per_fn, "%ld"); mp("max_error", maxerr, "%.6g");
		fprintf(o, "\"known\":["); bool first = true; for (auto &x : known) { fprintf(o, "%s{\"id\":%s,\"count\":%ld,\"example\":%s}", first ? "" : ",", jstr(findings.v[x.first].id).c_str(), x.second, jstr(known_ex[x.first]).c_str()); first = false; } fprintf(o, "],");
		std::sort(samples.begin(), samples.end()); std::vector<std::string> pick; for (size_t k = 0; k < samples.size(); k += std::max<size_t>(1, samples.size() / 12)) pick.push_back(samples[k]);
		fprintf(o, "\"samples\":["); first = true; for (auto &x : pick) { fprintf(o, "%s%s", first ? "" : ",", x.c_str()); first = false; } fprintf(o, "],");
		fprintf(o, "\"broken\":["); first = true; for (auto &x : broken) { fprintf(o, "%s%s", first ? "" : ",", jstr(x).c_str()); first = false; } fprintf(o, "],");
		fprintf(o, "\"fails\":["); first = true; for (auto &F : fails) { fprintf(o, "%s{\"case\":%s,\"got\":%s,\"want\":%s,\"why\":%s,\"err\":%.6g}", first ? "" : ",\n", case_json(F.c).c_str(), jstr(F.got).c_str(), jstr(F.want).c_str(), jstr(F.why).c_str(), F.err); first = false; } fprintf(o, "]}\n");
	}
};
