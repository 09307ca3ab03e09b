#include "fns.hpp"
template <class T> void measU(Subject &S, const UFn &f, int mode, long n, uint64_t seed) {
	auto e = S.find(f.name, Fmt<T>::c, 'u'); if (!e) return;
	Rng g(seed, std::string(f.name) + Fmt<T>::c); Gen<T> G(g);
	double mx = 0; T wx = 0, wr = 0; long bad = 0, over1 = 0, over4 = 0; std::vector<std::string> badex;
	const long B = 256; std::vector<T> x(B), r(B);
	Mp a(64), y(160);
	for (long k = 0; k < n; k += B) {
		int cls; for (auto &v : x) v = gen_unary<T>(G, f, &cls);
		SubjBatch s{}; s.a = x.data(); s.r = r.data(); s.n = B;
		{ ModeGuard m(kModes[mode]); e->fn(&s); }
		for (long i = 0; i < B; ++i) {
			double u;
			bool slow = Fmt<T>::c == 'l';
			ld ref = 0;
			if (!slow) { ref = f.fast((ld)x[i]); if (!std::isfinite((double)ref) || !std::isfinite((ld)r[i]) || r[i]==0 || ref==0) slow = true; else { int ex; frexpl(ref,&ex); int ue=std::max(ex-Fmt<T>::p,Fmt<T>::emin); u = (double)std::fabs(ldexpl((ld)r[i]-ref,-ue)); if (u > 0.9*std::max(mx,0.5)) slow=true; } }
			if (slow) { mp_set<T>(a, x[i]); f.mp(y, a, MPFR_RNDN); u = ulp_error<T>(r[i], y); }
			if (u >= 1e29) { ++bad; if (badex.size() < 6) badex.push_back(hexf(x[i]) + "->" + hexf(r[i])); continue; }
			if (u > 1) ++over1; if (u > 4) { ++over4; }
			if (u > mx) { mx = u; wx = x[i]; wr = r[i]; }
		}
	}
	printf("%-8s %c %-10s max=%-10.4g over1=%.3f%% over4=%ld bad=%ld  worst f(%s)=%s", f.name, Fmt<T>::c, kModeNames[mode], mx, 100.0*over1/n, over4, bad, hexf(wx).c_str(), hexf(wr).c_str());
	for (auto &b : badex) printf(" | %s", b.c_str());
	printf("\n"); fflush(stdout);
}
template <class T> void measB(Subject &S, const BFn &f, int mode, long n, uint64_t seed) {
	auto e = S.find(f.name, Fmt<T>::c, 'b'); if (!e) return;
	Rng g(seed, std::string(f.name) + Fmt<T>::c); Gen<T> G(g);
	double mx = 0; T wx = 0, wy = 0, wr = 0; long bad = 0, over1 = 0, over4 = 0; std::vector<std::string> badex;
	const long B = 256; std::vector<T> x(B), y(B), r(B);
	Mp a(64), b(64), z(160);
	for (long k = 0; k < n; k += B) {
		int cls; for (long i = 0; i < B; ++i) gen_binary<T>(G, f.crit, x[i], y[i], &cls);
		SubjBatch s{}; s.a = x.data(); s.b = y.data(); s.r = r.data(); s.n = B;
		{ ModeGuard m(kModes[mode]); e->fn(&s); }
		for (long i = 0; i < B; ++i) {
			mp_set<T>(a, x[i]); mp_set<T>(b, y[i]); f.mp(z, a, b, MPFR_RNDN); double u = ulp_error<T>(r[i], z);
			if (u >= 1e29) { ++bad; if (badex.size() < 6) badex.push_back(hexf(x[i]) + "," + hexf(y[i]) + "->" + hexf(r[i])); continue; }
			if (u > 1) ++over1; if (u > 4) { ++over4; }
			if (u > mx) { mx = u; wx = x[i]; wy = y[i]; wr = r[i]; }
		}
	}
	printf("%-8s %c %-10s max=%-10.4g over1=%.3f%% over4=%ld bad=%ld  worst f(%s,%s)=%s", f.name, Fmt<T>::c, kModeNames[mode], mx, 100.0*over1/n, over4, bad, hexf(wx).c_str(), hexf(wy).c_str(), hexf(wr).c_str());
	for (auto &b : badex) printf(" | %s", b.c_str());
	printf("\n"); fflush(stdout);
}
int main(int c, char **v) {
	Subject S; if (c < 3 || !S.load(v[1])) return 2;
	long n = atol(v[2]); int modes = c > 3 ? atoi(v[3]) : 4; const char *types = c > 4 ? v[4] : "fdl"; const char *only = c > 5 ? v[5] : nullptr;
	mp_wide();
	for (auto &f : kU) { if (only && strcmp(only, f.name)) continue; if (getenv("NOGAM") && strstr(f.name,"gam")) continue; for (int m = 0; m < modes; ++m) for (const char *t = types; *t; ++t) { if (*t == 'f') measU<float>(S, f, m, n, 1); if (*t == 'd') measU<double>(S, f, m, n, 1); if (*t == 'l') measU<ld>(S, f, m, n/10, 1); } }
	for (auto &f : kB) { if (only && strcmp(only, f.name)) continue; if (getenv("NOGAM") && strstr(f.name,"gam")) continue; for (int m = 0; m < modes; ++m) for (const char *t = types; *t; ++t) { if (*t == 'f') measB<float>(S, f, m, n/4, 1); if (*t == 'd') measB<double>(S, f, m, n/4, 1); if (*t == 'l') measB<ld>(S, f, m, n/10, 1); } }
}
