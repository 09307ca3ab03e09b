// Compiled once per configuration against /repo/include.  With -DSUBJ_FORCE_CT the library is made to believe
// that every call is constant-evaluated, so the constant-evaluation kernels run at native speed.
#include <array>
#include <cerrno>
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <algorithm>
#ifdef SUBJ_FORCE_CT
#define __builtin_is_constant_evaluated() (true)
#endif
#include <ccmath/ccmath.hpp>
#include "subject_abi.h"

#define NOINL __attribute__((noinline, noclone_if_gcc))
#if defined(__clang__)
#undef NOINL
#define NOINL __attribute__((noinline))
#else
#undef NOINL
#define NOINL __attribute__((noinline, noclone))
#endif

namespace {
#define DEF_U(N) template <class T> void U_##N(const SubjBatch *s) { auto a=(const T*)s->a; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k) r[k]=ccm::N(a[k]); }
#define DEF_P(N) template <class T> void P_##N(const SubjBatch *s) { auto a=(const T*)s->a; for(size_t k=0;k<s->n;++k) s->ri[k]=(long)ccm::N(a[k]); }
#define DEF_B(N) template <class T> void B_##N(const SubjBatch *s) { auto a=(const T*)s->a; auto b=(const T*)s->b; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k) r[k]=ccm::N(a[k],b[k]); }
#define DEF_Q(N) template <class T> void Q_##N(const SubjBatch *s) { auto a=(const T*)s->a; auto b=(const T*)s->b; for(size_t k=0;k<s->n;++k) s->ri[k]=(long)ccm::N(a[k],b[k]); }
#define DEF_T(N) template <class T> void T_##N(const SubjBatch *s) { auto a=(const T*)s->a; auto b=(const T*)s->b; auto c=(const T*)s->c; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k) r[k]=ccm::N(a[k],b[k],c[k]); }
#define DEF_E(N) template <class T> void E_##N(const SubjBatch *s) { auto a=(const T*)s->a; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k) r[k]=ccm::N(a[k],(int)s->i[k]); }
#define DEF_L(N) template <class T> void L_##N(const SubjBatch *s) { auto a=(const T*)s->a; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k) r[k]=ccm::N(a[k],(long)s->i[k]); }

#define LIST_U(X) X(abs) X(fabs) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sqrt) X(cbrt) \
	X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(ceil) X(floor) X(trunc) X(round) X(rint) X(nearbyint) \
	X(logb) X(nextup) X(nextdown) X(tgamma) X(gamma) X(lgamma)
#define LIST_P(X) X(fpclassify) X(isfinite) X(isinf) X(isnan) X(isnormal) X(signbit) X(ilogb)
#define LIST_B(X) X(fdim) X(fmax) X(fmin) X(fmod) X(remainder) X(copysign) X(nextafter) X(pow) X(hypot) X(atan2)
#define LIST_Q(X) X(isgreater) X(isgreaterequal) X(isless) X(islessequal) X(islessgreater) X(isunordered)
#define LIST_T(X) X(fma) X(hypot) X(lerp)
#define LIST_E(X) X(ldexp) X(scalbn)
#define LIST_L(X) X(scalbln)

LIST_U(DEF_U) LIST_P(DEF_P) LIST_B(DEF_B) LIST_Q(DEF_Q) LIST_T(DEF_T) LIST_E(DEF_E) LIST_L(DEF_L)

template <class T> void X_frexp(const SubjBatch *s) { auto a=(const T*)s->a; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k){ int e=0x5a5a; r[k]=ccm::frexp(a[k],&e); s->ri[k]=e; } }
template <class T> void M_modf(const SubjBatch *s) { auto a=(const T*)s->a; auto r=(T*)s->r; auto r2=(T*)s->r2; for(size_t k=0;k<s->n;++k){ T ip=0; r[k]=ccm::modf(a[k],&ip); r2[k]=ip; } }
template <class T> void R_remquo(const SubjBatch *s) { auto a=(const T*)s->a; auto b=(const T*)s->b; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k){ int q=0x5a5a5a5a; r[k]=ccm::remquo(a[k],b[k],&q); s->ri[k]=q; } }
template <class T> void W_nexttoward(const SubjBatch *s) { auto a=(const T*)s->a; auto b=(const long double*)s->b; auto r=(T*)s->r; for(size_t k=0;k<s->n;++k) r[k]=ccm::nexttoward(a[k],b[k]); }

#define E3(N,P,SIG) {#N,'f',SIG,&P##_##N<float>},{#N,'d',SIG,&P##_##N<double>},{#N,'l',SIG,&P##_##N<long double>},
#define ROW_U(N) E3(N,U,'u')
#define ROW_P(N) E3(N,P,'p')
#define ROW_B(N) E3(N,B,'b')
#define ROW_Q(N) E3(N,Q,'q')
#define ROW_T(N) E3(N,T,'t')
#define ROW_E(N) E3(N,E,'e')
#define ROW_L(N) E3(N,L,'l')
const SubjEntry g_entries[] = {
	LIST_U(ROW_U) LIST_P(ROW_P) LIST_B(ROW_B) LIST_Q(ROW_Q) LIST_T(ROW_T) LIST_E(ROW_E) LIST_L(ROW_L)
	E3(frexp,X,'x') E3(modf,M,'m') E3(remquo,R,'r') E3(nexttoward,W,'w')
};
const SubjTable g_table = { (int)(sizeof g_entries/sizeof g_entries[0]), g_entries,
#ifdef SUBJ_DESC
	SUBJ_DESC
#else
	""
#endif
};
}
extern "C" const SubjTable *ccm_subject_table() { return &g_table; }
