// ABI between the driver and the "subject" shared objects.  A subject is /repo/include compiled in one
// configuration; every entry evaluates one PUBLIC ccmath overload on n argument tuples.
#pragma once
#include <cstddef>
struct SubjBatch {
	const void *a, *b, *c; // operands of the entry's type (b of nexttoward: long double)
	const long *i;         // integer operands
	void *r, *r2;          // results of the entry's type
	long *ri;              // integer results
	size_t n;
};
typedef void (*SubjFn)(const SubjBatch *);
// sig: 'u' T->T, 'p' T->int/bool, 'b' T,T->T, 'q' T,T->bool, 't' T,T,T->T, 'e' T,int->T, 'l' T,long->T,
//      'x' frexp, 'm' modf, 'r' remquo, 'w' nexttoward
struct SubjEntry { const char *name; char type; /* f d l */ char sig; SubjFn fn; };
struct SubjTable { int n; const SubjEntry *e; const char *desc; };
extern "C" const SubjTable *ccm_subject_table();
