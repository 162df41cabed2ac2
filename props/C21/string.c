/* Comparison and search of any strings. */
#include "string.h"
#include "fiftyone.h"
#include "verif.h"
#include <stdlib.h>
#ifndef LEN
#define LEN 5
#endif
static int low(char c) { int v = (unsigned char)c; return v + (((unsigned)v - 'A' < 26) << 5); }
static int sgn(int v) { return (v > 0) - (v < 0); }
/* A string of any bytes and length in memory with nothing after its end */
static char *text(size_t max, size_t *n) {
	size_t k;
	char *s;
	*n = (size_t)VERIF_SPLIT(verif_range(0, (int)max));
	s = malloc(*n + 1);
	for (k = 0; k < *n; k++) { s[k] = (char)verif_u8(); VERIF_ASSUME(s[k] != 0); }
	s[*n] = 0;
	return s;
}
/* The order of the first bytes that differ, or of the ends */
static int order(const char *a, const char *b, size_t limit) {
	size_t k; int r = 0, open = 1;
	for (k = 0; k < limit; k++) {
		int d = low(a[k]) - low(b[k]);
		r = open ? sgn(d) : r;
		open = open & (d == 0) & (a[k] != 0);
		if (a[k] == 0 || b[k] == 0) break;
	}
	return r;
}
void harness(void) {
	size_t n, m, k;
	char *a, *b;
#ifdef COMPARE
	int r;
	a = text(LEN, &n); b = text(LEN, &m);
	r = fiftyoneDegreesStringCompare(a, b);
	VERIF_ASSERT(sgn(r) == order(a, b, LEN + 1), "the lexical order up to case");
	VERIF_ASSERT((r == 0) == (order(a, b, LEN + 1) == 0), "zero exactly when equal up to case");
	VERIF_OBSERVE(sgn(r));
	VERIF_WITNESS_IF(r == 0 && n > 1 && a[0] != b[0], "equal up to case");
	VERIF_WITNESS_IF(r > 0 && n == m && n > 1, "after");
	VERIF_WITNESS_IF(r < 0 && n < m && n > 1, "a prefix is before");
#elif defined(LENGTH)
	int r; size_t limit = (size_t)VERIF_SPLIT(verif_range(0, LEN + 2));
	a = text(LEN, &n); b = text(LEN, &m);
	r = fiftyoneDegreesStringCompareLength(a, b, limit);
	VERIF_ASSERT(sgn(r) == order(a, b, limit), "the lexical order of the first characters up to case");
	VERIF_OBSERVE(sgn(r));
	VERIF_WITNESS_IF(r == 0 && n != m && limit == 2, "equal within the limit");
	VERIF_WITNESS_IF(r == 0 && n == m && limit > n, "equal to the end");
#else
	char *r; size_t at, found = LEN + 1;
	a = text(LEN, &n); b = text(4, &m);
	VERIF_ASSUME(m > 0);
	r = fiftyoneDegreesStringSubString(a, b);
	for (at = 0; at + m <= n; at++) {
		int eq = 1;
		for (k = 0; k < m; k++) eq &= low(a[at + k]) == low(b[k]);
		found = eq & (found > LEN) ? at : found;
	}
	VERIF_ASSERT(r == (found > LEN ? NULL : a + found), "the first occurrence or nothing");
	VERIF_WITNESS_IF(r != NULL && r > a && m > 1, "found");
	VERIF_WITNESS_IF(r == NULL && n > m && a[0] == b[0], "not found");
#endif
	free(a); free(b);
}
