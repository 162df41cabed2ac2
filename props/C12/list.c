/* Comparison of any two addresses, and lists of addresses with any text. */
#include "ip.h"
#include "fiftyone.h"
#include "verif.h"
#ifndef ADDRS
#define ADDRS 3
#endif
static int sign(int v) { return v < 0 ? -1 : v > 0; }
static int allocs, frees, failAt = -1;
static void* lose(size_t n) { if (allocs == failAt) { allocs++; return NULL; } allocs++; return malloc(n); }
static void release(void *p) { frees++; free(p); }

void harness_compare(void) {
	unsigned i, type = VERIF_SPLIT(verif_range(0, 3)), n = type == 0 ? 4 : type == 1 ? 16 : 0;
	unsigned char *a = (unsigned char*)malloc(n + 1), *b = (unsigned char*)malloc(n + 1), *c = (unsigned char*)malloc(n + 1);
	int r = 0, q, k;
	/* only the bytes of the type exist (one spare, so that the block is not empty) */
	if (n) { free(a); free(b); free(c); a = (unsigned char*)malloc(n); b = (unsigned char*)malloc(n); c = (unsigned char*)malloc(n); }
	else a[0] = 1, b[0] = 2;
	verif_bytes(a, n); verif_bytes(b, n); verif_bytes(c, n);
	for (i = 0; i < n && r == 0; i++) r = (a[i] > b[i]) - (a[i] < b[i]);
	q = fiftyoneDegreesCompareIpAddresses(a, b, (fiftyoneDegreesEvidenceIpType)type);
	VERIF_ASSERT(sign(q) == r, "the order of the bytes");
	k = fiftyoneDegreesCompareIpAddresses(b, a, (fiftyoneDegreesEvidenceIpType)type);
	VERIF_ASSERT(sign(k) == -r, "antisymmetric");
	VERIF_WITNESS_IF(n == 16 && r > 0 && a[0] == b[0], "greater");
	VERIF_WITNESS_IF(type == 3, "no type");
	free(a); free(b); free(c);
}

/* A list: addresses of known value with 1..2 separators between them */
void harness_list(void) {
	char t[16 * ADDRS + 1], *s;
	unsigned n = 0, k, j, m = (unsigned)VERIF_SPLIT(verif_range(0, ADDRS)), v[ADDRS][4], seps, type[ADDRS];
	fiftyoneDegreesEvidenceIpAddress *head, *a;
	seps = (unsigned)VERIF_SPLIT(verif_range(0, 2));
	for (k = 0; k < seps; k++) t[n++] = VERIF_SPLIT(verif_bool()) ? ' ' : ',';
	for (k = 0; k < m; k++) {
		type[k] = (unsigned)VERIF_SPLIT(verif_bool());
		for (j = 0; j < 4; j++) {
			v[k][j] = type[k] && j > 0 ? 0 : (unsigned)verif_range(0, 9);
			if (type[k] && j > 0) continue;
			if (j > 0) t[n++] = '.';
			if (type[k]) { t[n++] = ':'; t[n++] = ':'; }
			t[n++] = (char)('0' + v[k][j]);
		}
		seps = (unsigned)VERIF_SPLIT(verif_range(k + 1 < m, 2));
		for (j = 0; j < seps; j++) t[n++] = VERIF_SPLIT(verif_bool()) ? ' ' : ',';
	}
	s = (char*)malloc(n + 1);
	memcpy(s, t, n);
	s[n] = 0;
	head = a = fiftyoneDegreesIpParseAddresses(lose, s);
	for (k = 0; k < m; k++) {
		VERIF_ASSERT(a != NULL, "an entry per address");
		VERIF_ASSERT(a->type == (type[k] ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4), "in the order written");
		if (type[k]) {
			for (j = 0; j < 15; j++) VERIF_ASSERT(a->address[j] == 0, "exactly its bytes");
			VERIF_ASSERT(a->address[15] == v[k][0], "exactly its bytes");
		}
		else for (j = 0; j < 4; j++) VERIF_ASSERT(a->address[j] == v[k][j], "exactly its bytes");
		a = a->next;
	}
	VERIF_ASSERT(a == NULL, "and no other entry");
	fiftyoneDegreesIpFreeAddresses(release, head);
	VERIF_ASSERT(frees == allocs, "every block is freed");
	free(s);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS_IF(m == ADDRS, "full list");
	VERIF_WITNESS_IF(m == 0, "empty list");
}

/* Any text, any allocation failing: safe, and freed */
#ifndef LEN
#define LEN 4
#endif
void harness_any(void) {
	size_t n = (size_t)VERIF_SPLIT(verif_range(0, LEN)), i;
	char *s = (char*)malloc(n + 1);
	fiftyoneDegreesEvidenceIpAddress *head, *a;
	int entries = 0;
	for (i = 0; i < n; i++) { s[i] = (char)verif_u8(); VERIF_ASSUME(s[i] != 0); }
	s[n] = 0;
	failAt = (int)VERIF_SPLIT(verif_range(0, 2)) - 1;
	head = fiftyoneDegreesIpParseAddresses(lose, s);
	for (a = head; a != NULL; a = a->next) entries++;
	VERIF_ASSERT(entries == allocs - (failAt >= 0 && failAt < allocs), "an entry per block");
	fiftyoneDegreesIpFreeAddresses(release, head);
	VERIF_ASSERT(frees == entries, "every block is freed");
	free(s);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS_IF(entries == 2, "two entries");
}
