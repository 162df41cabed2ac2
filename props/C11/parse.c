/* Any text, and every well formed address, through the real parser. The text
 * and the address are in blocks of exactly their size. */
#include "ip.h"
#include "fiftyone.h"
#include "verif.h"
#ifndef LEN
#define LEN 6
#endif
static int live;
static void* count(size_t n) { void *p = malloc(n); if (p) live++; return p; }

static unsigned bytesOf(fiftyoneDegreesEvidenceIpAddress *a) { return a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16; }

static fiftyoneDegreesEvidenceIpAddress* parse(const char *s, size_t n) {
	fiftyoneDegreesEvidenceIpAddress *a = fiftyoneDegreesIpParseAddress(count, s, s + n);
	VERIF_ASSERT(a != NULL && live == 1, "one block");
	VERIF_ASSERT(a->next == NULL, "one address");
	VERIF_ASSERT(a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 || a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 || a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID, "a type");
	if (a->type != FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) {
		unsigned i, sum = 0;
		VERIF_ASSERT(VERIF_READABLE(a->address, bytesOf(a)), "all the bytes of the type");
		for (i = 0; i < bytesOf(a); i++) if (a->address[i]) sum++; /* all initialised */
		VERIF_OBSERVE(sum);
	}
	return a;
}

/* Text with any bytes */
void harness(void) {
	size_t n = (size_t)VERIF_SPLIT(verif_range(0, LEN)), i;
	char *s = (char*)malloc(n + 1);
	for (i = 0; i < n; i++) { s[i] = (char)verif_u8(); VERIF_ASSUME(s[i] != 0); }
	s[n] = 0;
	fiftyoneDegreesIpFreeAddresses(free, parse(s, n));
	free(s);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS("parsed");
}

/* More segments than an address has: up to PARTS segments of 0..2 characters */
#ifndef PARTS
#define PARTS 8
#endif
void harness_parts(void) {
	static const size_t parts[] = { 5, 9, PARTS };
	size_t n = 0, k, i, j, m = parts[VERIF_SPLIT(verif_range(0, 2))];
	char t[3 * PARTS + 1], *s;
	_Bool dots = VERIF_SPLIT(verif_bool());
	size_t len = (size_t)VERIF_SPLIT(verif_range(0, 2)), at = (size_t)VERIF_SPLIT(verif_range(0, PARTS)), other = (size_t)VERIF_SPLIT(verif_range(0, 2));
	VERIF_ASSUME(at == 0 || at == 3 || at == m - 1);
	/* one segment and the separator after it may differ from the others */
	for (k = 0; k < m; k++) {
		for (i = 0, j = k == at ? other : len; i < j; i++) t[n++] = k == at ? (char)VERIF_SPLIT(verif_bool() ? 'f' : '9') : (char)('0' + verif_range(0, 9));
		t[n++] = (k == at && VERIF_SPLIT(verif_bool()) ? !dots : dots) ? '.' : ':';
	}
	s = (char*)malloc(n);
	memcpy(s, t, n);
	s[n - 1] = 0; /* the last separator is the end */
	fiftyoneDegreesIpFreeAddresses(free, parse(s, n - 1));
	free(s);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS_IF(m == PARTS && len == 2, "many segments");
}

/* Every dotted IPv4 address */
void harness_v4(void) {
	char s[16];
	unsigned k, i, n = 0, v[4];
	fiftyoneDegreesEvidenceIpAddress *a;
	for (k = 0; k < 4; k++) {
		unsigned len = (unsigned)VERIF_SPLIT(verif_range(1, 3));
		if (k) s[n++] = '.';
		for (v[k] = 0, i = 0; i < len; i++) {
			unsigned d = (unsigned)verif_range(len > 1 && i == 0 ? 1 : 0, 9);
			v[k] = v[k] * 10 + d;
			s[n++] = (char)('0' + d);
		}
		VERIF_ASSUME(v[k] <= 255);
	}
	s[n] = 0;
	a = parse(s, n);
	VERIF_ASSERT(a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4, "IPv4");
	for (k = 0; k < 4; k++) VERIF_ASSERT(a->address[k] == v[k], "exactly the four bytes");
	VERIF_WITNESS_IF(v[0] == 255 && v[3] == 0, "both ends");
	free(a);
}

/* Every colon separated IPv6 address: groups of 1 to 4 digits (all of one
 * length, but for one), and one run of groups abbreviated, or none; the last
 * two groups may be dotted. */
void harness_v6(void) {
	char s[64];
	unsigned k, i, n = 0, groups = 8, from, to, dotted, length, other, which, v[8], b[4];
	fiftyoneDegreesEvidenceIpAddress *a;
	dotted = (unsigned)VERIF_SPLIT(verif_bool());
	if (dotted) groups = 6;
	from = (unsigned)VERIF_SPLIT(verif_range(0, groups));
	to = (unsigned)VERIF_SPLIT(verif_range(0, groups));
	VERIF_ASSUME(from <= to && !(from == to && from > 0)); /* abbreviated groups, if any */
	length = (unsigned)VERIF_SPLIT(verif_range(1, 4));
	other = length; which = 0;
	if (to == 0) { other = (unsigned)VERIF_SPLIT(verif_range(1, 4)); which = (unsigned)VERIF_SPLIT(verif_range(0, 7)); }
	for (k = 0; k < groups; k++) {
		if (k >= from && k < to) { v[k] = 0; if (k == from) { if (k == 0) s[n++] = ':'; s[n++] = ':'; } continue; }
		for (v[k] = 0, i = 0; i < (k == which ? other : length); i++) {
			unsigned c = verif_u8(), d;
			VERIF_ASSUME(c - '0' < 10 | c - 'a' < 6 | c - 'A' < 6);
			d = (c & 15) + ((c >> 6) & 1) * 9;
			v[k] = v[k] * 16 + d;
			s[n++] = (char)c;
		}
		if (k + 1 < groups || dotted) s[n++] = ':';
	}
	if (dotted) for (k = 0; k < 4; k++) {
		b[k] = (unsigned)verif_range(k == 0 ? 100 : k == 1 ? 10 : 0, k == 0 ? 255 : k == 1 ? 99 : 9);
		if (k == 0) s[n++] = (char)('0' + (b[k] >= 200 ? 2 : 1));
		if (k == 0) s[n++] = (char)('0' + b[k] / 10 % 10); else if (k == 1) s[n++] = (char)('0' + b[k] / 10);
		s[n++] = (char)('0' + b[k] % 10);
		if (k < 3) s[n++] = '.';
	}
	s[n] = 0;
	a = parse(s, n);
	VERIF_ASSERT(a->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6, "IPv6");
	for (k = 0; k < groups; k++) {
		VERIF_ASSERT(a->address[2 * k] == v[k] >> 8, "high byte of each group");
		VERIF_ASSERT(a->address[2 * k + 1] == (v[k] & 255), "low byte of each group");
	}
	if (dotted) for (k = 0; k < 4; k++) VERIF_ASSERT(a->address[12 + k] == b[k], "dotted bytes");
	VERIF_WITNESS_IF(from == 0 && to == 8, "all abbreviated");
	VERIF_WITNESS_IF(from == 2 && to == 3 && dotted, "dotted");
	VERIF_WITNESS_IF(from == 0 && to == 0 && !dotted && v[0] == 0xFfFf, "no abbreviation");
	free(a);
}
