/* Overrides: additions, extraction from evidence, profile ids. */
#include "overrides.h"
#include "fiftyone.h"
#include "h_alloc.h"
#ifndef LEN
#define LEN 2
#endif
#ifndef CAP
#define CAP 2
#endif
static int low(char c) { int v = (unsigned char)c; return v + (((unsigned)v - 'A' < 26) << 5); }

/* The values the array must hold, found by property */
static struct { _Bool set; size_t n; char v[LEN + 1]; } model[4];
static int held(void) { int i, n = 0; for (i = 0; i < 4; i++) n += model[i].set; return n; }

static void check(fiftyoneDegreesOverrideValueArray *a, int properties) {
	int p, faults = allocFaults;
	size_t k;
	allocFaults = 0;
	VERIF_ASSERT(a->count == (uint32_t)held() && a->count <= a->capacity, "number of values");
	for (p = 0; p < properties; p++) {
		fiftyoneDegreesCollectionItem item;
		fiftyoneDegreesList list;
		fiftyoneDegreesString *s;
		uint32_t n;
		VERIF_ASSERT(fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(a, (uint32_t)p) == model[p].set, "has a value");
		s = fiftyoneDegreesOverrideValuesGetFirst(a, (uint32_t)p, &item);
		VERIF_ASSERT((s != NULL) == model[p].set, "a value for the property only");
		VERIF_ASSERT(fiftyoneDegreesListInit(&list, 2) == &list, "list");
		n = fiftyoneDegreesOverrideValuesAdd(a, (uint32_t)p, &list);
		VERIF_ASSERT(n == (uint32_t)model[p].set && list.count == n, "each stored value once");
		if (s != NULL) {
			VERIF_ASSERT(s->size == (int16_t)(model[p].n + 1), "size of the value");
			VERIF_ASSERT(VERIF_READABLE(s, 2 + model[p].n + 1), "memory of the value");
			for (k = 0; k <= model[p].n; k++) VERIF_ASSERT((&s->value)[k] == model[p].v[k], "the exact value");
			VERIF_ASSERT((fiftyoneDegreesString*)list.items[0].data.ptr == s, "the same value in a list");
			COLLECTION_RELEASE(item.collection, &item);
		}
		fiftyoneDegreesListFree(&list);
	}
	allocFaults = faults;
}

#ifdef ADD
void harness(void) {
	uint32_t capacity = (uint32_t)VERIF_SPLIT(verif_range(0, CAP));
	fiftyoneDegreesOverrideValueArray *a = fiftyoneDegreesOverrideValuesCreate(capacity);
	int step, i;
	VERIF_ASSERT(a != NULL && a->count == 0 && a->capacity == capacity, "created");
	allocMayFail(1);
	for (step = 0; step < STEPS; step++) {
		int p = (int)VERIF_SPLIT(verif_range(-1, 2)), before = allocFailed, r;
		char v[LEN + 1];
		size_t n, k;
		if (VERIF_SPLIT(verif_bool())) {
			fiftyoneDegreesOverrideValuesReset(a);
			for (i = 0; i < 4; i++) model[i].set = 0;
			VERIF_ASSERT(a->count == 0, "empty");
			VERIF_WITNESS_IF(step > 1, "reset");
		}
		n = (size_t)VERIF_SPLIT(verif_range(0, LEN));
		for (k = 0; k < n; k++) { v[k] = (char)verif_u8(); VERIF_ASSUME(v[k] != 0); }
		v[n] = 0;
		r = fiftyoneDegreesOverridesAdd(a, p, v);
		if (allocFailed > before) {
			VERIF_ASSERT(p >= 0, "nothing allocated for others");
			/* the value is not stored; an earlier one may go */
			model[p].set = model[p].set && fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(a, (uint32_t)p);
			VERIF_WITNESS("out of memory");
		}
		else if (p >= 0 && (model[p].set || (uint32_t)held() < capacity)) {
			VERIF_WITNESS_IF(model[p].set && (uint32_t)held() == capacity && n != model[p].n, "replaced in a full array");
			model[p].set = 1;
			model[p].n = n;
			for (k = 0; k <= n; k++) model[p].v[k] = v[k];
		}
		VERIF_ASSERT(r == ((uint32_t)held() < capacity), "tells if there is space");
		check(a, 3);
	}
	fiftyoneDegreesOverrideValuesFree(a);
}
#elif defined(LONG)
#include <string.h>
void harness(void) {
	static const size_t lens[8] = { 0, 1, 32765, 32766, 32767, 32768, 32769, 65536 };
	fiftyoneDegreesOverrideValueArray *a = fiftyoneDegreesOverrideValuesCreate(1);
	size_t n = lens[VERIF_SPLIT(verif_range(0, 7))], k = n - (n > 0);
	char *v = malloc(n + 1);
	fiftyoneDegreesCollectionItem item;
	fiftyoneDegreesString *s;
	memset(v, 'a', n);
	v[n] = 0;
	fiftyoneDegreesOverridesAdd(a, 0, v);
	s = fiftyoneDegreesOverrideValuesGetFirst(a, 0, &item);
	if (n > INT16_MAX - 1) VERIF_ASSERT(s == NULL && a->count == 0, "a size that can't be expressed is not stored");
	else {
		VERIF_ASSERT(s != NULL && (size_t)s->size == n + 1, "size of the value");
		VERIF_ASSERT((&s->value)[n] == 0 && (&s->value)[k] == v[k], "the whole value");
		VERIF_WITNESS_IF(n == 32766, "longest");
	}
	free(v);
	fiftyoneDegreesOverrideValuesFree(a);
}
#elif defined(EXTRACT)
#define NP 2
#define NE 2
static struct __attribute__((packed)) { int16_t size; char text[LEN + 1]; } names[NP];
static fiftyoneDegreesPropertyAvailable items[NP];
static fiftyoneDegreesPropertiesAvailable available;
static _Bool allowed[NP];
static bool filter(void *state, uint32_t i) {
	VERIF_ASSERT(state == allowed, "the caller's state");
	VERIF_ASSERT(i < NP, "an available property");
	return allowed[i];
}
static const char *alphabet = "ab5_";
void harness(void) {
	int i, e, count = 0, visited = 0, expect = 0;
	size_t k, n[NP];
	_Bool prefix = VERIF_SPLIT(verif_bool());
	fiftyoneDegreesOverridePropertyArray *p;
	fiftyoneDegreesOverrideValueArray *v = fiftyoneDegreesOverrideValuesCreate(NP);
	fiftyoneDegreesEvidenceKeyValuePairArray *evidence = fiftyoneDegreesEvidenceCreate(NE);
	char field[NE][LEN + 5], value[NE][2];
	for (i = 0; i < NP; i++) {
		n[i] = (size_t)VERIF_SPLIT(verif_range(1, LEN));
		for (k = 0; k < n[i]; k++) { char c = (char)verif_range('a', 'c'); names[i].text[k] = c; }
		names[i].text[n[i]] = 0;
		names[i].size = (int16_t)(n[i] + 1);
		items[i].name.data.ptr = (byte*)&names[i];
		items[i].propertyIndex = (uint32_t)i;
		allowed[i] = VERIF_SPLIT(verif_bool());
		count += allowed[i];
	}
	available.items = items; available.count = available.capacity = NP;
	{	/* distinct names */
		int same = n[0] == n[1];
		for (k = 0; k < n[0] && n[0] == n[1]; k++) same &= names[0].text[k] == names[1].text[k];
		VERIF_ASSUME(!same);
	}
	p = fiftyoneDegreesOverridePropertiesCreate(&available, prefix, allowed, filter);
	VERIF_ASSERT((p != NULL) == (count > 0), "only if there are any");
	if (p != NULL) {
		VERIF_ASSERT(p->count == (uint32_t)count && p->prefix == prefix, "those allowed");
	}
	for (e = 0; e < NE; e++) {
		/* Any name, with the prefix in any case or not */
		size_t at = 0, m;
		int cookie = (int)VERIF_SPLIT(verif_range(0, 2)), has = (int)VERIF_SPLIT(verif_bool());
		const char *name;
		if (has) {
			field[e][0] = '5'; field[e][1] = '1'; field[e][2] = (char)(verif_bool() ? 'D' : 'd'); field[e][3] = '_';
			at = 4;
		}
		m = (size_t)VERIF_SPLIT(verif_range(0, LEN));
		for (k = 0; k < m; k++) { char c = (char)(verif_range('a', 'c') - 32 * verif_bool()); field[e][at + k] = c; }
		field[e][at + m] = 0;
		value[e][0] = (char)verif_u8(); VERIF_ASSUME(value[e][0] != 0);
		value[e][1] = 0;
		fiftyoneDegreesEvidenceAddString(evidence, cookie == 0 ? FIFTYONE_DEGREES_EVIDENCE_COOKIE : cookie == 1 ?
			FIFTYONE_DEGREES_EVIDENCE_QUERY : FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, field[e], value[e]);
		if (p == NULL || cookie == 2) continue;
		visited++;
		if (held() == NP) continue;
		/* The prefix is not part of the name when it is expected */
		name = field[e] + (prefix && has && m > 0 ? 4 : 0);
		for (i = 0; i < NP; i++) {
			int eq = allowed[i];
			for (k = 0; eq && k <= n[i]; k++) {
				eq = low(name[k]) == names[i].text[k];
				if (name[k] == 0) break;
			}
			if (VERIF_SPLIT(eq)) {
				model[i].set = 1; model[i].n = 1; model[i].v[0] = value[e][0]; model[i].v[1] = 0;
				VERIF_WITNESS_IF(has, "with the prefix");
				VERIF_WITNESS_IF(e == 1 && held() == 1, "the later one replaces");
			}
		}
	}
	expect = (int)fiftyoneDegreesOverridesExtractFromEvidence(p, v, evidence);
	VERIF_ASSERT(expect == visited, "cookies and query evidence");
	check(v, NP);
	fiftyoneDegreesOverridePropertiesFree(p);
	fiftyoneDegreesEvidenceFree(evidence);
	fiftyoneDegreesOverrideValuesFree(v);
}
#elif defined(OVERRIDING)
#define NP 3
static struct __attribute__((packed)) { int16_t size; char text[LEN + 1]; } names[NP];
static fiftyoneDegreesPropertyAvailable items[NP];
static fiftyoneDegreesPropertiesAvailable available;
void harness(void) {
	int i, j, count = (int)VERIF_SPLIT(verif_range(2, NP)), r;
	size_t k, n[NP];
	for (i = 0; i < count; i++) {
		n[i] = (size_t)VERIF_SPLIT(verif_range(1, LEN));
		for (k = 0; k < n[i]; k++) names[i].text[k] = (char)verif_range('a', 'c');
		names[i].text[n[i]] = 0;
		names[i].size = (int16_t)(n[i] + 1);
		items[i].name.data.ptr = (byte*)&names[i];
	}
	available.items = items; available.count = available.capacity = (uint32_t)count;
	for (i = 0; i < count; i++) {
		int expect = -1;
		for (j = count - 1; j >= 0; j--) {
			int starts = j != i && n[j] > n[i];
			for (k = 0; starts && k < n[i]; k++) starts = VERIF_SPLIT(names[j].text[k] == names[i].text[k]);
			if (starts) expect = j;
		}
		r = fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex(&available, (uint32_t)i);
		VERIF_ASSERT(r == expect, "the first other property whose name starts with this one");
		VERIF_WITNESS_IF(r == 2 && n[i] > 1, "found");
	}
}
#else
static uint32_t ids[8];
static int nIds, at;
static void report(void *state, uint32_t id) {
	VERIF_ASSERT(state == &at, "the caller's state");
	VERIF_ASSERT(at < nIds, "no more than the ids given");
	VERIF_ASSERT(ids[at] == id, "the id given");
	VERIF_OBSERVE(id);
	at++;
}
static void expect(const char *s) {
	uint64_t v = 0; int in = 0;
	for (;; s++) {
		int d = (unsigned)*s - '0' < 10;
		if (VERIF_SPLIT(d)) { if (v <= UINT32_MAX) v = v * 10 + (uint64_t)(*s - '0'); in = 1; }
		else {
			if (in && VERIF_SPLIT(v <= UINT32_MAX)) ids[nIds++] = (uint32_t)v;
			v = 0; in = 0;
			if (*s == 0) return;
		}
	}
}
void harness(void) {
	fiftyoneDegreesEvidenceKeyValuePairArray *evidence = fiftyoneDegreesEvidenceCreate(3);
	char text[64];
	size_t k, n = 0;
	int which = (int)VERIF_SPLIT(verif_range(0, 3)), name = (int)VERIF_SPLIT(verif_range(0, 3));
	static const char *fields[4] = { "51D_ProfileIds", "profileids", "ProfileId", "51D_ProfileIdsX" };
#ifdef PAIRS
	/* Several pieces of evidence, each in its turn */
	int i, count = (int)VERIF_SPLIT(verif_range(2, PAIRS));
	char texts[PAIRS][4];
	VERIF_ASSUME(which == 0 && name == 0);
	for (i = 0; i < count; i++) {
		which = (int)VERIF_SPLIT(verif_range(1, 3));
		name = (int)VERIF_SPLIT(verif_range(0, 2));
		texts[i][0] = (char)verif_range('0', '9');
		texts[i][1] = (char)verif_u8();
		texts[i][2] = (char)verif_range('1', '9');
		texts[i][3] = 0;
		VERIF_ASSUME(texts[i][1] != 0 && (texts[i][1] < '0' || texts[i][1] > '9'));
		fiftyoneDegreesEvidenceAddString(evidence, which == 1 ? FIFTYONE_DEGREES_EVIDENCE_QUERY : which == 2 ? FIFTYONE_DEGREES_EVIDENCE_COOKIE : FIFTYONE_DEGREES_EVIDENCE_SERVER, fields[name], texts[i]);
		if (which < 3 && name < 2) expect(texts[i]);
	}
	fiftyoneDegreesOverrideProfileIds(evidence, &at, report);
	VERIF_ASSERT(at == nIds, "each id once");
	VERIF_WITNESS_IF(nIds == 4, "ids in two pieces of evidence");
	fiftyoneDegreesEvidenceFree(evidence);
	return;
#endif
#ifdef PROFILES
	n = (size_t)VERIF_SPLIT(verif_range(0, LEN));
	for (k = 0; k < n; k++) { text[k] = (char)verif_u8(); VERIF_ASSUME(text[k] != 0); }
#else
	static const char *start[8] = { "", "2147483", "4294967", "000000000", "99999999999", "18446744073709551", "429496729", "36893488147419103" };
	int i, count = (int)VERIF_SPLIT(verif_range(1, 2));
	VERIF_ASSUME(which == 0 && name == 0);
	for (i = 0; i < count; i++) {
		const char *f = start[VERIF_SPLIT(i == 0 ? verif_range(0, 7) : verif_range(1, 2))];
		size_t d = 3;
		if (i > 0) { text[n] = (char)verif_u8(); VERIF_ASSUME(text[n] != 0 && (text[n] < '0' || text[n] > '9')); n++; }
		while (*f) text[n++] = *f++;
		for (k = 0; k < d; k++) text[n++] = (char)verif_range('0', '9');
	}
#endif
	text[n] = 0;
	fiftyoneDegreesEvidenceAddString(evidence, which < 2 ? FIFTYONE_DEGREES_EVIDENCE_QUERY : which == 2 ? FIFTYONE_DEGREES_EVIDENCE_COOKIE : FIFTYONE_DEGREES_EVIDENCE_SERVER, fields[name], text);
	if (which < 3 && name < 2) expect(text);
	fiftyoneDegreesOverrideProfileIds(evidence, &at, report);
	VERIF_ASSERT(at == nIds, "each id once");
	VERIF_WITNESS_IF(nIds == 2, "two ids");
#ifdef DIGITS
	VERIF_WITNESS_IF(nIds == 2 && ids[1] > 0x80000000u, "large id");
	VERIF_WITNESS_IF(nIds == 0, "too large");
#endif
	fiftyoneDegreesEvidenceFree(evidence);
}
#endif
