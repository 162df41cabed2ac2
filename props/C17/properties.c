/* Available properties from any names and any request. */
#include "properties.h"
#include "fiftyone.h"
#include "h_alloc.h"
#ifndef LEN
#define LEN 2
#endif
#ifndef NR
#define NR 1
#endif
typedef struct __attribute__((packed)) { int16_t size; char text[LEN + 1]; } name;
static name names[NP], wanted[NR];
static size_t lens[NP], wlens[NR];
static int nNames, held, evidenceCounts[NP];
static fiftyoneDegreesCollection coll;
static int low(char c) { int v = (unsigned char)c; return v + (((unsigned)v - 'A' < 26) << 5); }
static void release(fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(held > 0 && item->data.ptr != NULL, "only a held item is released");
	held--;
	item->data.ptr = NULL;
}
static fiftyoneDegreesString *get(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(state == &nNames, "the caller's state");
	if (index >= (uint32_t)nNames) return NULL;
	held++;
	item->collection = &coll;
	item->handle = NULL;
	item->data.ptr = (byte*)&names[index];
	return (fiftyoneDegreesString*)&names[index];
}
static uint32_t evidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	uint32_t i, n;
	VERIF_ASSERT(state == &nNames && p->propertyIndex < (uint32_t)nNames, "an available property");
	VERIF_ASSERT(p->name.data.ptr == (byte*)&names[p->propertyIndex], "with its name");
	n = (uint32_t)evidenceCounts[p->propertyIndex];
	if (e != NULL) for (i = 0; i < n; i++) { VERIF_ASSERT(e->capacity > i, "space for all"); e->items[i] = i + 7; e->count++; }
	return n;
}
static int same(const char *a, size_t n, const char *b, size_t m) {
	size_t k; int eq = n == m;
	for (k = 0; eq && k < n; k++) eq = VERIF_SPLIT(low(a[k]) == low(b[k]));
	return eq;
}
/* Any character the data set may use */
static char letter(void) {
	char c = (char)verif_u8();
	VERIF_ASSUME(c != 0 && c != ' ' && c != ',' && c != '|');
	return c;
}
static int order(const char *a, size_t n, const char *b, size_t m) {
	size_t k;
	for (k = 0; k < n && k < m; k++) {
		int d = low(a[k]) - low(b[k]);
		if (VERIF_SPLIT(d != 0)) return d;
	}
	return (n > m) - (n < m);
}
static _Bool selected[NP];
static void request(const char *s, size_t n) {
	int i;
	for (i = 0; i < nNames; i++) if (same(s, n, names[i].text, lens[i])) { selected[i] = 1; return; }
}
#ifdef SETHEADER
void harness(void) {
	static const char text[] = "xSetHeader";
	fiftyoneDegreesPropertiesAvailable a;
	fiftyoneDegreesPropertyAvailable items[2];
	struct __attribute__((packed)) { int16_t size; char text[16]; } s[2];
	int i, expect = 0, n = (int)VERIF_SPLIT(verif_range(0, 2));
	for (i = 0; i < n; i++) {
		size_t from = (size_t)VERIF_SPLIT(verif_range(0, 1)), len = (size_t)VERIF_SPLIT(verif_range(8, 10)), k;
		int eq = from == 1 && len >= 9;
		size_t at = (size_t)VERIF_SPLIT(verif_range(0, 9));
		for (k = 0; k < len; k++) {
			s[i].text[k] = from + k < 10 ? text[from + k] : 'y';
			if (k == at) { s[i].text[k] = (char)verif_u8(); VERIF_ASSUME(s[i].text[k] != 0); }
			if (eq && k < 9) eq = VERIF_SPLIT(low(s[i].text[k]) == low(text[k + 1]));
		}
		s[i].text[len] = 0;
		s[i].size = (int16_t)(len + 1);
		items[i].name.data.ptr = (byte*)&s[i];
		expect |= eq;
	}
	a.items = items; a.count = a.capacity = (uint32_t)n;
	VERIF_ASSERT(fiftyoneDegreesPropertiesIsSetHeaderAvailable(&a) == expect, "a name starting with SetHeader");
	VERIF_WITNESS_IF(expect && n == 2, "available");
	VERIF_WITNESS_IF(!expect && n == 2, "not available");
}
#else
void harness(void) {
	fiftyoneDegreesPropertiesRequired r = { NULL, 0, NULL, NULL };
	fiftyoneDegreesPropertiesAvailable *a;
	fiftyoneDegreesPropertyAvailable existingItems[NR];
	fiftyoneDegreesPropertiesAvailable existing;
	const char *array[NR];
	int i, j, count = 0, n = 0, setHeader = 0;
	size_t k;
	coll.release = release;
	nNames = (int)VERIF_SPLIT(verif_range(0, NP));
	for (i = 0; i < nNames; i++) {
		lens[i] = (size_t)VERIF_SPLIT(verif_range(1, LEN));
		for (k = 0; k < lens[i]; k++) names[i].text[k] = letter();
		names[i].size = (int16_t)(lens[i] + 1);
		for (j = 0; j < i; j++) VERIF_ASSUME(!same(names[i].text, lens[i], names[j].text, lens[j]));
#ifndef LOOKUP
		evidenceCounts[i] = (int)VERIF_SPLIT(verif_range(0, i == 0 ? 2 : 1));
#endif
	}
#if defined(ARRAY) || defined(EXISTING)
	n = (int)VERIF_SPLIT(verif_range(0, NR));
	for (i = 0; i < n; i++) {
		wlens[i] = (size_t)VERIF_SPLIT(verif_range(0, LEN));
		for (k = 0; k < wlens[i]; k++) wanted[i].text[k] = letter();
		wanted[i].size = (int16_t)(wlens[i] + 1);
		array[i] = wanted[i].text;
#ifdef EXISTING
		existingItems[i].name.data.ptr = (byte*)(VERIF_SPLIT(verif_bool()) ? NULL : &wanted[i]);
		existingItems[i].propertyIndex = verif_u32();
		if (existingItems[i].name.data.ptr == NULL) continue;
#endif
		request(wanted[i].text, wlens[i]);
	}
#endif
#ifdef ARRAY
	r.array = array; r.count = n;
	if (n == 0) for (i = 0; i < nNames; i++) selected[i] = 1;
#elif defined(EXISTING)
	existing.items = existingItems; existing.count = existing.capacity = (uint32_t)n;
	r.existing = &existing;
#elif defined(TEXT)
	char text[REQ + 1];
	n = (int)VERIF_SPLIT(verif_range(0, REQ));
	for (i = j = 0; i < n; i++) {
		static const char seps[3] = { '|', ',', ' ' };
		if (VERIF_SPLIT(verif_bool())) { text[i] = seps[verif_range(0, 2)]; request(text + j, (size_t)(i - j)); j = i + 1; }
		else text[i] = letter();
	}
	text[n] = 0;
	request(text + j, (size_t)(n - j));
	r.string = text;
	if (n == 0) for (i = 0; i < nNames; i++) selected[i] = 1;
#else
	for (i = 0; i < nNames; i++) selected[i] = 1;
#endif
	for (i = 0; i < nNames; i++) count += selected[i];
#ifdef FAULTS
	allocMayFail(1);
#endif
#ifdef ALL
	a = fiftyoneDegreesPropertiesCreate(VERIF_SPLIT(verif_bool()) ? &r : NULL, &nNames, get, evidence);
#else
	a = fiftyoneDegreesPropertiesCreate(&r, &nNames, get, evidence);
#endif
	if (a == NULL) {
		VERIF_ASSERT(count == 0 || allocFailed, "created if any is known");
		VERIF_ASSERT(held == 0, "no name is held");
#ifdef FAULTS
		VERIF_WITNESS("out of memory");
#endif
#ifdef TEXT
		VERIF_WITNESS_IF(n > 2, "none known");
#endif
		return;
	}
	VERIF_ASSERT(a->count == (uint32_t)count && a->count <= a->capacity, "exactly those requested");
	VERIF_ASSERT(held == count, "one name held for each");
	for (i = 0; i < count; i++) {
		fiftyoneDegreesPropertyAvailable *p = &a->items[i];
		VERIF_ASSERT(p->propertyIndex < (uint32_t)nNames && selected[p->propertyIndex], "a requested property");
		VERIF_ASSERT(p->name.data.ptr == (byte*)&names[p->propertyIndex], "with its name");
		VERIF_ASSERT(!p->delayExecution, "not delayed");
		if (allocFailed) VERIF_ASSERT(p->evidenceProperties == NULL || p->evidenceProperties->count == (uint32_t)evidenceCounts[p->propertyIndex], "evidence properties");
		else VERIF_ASSERT(p->evidenceProperties != NULL && p->evidenceProperties->count == (uint32_t)evidenceCounts[p->propertyIndex], "all its evidence properties");
		for (j = 0; j < i; j++) VERIF_ASSERT(a->items[j].propertyIndex != p->propertyIndex, "each once");
		if (i > 0) {
			int b = (int)a->items[i - 1].propertyIndex, c = (int)p->propertyIndex;
			VERIF_ASSERT(order(names[b].text, lens[b], names[c].text, lens[c]) < 0, "in the order of the names");
		}
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, names[p->propertyIndex].text) == i, "index from its name");
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, names[p->propertyIndex].text) == (int)p->propertyIndex, "property from its name");
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, i) == (fiftyoneDegreesString*)p->name.data.ptr, "name from its index");
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, i) == (int)p->propertyIndex, "property from its index");
	}
	VERIF_WITNESS_IF(count == 2 && a->items[0].propertyIndex == 1, "sorted");
#ifdef TEXT
	VERIF_WITNESS_IF(count == 1 && n == REQ && nNames == 2 && lens[0] == 1, "one of two");
#endif
#ifdef LOOKUP
	{
		char q[LEN + 2];
		size_t m = (size_t)VERIF_SPLIT(verif_range(0, LEN + 1));
		int index = (int)verif_u32(), found = -1;
		for (k = 0; k < m; k++) { q[k] = (char)verif_u8(); VERIF_ASSUME(q[k] != 0); }
		q[m] = 0;
		for (i = 0; i < count; i++) {
			int p = (int)a->items[i].propertyIndex;
			if (same(q, m, names[p].text, lens[p])) found = i;
		}
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, q) == found, "found exactly when available");
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, q) == (found < 0 ? -1 : (int)a->items[found].propertyIndex), "property of any name");
		VERIF_WITNESS_IF(found == 2 && q[0] != names[a->items[2].propertyIndex].text[0], "another case");
		VERIF_ASSUME(index < 0 || index >= count);
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, index) == -1, "no property out of range");
		VERIF_ASSERT(fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, index) == NULL, "no name out of range");
	}
#endif
	fiftyoneDegreesPropertiesFree(a);
	VERIF_ASSERT(held == 0, "every name is released");
}
#endif
