/* Profiles, values and properties of small data sets. */
#include <stddef.h>
#include <string.h>
#include "profile.h"
#include "value.h"
#include "property.h"
#include "fiftyone.h"
#include "h_stub.h"
#ifndef N
#define N 2
#endif
typedef struct __attribute__((packed)) { byte component; uint32_t id, count; uint32_t values[8]; } profile;
typedef struct __attribute__((packed)) { uint32_t id, offset; } profileOffset;
typedef struct __attribute__((packed)) { int16_t property; int32_t name, description, url; } value;
typedef struct __attribute__((packed)) { byte bytes[8]; uint32_t defaultValue, name, description, category, url, first, last, maps, firstMap; } property;
typedef struct __attribute__((packed)) { int16_t size; char text[32]; } string;

static profileOffset offsets[8];
static value values[8];
static property properties[8];
static string strings[16];
static fiftyoneDegreesCollection *cOffsets, *cProfiles, *cValues, *cProperties, *cStrings;

static int order(const char *a, const char *b) {
	for (;; a++, b++) {
		if (VERIF_SPLIT(*a != *b)) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
		if (*a == 0) return 0;
	}
}
/* A name of up to two characters */
static void name(int at) {
	size_t k, n = (size_t)VERIF_SPLIT(verif_range(0, 2));
	for (k = 0; k < n; k++) strings[at].text[k] = (char)verif_range('a', 'c');
	strings[at].text[n] = 0;
	strings[at].size = (int16_t)(n + 1);
}
#define STRING_AT(i) ((uint32_t)(i) * (uint32_t)sizeof(string))

#if defined(FIND)
void harness(void) {
	profile profiles[N];
	uint32_t id = verif_u32(), offset = 77, index, *r;
	int n = (int)VERIF_SPLIT(verif_range(0, N)), i, found = -1, ok;
	fiftyoneDegreesProfile *p;
	fiftyoneDegreesCollectionItem item;
	EXCEPTION_CREATE;
	for (i = 0; i < n; i++) {
		offsets[i].id = verif_u32();
		VERIF_ASSUME(offsets[i].id > (i ? offsets[i - 1].id : 0));
		offsets[i].offset = (uint32_t)((n - 1 - i) * (int)sizeof(profile));
		profiles[n - 1 - i].id = offsets[i].id;
		profiles[n - 1 - i].count = 0;
	}
	for (i = 0; i < n; i++) found = VERIF_SPLIT(offsets[i].id == id) ? i : found;
	cOffsets = stubInit(0, offsets, (uint32_t)(n * (int)sizeof offsets[0]), sizeof offsets[0]);
	cProfiles = stubInit(1, profiles, (uint32_t)(n * (int)sizeof profiles[0]), 0);
	fiftyoneDegreesDataReset(&item.data);
	stubFaults = verif_bool();
	switch (VERIF_SPLIT(verif_range(0, 2))) {
	case 0:
		r = fiftyoneDegreesProfileGetOffsetForProfileId(cOffsets, id, &offset, exception);
		VERIF_ASSERT(stubHeld() == 0, "nothing is held");
		if (r != NULL) {
			VERIF_ASSERT(found >= 0 && r == &offset && offset == offsets[found].offset && EXCEPTION_OKAY, "the offset of the profile");
		}
		else VERIF_ASSERT(found < 0 || stubFailed, "found when there");
		VERIF_ASSERT(EXCEPTION_FAILED == (stubFailed || id == 0), "a failure is reported");
		VERIF_WITNESS_IF(found == 2, "found");
		VERIF_WITNESS_IF(stubFailed, "failed");
		break;
	case 1:
		p = fiftyoneDegreesProfileGetByProfileId(cOffsets, cProfiles, id, &item, exception);
		if (p != NULL) {
			VERIF_ASSERT(found >= 0 && EXCEPTION_OKAY && p->profileId == id && p->profileId == offsets[found].id, "the profile");
			VERIF_ASSERT(stubHeld() == 1 && item.data.ptr == (byte*)p, "held by the item");
			cProfiles->release(&item);
		}
		else VERIF_ASSERT(found < 0 || stubFailed, "found when there");
		VERIF_ASSERT(EXCEPTION_FAILED == (stubFailed || id == 0), "a failure is reported");
		VERIF_ASSERT(stubHeld() == 0, "nothing is held");
		break;
	default:
		index = verif_u32();
		ok = VERIF_SPLIT(index < (uint32_t)n);
		p = fiftyoneDegreesProfileGetByIndex(cOffsets, cProfiles, index, &item, exception);
		VERIF_ASSERT((p != NULL) == (ok && !stubFailed) && EXCEPTION_OKAY == (p != NULL), "found when in range");
		if (p != NULL) {
			VERIF_ASSERT(p->profileId == offsets[index].id && item.data.ptr == (byte*)p, "the profile at the index");
			cProfiles->release(&item);
		}
		VERIF_ASSERT(stubHeld() == 0, "nothing is held");
	}
}
#elif defined(ITERATE)
static struct __attribute__((packed)) { byte component; uint32_t id, count; } *head;
static uint32_t *in, expected[8], base;
static int nExpected, at, stopAfter, stopped;
static bool visit(void *state, fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(state == &at && !stopped, "the caller's state, until told to stop");
#ifndef MALFORMED
	VERIF_ASSERT(at < nExpected, "no more than the values of the property");
	VERIF_ASSERT(item->data.ptr == (byte*)&values[expected[at]], "the next value of the property");
#endif
	at++;
	item->collection->release(item);
	if (at == stopAfter) stopped = 1;
	return !stopped;
}
void harness(void) {
	uint32_t n = (uint32_t)VERIF_SPLIT(verif_range(0, N)), i, r;
	property p;
	size_t size = sizeof *head + n * 4;
	byte *m = malloc(size);
	EXCEPTION_CREATE;
	memset(&p, 0, sizeof p);
	/* The data set has 3 values */
	p.first = verif_u32();
	p.last = verif_u32();
	head = (void*)m;
	head->component = 0; head->id = 1; head->count = n;
	in = (uint32_t*)(m + sizeof *head);
	for (i = 0; i < n; i++) {
		uint32_t v = verif_u32();
		memcpy(m + sizeof *head + i * 4, &v, 4);
#ifndef MALFORMED
		if (i > 0) { uint32_t w; memcpy(&w, m + sizeof *head + i * 4 - 4, 4); VERIF_ASSUME(w < v); }
#endif
	}
#ifndef MALFORMED
	for (i = 0; i < n; i++) {
		uint32_t v;
		memcpy(&v, m + sizeof *head + i * 4, 4);
		if (VERIF_SPLIT(v >= p.first && v <= p.last)) {
			if (!VERIF_SPLIT(v < 3)) { nExpected += 100; break; }
			expected[nExpected++] = (uint32_t)VERIF_SPLIT(v);
		}
	}
#endif
	cValues = stubInit(2, values, 3 * sizeof(value), sizeof(value));
	stopAfter = (int)VERIF_SPLIT(verif_range(0, 3));
	stubFaults = verif_bool();
	r = fiftyoneDegreesProfileIterateValuesForProperty(cValues, (fiftyoneDegreesProfile*)m, (fiftyoneDegreesProperty*)&p, &at, visit, exception);
	VERIF_ASSERT(r == (uint32_t)at, "the number of values visited");
	VERIF_ASSERT(stubHeld() == 0, "nothing else is held");
#ifndef MALFORMED
	if (stubFailed) VERIF_ASSERT(EXCEPTION_FAILED, "a failure is reported");
	else if (stopped) VERIF_ASSERT(EXCEPTION_OKAY, "no failure when stopped");
	else {
		VERIF_ASSERT(at == nExpected % 100, "every value of the property");
		VERIF_ASSERT(EXCEPTION_FAILED == (nExpected >= 100), "a value that does not exist is reported");
	}
	VERIF_WITNESS_IF(at == 2 && n == 4 && !stubFailed && !stopped && nExpected == 2, "two of four");
	VERIF_WITNESS_IF(nExpected == 101 && at == 1, "missing value");
	VERIF_WITNESS_IF(stopped && nExpected == 3 && at == 2, "stopped");
#else
	VERIF_WITNESS_IF(at > 1, "visited");
#endif
	free(m);
}
#elif defined(VALUE)
void harness(void) {
	property p;
	char q[3];
	uint32_t n = (uint32_t)VERIF_SPLIT(verif_range(0, N)), from = (uint32_t)VERIF_SPLIT(verif_range(0, 1)), i, k;
	int found = -1;
	EXCEPTION_CREATE;
	memset(&p, 0, sizeof p);
	for (i = 0; i < n + 2; i++) {
		if (i >= from && i < from + n) name((int)i);
		else { strings[i].text[0] = (char)verif_range('a', 'd'); strings[i].size = 2; }
		values[i].name = (int32_t)STRING_AT(i);
		values[i].description = (int32_t)STRING_AT(n + 1 - i);
		values[i].url = (int32_t)STRING_AT((i + 1) % (n + 2));
		if (i > from && i < from + n) VERIF_ASSUME(order(strings[i - 1].text, strings[i].text) < 0);
	}
	p.first = n ? from : UINT32_MAX;
	p.last = n ? from + n - 1 : UINT32_MAX;
	k = (uint32_t)VERIF_SPLIT(verif_range(0, 2));
	for (i = 0; i < k; i++) q[i] = (char)verif_range('a', 'd');
	q[k] = 0;
	for (i = from; i < from + n; i++) if (order(strings[i].text, q) == 0) found = (int)i;
	cValues = stubInit(2, values, (n + 2) * (uint32_t)sizeof(value), sizeof(value));
	cStrings = stubInit(4, strings, (n + 2) * (uint32_t)sizeof(string), 0);
	stubFaults = verif_bool();
	if (VERIF_SPLIT(verif_bool())) {
		long r = fiftyoneDegreesValueGetIndexByName(cValues, cStrings, (fiftyoneDegreesProperty*)&p, q, exception);
		VERIF_ASSERT(stubHeld() == 0, "nothing is held");
		VERIF_ASSERT(stubFailed ? EXCEPTION_FAILED : EXCEPTION_OKAY && r == found, "the index exactly when there is one");
		if (stubFailed) VERIF_ASSERT(r == -1, "no index after a failure");
		VERIF_WITNESS_IF(r == 3, "found");
		VERIF_WITNESS_IF(r < 0 && !stubFailed && n == 3, "not found");
	}
	else {
		fiftyoneDegreesCollectionItem item, text;
		fiftyoneDegreesValue *v;
		fiftyoneDegreesDataReset(&item.data);
		v = fiftyoneDegreesValueGetByName(cValues, cStrings, (fiftyoneDegreesProperty*)&p, q, &item, exception);
		VERIF_ASSERT(stubFailed ? EXCEPTION_FAILED && v == NULL : EXCEPTION_OKAY, "a failure is reported");
		if (!stubFailed) VERIF_ASSERT((void*)v == (found < 0 ? NULL : (void*)&values[found]), "the value exactly when there is one");
		VERIF_ASSERT(stubHeld() == (v != NULL), "held when returned");
		if (v != NULL) {
			fiftyoneDegreesString *s;
			VERIF_ASSERT(item.data.ptr == (byte*)v, "in the item");
			stubFaults = 0;
			s = fiftyoneDegreesValueGetName(cStrings, v, &text, exception);
			VERIF_ASSERT((void*)s == &strings[found], "its name"); cStrings->release(&text);
			s = fiftyoneDegreesValueGetDescription(cStrings, v, &text, exception);
			VERIF_ASSERT((void*)s == &strings[n + 1 - (uint32_t)found], "its description"); cStrings->release(&text);
			s = fiftyoneDegreesValueGetUrl(cStrings, v, &text, exception);
			VERIF_ASSERT((void*)s == &strings[((uint32_t)found + 1) % (n + 2)], "its url"); cStrings->release(&text);
			VERIF_ASSERT((void*)fiftyoneDegreesValueGet(cValues, (uint32_t)found, &text, exception) == (void*)v, "the same by index"); cValues->release(&text);
			cValues->release(&item);
		}
		VERIF_ASSERT(stubHeld() == 0, "nothing is held");
	}
}
#elif defined(COORD) || defined(ADDRESS)
/* One value of another type: found exactly when its text is that value */
static void put(char *t, size_t *at, unsigned v) { /* decimal */
	if (v > 99) t[(*at)++] = (char)('0' + v / 100);
	if (v > 9) t[(*at)++] = (char)('0' + v / 10 % 10);
	t[(*at)++] = (char)('0' + v % 10);
}
void harness(void) {
	property p;
	byte *m;
	size_t bytes, i, at = 0;
	char q[64];
	long r;
	int equal;
	EXCEPTION_CREATE;
	memset(&p, 0, sizeof p);
	values[0].name = 0;
#ifdef COORD
	static const char *text[6] = { "1.5,-2.25", "0,0", "51.5,-0.125", "1.5,2.25", "1.5", "x" };
	static const float lat[6] = { 1.5f, 0, 51.5f, 1.5f, 1.5f, 0 }, lon[6] = { -2.25f, 0, -0.125f, 2.25f, 0, 0 };
	int a = (int)VERIF_SPLIT(verif_range(0, 3)), b = (int)VERIF_SPLIT(verif_range(0, 5)), cut = (int)VERIF_SPLIT(verif_bool());
	bytes = cut ? (size_t)VERIF_SPLIT(verif_range(3, 9)) : 11;
	m = malloc(bytes);
	*(int16_t*)m = (int16_t)(bytes - 2);
	m[2] = FIFTYONE_DEGREES_STRING_COORDINATE;
	for (i = 3; i < bytes; i++) m[i] = ((const byte*)(i < 7 ? &lat[a] : &lon[a]))[(i - 3) % 4];
	strcpy(q, text[b]);
	equal = !cut && a == b;
#else
	int kind = (int)VERIF_SPLIT(verif_range(0, 3)), j; /* 4 bytes, 16 bytes, other, not an address */
	size_t len = kind == 0 ? 4 : kind == 1 ? 16 : (size_t)VERIF_SPLIT(verif_range(0, 6));
	byte want[16];
	int other = (int)VERIF_SPLIT(verif_range(0, 1));
	size_t wlen = other ? 16 : 4;
	bytes = 3 + len;
	m = malloc(bytes);
	*(int16_t*)m = (int16_t)(len + 1);
	m[2] = FIFTYONE_DEGREES_STRING_IP_ADDRESS;
	for (i = 0; i < len; i++) m[3 + i] = verif_u8();
	if (kind == 3) { strcpy(q, "address"); equal = 0; }
	else {
		if (other) {
			static const char hex[] = "0123456789abcdef";
			for (j = 0; j < 8; j++) {
				byte hi = verif_u8() & 15, lo = verif_u8() & 15;
				if (j) q[at++] = ':';
				if (j == 0 || j == 7) { q[at++] = hex[hi]; q[at++] = hex[lo]; want[2 * j] = 0; want[2 * j + 1] = (byte)(hi << 4 | lo); }
				else { q[at++] = '1'; want[2 * j] = 0; want[2 * j + 1] = 1; }
			}
		}
		else for (j = 0; j < 4; j++) {
			want[j] = (byte)(j == 1 ? 200 : VERIF_SPLIT(verif_range(8, 11)));
			if (j) q[at++] = '.';
			put(q, &at, want[j]);
		}
		q[at] = 0;
		equal = len == wlen;
		for (i = 0; equal && i < len; i++) equal = VERIF_SPLIT(m[3 + i] == want[i]);
	}
#endif
	cValues = stubInit(2, values, sizeof(value), sizeof(value));
	cStrings = stubInit(4, m, (uint32_t)bytes, 0);
	r = fiftyoneDegreesValueGetIndexByName(cValues, cStrings, (fiftyoneDegreesProperty*)&p, q, exception);
	VERIF_ASSERT(EXCEPTION_OKAY && stubHeld() == 0, "nothing is held");
	VERIF_ASSERT(r == (equal ? 0 : -1), "found exactly when it is the value");
	VERIF_WITNESS_IF(r == 0, "found");
	free(m);
}
#elif defined(PROPERTY)
void harness(void) {
	char q[3];
	uint32_t n = (uint32_t)VERIF_SPLIT(verif_range(0, N)), i, k;
	int found = -1;
	fiftyoneDegreesCollectionItem item, text;
	fiftyoneDegreesProperty *p;
	fiftyoneDegreesString *s;
	EXCEPTION_CREATE;
	for (i = 0; i < n; i++) {
		name((int)i);
		verif_bytes(properties[i].bytes, 8);
		properties[i].name = STRING_AT(i);
		properties[i].description = STRING_AT((i + 1) % n);
		properties[i].category = STRING_AT((i + 2) % n);
		properties[i].url = STRING_AT((i + 3) % n);
	}
	k = (uint32_t)VERIF_SPLIT(verif_range(0, 2));
	for (i = 0; i < k; i++) q[i] = (char)verif_range('a', 'd');
	q[k] = 0;
	for (i = n; i > 0; i--) if (order(strings[i - 1].text, q) == 0) found = (int)i - 1;
	cProperties = stubInit(3, properties, n * (uint32_t)sizeof(property), sizeof(property));
	cStrings = stubInit(4, strings, n * (uint32_t)sizeof(string), 0);
	stubFaults = verif_bool();
	fiftyoneDegreesDataReset(&item.data);
	if (VERIF_SPLIT(verif_bool())) {
		uint32_t index = verif_u32();
		int ok = VERIF_SPLIT(index < n);
		byte t = fiftyoneDegreesPropertyGetValueType(cProperties, index, exception);
		VERIF_ASSERT(EXCEPTION_OKAY == (ok && !stubFailed) && stubHeld() == 0, "a failure is reported");
		VERIF_ASSERT(t == (EXCEPTION_OKAY ? properties[index].bytes[7] : 0), "the type of the property");
		return;
	}
	p = fiftyoneDegreesPropertyGetByName(cProperties, cStrings, q, &item, exception);
	VERIF_ASSERT(stubFailed ? EXCEPTION_FAILED && p == NULL : EXCEPTION_OKAY, "a failure is reported");
	if (!stubFailed) VERIF_ASSERT((void*)p == (found < 0 ? NULL : (void*)&properties[found]), "the property exactly when there is one");
	VERIF_ASSERT(stubHeld() == (p != NULL), "held when returned");
	VERIF_WITNESS_IF(found == 2 && p != NULL, "found");
	VERIF_WITNESS_IF(stubFailed, "failed");
	if (p != NULL) {
		VERIF_ASSERT(item.data.ptr == (byte*)p, "in the item");
		stubFaults = 0;
		s = fiftyoneDegreesPropertyGetName(cStrings, p, &text, exception);
		VERIF_ASSERT((void*)s == &strings[found], "its name"); cStrings->release(&text);
		s = fiftyoneDegreesPropertyGetDescription(cStrings, p, &text, exception);
		VERIF_ASSERT((void*)s == &strings[((uint32_t)found + 1) % n], "its description"); cStrings->release(&text);
		s = fiftyoneDegreesPropertyGetCategory(cStrings, p, &text, exception);
		VERIF_ASSERT((void*)s == &strings[((uint32_t)found + 2) % n], "its category"); cStrings->release(&text);
		s = fiftyoneDegreesPropertyGetUrl(cStrings, p, &text, exception);
		VERIF_ASSERT((void*)s == &strings[((uint32_t)found + 3) % n], "its url"); cStrings->release(&text);
		VERIF_ASSERT((void*)fiftyoneDegreesPropertyGet(cProperties, (uint32_t)found, &text, exception) == (void*)p, "the same by index"); cProperties->release(&text);
		cProperties->release(&item);
	}
	VERIF_ASSERT(stubHeld() == 0, "nothing is held");
}
#else
static profile profiles[N];
static int expected[N], nExpected, at;
static bool visit(void *state, fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(state == &at, "the caller's state");
	VERIF_ASSERT(at < nExpected && item->data.ptr == (byte*)&profiles[expected[at]], "the next profile with the value");
	at++;
	return true;
}
void harness(void) {
	static const char *names[3] = { "p", "q", "none" }, *valueNames[3] = { "a", "b", "c" };
	int n = (int)VERIF_SPLIT(verif_range(0, N)), i, v, pq = (int)VERIF_SPLIT(verif_range(0, 2)), vq = (int)VERIF_SPLIT(verif_range(0, 2));
	uint32_t r;
	EXCEPTION_CREATE;
	/* p has the values 0 = a and 1 = b, q has 2 = a and 3 = b */
	for (i = 0; i < 2; i++) {
		strcpy(strings[i].text, names[i]); strings[i].size = 2;
		strcpy(strings[2 + i].text, valueNames[i]); strings[2 + i].size = 2;
		properties[i].name = STRING_AT(i);
		properties[i].first = (uint32_t)i * 2; properties[i].last = (uint32_t)i * 2 + 1;
	}
	for (v = 0; v < 4; v++) values[v].name = (int32_t)STRING_AT(2 + (v & 1));
	for (i = 0; i < n; i++) {
		profiles[i].id = (uint32_t)i + 1;
		for (v = 0; v < 4; v++) if (VERIF_SPLIT(verif_bool())) {
			profiles[i].values[profiles[i].count++] = (uint32_t)v;
			if (pq < 2 && vq < 2 && v == pq * 2 + vq) expected[nExpected++] = i;
		}
		/* padding must not be taken for values */
		for (v = (int)profiles[i].count; v < 8; v++) profiles[i].values[v] = (uint32_t)(pq * 2 + vq);
		offsets[i].id = profiles[i].id;
		offsets[i].offset = (uint32_t)i * (uint32_t)sizeof(profile);
	}
	cOffsets = stubInit(0, offsets, (uint32_t)(n * (int)sizeof offsets[0]), sizeof offsets[0]);
	cProfiles = stubInit(1, profiles, (uint32_t)(n * (int)sizeof profiles[0]), 0);
	cValues = stubInit(2, values, 4 * sizeof(value), sizeof(value));
	cProperties = stubInit(3, properties, 2 * sizeof(property), sizeof(property));
	cStrings = stubInit(4, strings, 4 * sizeof(string), 0);
	stubFaults = (int)VERIF_SPLIT(verif_bool());
	r = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(cStrings, cProperties, cValues, cProfiles, cOffsets, names[pq], valueNames[vq], &at, visit, exception);
	VERIF_ASSERT(r == (uint32_t)at, "the number of profiles visited");
	VERIF_ASSERT(stubHeld() == 0, "nothing is held");
	VERIF_ASSERT(stubFailed ? EXCEPTION_FAILED : EXCEPTION_OKAY && at == nExpected, "every profile with the value");
	VERIF_WITNESS_IF(at == 2, "two");
	VERIF_WITNESS_IF(stubFailed && at == 1, "failed after the first");
}
#endif
