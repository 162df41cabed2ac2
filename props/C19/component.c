/* Components: key value pairs, default profile, list of all components. */
#include <stddef.h>
#include <string.h>
#include "component.h"
#include "profile.h"
#include "fiftyone.h"
#include "h_alloc.h"
#include "h_stub.h"
#define FIXED offsetof(fiftyoneDegreesComponent, firstKeyValuePair)
#ifdef PAIRS
void harness(void) {
	uint32_t n = (uint32_t)VERIF_SPLIT(verif_range(0, 3)), k;
	size_t size = FIXED + n * sizeof(fiftyoneDegreesComponentKeyValuePair);
	byte *m = malloc(size), copy[64];
	uint16_t index = verif_u16(), count = (uint16_t)n;
	const fiftyoneDegreesComponentKeyValuePair *p;
	EXCEPTION_CREATE;
	for (k = 0; k < size; k++) m[k] = verif_u8();
	memcpy(m + offsetof(fiftyoneDegreesComponent, keyValuesCount), &count, 2);
	memcpy(copy, m, size);
	p = fiftyoneDegreesComponentGetKeyValuePair((fiftyoneDegreesComponent*)m, index, exception);
	if (index < n) {
		VERIF_ASSERT(EXCEPTION_OKAY, "no exception for a valid index");
		VERIF_ASSERT((byte*)p == m + FIXED + index * sizeof *p, "the pair at the index");
		VERIF_ASSERT(VERIF_READABLE(p, sizeof *p), "inside the component");
		VERIF_ASSERT(memcmp(p, copy + FIXED + index * 8, 8) == 0, "the key and value given");
		VERIF_WITNESS_IF(n == 3 && index == 2, "last");
	}
	else {
		VERIF_ASSERT(p == NULL, "nothing out of range");
		VERIF_ASSERT(exception->status == FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE, "exception out of range");
		VERIF_WITNESS_IF(n == 2 && index == 2, "one after the last");
	}
	free(m);
}
#elif defined(SIZE)
/* The size of a component with any number of pairs, seen by the list in where
 * it looks for the next, and the address of every pair of it. */
static byte first[FIXED + 8], second[FIXED + 8];
static uint32_t gets, next;
static void release(fiftyoneDegreesCollectionItem *i) { i->handle = NULL; }
static void *get(fiftyoneDegreesCollection *c, uint32_t at, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	(void)exception;
	item->collection = c;
	item->data.ptr = gets == 0 ? first : second;
	item->handle = item->data.ptr;
	VERIF_ASSERT(gets > 0 || at == 0, "the first is at the start");
	VERIF_ASSERT(gets == 0 || at == next, "the next is where the first ends");
	gets++;
	return item->data.ptr;
}
void harness(void) {
	fiftyoneDegreesCollection c;
	fiftyoneDegreesList list;
	uint16_t count = verif_u16(), index = verif_u16();
	const fiftyoneDegreesComponentKeyValuePair *p;
	EXCEPTION_CREATE;
	c.get = get; c.release = release;
	memcpy(first + offsetof(fiftyoneDegreesComponent, keyValuesCount), &count, 2);
	next = FIXED + count * 8u;
	fiftyoneDegreesListReset(&list);
	fiftyoneDegreesComponentInitList(&c, &list, 2, exception);
	VERIF_ASSERT(EXCEPTION_OKAY && list.count == 2, "both");
	p = fiftyoneDegreesComponentGetKeyValuePair((fiftyoneDegreesComponent*)first, index, exception);
	VERIF_ASSERT(p == NULL ? index >= count : index < count && (uintptr_t)p == (uintptr_t)(first + FIXED) + index * 8u, "the pair at the index, or nothing");
	VERIF_ASSERT(EXCEPTION_OKAY == (p != NULL), "refused with an exception");
	VERIF_WITNESS_IF(count > 0xF000 && p != NULL, "many");
	VERIF_WITNESS_IF(count == 0, "none");
	fiftyoneDegreesListFree(&list);
}
#elif defined(PROFILE)
/* The default profile and the name, with and without an exception. */
void harness(void) {
	struct __attribute__((packed)) { byte c; uint32_t id, values; } profiles[3];
	struct __attribute__((packed)) { int16_t size; char text[3]; } names[2];
	byte m[sizeof(fiftyoneDegreesComponent)], copy[sizeof m];
	fiftyoneDegreesCollection *c = stubInit(0, profiles, sizeof profiles, 0), *strings = stubInit(1, names, sizeof names, 0);
	fiftyoneDegreesCollectionItem item;
	const fiftyoneDegreesString *s;
	uint32_t i, j, id, offset, name;
	int none, failed;
	EXCEPTION_CREATE;
	verif_bytes(m, sizeof m);
	for (i = 0; i < 3; i++) { profiles[i].c = verif_u8(); profiles[i].id = verif_u32(); profiles[i].values = 0; }
	for (i = 0; i < 2; i++) { names[i].size = 3; names[i].text[0] = (char)verif_u8(); names[i].text[1] = (char)verif_u8(); names[i].text[2] = '\0'; }
	i = (uint32_t)VERIF_SPLIT(verif_range(0, 3));
	offset = i < 3 ? i * (uint32_t)sizeof profiles[0] : verif_u32();
	if (i == 3) VERIF_ASSUME(offset >= sizeof profiles);
	memcpy(m + offsetof(fiftyoneDegreesComponent, defaultProfileOffset), &offset, 4);
	j = (uint32_t)VERIF_SPLIT(verif_range(0, 2));
	name = j < 2 ? j * (uint32_t)sizeof names[0] : verif_u32();
	if (j == 2) VERIF_ASSUME(name >= sizeof names);
	memcpy(m + offsetof(fiftyoneDegreesComponent, nameOffset), &name, 4);
	memcpy(copy, m, sizeof m);
	none = VERIF_SPLIT(verif_bool());
	stubFaults = verif_bool();
	id = fiftyoneDegreesComponentGetDefaultProfileId(c, (fiftyoneDegreesComponent*)m, none ? NULL : exception);
	VERIF_ASSERT(stubHeld() == 0, "no profile is held");
	failed = stubFailed || i == 3;
	VERIF_ASSERT(stubs[1].gets == 0, "not a name");
	if (failed) {
		VERIF_ASSERT(none || EXCEPTION_FAILED, "a failure is reported");
		VERIF_ASSERT(id == 0, "no profile");
	}
	else {
		VERIF_ASSERT(EXCEPTION_OKAY && id == profiles[i].id, "the id of the default profile");
		VERIF_WITNESS_IF(i == 2 && id > 1, "found");
	}
	EXCEPTION_CLEAR;
	stubFailed = 0;
	DataReset(&item.data);
	s = fiftyoneDegreesComponentGetName(strings, (fiftyoneDegreesComponent*)m, &item, none ? NULL : exception);
	if (stubFailed || j == 2) {
		VERIF_ASSERT(none || EXCEPTION_FAILED, "a failure is reported");
		VERIF_ASSERT(s == NULL && stubHeld() == 0, "no name");
	}
	else {
		VERIF_ASSERT(EXCEPTION_OKAY && (const void*)s == (const void*)&names[j] && stubs[1].held == 1, "the name of the component");
		VERIF_WITNESS_IF(j == 1, "name");
		COLLECTION_RELEASE(strings, &item);
		VERIF_ASSERT(stubHeld() == 0, "nothing is held");
	}
	VERIF_ASSERT(memcmp(m, copy, sizeof m) == 0, "the component is not changed");
}
#elif defined(LIST)
void harness(void) {
	static byte mem[(N) * (FIXED + 16)];
	uint32_t at[N + 1], n = (uint32_t)VERIF_SPLIT(verif_range(0, N)), i, count, size = 0, ok;
	fiftyoneDegreesList list;
	fiftyoneDegreesCollection *c;
	EXCEPTION_CREATE;
	for (i = 0; i < n; i++) {
		uint16_t pairs = (uint16_t)VERIF_SPLIT(verif_range(0, 2));
		at[i] = size;
		memcpy(mem + size + offsetof(fiftyoneDegreesComponent, keyValuesCount), &pairs, 2);
		size += FIXED + pairs * 8u;
	}
	c = stubInit(0, mem, size, 0);
	count = (uint32_t)VERIF_SPLIT(verif_range(0, (int)n + 1));
	if (verif_bool()) stubFaults = 1; else allocMayFail(1);
	fiftyoneDegreesListReset(&list);
	fiftyoneDegreesComponentInitList(c, &list, count, VERIF_SPLIT(verif_bool()) ? NULL : exception);
	ok = (uint32_t)(stubs[0].gets - (stubFailed > 0));
	if (ok > n) ok = n;
	if (!stubFailed && !allocFailed && count <= n) VERIF_ASSERT(EXCEPTION_OKAY && list.count == count, "every component");
	VERIF_ASSERT(list.count == (allocFailed ? 0 : ok) && list.count <= list.capacity, "those that could be read");
	VERIF_ASSERT((uint32_t)stubs[0].held == list.count, "held by the list");
	for (i = 0; i < list.count; i++) VERIF_ASSERT(list.items[i].data.ptr == mem + at[i], "each in its place");
	VERIF_WITNESS_IF(list.count == N && at[2] != 2 * FIXED, "all");
	VERIF_WITNESS_IF(stubFailed && list.count == 1 && count > 2, "failed");
	fiftyoneDegreesListFree(&list);
	VERIF_ASSERT(stubHeld() == 0, "all are released");
}
#else
#include "vfs.h"
void harness(void) {
	static byte mem[2 * (FIXED + 16)];
	uint32_t at[2], sizes[2], n = (uint32_t)VERIF_SPLIT(verif_range(1, 2)), i, k, size = 0;
	fiftyoneDegreesList list;
	fiftyoneDegreesCollection *c;
	fiftyoneDegreesFilePool pool;
	fiftyoneDegreesCollectionConfig config;
	fiftyoneDegreesCollectionHeader h;
	FILE *f;
	EXCEPTION_CREATE;
	verif_bytes(mem, sizeof mem);
	for (i = 0; i < n; i++) {
		uint16_t pairs = (uint16_t)VERIF_SPLIT(verif_range(0, 2));
		at[i] = size;
		memcpy(mem + size + offsetof(fiftyoneDegreesComponent, keyValuesCount), &pairs, 2);
		size += sizes[i] = FIXED + pairs * 8u;
	}
	f = vfs_handle(vfs_add("f", mem, size));
	VERIF_ASSERT(fiftyoneDegreesFilePoolInit(&pool, "f", 1, exception) == FIFTYONE_DEGREES_STATUS_SUCCESS, "opened");
	config.loaded = 0; config.capacity = 0; config.concurrency = 0;
	h.startPosition = 0; h.length = size; h.count = 0;
	c = fiftyoneDegreesCollectionCreateFromFile(f, &pool, &config, h, fiftyoneDegreesComponentReadFromFile);
	vfs_fclose(f);
	vfs_faults = 1;
	fiftyoneDegreesComponentInitList(c, &list, n, exception);
	VERIF_ASSERT((list.count == n) == (vfs_faulted == 0) && EXCEPTION_OKAY == (vfs_faulted == 0), "all unless a read failed");
	for (i = 0; i < list.count; i++) {
		byte *p = list.items[i].data.ptr;
		VERIF_ASSERT(VERIF_READABLE(p, sizes[i]), "its own memory");
		for (k = 0; k < sizes[i]; k++) VERIF_ASSERT(p[k] == mem[at[i] + k], "the bytes of the component");
	}
	VERIF_WITNESS_IF(list.count == 2 && size > 2 * FIXED, "two");
	VERIF_WITNESS_IF(vfs_faulted && list.count == 1, "failed");
	fiftyoneDegreesListFree(&list);
	c->freeCollection(c);
	fiftyoneDegreesFilePoolRelease(&pool);
	VERIF_ASSERT(vfs_handles == 0 && verif_live_heap() == 0, "nothing is left");
}
#endif
