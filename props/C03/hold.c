/* Entries in use keep their data whatever else happens; loader failures cost
 * nothing. */
#include "h_cache.h"
typedef int32_t Key;
static int64_t keyOf(const void *key) { return (int64_t)*(const Key*)key; }

static Key key[K + CAP];
static struct { fiftyoneDegreesCacheNode *n; int k; uint32_t serial; void *ptr; } held[OPS + CAP];
static int holds;

static void checkHeld(void) {
	int j;
	for (j = 0; j < holds; j++) {
		fiftyoneDegreesCacheNode *n = held[j].n;
		VERIF_ASSERT(n->data.ptr == held[j].ptr, "data in use stays where it is");
		VERIF_ASSERT(((CacheItem*)n->data.ptr)->key == key[held[j].k]
			&& ((CacheItem*)n->data.ptr)->serial == held[j].serial,
			"data in use is not changed");
	}
}

static _Bool isHeld(int k) {
	int j;
	for (j = 0; j < holds; j++) if (held[j].k == k) return 1;
	return 0;
}
static int distinctHeld(void) {
	int k, n = 0;
	for (k = 0; k < K + CAP; k++) if (isHeld(k)) n++;
	return n;
}

static fiftyoneDegreesCacheNode* get(fiftyoneDegreesCache *c, int k) {
	int before = loads;
	fiftyoneDegreesCacheNode *n;
	int inUse = distinctHeld();
	_Bool mine = isHeld(k);
	EXCEPTION_CREATE;
	n = fiftyoneDegreesCacheGet(c, &key[k], exception);
	if (mine) VERIF_ASSERT(loads == before, "a key in use is not loaded again");
	if (loads > before && failed) {
		VERIF_ASSERT(EXCEPTION_FAILED, "a loader failure is reported");
		VERIF_WITNESS_IF(holds > 0, "failure while another entry is held");
		/* No entry to hold: the caller has nothing to release. */
		return NULL;
	}
	VERIF_ASSERT(EXCEPTION_OKAY, "no exception without a failure");
	if (mine == 0 && inUse == CAP) {
		VERIF_ASSERT(n == NULL, "nothing when all entries are in use");
		return NULL;
	}
	VERIF_ASSERT(n != NULL, "an idle entry is always available");
	VERIF_ASSERT(n->data.used == sizeof(CacheItem) &&
		((CacheItem*)n->data.ptr)->key == key[k], "entry holds its key's data");
	held[holds].n = n;
	held[holds].k = k;
	held[holds].serial = ((CacheItem*)n->data.ptr)->serial;
	held[holds].ptr = n->data.ptr;
	holds++;
	return n;
}

static void release(int j) {
	fiftyoneDegreesCacheRelease(held[j].n);
	held[j] = held[--holds];
}

void harness(void) {
	int i, j, o;
	fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate(
		CAP, 1, loader, fiftyoneDegreesCacheHash32, &stateTag);
	VERIF_ASSERT(c != NULL, "cache created");
	for (i = 0; i < K + CAP; i++) {
		key[i] = (Key)verif_u32();
		for (j = 0; j < i; j++) VERIF_ASSUME(key[i] != key[j]);
	}
	mayFail = 1;
	for (o = 0; o < OPS; o++) {
		int op = (int)VERIF_SPLIT(verif_range(0, K + OPS - 1));
		if (op < K) get(c, op);
		else {
			VERIF_ASSUME(op - K < holds);
			release(op - K);
		}
		checkHeld();
	}
	mayFail = 0;
	while (holds > 0) release(holds - 1);
	/* Full capacity is still there. */
	for (i = 0; i < CAP; i++) {
		VERIF_ASSERT(get(c, K + i) != NULL, "full capacity is available");
		checkHeld();
	}
	VERIF_WITNESS("end");
	while (holds > 0) release(0);
	fiftyoneDegreesCacheFree(c);
	VERIF_ASSERT(verif_live_heap() == 0, "everything freed");
}
