/* Two threads use the cache: what one holds the other never disturbs. */
#include <stdlib.h>
#include "h_cache.h"
typedef int32_t Key;
static int64_t keyOf(const void *key) { return (int64_t)*(const Key*)key; }
static fiftyoneDegreesCache *c;
static Key key[2];

static void user(void *arg) {
	Key k = *(Key*)arg;
	int r;
	for (r = 0; r < ROUNDS; r++) {
		fiftyoneDegreesCacheNode *n;
		EXCEPTION_CREATE;
		n = fiftyoneDegreesCacheGet(c, &k, exception);
		if (EXCEPTION_FAILED) {
			VERIF_ASSERT(mayFail, "no exception unless the load fails");
			return;
		}
		VERIF_ASSERT(n != NULL, "an entry is available for each thread");
		VERIF_ASSERT(((CacheItem*)n->data.ptr)->key == k, "entry holds the requested key's data");
		verif_yield();
		VERIF_ASSERT(((CacheItem*)n->data.ptr)->key == k, "entry in use is not changed");
		fiftyoneDegreesCacheRelease(n);
	}
}

void harness(void) {
	int i, before;
	key[0] = 1;
	key[1] = verif_bool() ? 1 : 3;
	c = fiftyoneDegreesCacheCreate(CAP, CONC, loader, fiftyoneDegreesCacheHash32, &stateTag);
	VERIF_ASSERT(c != NULL, "cache created");
#ifdef FAIL
	mayFail = 1;
#endif
	verif_spawn(user, &key[0]);
	verif_spawn(user, &key[1]);
	verif_join_all();
	mayFail = 0;
	before = loads;
	/* Everything is idle again and the full capacity can be held at once. */
	for (i = 0; i < CAP; i++) {
		Key k = 101 + i;
		EXCEPTION_CREATE;
		VERIF_ASSERT(fiftyoneDegreesCacheGet(c, &k, exception) != NULL,
			"full capacity is available afterwards");
	}
	VERIF_ASSERT(loads == before + CAP, "new keys are loaded");
	VERIF_WITNESS("end");
	fiftyoneDegreesCacheFree(c);
	VERIF_ASSERT(verif_live_heap() == 0, "everything freed");
}

/* All entries are in use when one thread asks for a new key; the other thread
 * gives them back and asks for the same key or another. */
static fiftyoneDegreesCacheNode *taken[CAP], *a, *b;
static void asks(void *arg) {
	Key k = *(Key*)arg;
	EXCEPTION_CREATE;
	a = fiftyoneDegreesCacheGet(c, &k, exception);
	VERIF_ASSERT(EXCEPTION_OKAY, "no exception without a failure");
	if (a != NULL) VERIF_ASSERT(((CacheItem*)a->data.ptr)->key == k, "entry holds the requested key's data");
}
static void gives(void *arg) {
	Key k = *(Key*)arg;
	int i;
	EXCEPTION_CREATE;
	for (i = 0; i < CAP; i++) fiftyoneDegreesCacheRelease(taken[i]);
	b = fiftyoneDegreesCacheGet(c, &k, exception);
	VERIF_ASSERT(EXCEPTION_OKAY && b != NULL, "an entry is available once the others are released");
	VERIF_ASSERT(((CacheItem*)b->data.ptr)->key == k, "entry holds the requested key's data");
}
void harness_full(void) {
	int i, before;
	Key first[CAP];
	key[0] = 1;
	key[1] = verif_bool() ? 1 : 3;
	c = fiftyoneDegreesCacheCreate(CAP, 1, loader, fiftyoneDegreesCacheHash32, &stateTag);
	VERIF_ASSERT(c != NULL, "cache created");
	for (i = 0; i < CAP; i++) {
		EXCEPTION_CREATE;
		first[i] = 11 + i;
		taken[i] = fiftyoneDegreesCacheGet(c, &first[i], exception);
		VERIF_ASSERT(taken[i] != NULL, "an entry for each key");
	}
	before = loads;
	verif_spawn(asks, &key[0]);
	verif_spawn(gives, &key[1]);
	verif_join_all();
	if (a != NULL) {
		VERIF_ASSERT(((CacheItem*)a->data.ptr)->key == key[0], "entry in use is not changed");
		if (key[0] == key[1]) VERIF_ASSERT(a == b && loads == before + 1, "a key in use is not loaded again");
		else VERIF_ASSERT(a != b, "an entry in use is not given for another key");
		fiftyoneDegreesCacheRelease(a);
	}
	VERIF_ASSERT(((CacheItem*)b->data.ptr)->key == key[1], "entry in use is not changed");
	fiftyoneDegreesCacheRelease(b);
	VERIF_WITNESS_IF(a == NULL, "nothing when all entries are in use");
	VERIF_WITNESS_IF(a != NULL && a == b, "both use the entry");
	before = loads;
	for (i = 0; i < CAP; i++) {
		Key k = 101 + i;
		EXCEPTION_CREATE;
		VERIF_ASSERT(fiftyoneDegreesCacheGet(c, &k, exception) != NULL,
			"full capacity is available afterwards");
	}
	VERIF_ASSERT(loads == before + CAP, "new keys are loaded");
	VERIF_WITNESS("end");
	fiftyoneDegreesCacheFree(c);
	VERIF_ASSERT(verif_live_heap() == 0, "everything freed");
}
