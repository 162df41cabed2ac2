/* One shard: exact least recently used eviction, against a model. */
#include "h_cache.h"
typedef int32_t Key;
static int64_t keyOf(const void *key) { return (int64_t)*(const Key*)key; }

static Key key[K];
static struct { _Bool in; int count; int released; fiftyoneDegreesCacheNode *n; } m[K];

void harness(void) {
	int i, j, o, clock = 0, size = 0;
	fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate(
		CAP, 1, loader, fiftyoneDegreesCacheHash32, &stateTag);
	VERIF_ASSERT(c != NULL, "cache created");
	for (i = 0; i < K; i++) {
		key[i] = (Key)verif_u32();
		for (j = 0; j < i; j++) VERIF_ASSUME(key[i] != key[j]);
	}
#ifdef FAIL
	mayFail = 1;
#endif
	for (o = 0; o < OPS; o++) {
		_Bool release = verif_bool();
		i = (int)VERIF_SPLIT(verif_range(0, K - 1));
		if (release) {
			VERIF_ASSUME(m[i].in && m[i].count > 0);
			fiftyoneDegreesCacheRelease(m[i].n);
			if (--m[i].count == 0) m[i].released = ++clock;
		}
		else {
			int before = loads, victim = -1;
			fiftyoneDegreesCacheNode *n;
			EXCEPTION_CREATE;
			n = fiftyoneDegreesCacheGet(c, &key[i], exception);
#ifndef FAIL
			VERIF_ASSERT(EXCEPTION_OKAY, "no exception");
#endif
			if (m[i].in) {
				VERIF_ASSERT(EXCEPTION_OKAY, "no exception from a hit");
				VERIF_ASSERT(loads == before, "a key held by the cache is a hit");
				VERIF_ASSERT(n == m[i].n, "the hit is the entry of that key");
				VERIF_WITNESS_IF(m[i].count == 0 && o > 3, "idle hit");
			}
			else {
				if (size == CAP) {
					for (j = 0; j < K; j++) {
						if (m[j].in && m[j].count == 0 &&
							(victim < 0 || m[j].released < m[victim].released)) victim = j;
					}
					if (victim < 0) {
						VERIF_ASSERT(n == NULL, "nothing when all entries are in use");
						VERIF_ASSERT(loads == before, "nothing loaded when all entries are in use");
						VERIF_WITNESS("all in use");
						continue;
					}
					VERIF_WITNESS("eviction");
					m[victim].in = 0;
				}
				else size++;
				VERIF_ASSERT(loads == before + 1, "a key not held is loaded");
#ifdef FAIL
				if (failed) {
					/* The space of the entry which failed is free. */
					VERIF_ASSERT(EXCEPTION_FAILED && n == NULL, "failed load reported");
					size--;
					VERIF_WITNESS("failed load");
					continue;
				}
#endif
				m[i].in = 1;
			}
			VERIF_ASSERT(n != NULL, "an entry is available");
			VERIF_ASSERT(((CacheItem*)n->data.ptr)->key == key[i], "entry holds its key's data");
			m[i].n = n;
			m[i].count++;
			VERIF_ASSERT(m[i].count == 1 || n->data.used == sizeof(CacheItem), "data present");
		}
		/* Entries the model holds are distinct and hold their own data. */
		for (j = 0; j < K; j++) {
			if (m[j].in) VERIF_ASSERT(((CacheItem*)m[j].n->data.ptr)->key == key[j],
				"entries keep their data");
		}
	}
	mayFail = 0;
	VERIF_ASSERT(c->hits + c->misses <= OPS, "at most one hit or miss per lookup");
	/* What the model holds is what the cache holds. */
	for (j = 0; j < K; j++) {
		if (m[j].in) {
			int before = loads;
			EXCEPTION_CREATE;
			VERIF_ASSERT(fiftyoneDegreesCacheGet(c, &key[j], exception) == m[j].n,
				"everything recently used is still held");
			VERIF_ASSERT(loads == before, "and was not loaded again");
		}
	}
	fiftyoneDegreesCacheFree(c);
	VERIF_ASSERT(verif_live_heap() == 0, "everything freed");
}
