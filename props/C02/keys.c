/* Every key, capacity and concurrency. */
#include "h_cache.h"

#ifdef KEY64
typedef int64_t Key;
#define LOWEST INT64_MIN
#define HASH fiftyoneDegreesCacheHash64
static Key full(void) { return (Key)verif_u64(); }
#else
typedef int32_t Key;
#define LOWEST INT32_MIN
#define HASH fiftyoneDegreesCacheHash32
static Key full(void) { return (Key)verif_u32(); }
#endif
#ifdef NEAR
/* Close to zero or to either end of the range */
static Key anyKey(void) {
	static const Key base[] = { 0, LOWEST, -1 - LOWEST };
	int b = (int)VERIF_SPLIT(verif_range(0, 2));
	int off = (int)(signed char)verif_u8();
	if (b == 1 && off < 0) off = -1 - off;
	if (b == 2 && off > 0) off = -off;
	return (Key)(base[b] + off);
}
#else
static Key anyKey(void) { return full(); }
#endif
static int64_t keyOf(const void *key) { return (int64_t)*(const Key*)key; }

static fiftyoneDegreesCacheNode* get(fiftyoneDegreesCache *c, Key k) {
	EXCEPTION_CREATE;
	fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(c, &k, exception);
	VERIF_ASSERT(EXCEPTION_OKAY, "no exception when the loader succeeds");
	return n;
}

static void is(fiftyoneDegreesCacheNode *n, Key k) {
	VERIF_ASSERT(n != NULL, "an entry is available");
	VERIF_ASSERT(n->data.used == sizeof(CacheItem), "entry holds data");
	VERIF_ASSERT(((CacheItem*)n->data.ptr)->key == (int64_t)k,
		"entry holds the data of the requested key");
}

void harness(void) {
	int i, j, before;
	uint16_t concurrency = (uint16_t)VERIF_SPLIT(verif_range(CMIN, CONC));
	uint32_t capacity = (uint32_t)VERIF_SPLIT(verif_range(0, CAPMAX));
	VERIF_ASSUME(concurrency == 0 || capacity <= (uint32_t)concurrency * concurrency + SPARE);
	fiftyoneDegreesCacheNode *n[GETS];
	Key k[GETS];
	_Bool held[GETS] = { 0 };
	fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate(
		capacity, concurrency, loader, HASH, &stateTag);
	if (concurrency == 0 || capacity / concurrency < concurrency) {
		VERIF_ASSERT(c == NULL, "refused when a caller could be left without an entry");
		VERIF_WITNESS("refused");
		return;
	}
	VERIF_ASSERT(c != NULL, "cache created");
	for (i = 0; i < GETS; i++) {
		_Bool hit = 0;
		int inUse = 0;
		k[i] = anyKey();
		for (j = 0; j < i; j++) {
			if (held[j]) {
				inUse++;
				if (k[j] == k[i]) hit = 1;
			}
		}
		/* At most one entry per concurrent caller is in use at once. */
		if (inUse >= concurrency) {
			for (j = 0; j < i; j++) {
				if (held[j]) {
					fiftyoneDegreesCacheRelease(n[j]);
					held[j] = 0;
				}
			}
			hit = 0;
		}
		before = loads;
		n[i] = get(c, k[i]);
		held[i] = 1;
		is(n[i], k[i]);
		VERIF_ASSERT(loads - before <= 1, "loaded at most once");
		if (hit) {
			VERIF_ASSERT(loads == before, "a key in use is not loaded again");
#if GETS > 1
			VERIF_WITNESS("hit");
#endif
		}
		VERIF_WITNESS_IF(k[i] == LOWEST, "lowest key");
		for (j = 0; j < i; j++) if (held[j]) is(n[j], k[j]);
	}
	/* Immediately after release the most recent key is still held. */
	fiftyoneDegreesCacheRelease(n[GETS - 1]);
	before = loads;
	n[GETS - 1] = get(c, k[GETS - 1]);
	is(n[GETS - 1], k[GETS - 1]);
	VERIF_ASSERT(loads == before, "the key used last is a hit");
	fiftyoneDegreesCacheFree(c);
	VERIF_ASSERT(verif_live_heap() == 0, "everything freed");
	VERIF_WITNESS("end");
}
