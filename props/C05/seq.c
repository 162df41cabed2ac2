/* Histories of gets and releases on one thread, creation failures, freeing. */
#include <stdlib.h>
#include "pool.h"
#include "fiftyone.h"
#include "verif.h"
#ifndef MAXC
#define MAXC 4
#endif
#ifndef BIG
#define BIG 0
#endif
#define LIMIT (BIG ? 65536 : MAXC + 2)

static int created, failAt, stateTag;
static unsigned char tag[LIMIT], freed[LIMIT];
static fiftyoneDegreesPool *pool;

static void* create(fiftyoneDegreesPool *p, void *state, fiftyoneDegreesException *exception) {
	VERIF_ASSERT(p == pool && state == &stateTag, "creator is given the pool and its state");
	if (created == failAt) {
		EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND);
		return NULL;
	}
	VERIF_ASSERT(created < LIMIT, "no more resources than requested");
	return &tag[created++];
}
static void release(fiftyoneDegreesPool *p, void *resource) {
	ptrdiff_t i = (unsigned char*)resource - tag;
	VERIF_ASSERT(p == pool, "freed through its pool");
	VERIF_ASSERT(i >= 0 && i < created, "only created resources are freed");
	VERIF_ASSERT(freed[i] == 0, "freed once");
	freed[i] = 1;
}
static void allFreed(void) {
	int i, bad = 0;
	for (i = 0; i < created; i++) bad |= !freed[i];
	VERIF_ASSERT(!bad, "every created resource is freed");
	free(pool);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
}

void harness(void) {
	int i, j, o, n = 0, c;
	unsigned char *mine[MAXC + 1];
	fiftyoneDegreesPoolItem *held[MAXC + 1];
	EXCEPTION_CREATE;
	pool = (fiftyoneDegreesPool*)malloc(sizeof(*pool));
	c = (int)VERIF_SPLIT(verif_range(0, MAXC));
	failAt = (int)VERIF_SPLIT(verif_range(0, MAXC));
	fiftyoneDegreesPoolInit(pool, (uint16_t)c, &stateTag, create, release, exception);
	if (failAt < c) {
		VERIF_ASSERT(EXCEPTION_FAILED, "failing to create a resource is reported");
		VERIF_ASSERT(created == failAt, "creation stops at the failure");
		fiftyoneDegreesPoolFree(pool);
		VERIF_WITNESS("creation failed");
		allFreed();
		return;
	}
	VERIF_ASSERT(EXCEPTION_OKAY, "created");
	VERIF_ASSERT(created == c, "exactly the requested number of resources");
	for (o = 0; o < OPS; o++) {
		if (verif_bool()) {
			fiftyoneDegreesPoolItem *item = fiftyoneDegreesPoolItemGet(pool, exception);
			if (n == c) {
				VERIF_ASSERT(item == NULL && EXCEPTION_FAILED, "exhaustion is reported");
				VERIF_ASSERT(exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES,
					"as insufficient handles");
				EXCEPTION_CLEAR;
				VERIF_WITNESS("exhausted");
				continue;
			}
			VERIF_ASSERT(item != NULL && EXCEPTION_OKAY, "every resource is handed out before exhaustion");
			held[n] = item;
			mine[n] = (unsigned char*)item->resource;
			VERIF_ASSERT(mine[n] >= tag && mine[n] < tag + c, "one of the resources created");
			for (j = 0; j < n; j++) VERIF_ASSERT(mine[j] != mine[n], "no resource is handed out twice");
			n++;
		}
		else {
			VERIF_ASSUME(n > 0);
			i = (int)VERIF_SPLIT(verif_range(0, MAXC));
			VERIF_ASSUME(i < n);
			fiftyoneDegreesPoolItemRelease(held[i]);
			held[i] = held[--n];
			mine[i] = mine[n];
		}
	}
	VERIF_WITNESS("end");
	fiftyoneDegreesPoolFree(pool);
	allFreed();
}

/* The largest pools */
void harness_big(void) {
	int n = 0, i;
	static fiftyoneDegreesPoolItem *held[3];
	EXCEPTION_CREATE;
	uint16_t c = verif_bool() ? UINT16_MAX : UINT16_MAX - 1;
	c = (uint16_t)VERIF_SPLIT(c);
	failAt = -1;
	pool = (fiftyoneDegreesPool*)malloc(sizeof(*pool));
	fiftyoneDegreesPoolInit(pool, c, &stateTag, create, release, exception);
	VERIF_ASSERT(EXCEPTION_OKAY, "created");
	VERIF_ASSERT(created == c, "exactly the requested number of resources");
	for (i = 0; i < 3; i++) {
		held[i] = fiftyoneDegreesPoolItemGet(pool, exception);
		VERIF_ASSERT(held[i] != NULL, "resources available");
	}
	VERIF_ASSERT(held[0]->resource != held[1]->resource && held[0]->resource != held[2]->resource
		&& held[1]->resource != held[2]->resource, "distinct");
	for (i = 0; i < 3; i++) fiftyoneDegreesPoolItemRelease(held[i]);
	VERIF_WITNESS("end");
	fiftyoneDegreesPoolFree(pool);
	allFreed();
}
