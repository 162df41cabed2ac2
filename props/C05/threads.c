/* Threads get and release: never the same resource for two, never refused. */
#include <stdlib.h>
#include "pool.h"
#include "fiftyone.h"
#include "verif.h"

static int created, owner[RES];
static fiftyoneDegreesPool *pool;
static void* create(fiftyoneDegreesPool *p, void *state, fiftyoneDegreesException *exception) {
	return &owner[created++];
}

static int* take(fiftyoneDegreesPoolItem **item) {
	int *o;
	EXCEPTION_CREATE;
	*item = fiftyoneDegreesPoolItemGet(pool, exception);
	VERIF_ASSERT(*item != NULL && EXCEPTION_OKAY, "a resource for every concurrent holder");
	o = (int*)(*item)->resource;
	VERIF_ASSERT(o >= owner && o < owner + RES, "one of the resources created");
	VERIF_ASSERT(*o == 0, "a resource has one holder at a time");
	*o = 1;
	return o;
}
static void give(fiftyoneDegreesPoolItem *item, int *o) {
	VERIF_ASSERT(*o == 1, "still held");
	*o = 0;
	fiftyoneDegreesPoolItemRelease(item);
}

static void user(void *arg) {
	int r;
	for (r = 0; r < ROUNDS; r++) {
		fiftyoneDegreesPoolItem *item;
		int *o = take(&item);
		verif_yield();
		give(item, o);
	}
}
/* Takes two and gives the first back first: the head is the same item again
 * with another one below it. */
static void juggler(void *arg) {
	fiftyoneDegreesPoolItem *a, *b;
	int *x = take(&a), *y = take(&b);
	give(a, x);
	if (verif_bool()) { x = take(&a); give(a, x); }
	give(b, y);
}

#ifdef JOPS
/* Any history of takes and returns, in any order, of up to RES - 1 resources. */
static void history(void *arg) {
	fiftyoneDegreesPoolItem *item[RES];
	int *o[RES], n = 0, k, i;
	for (k = 0; k < JOPS; k++) {
		if (n < RES - 1 && (n == 0 || verif_bool())) {
			o[n] = take(&item[n]);
			n++;
		}
		else {
			i = (int)VERIF_SPLIT(verif_range(0, RES - 2));
			VERIF_ASSUME(i < n);
			give(item[i], o[i]);
			n--;
			item[i] = item[n];
			o[i] = o[n];
		}
	}
	while (n > 0) { n--; give(item[n], o[n]); }
}
#endif

static void finish(void) {
	fiftyoneDegreesPoolItem *item[RES];
	int i;
	verif_join_all();
	for (i = 0; i < RES; i++) take(&item[i]);
	EXCEPTION_CREATE;
	VERIF_ASSERT(fiftyoneDegreesPoolItemGet(pool, exception) == NULL, "then it is exhausted");
	VERIF_WITNESS("end");
	for (i = 0; i < RES; i++) give(item[i], (int*)item[i]->resource);
	fiftyoneDegreesPoolFree(pool);
	free(pool);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
}

static void init(void) {
	EXCEPTION_CREATE;
	pool = (fiftyoneDegreesPool*)malloc(sizeof(*pool));
	fiftyoneDegreesPoolInit(pool, RES, NULL, create, NULL, exception);
}

void harness(void) {
	init();
	verif_spawn(user, NULL);
	verif_spawn(user, NULL);
	finish();
}
void harness_aba(void) {
	init();
	verif_spawn(user, NULL);
	verif_spawn(juggler, NULL);
	finish();
}

#ifdef JOPS
void harness_history(void) {
	init();
	verif_spawn(user, NULL);
	verif_spawn(history, NULL);
	finish();
}
#endif
