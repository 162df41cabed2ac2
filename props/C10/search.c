/* Any sorted sequence over any 32-bit index range: elements before position p are
 * smaller than the target, those from p to before q equal to it, the rest
 * larger. The collection and the comparer may each report an error. */
#include "collection.h"
#include "fiftyone.h"
#include "verif.h"
#ifndef LEN
#define LEN 12
#endif

static uint32_t lower, upper;
static uint64_t p, q;
static uint32_t element; /* index last got */
static int held, gets, releases, inside = 1, target;
static uint32_t failGet, failCompare; /* index that fails */
static _Bool getFails, compareFails, failed;

static void* get(fiftyoneDegreesCollection *c, uint32_t index, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	gets++;
	VERIF_ASSERT(gets <= 2 * LEN + 2, "the search ends");
	if (index < lower || index > upper) inside = 0;
	VERIF_ASSERT(inside, "only elements of the range are touched");
	VERIF_ASSERT(held == 0, "the item is released before it is used again");
	if (getFails && index == failGet) {
		failed = 1;
		EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR);
		return NULL;
	}
	held++;
	element = index;
	item->data.ptr = (byte*)&element;
	item->data.used = 4;
	item->data.allocated = 0;
	item->handle = &element;
	item->collection = c;
	return item->data.ptr;
}
static void release(fiftyoneDegreesCollectionItem *item) {
	if (item->handle != NULL) {
		VERIF_ASSERT(item->handle == &element && held == 1, "only a held item is released");
		held--;
		item->handle = NULL;
		item->data.ptr = NULL;
	}
}
static int compare(void *state, fiftyoneDegreesCollectionItem *item, long index, fiftyoneDegreesException *exception) {
	uint32_t at = *(uint32_t*)item->data.ptr;
	VERIF_ASSERT(state == &target, "the caller's state");
	VERIF_ASSERT(held == 1 && (uint32_t)index == at, "the held item and its index are compared");
	if (compareFails && at == failCompare) {
		failed = 1;
		EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_CORRUPT_DATA);
		return 0;
	}
	at -= lower;
	return at < p ? -1 : at < q ? 0 : 1;
}

void harness(void) {
	fiftyoneDegreesCollection c;
	fiftyoneDegreesCollectionItem item;
	uint64_t last;
	long r;
	uint32_t n;
	EXCEPTION_CREATE;
	memset(&c, 0, sizeof c);
	c.get = get;
	c.release = release;
	n = (uint32_t)VERIF_SPLIT(verif_range(0, LEN)); /* elements in the range */
	lower = verif_u32();
	last = (uint64_t)lower + n - 1;
	if (n == 0) { VERIF_ASSUME(lower > 0); upper = lower - 1; }
	else { VERIF_ASSUME(last < 0xFFFFFFFFu); upper = lower + (n - 1); }
	p = (uint64_t)VERIF_SPLIT(verif_range(0, n));
	q = (uint64_t)VERIF_SPLIT(verif_range(0, n));
	VERIF_ASSUME(q >= p);
#ifdef FAIL
	getFails = VERIF_SPLIT(verif_bool());
	compareFails = !getFails;
	VERIF_ASSUME(n > 0);
	failGet = failCompare = lower + (uint32_t)VERIF_SPLIT(verif_range(0, n - 1));
#endif
	item.data.ptr = NULL; item.data.used = item.data.allocated = 0;
	item.handle = NULL; item.collection = NULL;
	c.count = (uint32_t)last + 1;
	r = fiftyoneDegreesCollectionBinarySearch(&c, &item, lower, upper, &target, compare, exception);
	VERIF_OBSERVE(r);
	VERIF_ASSERT(EXCEPTION_FAILED == failed, "an error is reported, and only one that happened");
#ifdef FAIL
	if (failed) {
		VERIF_ASSERT(held == 0, "nothing is held after an error");
		VERIF_ASSERT(r < 0, "an error is not a find");
		VERIF_WITNESS_IF(getFails, "get failed");
		VERIF_WITNESS_IF(compareFails, "compare failed");
	}
	else
#endif
	if (p < q) {
		VERIF_ASSERT((uint32_t)r - lower >= p && (uint32_t)r - lower < q && r >= 0, "the index of an equal element");
		VERIF_ASSERT(held == 1 && item.data.ptr == (byte*)&element && element == (uint32_t)r, "its item is held");
		VERIF_WITNESS_IF(r == (long)upper && n > 2, "found last");
		VERIF_WITNESS_IF(r == (long)lower && n > 2, "found first");
		release(&item);
	}
	else {
		VERIF_ASSERT(r == -1, "nothing equal");
		VERIF_ASSERT(held == 0, "nothing is held when nothing is found");
#ifndef FAIL
		VERIF_WITNESS_IF(n == 0, "empty range");
#endif
		VERIF_WITNESS_IF(lower == 0 && n > 1, "range from zero");
	}
}
