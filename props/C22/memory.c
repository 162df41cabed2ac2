/* Tracking of the memory allocated. */
#include <string.h>
#include <stdlib.h>
#include "memory.h"
#include "fiftyone.h"
#include "verif.h"
#ifdef HISTORY
#define BLOCKS 3
static void *block[BLOCKS];
static size_t size[BLOCKS];
static _Bool aligned[BLOCKS];
void harness(void) {
	size_t live = 0, max = 0;
	int step, i;
	fiftyoneDegreesSetUpMemoryTracking();
	for (step = 0; step < STEPS; step++) {
		int b = (int)VERIF_SPLIT(verif_range(0, BLOCKS - 1));
		for (i = 0; i < b; i++) VERIF_ASSUME(block[i] != NULL || block[b] != NULL);
		if (block[b] == NULL) {
			size_t n = (size_t)verif_range(4, 5) * 8, pad;
			aligned[b] = VERIF_SPLIT(verif_bool());
			n = VERIF_SPLIT(n);
			if (n == 40) n -= 3;
			pad = aligned[b] ? (8 - n % 8) % 8 : 0;
			block[b] = aligned[b] ? fiftyoneDegreesMallocAligned(8, n) : fiftyoneDegreesMalloc(n);
			VERIF_ASSERT(block[b] != NULL && VERIF_READABLE(block[b], n), "usable memory");
			memset(block[b], b, n);
			size[b] = n + pad;
			live += size[b];
			if (live > max) max = live;
		}
		else {
			(aligned[b] ? fiftyoneDegreesFreeAligned : fiftyoneDegreesFree)(block[b]);
			live -= size[b];
			block[b] = NULL;
			VERIF_WITNESS_IF(step > 3 && live > 0, "freed");
		}
		if (step == 1) fiftyoneDegreesFree(NULL);
		VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == live, "the bytes live");
		VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetMax() == max, "the most that were live");
		VERIF_WITNESS_IF(max > live + 40, "less than the most");
	}
	for (i = 0; i < BLOCKS; i++) if (block[i] != NULL) (aligned[i] ? fiftyoneDegreesFreeAligned : fiftyoneDegreesFree)(block[i]);
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == 0 && fiftyoneDegreesMemoryTrackingGetMax() == max, "all freed");
	VERIF_ASSERT(fiftyoneDegreesUnsetMemoryTracking() == 0, "nothing outstanding");
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetMax() == 0, "reset");
	block[0] = fiftyoneDegreesMalloc(8);
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == 0 && fiftyoneDegreesMemoryTrackingGetMax() == 0, "no longer tracked");
	fiftyoneDegreesFree(block[0]);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
}
#elif defined(ALIGNED)
void harness(void) {
	int a = 8 << VERIF_SPLIT(verif_range(0, 4));
	size_t n = (size_t)VERIF_SPLIT(verif_range(0, 70)), total;
	byte *p, *q;
	fiftyoneDegreesSetUpMemoryTracking();
	p = fiftyoneDegreesMallocAligned(a, n);
	VERIF_ASSERT(p != NULL && VERIF_READABLE(p, n), "at least the bytes asked for");
	VERIF_ASSERT(((uintptr_t)p) % (unsigned)a == 0, "aligned");
	total = fiftyoneDegreesMemoryTrackingGetAllocated();
	VERIF_ASSERT(total >= n && total < n + (size_t)a && total % (size_t)a == 0, "the size allocated");
	q = fiftyoneDegreesMallocAligned(a, 1);
	memset(p, 1, n);
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == total + (size_t)a, "both");
	fiftyoneDegreesFreeAligned(p);
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == (size_t)a, "one");
	fiftyoneDegreesFreeAligned(q);
	VERIF_ASSERT(fiftyoneDegreesUnsetMemoryTracking() == 0 && verif_live_heap() == 0, "nothing outstanding");
	p = fiftyoneDegreesMallocAligned(a, n);
	VERIF_ASSERT(p != NULL && VERIF_READABLE(p, n) && ((uintptr_t)p) % (unsigned)a == 0, "without tracking");
	fiftyoneDegreesFreeAligned(p);
	VERIF_WITNESS_IF(n == 70, "all");
}
#elif defined(BUILT_IN)
/* A library built to track memory does so without being asked. */
void harness(void) {
	size_t n = (size_t)verif_range(1, 40);
	_Bool align = VERIF_SPLIT(verif_bool());
	void *p;
	n = VERIF_SPLIT(n);
	p = align ? fiftyoneDegreesMallocAligned(8, n) : fiftyoneDegreesMalloc(n);
	if (align) n = (n + 7) / 8 * 8;
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == n && fiftyoneDegreesMemoryTrackingGetMax() == n, "tracked");
	(align ? fiftyoneDegreesFreeAligned : fiftyoneDegreesFree)(p);
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == 0 && fiftyoneDegreesMemoryTrackingGetMax() == n, "deducted");
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS_IF(align, "aligned");
}
#elif defined(PEAK)
/* The maximum lies between the most that was certainly live (allocated and not
 * yet being freed) and the most that may have been (being allocated or freed). */
static size_t certain, possible, mostCertain[3], mostPossible[3];
static void *take(int t, size_t n) {
	size_t now = __atomic_add_fetch(&possible, n, __ATOMIC_SEQ_CST);
	void *p;
	if (now > mostPossible[t]) mostPossible[t] = now;
	p = fiftyoneDegreesMalloc(n);
	now = __atomic_add_fetch(&certain, n, __ATOMIC_SEQ_CST);
	if (now > mostCertain[t]) mostCertain[t] = now;
	return p;
}
static void give(void *p, size_t n) {
	__atomic_sub_fetch(&certain, n, __ATOMIC_SEQ_CST);
	fiftyoneDegreesFree(p);
	__atomic_sub_fetch(&possible, n, __ATOMIC_SEQ_CST);
}
static void *first, *held;
static void one(void *arg) { (void)arg; held = take(1, 100); }
static size_t seen;
static void other(void *arg) { (void)arg; seen = fiftyoneDegreesMemoryTrackingGetAllocated(); give(first, 50); give(take(2, 20), 20); }
void harness(void) {
	size_t c = 0, p = 0;
	int i;
	fiftyoneDegreesSetUpMemoryTracking();
	first = take(0, 50);
	verif_spawn(one, NULL);
	verif_spawn(other, NULL);
	verif_join_all();
	for (i = 0; i < 3; i++) {
		if (mostCertain[i] > c) c = mostCertain[i];
		if (mostPossible[i] > p) p = mostPossible[i];
	}
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == 100, "what is live");
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetMax() >= seen, "no less than was reported as allocated");
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetMax() >= c, "no less than the most that was live");
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetMax() <= p, "no more than the most that was live");
	VERIF_WITNESS_IF(c == 150 && p == 150, "the first was live");
	VERIF_WITNESS_IF(p == 120, "the first was not live");
	fiftyoneDegreesFree(held);
	VERIF_ASSERT(fiftyoneDegreesUnsetMemoryTracking() == 0 && verif_live_heap() == 0, "nothing outstanding");
}
#else
static size_t size[4];
static void run(void *arg) {
	int t = *(int*)arg;
	void *p = fiftyoneDegreesMalloc(size[t * 2]), *q;
	q = fiftyoneDegreesMalloc(size[t * 2 + 1]);
	fiftyoneDegreesFree(p);
	fiftyoneDegreesFree(q);
}
void harness(void) {
	int id[2] = { 0, 1 }, i;
	size_t most = 0, least;
	for (i = 0; i < 4; i++) { size[i] = (size_t)8 << i; most += size[i]; }
	fiftyoneDegreesSetUpMemoryTracking();
	verif_spawn(run, &id[0]);
	verif_spawn(run, &id[1]);
	verif_join_all();
	least = size[2] + size[3];
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetAllocated() == 0, "everything is deducted once");
	VERIF_ASSERT(fiftyoneDegreesMemoryTrackingGetMax() >= least && fiftyoneDegreesMemoryTrackingGetMax() <= most, "the most live at any moment");
	VERIF_WITNESS_IF(fiftyoneDegreesMemoryTrackingGetMax() == most, "all live at once");
	VERIF_WITNESS_IF(fiftyoneDegreesMemoryTrackingGetMax() == least, "one after the other");
}
#endif
