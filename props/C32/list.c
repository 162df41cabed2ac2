/* Lists own the items added to them. */
#include "list.h"
#include "fiftyone.h"
#include "h_alloc.h"
static fiftyoneDegreesCollection collections[2];
static int state[STEPS + 1]; /* 0 unused, 1 held by the list, 2 released */
static int from[STEPS + 1];
static struct { int16_t size; char value[2]; } text[STEPS + 1];
static void released(fiftyoneDegreesCollectionItem *item, int c) {
	int id = (int)((byte*)item->data.ptr - (byte*)text) / (int)sizeof text[0];
	VERIF_ASSERT((byte*)item->data.ptr == (byte*)&text[id] && id >= 0 && id <= STEPS, "an item that was added");
	VERIF_ASSERT(state[id] == 1, "held and not released before");
	VERIF_ASSERT(from[id] == c && item->collection == &collections[c], "to the collection it came from");
	VERIF_ASSERT(item->handle == (void*)&from[id], "with its handle");
	VERIF_ASSERT(item->data.allocated == (uint32_t)id + 5 && item->data.used == (uint32_t)id + 9, "with its data");
	state[id] = 2;
}
static void release0(fiftyoneDegreesCollectionItem *item) { released(item, 0); }
static void release1(fiftyoneDegreesCollectionItem *item) { released(item, 1); }
void harness(void) {
	fiftyoneDegreesList list;
	uint32_t capacity = 0;
	int ids[STEPS], n = 0, next = 0, live = 0, step, i;
	collections[0].release = release0;
	collections[1].release = release1;
	fiftyoneDegreesListReset(&list);
	VERIF_ASSERT(list.items == NULL && list.count == 0 && list.capacity == 0, "reset is empty");
#ifdef FAULTS
	allocMayFail(1);
#endif
	for (step = 0; step < STEPS; step++) {
		int op = (int)VERIF_SPLIT(verif_range(0, 3));
		if (!live) {
			fiftyoneDegreesList *r;
			int before = allocFailed;
			capacity = (uint32_t)VERIF_SPLIT(verif_range(0, CAP));
			r = fiftyoneDegreesListInit(&list, capacity);
			VERIF_ASSERT((r == NULL) == (allocFailed > before), "initialised unless out of memory");
			if (r == NULL) {
#ifdef FAULTS
				VERIF_WITNESS("out of memory");
#endif
				VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
				fiftyoneDegreesListReset(&list);
				fiftyoneDegreesListFree(&list);
				continue;
			}
			VERIF_ASSERT(r == &list && list.count == 0 && list.capacity == capacity, "empty with the capacity asked for");
			live = 1;
		}
		if (op <= 1 && (uint32_t)n < capacity) {
			fiftyoneDegreesCollectionItem item;
			int id = next++;
			from[id] = op;
			state[id] = 1;
			item.collection = &collections[op];
			item.handle = &from[id];
			item.data.ptr = (byte*)&text[id];
			item.data.allocated = (uint32_t)id + 5;
			item.data.used = (uint32_t)id + 9;
			fiftyoneDegreesListAdd(&list, &item);
			ids[n++] = id;
		}
		else if (op == 2) {
			fiftyoneDegreesListRelease(&list);
			for (i = 0; i < n; i++) VERIF_ASSERT(state[ids[i]] == 2, "every item is released");
			VERIF_WITNESS_IF(n == 2, "two released");
			n = 0;
		}
		else if (op == 3) {
			fiftyoneDegreesListFree(&list);
			for (i = 0; i < n; i++) VERIF_ASSERT(state[ids[i]] == 2, "every item is released");
			VERIF_ASSERT(list.items == NULL && list.count == 0 && list.capacity == 0 && verif_live_heap() == 0, "memory is freed");
			fiftyoneDegreesListFree(&list);
			n = 0;
			live = 0;
		}
		VERIF_ASSERT(list.count == (uint32_t)n && (!live || list.capacity == capacity), "number of items");
		for (i = 0; i < n; i++) {
			VERIF_ASSERT(fiftyoneDegreesListGetAsString(&list, i) == (fiftyoneDegreesString*)&text[ids[i]], "each item at its index");
			VERIF_ASSERT(state[ids[i]] == 1, "still held");
		}
	}
	fiftyoneDegreesListFree(&list);
}
