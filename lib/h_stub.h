/* Collections standing in for the real ones: bounded memory, counted items,
 * failures chosen by symbolic inputs. Each has its own release method. */
#ifndef H_STUB_H
#define H_STUB_H
#include "collection.h"
#include "fiftyone.h"
#include "verif.h"
typedef struct {
	fiftyoneDegreesCollection c;
	byte *mem;
	uint32_t bytes;   /* of memory */
	uint32_t element; /* size of each, or 0 for offsets */
	int held, gets;
} stub;
enum { STUBS = 6 };
static stub stubs[STUBS];
static int stubFaults, stubFailed;
static void stubRelease(int n, fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(item->collection == &stubs[n].c, "released to the collection it came from");
	VERIF_ASSERT(item->handle == (void*)(stubs[n].mem + 1), "an item that was got");
	VERIF_ASSERT(stubs[n].held > 0, "only a held item is released");
	stubs[n].held--;
	item->handle = NULL;
	item->data.ptr = NULL;
}
static void stubRelease0(fiftyoneDegreesCollectionItem *i) { stubRelease(0, i); }
static void stubRelease1(fiftyoneDegreesCollectionItem *i) { stubRelease(1, i); }
static void stubRelease2(fiftyoneDegreesCollectionItem *i) { stubRelease(2, i); }
static void stubRelease3(fiftyoneDegreesCollectionItem *i) { stubRelease(3, i); }
static void stubRelease4(fiftyoneDegreesCollectionItem *i) { stubRelease(4, i); }
static void stubRelease5(fiftyoneDegreesCollectionItem *i) { stubRelease(5, i); }
static void *stubGet(fiftyoneDegreesCollection *c, uint32_t at, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	stub *s = (stub*)c;
	fiftyoneDegreesStatusCode status = FIFTYONE_DEGREES_STATUS_NOT_SET;
	s->gets++;
	if (stubFaults > 0 && VERIF_SPLIT(verif_bool())) {
		stubFaults--;
		stubFailed++;
		status = FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL;
	}
	else if (s->element != 0 ? VERIF_SPLIT(at >= s->bytes / s->element) : VERIF_SPLIT(at >= s->bytes)) {
		status = FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE;
	}
	if (status != FIFTYONE_DEGREES_STATUS_NOT_SET) {
		if (exception != NULL) exception->status = status;
		return NULL;
	}
	at = (uint32_t)VERIF_SPLIT(at);
	s->held++;
	item->collection = c;
	item->handle = s->mem + 1;
	item->data.ptr = s->mem + (s->element != 0 ? at * s->element : at);
	return item->data.ptr;
}
static fiftyoneDegreesCollection *stubInit(int n, void *mem, uint32_t bytes, uint32_t element) {
	static void (*const releases[STUBS])(fiftyoneDegreesCollectionItem*) = {
		stubRelease0, stubRelease1, stubRelease2, stubRelease3, stubRelease4, stubRelease5 };
	stub *s = &stubs[n];
	s->mem = (byte*)mem;
	s->bytes = bytes;
	s->element = element;
	s->c.get = stubGet;
	s->c.release = releases[n];
	s->c.count = element ? bytes / element : 0;
	s->c.elementSize = element;
	s->c.size = bytes;
	return &s->c;
}
static int stubHeld(void) { int i, n = 0; for (i = 0; i < STUBS; i++) n += stubs[i].held; return n; }
#endif
