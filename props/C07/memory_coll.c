/* Collections created one after the other from a buffer of exactly SIZE bytes
 * with any content: exact elements, or nothing with an exception. */
#include "collection.h"
#include "fiftyone.h"
#include "h_alloc.h"
#ifndef SIZE
#define SIZE 16
#endif
#ifndef ES
#define ES 5
#endif

static unsigned char *buf;
static fiftyoneDegreesMemoryReader reader;

static void open(int size) {
	buf = (unsigned char*)malloc(size ? size : 1);
	verif_bytes(buf, size);
	reader.startByte = reader.current = buf;
	reader.lastByte = buf + size;
	reader.length = size;
}

/* Any request on a collection whose n elements of es bytes are at data */
static void request(fiftyoneDegreesCollection *c, const unsigned char *data, uint32_t claim, uint32_t n, uint32_t es, _Bool exact) {
	fiftyoneDegreesCollectionItem item;
	uint32_t i = verif_u32();
	void *p;
	EXCEPTION_CREATE;
	fiftyoneDegreesDataReset(&item.data);
	item.handle = NULL;
	item.collection = NULL;
	p = c->get(c, i, &item, exception);
	if (p != NULL) {
		VERIF_ASSERT(EXCEPTION_OKAY, "no exception with data");
		VERIF_ASSERT(item.data.ptr == p, "data is in the item");
		VERIF_ASSERT((unsigned char*)p >= data && (unsigned char*)p < data + claim, "data is inside the collection");
	}
	else {
		VERIF_ASSERT(EXCEPTION_FAILED, "an exception when there is no data");
	}
	if (exact) {
		if (es > 0) {
			VERIF_ASSERT((p != NULL) == (i < n), "elements of the collection are returned and no others");
			if (p != NULL) VERIF_ASSERT((unsigned char*)p == data + (uint64_t)i * es, "exactly the element asked for");
			VERIF_WITNESS_IF(i == n && n > 0, "first invalid index");
		}
		else {
			VERIF_ASSERT((p != NULL) == (i < claim), "offsets in the collection are returned and no others");
			if (p != NULL) VERIF_ASSERT((unsigned char*)p == data + i, "exactly the offset asked for");
			VERIF_WITNESS_IF(i == claim && claim > 0, "first invalid offset");
		}
	}
	if (p != NULL && c->release != NULL) c->release(&item);
	if (exact && es == 4) {
		uint32_t k = verif_u32();
		int32_t v;
		EXCEPTION_CLEAR;
		v = fiftyoneDegreesCollectionGetInteger32(c, k, exception);
		VERIF_ASSERT(EXCEPTION_OKAY == (k < n), "integer for valid indexes only");
		if (k < n) {
			int32_t e;
			memcpy(&e, data + (uint64_t)k * 4, 4);
			VERIF_ASSERT(v == e, "exactly the integer asked for");
		}
	}
}

static fiftyoneDegreesCollection* one(int size, uint32_t es, _Bool isCount) {
	uint32_t v = 0, n;
	uint64_t claim;
	unsigned char *at = reader.current;
	fiftyoneDegreesCollectionHeader h;
	fiftyoneDegreesCollection *c;
	int left = (int)(reader.lastByte - at);
	if (left >= 4) memcpy(&v, at, 4);
	h = fiftyoneDegreesCollectionHeaderFromMemory(&reader, es, isCount);
	VERIF_ASSERT(reader.current >= buf && reader.current <= buf + size, "reader stays in its block");
	c = fiftyoneDegreesCollectionCreateFromMemory(&reader, h);
	VERIF_ASSERT(reader.current >= buf && reader.current <= buf + size, "reader stays in its block");
	if (left < 4) {
		if (c != NULL) VERIF_ASSERT(c->size == 0 && c->count == 0, "nothing can be read without a header");
		VERIF_WITNESS_IF(left > 0, "cut off header");
		return c;
	}
	n = isCount ? v : es ? v / es : 0;
	claim = isCount ? (uint64_t)v * es : v;
	VERIF_ASSERT((c != NULL) == (claim <= (uint64_t)left - 4), "created exactly when the buffer holds what the header claims");
	if (c != NULL) {
		_Bool exact = es == 0 || (uint64_t)n * es == claim;
		VERIF_ASSERT(reader.current == at + 4 + claim, "exactly header and content are consumed");
		VERIF_ASSERT(c->size == claim, "size is that of the content");
		if (exact && es) VERIF_ASSERT(fiftyoneDegreesCollectionGetCount(c) == n, "count is that of the elements");
		request(c, at + 4, (uint32_t)claim, n, es, exact);
		VERIF_WITNESS_IF(claim == (uint64_t)left - 4 && claim > 0, "content up to the last byte");
	}
	else VERIF_WITNESS_IF(es == 4 && v == 0x40000001, "refused");
	return c;
}

void harness(void) {
	fiftyoneDegreesCollection *a, *b = NULL;
	int size = (int)VERIF_SPLIT(verif_range(0, SIZE));
	static const uint32_t sizes[] = { 0, 1, 2, 4, 5 };
	uint32_t es = sizes[VERIF_SPLIT(verif_range(0, ES - 1))];
	_Bool isCount = verif_bool();
	open(size);
	a = one(size, es, isCount);
	if (a != NULL && size >= 8) b = one(size, es, isCount);
	if (b != NULL) b->freeCollection(b);
	if (a != NULL) a->freeCollection(a);
	free(buf);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS("end");
}

/* Headers the caller made up, at any position, allocation may fail */
void harness_header(void) {
	fiftyoneDegreesCollection *c;
	fiftyoneDegreesCollectionHeader h;
	int skip = (int)VERIF_SPLIT(verif_range(0, 4));
	open(SIZE);
	h.startPosition = verif_u32();
	h.length = verif_u32();
	h.count = (uint32_t)VERIF_SPLIT(verif_range(0, 5));
	allocMayFail(1);
	reader.current += skip;
	c = fiftyoneDegreesCollectionCreateFromMemory(&reader, h);
	fiftyoneDegreesMalloc = fiftyoneDegreesMemoryStandardMalloc;
	if (allocFailed) VERIF_ASSERT(c == NULL, "nothing is created without memory");
	else VERIF_ASSERT((c != NULL) == (h.startPosition == (uint32_t)skip && h.length <= (uint32_t)(SIZE - skip)),
		"created exactly for a header in step with the reader and inside the buffer");
	if (c != NULL) {
		VERIF_ASSERT(reader.current == buf + skip + h.length, "exactly the content is consumed");
		request(c, buf + skip, h.length, h.count, 0, 0);
		c->freeCollection(c);
	}
	free(buf);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS("end");
}
/* Without an exception structure, and with one already set */
void harness_null(void) {
	fiftyoneDegreesCollection *c;
	fiftyoneDegreesCollectionItem item;
	fiftyoneDegreesCollectionHeader h;
	uint32_t i = verif_u32();
	_Bool fixed = verif_bool();
	void *p;
	open(SIZE);
	h.startPosition = 0;
	h.length = SIZE;
	h.count = fixed ? SIZE / 2 : 0;
	c = fiftyoneDegreesCollectionCreateFromMemory(&reader, h);
	VERIF_ASSERT(c != NULL, "created");
	fiftyoneDegreesDataReset(&item.data);
	p = c->get(c, i, &item, NULL);
	VERIF_ASSERT((p != NULL) == (i < (fixed ? SIZE / 2 : SIZE)), "valid requests only");
	VERIF_WITNESS("end");
	c->freeCollection(c);
	free(buf);
}
