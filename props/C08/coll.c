/* A collection over a file, however it is kept, gives what is in the file. */
#include <string.h>
#include "collection.h"
#include "fiftyone.h"
#include "vfs.h"
#include "h_alloc.h"
#ifndef N
#define N 3
#endif
#ifndef OPS
#define OPS 3
#endif
#define LEN 2          /* bytes of a fixed element */
#define ITEM 3         /* longest variable item */
#define TAIL 3         /* bytes of the file after the collection */

static unsigned char file[4 + N * ITEM + TAIL];
static uint32_t off[N + 1]; /* where each element starts; the end */
static int fixed;
static fiftyoneDegreesFilePool pool;
static fiftyoneDegreesCollectionConfig config;
static fiftyoneDegreesCollection *c;
typedef struct { fiftyoneDegreesCollectionItem item; int i; } Held;

static uint32_t finalSize(void *initial) { return *(unsigned char*)initial; }
static void* readVariable(const fiftyoneDegreesCollectionFile *f, uint32_t offset, fiftyoneDegreesData *data, fiftyoneDegreesException *exception) {
	unsigned char length;
	return fiftyoneDegreesCollectionReadFileVariable(f, data, offset, &length, 1, finalSize, exception);
}

/* The file, with a collection of N elements after its header */
static void contents(_Bool isCount) {
	uint32_t h, i;
	off[0] = 0;
	for (i = 0; i < N; i++) {
		uint32_t l = fixed ? LEN : (uint32_t)VERIF_SPLIT(verif_range(1, ITEM));
		off[i + 1] = off[i] + l;
		if (fixed) verif_bytes(file + 4 + off[i], l);
		else {
			file[4 + off[i]] = (unsigned char)l;
			verif_bytes(file + 5 + off[i], l - 1);
		}
	}
	h = isCount ? N : off[N];
	memcpy(file, &h, 4);
	memset(file + 4 + off[N], 0xEE, TAIL);
	vfs_add("f", file, 4 + off[N] + TAIL);
}

static fiftyoneDegreesStatusCode openPool(void) {
	fiftyoneDegreesStatusCode s;
	EXCEPTION_CREATE;
	s = fiftyoneDegreesFilePoolInit(&pool, "f", 2, exception);
	if (s == FIFTYONE_DEGREES_STATUS_SUCCESS) VERIF_ASSERT(EXCEPTION_OKAY && pool.length == 4 + (long)off[N] + TAIL, "length of the file");
	return s;
}

/* NULL if it could not be created */
static fiftyoneDegreesCollection* create(_Bool isCount) {
	fiftyoneDegreesCollection *r = NULL;
	fiftyoneDegreesCollectionHeader h;
	fiftyoneDegreesFileHandle *f;
	EXCEPTION_CREATE;
	f = fiftyoneDegreesFileHandleGet(&pool, exception);
	VERIF_ASSERT(f != NULL && EXCEPTION_OKAY, "a file handle");
	vfs_fseek(f->file, 0, SEEK_SET);
	h = fiftyoneDegreesCollectionHeaderFromFile(f->file, fixed ? LEN : 0, isCount);
	if (h.startPosition != 0) {
		VERIF_ASSERT(h.startPosition == 4 && h.length == off[N] && h.count == (fixed ? N : 0), "header of the file");
		r = fiftyoneDegreesCollectionCreateFromFile(f->file, &pool, &config, h, fixed ? fiftyoneDegreesCollectionReadFileFixed : readVariable);
		if (r != NULL) VERIF_ASSERT(vfs_ftell(f->file) == 4 + (long)off[N], "file is positioned after the collection");
	}
	fiftyoneDegreesFileHandleRelease(f);
	return r;
}

static void same(Held *x) {
	uint32_t k, l = off[x->i + 1] - off[x->i];
	for (k = 0; k < l; k++) VERIF_ASSERT(x->item.data.ptr[k] == file[4 + off[x->i] + k], "exactly the bytes in the file");
}
static _Bool get(Held *x, int i, int faulty) {
	void *p;
	uint32_t request;
	EXCEPTION_CREATE;
	if (i < N) request = fixed ? (uint32_t)i : off[i];
	else {
		request = verif_bool() ? UINT32_MAX : fixed ? N : off[N];
		request = (uint32_t)VERIF_SPLIT(request);
	}
	p = c->get(c, request, &x->item, exception);
	if (i == N) {
		VERIF_ASSERT(p == NULL && EXCEPTION_FAILED, "an invalid request fails with an exception");
		return 0;
	}
	if (faulty && p == NULL) {
		VERIF_ASSERT(EXCEPTION_FAILED, "a failure surfaces as an exception");
		return 0;
	}
	VERIF_ASSERT(p != NULL && EXCEPTION_OKAY, "a valid request returns data");
	VERIF_ASSERT(x->item.data.ptr == p, "data is in the item");
	x->i = i;
	same(x);
	return 1;
}
static void put(Held *x) { same(x); c->release(&x->item); }
static void end(void) {
	fiftyoneDegreesFileHandle *a, *b;
	EXCEPTION_CREATE;
	c->freeCollection(c);
	/* Whatever happened, both handles of the pool were given back */
	a = fiftyoneDegreesFileHandleGet(&pool, exception);
	b = fiftyoneDegreesFileHandleGet(&pool, exception);
	VERIF_ASSERT(a != NULL && b != NULL && EXCEPTION_OKAY, "every file handle was given back");
	fiftyoneDegreesFileHandleRelease(a);
	fiftyoneDegreesFileHandleRelease(b);
	fiftyoneDegreesFilePoolRelease(&pool);
	VERIF_ASSERT(vfs_handles == 0, "every file is closed");
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS("end");
}
static void configure(void) {
	config.loaded = (uint32_t)VERIF_SPLIT(verif_range(0, N + 1));
	config.capacity = (uint32_t)VERIF_SPLIT(verif_range(0, CAPACITY));
	config.concurrency = config.capacity > 0;
}

void harness(void) {
	Held held[2];
	int o, h, n = 0;
	_Bool isCount = 0;
	fixed = FIXED;
	if (fixed) isCount = verif_bool();
	configure();
	contents(isCount);
	VERIF_ASSERT(openPool() == FIFTYONE_DEGREES_STATUS_SUCCESS, "file opened");
	c = create(isCount);
	VERIF_ASSERT(c != NULL, "created");
	if (fixed) VERIF_ASSERT(fiftyoneDegreesCollectionGetCount(c) == N, "number of elements");
	for (h = 0; h < 2; h++) { fiftyoneDegreesDataReset(&held[h].item.data); held[h].item.handle = NULL; held[h].item.collection = NULL; held[h].i = -1; }
	/* The second item is held only if a cache has room for both */
	for (o = 0; o < OPS; o++) {
		int op = (int)VERIF_SPLIT(verif_range(0, N + 2));
		h = op == N + 2 || (held[0].i >= 0 && op <= N);
		if (op == N + 1) { VERIF_ASSUME(held[0].i >= 0); put(&held[0]); held[0].i = -1; }
		else if (op == N + 2) { VERIF_ASSUME(held[1].i >= 0); put(&held[1]); held[1].i = -1; }
		else {
			VERIF_ASSUME(held[h].i < 0 && (h == 0 || config.capacity != 1));
			get(&held[h], op, 0);
		}
		for (h = 0; h < 2; h++) if (held[h].i >= 0) same(&held[h]);
	}
	for (h = 0; h < 2; h++) if (held[h].i >= 0) put(&held[h]);
	end();
}

/* One fault anywhere: file operations, allocations, no handle free */
void harness_fault(void) {
	Held x, y;
	int op, failed = 0;
	fiftyoneDegreesFileHandle *taken = NULL, *other = NULL;
	fiftyoneDegreesStatusCode s;
	_Bool isCount = 0, files = verif_bool();
	EXCEPTION_CREATE;
	fixed = FIXED;
	configure();
	contents(isCount);
	if (files) vfs_faults = 1;
	else allocMayFail(1);
	s = openPool();
	if (s != FIFTYONE_DEGREES_STATUS_SUCCESS) {
		VERIF_ASSERT(vfs_faulted || allocFailed, "only a fault prevents opening");
		fiftyoneDegreesFilePoolRelease(&pool);
		VERIF_ASSERT(vfs_handles == 0 && verif_live_heap() == 0, "nothing leaked");
		VERIF_WITNESS("not opened");
		return;
	}
	c = create(isCount);
	if (c == NULL) {
		VERIF_ASSERT(vfs_faulted || allocFailed, "only a fault prevents creation");
		vfs_faults = 0;
		allocFaults = 0;
		/* The pool is as it was */
		c = create(isCount);
		VERIF_ASSERT(c != NULL, "created once the fault is gone");
		end();
		return;
	}
	fiftyoneDegreesDataReset(&x.item.data);
	x.item.handle = NULL;
	x.item.collection = NULL;
	y = x;
	if (verif_bool()) { vfs_faults = allocFaults = 0; taken = fiftyoneDegreesFileHandleGet(&pool, exception); other = fiftyoneDegreesFileHandleGet(&pool, exception); }
	op = (int)VERIF_SPLIT(verif_range(0, N));
	if (get(&x, op, 1)) put(&x);
	else if (op < N) {
		VERIF_ASSERT(vfs_faulted || allocFailed || taken, "only a fault prevents getting a valid element");
		failed = 1;
		VERIF_WITNESS_IF(taken != NULL, "no handle free");
	}
	if (taken != NULL) { fiftyoneDegreesFileHandleRelease(taken); fiftyoneDegreesFileHandleRelease(other); }
	vfs_faults = allocFaults = 0;
	if (failed) {
		/* Collection and item are usable after the failure */
		VERIF_ASSERT(get(&x, op, 0), "the element is there once the fault is gone");
		put(&x);
	}
	op = (int)VERIF_SPLIT(verif_range(0, N - 1));
	VERIF_ASSERT(get(&y, op, 0), "so are the others");
	put(&y);
	VERIF_WITNESS_IF(failed, "get failed");
	end();
}

/* An item used with one collection, then with another over the same file */
void harness_reuse(void) {
	fiftyoneDegreesCollection *k[3], *last;
	Held x, y;
	int o, i, which;
	fixed = FIXED;
	contents(0);
	openPool();
	for (i = 0; i < 3; i++) {
		config.loaded = i == 2;
		config.capacity = config.concurrency = i >= 1;
		k[i] = create(0);
		VERIF_ASSERT(k[i] != NULL, "created");
	}
	fiftyoneDegreesDataReset(&x.item.data);
	x.item.handle = NULL;
	x.item.collection = NULL;
	y = x;
	for (o = 0; o < OPS; o++) {
		which = (int)VERIF_SPLIT(verif_range(0, 2));
		c = k[which];
		if (get(&x, (int)VERIF_SPLIT(verif_range(0, N)), 0)) put(&x);
	}
	/* What is cached is still right */
	for (which = 0; which < 3; which++) for (i = 0; i < N; i++) {
		c = k[which];
		get(&y, i, 0);
		put(&y);
	}
	k[0]->freeCollection(k[0]);
	k[1]->freeCollection(k[1]);
	c = k[2];
	end();
}
