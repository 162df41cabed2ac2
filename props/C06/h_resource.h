/* Resources that record being freed, and handles whose memory is recorded. */
#include <stdlib.h>
#include "resource.h"
#include "fiftyone.h"
#include "verif.h"
#ifndef MAXR
#define MAXR 4
#endif
typedef struct { fiftyoneDegreesResourceHandle *handle; int freed, used, id; } Resource;
static Resource res[MAXR];
static fiftyoneDegreesResourceManager *manager;
/* Handle memory: kept until the end so that its address is not recycled
 * (unless RECYCLE is defined). */
static void *block[MAXR + 2];
static int blockFreed[MAXR + 2], blocks;
static void* mallocAligned(int alignment, size_t size) {
	void *p = malloc(size);
	VERIF_ASSERT(blocks < MAXR + 2, "one handle for each resource");
	block[blocks++] = p;
	return p;
}
static void freeAligned(void *p) {
	int i;
	for (i = 0; i < blocks; i++) if (block[i] == p) {
		VERIF_ASSERT(blockFreed[i] == 0, "a handle is freed once");
		blockFreed[i] = 1;
#ifdef RECYCLE
		free(p);
#endif
		return;
	}
	VERIF_ASSERT(0, "only handles are freed");
}
static void freeResource(void *r) {
	Resource *x = (Resource*)r;
	VERIF_ASSERT(x >= res && x < res + MAXR, "one of the resources");
	VERIF_ASSERT(x->freed == 0, "a resource is freed once");
	VERIF_ASSERT(x->used == 0, "a resource in use is not freed");
	x->freed = 1;
}
static void start(void) {
	fiftyoneDegreesMallocAligned = mallocAligned;
	fiftyoneDegreesFreeAligned = freeAligned;
	manager = (fiftyoneDegreesResourceManager*)malloc(sizeof(*manager));
	fiftyoneDegreesResourceManagerInit(manager, &res[0], &res[0].handle, freeResource);
	VERIF_ASSERT(res[0].handle != NULL && res[0].handle->resource == &res[0], "managed from the start");
}
static void finish(int n) {
	int i;
	for (i = 0; i < n; i++) VERIF_ASSERT(res[i].freed == 1, "every resource is freed at the end");
	for (i = 0; i < blocks; i++) {
		VERIF_ASSERT(blockFreed[i] == 1, "every handle is freed at the end");
#ifndef RECYCLE
		free(block[i]);
#endif
	}
	free(manager);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS("end");
}
