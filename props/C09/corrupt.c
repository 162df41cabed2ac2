/* Items read from a file with any content, whatever length they claim. */
#include <string.h>
#include <stddef.h>
#include "collection.h"
#include "string.h"
#include "component.h"
#include "profile.h"
#include "fiftyone.h"
#include "vfs.h"
#ifndef SIZE
#define SIZE 20
#endif
#define START 4

static unsigned char file[SIZE];
static uint32_t size; /* bytes in the file */
static fiftyoneDegreesFilePool pool;

/* KIND 0: two bytes of header, any final size */
static uint32_t finalSizes[4];
static int finals;
static uint32_t finalSize(void *initial) {
	VERIF_ASSERT(finals < 4, "model: final sizes");
	if (TWICE || verif_bool()) finalSizes[finals] = (uint32_t)VERIF_SPLIT(verif_range(0, SIZE));
	else { finalSizes[finals] = verif_u32(); VERIF_ASSUME(finalSizes[finals] > SIZE); }
	return finalSizes[finals++];
}
static void* readAny(const fiftyoneDegreesCollectionFile *f, uint32_t offset, fiftyoneDegreesData *data, fiftyoneDegreesException *exception) {
	unsigned char initial[2];
	return fiftyoneDegreesCollectionReadFileVariable(f, data, offset, initial, 2, finalSize, exception);
}

#if KIND == 0
#define READ readAny
#define HEADER 2
static uint64_t claim(const unsigned char *at) { return finalSizes[finals - 1]; }
#elif KIND == 1
#define READ fiftyoneDegreesStringRead
#define HEADER 2
static uint64_t claim(const unsigned char *at) { int16_t s; memcpy(&s, at, 2); return s < 0 ? 0 : 2 + (uint64_t)s; }
#elif KIND == 2
#define READ fiftyoneDegreesComponentReadFromFile
#define HEADER offsetof(fiftyoneDegreesComponent, firstKeyValuePair)
static uint64_t claim(const unsigned char *at) {
	return HEADER + (uint64_t)((const fiftyoneDegreesComponent*)at)->keyValuesCount * sizeof(fiftyoneDegreesComponentKeyValuePair); }
#else
#define READ fiftyoneDegreesProfileReadFromFile
#define HEADER sizeof(fiftyoneDegreesProfile)
static uint64_t claim(const unsigned char *at) {
	return HEADER + (uint64_t)((const fiftyoneDegreesProfile*)at)->valueCount * 4; }
#endif

/* Small blocks, or none at all */
static int mayFail;
static void* smallMalloc(size_t n) {
	if (n > 128) return NULL;
	if (mayFail > 0 && verif_bool()) { mayFail--; return NULL; }
	return malloc(VERIF_SPLIT(n));
}

static void request(fiftyoneDegreesCollection *c) {
	fiftyoneDegreesCollectionItem item;
	uint32_t offset = (uint32_t)VERIF_SPLIT(verif_range(0, OFFS)), k;
	unsigned char *p;
	EXCEPTION_CREATE;
	if (offset == OFFS) offset = SIZE - START;
	fiftyoneDegreesDataReset(&item.data);
	item.handle = NULL;
	item.collection = NULL;
	finals = 0;
	p = (unsigned char*)c->get(c, offset, &item, exception);
	if (p == NULL) {
		VERIF_ASSERT(EXCEPTION_FAILED, "an exception when nothing is returned");
		VERIF_WITNESS_IF(offset + HEADER <= size - START, "refused");
		return;
	}
	VERIF_ASSERT(EXCEPTION_OKAY, "no exception with data");
	VERIF_ASSERT(START + offset + HEADER <= size, "the header was in the file");
	{
		uint64_t n = KIND == 0 && finals == 0 ? item.data.used : claim(file + START + offset);
		VERIF_ASSERT(item.data.ptr == p && item.data.used >= n, "at least the bytes claimed");
		VERIF_ASSERT(n >= HEADER && START + offset + n <= size, "the bytes claimed were in the file");
		n = VERIF_SPLIT(n);
		VERIF_ASSERT(VERIF_READABLE(p, n), "the memory holds them");
		for (k = 0; k < n; k++) VERIF_ASSERT(p[k] == file[START + offset + k], "exactly the file's bytes");
		VERIF_WITNESS_IF(START + offset + n == size && n > HEADER, "read to the end of the file");
	}
	c->release(&item);
}

void harness(void) {
	fiftyoneDegreesCollectionConfig config;
	fiftyoneDegreesCollectionHeader h;
	fiftyoneDegreesCollection *c;
	vfs_node *n;
	FILE *f;
	int faults = TWICE ? 0 : verif_bool();
	EXCEPTION_CREATE;
	verif_bytes(file, SIZE);
	size = (uint32_t)(TWICE ? SIZE : VERIF_SPLIT(verif_bool() ? SIZE : START + HEADER + 3));
	n = vfs_add("f", file, size);
	VERIF_ASSERT(fiftyoneDegreesFilePoolInit(&pool, "f", 1, exception) == FIFTYONE_DEGREES_STATUS_SUCCESS, "opened");
	f = vfs_handle(n);
	vfs_fseek(f, START, SEEK_SET);
	config.loaded = 0;
	config.capacity = config.concurrency = (uint16_t)VERIF_SPLIT(verif_range(0, 1));
	h.startPosition = START;
	h.length = SIZE - START; /* more than a truncated file has */
	h.count = 0;
	c = fiftyoneDegreesCollectionCreateFromFile(f, &pool, &config, h, READ);
	VERIF_ASSERT(c != NULL, "created");
	vfs_fclose(f);
	fiftyoneDegreesMalloc = smallMalloc;
	if (faults) { if (verif_bool()) vfs_faults = 1; else mayFail = 1; }
	request(c);
	if (TWICE) request(c);
	c->freeCollection(c);
	fiftyoneDegreesFilePoolRelease(&pool);
	VERIF_ASSERT(vfs_handles == 0, "every file is closed");
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
	VERIF_WITNESS("end");
}
