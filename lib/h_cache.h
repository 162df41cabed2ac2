/* Shared by the cache harnesses: a loader whose data names the key it was
 * loaded for, and the bookkeeping to check it. */
#include "cache.h"
#include "fiftyone.h"
#include "verif.h"

static int loads; /* calls of the loader */
static int mayFail; /* loader failures are part of the input */
static int failed; /* last call of the loader failed */
static const void *lastState;
static int stateTag;

typedef struct { int64_t key; uint32_t serial; } CacheItem;

static int64_t keyOf(const void *key);

static void loader(const void *state, fiftyoneDegreesData *data,
	const void *key, fiftyoneDegreesException *exception) {
	loads++;
	failed = 0;
	VERIF_ASSERT(state == &stateTag, "loader is given its own state");
	data->used = 0;
	if (mayFail && verif_bool()) {
		failed = 1;
		EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR);
		return;
	}
	if (fiftyoneDegreesDataMalloc(data, sizeof(CacheItem)) != NULL) {
		CacheItem *i = (CacheItem*)data->ptr;
		i->key = keyOf(key);
		i->serial = (uint32_t)loads;
		data->used = sizeof(CacheItem);
	}
}
