/* Reusable buffers and readers of memory. */
#include "data.h"
#include "memory.h"
#include "fiftyone.h"
#include "h_alloc.h"
#include <string.h>
#ifdef BUFFER
static byte shared[4];
void harness(void) {
	fiftyoneDegreesData d;
	uint32_t size = 0;
	int step;
	byte *last = NULL;
	fiftyoneDegreesDataReset(&d);
	VERIF_ASSERT(d.ptr == NULL && d.allocated == 0 && d.used == 0, "reset is empty");
	if (VERIF_SPLIT(verif_bool())) { d.ptr = shared; VERIF_WITNESS("refers to memory it does not own"); }
	allocMayFail(1);
	for (step = 0; step < STEPS; step++) {
		size_t n = (size_t)VERIF_SPLIT(verif_range(0, 4));
		int before = allocFailed;
		byte *p;
		n += n == 4 ? 96 : 0;
		p = fiftyoneDegreesDataMalloc(&d, n);
		VERIF_ASSERT(p == d.ptr, "the memory of the buffer");
		if (allocFailed > before) {
			VERIF_ASSERT(p == NULL && d.allocated == 0, "empty when out of memory");
			VERIF_ASSERT(verif_live_heap() == 0, "nothing held");
			VERIF_WITNESS_IF(step > 1, "out of memory");
			size = 0;
		}
		else {
			VERIF_ASSERT(p != NULL && VERIF_READABLE(p, n), "at least the bytes asked for");
			VERIF_ASSERT(d.allocated > 0 && d.allocated >= n && VERIF_READABLE(p, d.allocated), "the size it has");
			if (size >= n && size > 0) {
				VERIF_ASSERT(p == last && d.allocated == size, "kept when large enough");
				VERIF_WITNESS_IF(n > 0 && step > 1, "kept");
			}
			memset(p, step, n);
			size = d.allocated;
		}
		last = p;
	}
	if (d.allocated > 0) fiftyoneDegreesFree(d.ptr);
}
#elif defined(SIZES)
/* Memory of any size, which is not used */
static size_t asked[4]; static int n, frees; static byte blocks[4];
static void *any(size_t size) { VERIF_ASSERT(n < 4, "one for each request"); asked[n] = size; return &blocks[n++]; }
static void freed(void *p) { VERIF_ASSERT(n > 0 && p == &blocks[n - 1] && frees == n - 1, "the one held is freed once"); frees++; }
void harness(void) {
	fiftyoneDegreesData d;
	size_t a = verif_u64(), b = verif_u64();
	fiftyoneDegreesMalloc = any;
	fiftyoneDegreesFree = freed;
	fiftyoneDegreesDataReset(&d);
	VERIF_ASSERT(fiftyoneDegreesDataMalloc(&d, a) == &blocks[0] && n == 1 && asked[0] >= a, "at least the bytes asked for");
	VERIF_ASSERT(d.allocated > 0 && d.allocated <= asked[0], "known to be held");
	fiftyoneDegreesDataMalloc(&d, b);
	VERIF_ASSERT(d.ptr == &blocks[n - 1] && asked[n - 1] >= b && d.allocated <= asked[n - 1], "at least the bytes asked for again");
	VERIF_ASSERT(frees == n - 1, "only one is held");
	VERIF_WITNESS_IF(n == 1 && a > b && b > 7, "kept");
	VERIF_WITNESS_IF(n == 2 && b > UINT32_MAX, "more than 4 GB");
}
#else
void harness(void) {
	fiftyoneDegreesMemoryReader r;
	size_t n = (size_t)VERIF_SPLIT(verif_range(0, 4)) * 10, at = 0;
	byte *block = malloc(n + 1);
	int i;
	r.startByte = r.current = block;
	r.lastByte = block + n;
	r.length = (long)n;
	if (VERIF_SPLIT(verif_bool())) {
		VERIF_ASSERT(!fiftyoneDegreesMemoryAdvance(NULL, verif_u64()), "no reader");
		r.current = NULL;
		VERIF_ASSERT(!fiftyoneDegreesMemoryAdvance(&r, verif_u64()) && r.current == NULL, "no memory");
		return;
	}
	for (i = 0; i < 3; i++) {
		size_t by = verif_u64();
		_Bool ok = fiftyoneDegreesMemoryAdvance(&r, by);
		VERIF_ASSERT(ok == (by <= n - at), "tells when it would pass the end");
		at = ok ? at + by : at;
		VERIF_ASSERT(r.current == block + at, "moved by exactly that or not at all");
		VERIF_WITNESS_IF(i == 2 && at == n && n > 0 && by > 1, "to the end");
		VERIF_WITNESS_IF(!ok && by > (size_t)-50, "wrap");
	}
	VERIF_ASSERT(r.startByte == block && r.lastByte == block + n, "the block is as given");
	free(block);
}
#endif
