/* Allocations through the library's function pointers that may fail. */
#ifndef H_ALLOC_H
#define H_ALLOC_H
#include <stdlib.h>
#include "memory.h"
#include "verif.h"
static int allocFaults, allocFailed;
static void* faultyMalloc(size_t size) {
	if (allocFaults > 0 && verif_bool()) {
		allocFaults--;
		allocFailed++;
		return NULL;
	}
	return malloc(size);
}
static void allocMayFail(int n) {
	allocFaults = n;
	allocFailed = 0;
	fiftyoneDegreesMalloc = faultyMalloc;
}
#endif
