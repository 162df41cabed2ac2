/* Real file.c copy, write, load, size and delete over an in-memory file
 * system in which any call may fail. */
#include "verif.h"
#include "vfs.h"
#include "file.h"
#include "fiftyone.h"
#include "h_alloc.h"
#include <stdlib.h>
#ifndef SIZE
#define SIZE 4
#endif
static unsigned char content[SIZE + 1], old[2], copy[SIZE + 1];
static int size;
static vfs_node *source;
static void make(void) {
	int i;
#ifdef LARGE
	/* around the size of blocks: any of a few bytes */
	size = LARGE + (int)VERIF_SPLIT(verif_range(0, 2)) - 1;
	content[0] = verif_u8();
	content[LARGE - 2] = verif_u8();
	content[LARGE - 1] = verif_u8();
	content[LARGE] = verif_u8();
#else
	size = (int)VERIF_SPLIT(verif_range(0, SIZE));
	for (i = 0; i < size; i++) content[i] = verif_u8();
#endif
	for (i = 0; i < size; i++) copy[i] = content[i];
	source = vfs_add("source", content, size);
}
static void sourceKept(void) {
	int i;
	VERIF_ASSERT(source->exists && source->size == size && source->writes == 0, "the source is kept");
	for (i = 0; i < size; i++) VERIF_ASSERT(content[i] == copy[i], "the source is not changed");
	VERIF_ASSERT(vfs_handles == 0, "all files are closed");
}
static int same(vfs_node *n, const unsigned char *d, int s) {
	int i, r;
	if (n == NULL || n->size != s) return 0;
	for (i = 0, r = 1; i < s; i++) r &= n->data[i] == d[i];
	return r;
}

void harness_copy(void) {
	fiftyoneDegreesStatusCode status;
	int before = (int)VERIF_SPLIT(verif_bool());
	vfs_node *n;
	make();
	old[0] = verif_u8();
	if (before) vfs_add("copy", old, 1);
	vfs_faults = FAULTS;
	status = fiftyoneDegreesFileCopy("source", "copy");
	n = vfs_find("copy");
	if (status == SUCCESS) {
		VERIF_ASSERT(same(n, content, size), "a copy that succeeds has every byte of the source");
	}
	else {
		VERIF_ASSERT(vfs_faulted != 0, "a copy only fails when something did");
		VERIF_ASSERT(n == NULL || (vfs_faulted & VFS_REMOVE) || (before && (vfs_faulted & VFS_OPEN) && n->writes == 0),
			"there is no copy when it fails");
	}
	sourceKept();
	VERIF_WITNESS_IF(status == SUCCESS, "copied");
#if FAULTS > 0
	VERIF_WITNESS_IF(status != SUCCESS, "failed");
#endif
}
void harness_write(void) {
	fiftyoneDegreesStatusCode status;
	unsigned char *data;
	vfs_node *n;
	int i;
	make();
	vfs_faults = FAULTS;
	data = (unsigned char*)malloc(size + (size == 0)); /* nothing beyond it is read */
	for (i = 0; i < size; i++) data[i] = content[i];
	status = fiftyoneDegreesFileWrite("copy", data, size);
	n = vfs_find("copy");
	if (status == SUCCESS) VERIF_ASSERT(same(n, content, size), "a write that succeeds has every byte");
	else VERIF_ASSERT(vfs_faulted != 0, "a write only fails when something did");
	free(data);
	sourceKept();
	VERIF_WITNESS_IF(status == SUCCESS, "written");
#if FAULTS > 0
	VERIF_WITNESS_IF(status != SUCCESS, "failed");
#endif
}
static int frees;
static void countedFree(void *p) { frees++; free(p); }
void harness_load(void) {
	fiftyoneDegreesStatusCode status;
	fiftyoneDegreesMemoryReader reader;
	int i;
	make();
	vfs_faultable = ~0;
	vfs_faults = FAULTS;
	allocMayFail(FAULTS > 0 && vfs_faults > 0 ? 1 : 0);
	fiftyoneDegreesFree = countedFree;
	memset(&reader, 0x55, sizeof(reader));
	status = fiftyoneDegreesFileReadToByteArray("source", &reader);
	if (status == SUCCESS) {
		VERIF_ASSERT(reader.length == size, "the length is the size of the file");
		VERIF_ASSERT(reader.current == reader.startByte && reader.lastByte == reader.startByte + size, "the reader is at the start of the file");
		for (i = 0; i < size; i++) VERIF_ASSERT(reader.startByte[i] == content[i], "every byte of the file is loaded");
		fiftyoneDegreesFree(reader.startByte);
	}
	else {
		VERIF_ASSERT(vfs_faulted != 0 || allocFailed != 0 || size == 0, "loading only fails when something did");
		if ((vfs_faulted & VFS_OPEN) == 0) {
			VERIF_ASSERT(reader.startByte == NULL && reader.current == NULL && reader.length == 0, "nothing is loaded when it fails");
		}
		if (vfs_faulted == 0 && allocFailed) VERIF_ASSERT(status == INSUFFICIENT_MEMORY, "the status is that there isn't enough memory");
		if (vfs_faulted & VFS_OPEN) VERIF_ASSERT(status == FILE_NOT_FOUND, "the status is that the file isn't there");
		if (vfs_faulted != 0 && (vfs_faulted & VFS_OPEN) == 0 && allocFailed == 0) VERIF_ASSERT(status == FILE_FAILURE, "the status is that the file failed");
	}
	sourceKept();
	VERIF_WITNESS_IF(status == SUCCESS, "loaded");
#if FAULTS > 0
	VERIF_WITNESS_IF(status != SUCCESS, "failed");
#endif
}
void harness_other(void) {
	fiftyoneDegreesStatusCode status;
	fiftyoneDegreesMemoryReader reader;
	FILE *f = NULL;
	long l;
	make();
	vfs_faultable = ~0;
	vfs_dir("d");
	vfs_add("locked", old, 0)->locked = 1;
	VERIF_ASSERT(fiftyoneDegreesFileCopy("none", "copy") == FILE_NOT_FOUND && vfs_find("copy") == NULL, "a file which isn't there can't be copied");
	VERIF_ASSERT(fiftyoneDegreesFileCopy("source", "locked") == FILE_WRITE_ERROR, "a file can't be copied where it can't be written");
	VERIF_ASSERT(fiftyoneDegreesFileCopy("source", "e/copy") == FILE_WRITE_ERROR, "a file can't be copied to a directory which isn't there");
	VERIF_ASSERT(fiftyoneDegreesFileReadToByteArray("none", &reader) == FILE_NOT_FOUND, "a file which isn't there can't be loaded");
	VERIF_ASSERT(fiftyoneDegreesFileOpen("none", &f) == FILE_NOT_FOUND, "a file which isn't there can't be opened");
	VERIF_ASSERT(fiftyoneDegreesFileGetSize("none") == -1, "a file which isn't there has no size");
	VERIF_ASSERT(fiftyoneDegreesFileDelete("none") == FILE_NOT_FOUND, "a file which isn't there can't be deleted");
	VERIF_ASSERT(fiftyoneDegreesFileCreateDirectory("d") == FILE_EXISTS_ERROR, "a directory which is there can't be created");
	VERIF_ASSERT(fiftyoneDegreesFileCreateDirectory("n") == SUCCESS && vfs_find("n") != NULL && vfs_find("n")->isDir, "a directory is created");
	sourceKept();
	vfs_faults = 1;
	l = fiftyoneDegreesFileGetSize("source");
	VERIF_ASSERT(l == size || (l == -1 && vfs_faulted != 0), "the size of the file, or -1 if it can't be told");
	sourceKept();
	vfs_faulted = 0;
	status = fiftyoneDegreesFileDelete("source");
	VERIF_ASSERT((status == SUCCESS) == (vfs_find("source") == NULL), "a file is deleted if that succeeds");
	VERIF_ASSERT(status == SUCCESS || vfs_faulted != 0, "deleting only fails when something did");
	VERIF_WITNESS_IF(status == SUCCESS, "deleted");
}
