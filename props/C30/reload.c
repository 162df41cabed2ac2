/* Real dataset.c (with file.c, pool.c, resource.c, headers.c, properties.c)
 * under a small engine that follows the documented contract of initialisers. */
#include <stdlib.h>
#include "verif.h"
#include "vfs.h"
#include "dataset.h"
#include "fiftyone.h"
#include "h_alloc.h"
static void* (*realAligned)(int, size_t);
static void* faultyAligned(int alignment, size_t size) {
	if (allocFaults > 0 && verif_bool()) {
		allocFaults--;
		allocFailed++;
		return NULL;
	}
	return realAligned(alignment, size);
}
static void mayFail(int n) {
	if (fiftyoneDegreesMallocAligned != faultyAligned) realAligned = fiftyoneDegreesMallocAligned;
	fiftyoneDegreesMallocAligned = faultyAligned;
	allocMayFail(n);
}
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef RELOADS
#define RELOADS 1
#endif
typedef struct { fiftyoneDegreesDataSetBase b; byte *own; int id; } engine;
static fiftyoneDegreesConfigBase config;
static fiftyoneDegreesResourceManager manager;
static int inits, freed[RELOADS + 2], stage;
static const char *askedName;
static const byte *askedMemory;
static fiftyoneDegreesPropertiesAvailable *expectedExisting;
static const char *dirs[1] = { "t" };
static fiftyoneDegreesCollection strings;
static struct __attribute__((packed)) { int16_t size; char text[4]; } name = { 2, "P" }, header = { 2, "H" };
static int held;
static void release(fiftyoneDegreesCollectionItem *i) {
	VERIF_ASSERT(held > 0 && i->data.ptr != NULL, "only a held item is released");
	held--;
	i->data.ptr = NULL;
}
static fiftyoneDegreesString *property(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	(void)state;
	if (index > 0) return NULL;
	held++;
	item->collection = &strings;
	item->handle = NULL;
	item->data.ptr = (byte*)&name;
	return (fiftyoneDegreesString*)&name;
}
static uint32_t evidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	(void)state; (void)p; (void)e;
	return 0;
}
static long headers(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	(void)state;
	if (index > 0) return -1;
	held++;
	item->collection = &strings;
	item->handle = NULL;
	item->data.ptr = (byte*)&header;
	return 1;
}
static void freeEngine(void *d) {
	engine *e = (engine*)d;
	VERIF_ASSERT(freed[e->id] == 0, "a data set is freed once");
	freed[e->id] = 1;
	fiftyoneDegreesDataSetFree(&e->b);
	if (e->own != NULL) fiftyoneDegreesFree(e->own);
	fiftyoneDegreesFree(e);
}
static void begin(engine *e, const void *c, fiftyoneDegreesPropertiesRequired *p) {
	VERIF_ASSERT(c == &config, "the configuration of the current data set");
	VERIF_ASSERT(p->existing == expectedExisting, "the properties of the current data set");
	fiftyoneDegreesDataSetReset(&e->b);
	e->b.config = c;
	e->own = NULL;
	e->id = inits++;
	stage = 1;
}
static fiftyoneDegreesStatusCode common(engine *e, fiftyoneDegreesPropertiesRequired *p) {
	fiftyoneDegreesStatusCode s;
	e->own = (byte*)fiftyoneDegreesMalloc(8);
	if (e->own == NULL) return INSUFFICIENT_MEMORY;
	stage = 2;
	s = fiftyoneDegreesDataSetInitProperties(&e->b, p, &manager, property, evidence);
	if (s != SUCCESS) return s;
	stage = 3;
	s = fiftyoneDegreesDataSetInitHeaders(&e->b, &manager, headers);
	if (s == SUCCESS) {
		VERIF_ASSERT(e->b.available->count == 1, "the property is available");
		VERIF_ASSERT(e->b.uniqueHeaders->count == 1, "the header is there");
		stage = 4;
	}
	return s;
}
static fiftyoneDegreesStatusCode initFile(void *d, const void *c, fiftyoneDegreesPropertiesRequired *p, const char *file, fiftyoneDegreesException *exception) {
	engine *e = (engine*)d;
	fiftyoneDegreesStatusCode s;
	VERIF_ASSERT(file == askedName, "the file asked for");
	begin(e, c, p);
	s = fiftyoneDegreesDataSetInitFromFile(&e->b, file, -1);
	if (s == SUCCESS) {
		if (config.allInMemory) {
			fiftyoneDegreesMemoryReader r;
			s = fiftyoneDegreesDataSetInitInMemory(&e->b, &r);
		}
		else s = fiftyoneDegreesFilePoolInit(&e->b.filePool, e->b.fileName, 1, exception);
	}
	if (s == SUCCESS) s = common(e, p);
	/* the documented contract: the data set is freed as well */
	if (s != SUCCESS) freeEngine(e);
	return s;
}
static fiftyoneDegreesStatusCode initMemory(void *d, const void *c, fiftyoneDegreesPropertiesRequired *p, void *memory, long size, fiftyoneDegreesException *exception) {
	engine *e = (engine*)d;
	fiftyoneDegreesStatusCode s;
	(void)exception;
	VERIF_ASSERT(memory == askedMemory && size == 2, "the memory asked for");
	VERIF_ASSERT(e->b.memoryToFree == NULL, "the memory belongs to the caller");
	begin(e, c, p);
	e->b.isInMemory = true;
	s = common(e, p);
	/* all but the data set itself */
	if (s != SUCCESS) {
		fiftyoneDegreesDataSetFree(&e->b);
		if (e->own != NULL) fiftyoneDegreesFree(e->own);
		freed[e->id] = 1;
	}
	return s;
}
/* What the data set was made from */
static int contentOf(engine *e) {
	int c = -1;
	byte b;
	EXCEPTION_CREATE;
	if (e->b.memoryToFree != NULL) return *(byte*)e->b.memoryToFree;
	else {
		fiftyoneDegreesFileHandle *h = fiftyoneDegreesFileHandleGet(&e->b.filePool, exception);
		VERIF_ASSERT(h != NULL && EXCEPTION_OKAY, "a handle is free");
		if (vfs_fseek(h->file, 0, SEEK_SET) == 0 && vfs_fread(&b, 1, 1, h->file) == 1) c = b;
		fiftyoneDegreesFileHandleRelease(h);
	}
	return c;
}
static int temps(void) {
	int i, n = 0;
	for (i = 0; i < vfs_count; i++) {
		const char *s = vfs[i].name;
		if (vfs[i].exists && !vfs[i].isDir && strcmp(s, "m/v1.dat") != 0 && strcmp(s, "m/v2.dat") != 0 && strcmp(s, "/cwd/m/v1.dat") != 0 && strcmp(s, "/cwd/m/v2.dat") != 0) n++;
	}
	return n;
}
static unsigned char one[2], two[2];
static void make(void) {
	config.usesUpperPrefixedHeaders = false;
	config.freeData = false;
	config.allInMemory = VERIF_SPLIT(verif_bool());
	config.useTempFile = VERIF_SPLIT(verif_bool());
	config.reuseTempFile = config.useTempFile && VERIF_SPLIT(verif_bool());
	config.tempDirs = dirs;
	config.tempDirCount = (int)VERIF_SPLIT(verif_range(0, 1));
	strings.release = release;
	one[0] = verif_u8(); one[1] = verif_u8(); two[0] = verif_u8(); two[1] = verif_u8();
	vfs_dir("m"); vfs_dir("t");
	vfs_add("m/v1.dat", one, 2);
	vfs_add("m/v2.dat", two, 2);
}
static engine *start(void) {
	engine *e = (engine*)fiftyoneDegreesMalloc(sizeof(engine));
	fiftyoneDegreesPropertiesRequired p = fiftyoneDegreesPropertiesDefault;
	EXCEPTION_CREATE;
	askedName = "m/v1.dat";
	VERIF_ASSERT(initFile(e, &config, &p, askedName, exception) == SUCCESS && EXCEPTION_OKAY, "the first data set");
	fiftyoneDegreesResourceManagerInit(&manager, e, &e->b.handle, freeEngine);
	return e;
}
static void end(void) {
	int i;
	fiftyoneDegreesResourceManagerFree(&manager);
	for (i = 0; i < inits; i++) VERIF_ASSERT(freed[i] == 1, "every data set is freed");
	VERIF_ASSERT(held == 0, "every name is given back");
	VERIF_ASSERT(vfs_handles == 0, "every file is closed");
	VERIF_ASSERT(vfs_find("m/v1.dat") != NULL && vfs_find("m/v2.dat") != NULL, "the master files are kept");
	if ((vfs_faulted & VFS_REMOVE) == 0) VERIF_ASSERT(temps() == 0, "temporary files are deleted");
	VERIF_WITNESS("end");
}
void harness(void) {
	engine *current, *user = NULL, *now;
	int r, content, contentUser = 0, wasTemps, handles, keeps;
	fiftyoneDegreesStatusCode s;
	make();
	current = start();
	content = one[0];
	expectedExisting = current->b.available;
	VERIF_ASSERT(contentOf(current) == content, "the content of the file");
	for (r = 0; r < RELOADS; r++) {
		static const char *const files[] = { "m/v2.dat", "m/v1.dat", "m/none.dat" };
		int f = (int)VERIF_SPLIT(verif_range(0, 2)), failed;
		int live, wanted = f == 0 ? two[0] : one[0], same = strcmp(current->b.masterFileName, files[f]) == 0;
		char used[FIFTYONE_DEGREES_FILE_MAX_PATH];
		EXCEPTION_CREATE;
		keeps = user == NULL && VERIF_SPLIT(verif_bool());
		if (keeps) {
			user = (engine*)fiftyoneDegreesDataSetGet(&manager);
			VERIF_ASSERT(user == current, "users get the current data set");
			contentUser = content;
		}
		wasTemps = temps();
		handles = vfs_handles;
		live = verif_live_heap();
		askedName = files[f];
		stage = 0;
		strcpy(used, current->b.fileName);
#if FAULTS > 0
		if (VERIF_SPLIT(verif_bool())) vfs_faults = FAULTS; else mayFail(FAULTS);
#endif
		s = fiftyoneDegreesDataSetReloadManagerFromFile(&manager, files[f], sizeof(engine), initFile, exception);
		failed = vfs_faulted != 0 || allocFailed != 0;
		vfs_faults = 0;
		allocFaults = 0;
		now = (engine*)manager.active->resource;
		if (s == SUCCESS) {
			VERIF_ASSERT(f != 2, "a missing file is not loaded");
			VERIF_ASSERT(now != current && now->id == inits - 1, "the new data set is current");
			VERIF_ASSERT(strcmp(now->b.masterFileName, files[f]) == 0, "the name of the master file");
			VERIF_ASSERT(contentOf(now) == wanted, "the content of the new file");
			VERIF_ASSERT(now->b.handle == manager.active, "the handle of the data set");
			if (!config.useTempFile) VERIF_ASSERT(strcmp(now->b.fileName, files[f]) == 0, "without temporary files the master file is used");
			else if (!config.reuseTempFile && !failed) VERIF_ASSERT(strcmp(now->b.fileName, used) != 0, "every data set has a temporary file of its own");
			else if (config.reuseTempFile && r == 0 && same && !failed) VERIF_ASSERT(strcmp(now->b.fileName, used) == 0, "the temporary file is used again");
			if (user != current) VERIF_ASSERT(freed[r] == 1 || inits > r + 2, "the data set replaced is freed when not in use");
			current = now;
			content = wanted;
			expectedExisting = current->b.available;
			VERIF_WITNESS_IF(user != NULL, "reloaded while in use");
		}
		else {
			VERIF_ASSERT(failed || f == 2, "there is a reason to fail");
			if (!failed) VERIF_ASSERT(s == FILE_NOT_FOUND, "the file is not found");
			VERIF_ASSERT(now == current && !freed[current->id], "the current data set stays");
			VERIF_ASSERT(vfs_handles == handles, "no file is left open");
			VERIF_ASSERT(verif_live_heap() == live, "no memory is left");
			if ((vfs_faulted & VFS_REMOVE) == 0) VERIF_ASSERT(temps() <= wasTemps, "no temporary file is left");
			VERIF_WITNESS("failed");
		}
		VERIF_ASSERT(contentOf(current) == content, "the current data set works");
		if (user != NULL) {
			VERIF_ASSERT(!freed[user->id] && contentOf(user) == contentUser, "the data set in use works");
			if (VERIF_SPLIT(verif_bool())) {
				fiftyoneDegreesDataSetRelease(&user->b);
				user = NULL;
			}
		}
	}
	if (user != NULL) fiftyoneDegreesDataSetRelease(&user->b);
	end();
}
void harness_memory(void) {
	engine *current, *user = NULL, *now;
	static byte memory[2];
	int live, handles;
	fiftyoneDegreesStatusCode s;
	EXCEPTION_CREATE;
	make();
	current = start();
	expectedExisting = current->b.available;
	if (VERIF_SPLIT(verif_bool())) user = (engine*)fiftyoneDegreesDataSetGet(&manager);
	handles = vfs_handles;
	live = verif_live_heap();
	askedMemory = memory;
	mayFail(FAULTS);
	s = fiftyoneDegreesDataSetReloadManagerFromMemory(&manager, memory, 2, sizeof(engine), initMemory, exception);
	now = (engine*)manager.active->resource;
	if (s == SUCCESS) {
		VERIF_ASSERT(now != current && now->id == 1 && now->b.memoryToFree == NULL, "the new data set is current");
		VERIF_ASSERT(now->b.handle == manager.active, "the handle of the data set");
		VERIF_ASSERT(freed[0] == (user == NULL), "the data set replaced is freed when not in use");
		VERIF_WITNESS("reloaded");
	}
	else {
		VERIF_ASSERT(allocFailed > 0, "there is a reason to fail");
		VERIF_ASSERT(now == current && !freed[0], "the current data set stays");
		VERIF_ASSERT(vfs_handles == handles && verif_live_heap() == live, "nothing is left");
		VERIF_WITNESS("failed");
	}
	allocFaults = 0;
	if (user != NULL) fiftyoneDegreesDataSetRelease(&user->b);
	end();
}
/* Names and evidence that can not be had when the data set is made */
#define NAMES 3
static struct __attribute__((packed)) { int16_t size; char text[4]; } several[NAMES];
static int badName, badEvidence, got[NAMES];
static fiftyoneDegreesString *someProperty(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	(void)state;
	if (index >= NAMES) return NULL;
	/* it could be read when the properties were counted */
	if ((int)index == badName && got[index] > 0) return NULL;
	got[index]++;
	held++;
	item->collection = &strings;
	item->handle = NULL;
	item->data.ptr = (byte*)&several[index];
	return (fiftyoneDegreesString*)&several[index];
}
static uint32_t someEvidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	int i;
	(void)state;
	for (i = 0; i < NAMES; i++) if (p->name.data.ptr == (byte*)&several[i]) break;
	if (e == NULL) return 2;
	VERIF_ASSERT(e->capacity == 2, "room for the evidence counted");
	e->items[0] = 0;
	e->items[1] = 1;
	return i == badEvidence ? 1 : 2;
}
void harness_properties(void) {
	engine *e = (engine*)malloc(sizeof(engine));
	fiftyoneDegreesPropertiesRequired p = fiftyoneDegreesPropertiesDefault;
	fiftyoneDegreesStatusCode s;
	int i, first = (int)VERIF_SPLIT(verif_range(0, NAMES - 1));
	strings.release = release;
	for (i = 0; i < NAMES; i++) {
		several[i].size = 2;
		several[i].text[0] = (char)('A' + (first + (VERIF_SPLIT(i) * 2)) % NAMES);
	}
	badName = (int)VERIF_SPLIT(verif_range(0, NAMES));
	badEvidence = (int)VERIF_SPLIT(verif_range(0, NAMES));
	fiftyoneDegreesDataSetReset(&e->b);
	config.useTempFile = false;
	e->b.config = &config;
	mayFail(1);
	s = fiftyoneDegreesDataSetInitProperties(&e->b, &p, &manager, someProperty, someEvidence);
	if (s == SUCCESS) {
		VERIF_ASSERT(badName == NAMES && badEvidence == NAMES && allocFailed == 0, "every name and all evidence is there");
		VERIF_ASSERT(e->b.available->count == NAMES && held == NAMES, "all properties");
		VERIF_WITNESS("all");
	}
	else {
		VERIF_ASSERT(badName < NAMES || badEvidence < NAMES || allocFailed > 0, "there is a reason to fail");
		if (allocFailed == 0) VERIF_ASSERT(s == COLLECTION_FAILURE, "the data can not be read");
		VERIF_WITNESS_IF(badName == 1 && allocFailed == 0, "no name");
		VERIF_WITNESS_IF(badName == NAMES && badEvidence == NAMES, "no memory");
	}
	allocFaults = 0;
	fiftyoneDegreesDataSetFree(&e->b);
	VERIF_ASSERT(held == 0, "every name is given back");
	free(e);
}
/* Whatever the memory held before */
void harness_reset(void) {
	engine *e = (engine*)malloc(sizeof(engine));
	size_t i;
	byte *m = (byte*)e, v = verif_u8();
	memset(e, v, sizeof(engine));
	fiftyoneDegreesDataSetReset(&e->b);
	VERIF_ASSERT(e->b.available == NULL && e->b.overridable == NULL && e->b.uniqueHeaders == NULL, "no properties or headers");
	VERIF_ASSERT(e->b.memoryToFree == NULL && e->b.isInMemory == false, "nothing in memory");
	VERIF_ASSERT(e->b.handle == NULL && e->b.config == NULL, "no handle or configuration");
	for (i = 0; i < sizeof(e->b.fileName); i++) VERIF_ASSERT(e->b.fileName[i] == 0, "no file");
	for (i = 0; i < sizeof(e->b.masterFileName); i++) VERIF_ASSERT(e->b.masterFileName[i] == 0, "no master file");
	for (i = sizeof(e->b); i < sizeof(engine); i++) VERIF_ASSERT(m[i] == v, "nothing else is written");
	config.useTempFile = false;
	e->b.config = &config;
	/* A reset data set can be freed */
	fiftyoneDegreesDataSetFree(&e->b);
	VERIF_WITNESS("reset");
	free(e);
}
/* The length of the file name */
void harness_name(void) {
	engine *e = (engine*)malloc(sizeof(engine));
	char *file;
	int n = FIFTYONE_DEGREES_FILE_MAX_PATH - 2 + (int)VERIF_SPLIT(verif_range(0, 3)), i;
	if (VERIF_SPLIT(verif_bool())) n += 65536 - (int)VERIF_SPLIT(verif_range(0, 1)) * 4090;
	fiftyoneDegreesStatusCode s;
	file = (char*)malloc(n + 1);
	memset(file, 'x', n);
	file[n] = 0;
	file[0] = (char)verif_u8(); file[n - 1] = (char)verif_u8();
	VERIF_ASSUME(file[0] != 0 && file[n - 1] != 0);
	fiftyoneDegreesDataSetReset(&e->b);
	e->b.config = &config;
	config.useTempFile = false;
	e->id = 0x1234;
	s = fiftyoneDegreesDataSetInitFromFile(&e->b, file, -1);
	if (n < FIFTYONE_DEGREES_FILE_MAX_PATH) {
		VERIF_ASSERT(s == SUCCESS, "a name that fits");
		VERIF_ASSERT(strcmp(e->b.masterFileName, file) == 0 && strcmp(e->b.fileName, file) == 0, "the name is kept unmodified");
		VERIF_WITNESS("fits");
	}
	else {
		VERIF_ASSERT(s == FILE_PATH_TOO_LONG, "a name too long");
		VERIF_WITNESS("too long");
	}
	VERIF_ASSERT(e->b.memoryToFree == NULL && e->b.handle == NULL && e->b.config == &config && e->id == 0x1234, "nothing else is written");
	free(file);
	free(e);
}
#ifdef USERS
/* Users come and go while data sets are reloaded. The memory of freed
 * handles is kept (see C06). */
static void *keptHandles[RELOADS + 2];
static int kept, reloading, reloaded;
static void keepHandle(void *p) {
	VERIF_ASSERT(kept < RELOADS + 2, "handles are freed once");
	keptHandles[kept++] = p;
}
static void visitor(void *arg) {
	int r;
	(void)arg;
	for (r = 0; r < ROUNDS; r++) {
		int before = reloaded;
		engine *e = (engine*)fiftyoneDegreesDataSetGet(&manager);
		VERIF_ASSERT(!freed[e->id], "users get a live data set");
		VERIF_ASSERT(e->id >= before && e->id <= reloading, "users get the data set current at the time");
		VERIF_ASSERT(e->b.available->count == 1 && e->b.uniqueHeaders->count == 1, "users get a complete data set");
		verif_yield();
		VERIF_ASSERT(!freed[e->id] && e->own != NULL, "the data set in use works");
		VERIF_ASSERT(contentOf(e) == (e->id == 0 ? one[0] : two[0]), "the data set in use keeps its data");
		fiftyoneDegreesDataSetRelease(&e->b);
	}
}
static void reloader(void *arg) {
	int r;
	(void)arg;
	for (r = 0; r < RELOADS; r++) {
		EXCEPTION_CREATE;
		expectedExisting = ((engine*)manager.active->resource)->b.available;
		askedName = "m/v2.dat";
		reloading++;
		VERIF_ASSERT(fiftyoneDegreesDataSetReloadManagerFromFile(&manager, askedName, sizeof(engine), initFile, exception) == SUCCESS, "reloads");
		reloaded++;
	}
}
void harness_users(void) {
	int i, live = 0;
#ifdef MEMORY
	config.allInMemory = true;
#else
	config.allInMemory = VERIF_SPLIT(verif_bool());
#endif
	config.useTempFile = false;
	strings.release = release;
	one[0] = 1; two[0] = 2;
	vfs_dir("m");
	vfs_add("m/v1.dat", one, 2);
	vfs_add("m/v2.dat", two, 2);
	fiftyoneDegreesFreeAligned = keepHandle;
	start();
	for (i = 0; i < VISITORS; i++) verif_spawn(visitor, NULL);
	verif_spawn(reloader, NULL);
	verif_join_all();
	for (i = 0; i < inits; i++) live += !freed[i];
	VERIF_ASSERT(live == 1 && !freed[inits - 1], "when idle every data set but the current one has been freed");
	end();
	VERIF_ASSERT(kept == inits + 1, "every handle is freed");
	for (i = 0; i < kept; i++) free(keptHandles[i]);
}
#endif
