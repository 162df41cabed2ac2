/* Real yamlfile.c over an in-memory file: any content at all (harness), and
 * every well formed file within bounds (harness_form). */
#include "verif.h"
#include "vfs.h"
#include "yamlfile.h"
#include "fiftyone.h"
#include <stdlib.h>

#ifndef SIZE
#define SIZE 6
#endif
#ifndef BUFFER
#define BUFFER 3
#endif
#ifndef PAIRS
#define PAIRS 2
#endif
#ifndef DOCS
#define DOCS 2
#endif
#ifndef FROM
#define FROM 0
#endif
#ifndef PART
#define PART 2
#endif
#ifndef KEYPART
#define KEYPART PART
#endif
#ifndef SPACE
#define SPACE 3
#endif
#define MAXSIZE 64
static unsigned char content[MAXSIZE];
static int size;
static fiftyoneDegreesKeyValuePair *pairs;
static int collection, marker;

static void makePairs(int keySpace, int valueSpace) {
	int i;
	/* exact blocks: nothing outside them may be touched */
	pairs = (fiftyoneDegreesKeyValuePair*)malloc(sizeof(*pairs) * collection);
	for (i = 0; i < collection; i++) {
		pairs[i].key = (char*)malloc(keySpace);
		pairs[i].keyLength = keySpace;
		pairs[i].value = (char*)malloc(valueSpace);
		pairs[i].valueLength = valueSpace;
		pairs[i].key[0] = pairs[i].value[0] = '\0';
	}
}
static void freePairs(void) {
	int i;
	for (i = 0; i < collection; i++) { free(pairs[i].key); free(pairs[i].value); }
	free(pairs);
}

/* Any content: callbacks */
static int calls;
static void anyCallback(fiftyoneDegreesKeyValuePair *p, uint16_t count, void *state) {
	int i;
	size_t k;
	VERIF_ASSERT(p == pairs && state == &marker, "the pairs and state given are passed to the callback");
	VERIF_ASSERT(count > 0 && count <= collection, "a document has at least one pair and no more than the collection");
	for (i = 0; i < count; i++) {
		VERIF_ASSERT(p[i].keyLength > 0 && p[i].valueLength > 0, "lengths of the space are kept");
		for (k = 0; k < p[i].keyLength && p[i].key[k] != '\0'; k++);
		VERIF_ASSERT(k < p[i].keyLength, "the key is terminated within its space");
		for (k = 0; k < p[i].valueLength && p[i].value[k] != '\0'; k++);
		VERIF_ASSERT(k < p[i].valueLength, "the value is terminated within its space");
	}
	calls++;
}

void harness(void) {
	int i, length, limit;
	char *buffer;
	fiftyoneDegreesStatusCode status;
	size = (int)VERIF_SPLIT(verif_range(0, SIZE));
	for (i = 0; i < size; i++) {
#ifdef HEADER
		content[i] = i < 4 ? "---\n"[i] : verif_u8();
#else
		content[i] = verif_u8();
#endif
#ifdef ALPHABET
		VERIF_ASSUME(content[i] == '-' || content[i] == '.' || content[i] == ':' || content[i] == '\'' 
			|| content[i] == '\n' || content[i] == ' ' || content[i] == 'a');
#endif
	}
	length = (int)VERIF_SPLIT(verif_range(1, BUFFER));
	limit = (int)verif_range(0, 3) - 1;
	collection = (int)VERIF_SPLIT(verif_range(1, PAIRS));
	buffer = (char*)malloc(length);
	makePairs((int)VERIF_SPLIT(verif_range(1, 2)), (int)VERIF_SPLIT(verif_range(1, 2)));
	vfs_add("file", content, size);
#ifdef FAULT
	vfs_faults = 1;
#endif
	status = fiftyoneDegreesYamlFileIterateWithLimit("file", buffer, length, pairs, (uint16_t)collection, limit, &marker, anyCallback);
	if ((vfs_faulted & (VFS_OPEN | VFS_READ)) == 0) {
		VERIF_ASSERT(status == SUCCESS, "a file which can be read succeeds");
	}
	else {
		VERIF_ASSERT(status != SUCCESS, "a file which can't be read fails");
	}
	VERIF_ASSERT(limit < 0 || calls <= limit, "no more documents than the limit");
	VERIF_ASSERT(vfs_handles == 0, "the file is closed");
	freePairs();
	free(buffer);
	VERIF_WITNESS("the iteration ended");
	VERIF_WITNESS_IF(calls > 0, "a document is delivered");
}

/* Well formed content: what is expected of it */
typedef struct { unsigned char key[PART + 1], value[PART + 1]; int keyLength, valueLength, quoted; } expectedPair;
static expectedPair expected[DOCS][PAIRS + 1];
static int counts[DOCS], docs, document, keySpace, valueSpace;

static void formCallback(fiftyoneDegreesKeyValuePair *p, uint16_t count, void *state) {
	int i, k, length, wanted;
	VERIF_ASSERT(p == pairs && state == &marker, "the pairs and state given are passed to the callback");
	/* After a failed read: only complete documents, of those in the file */
	while (document < docs && counts[document] == 0) document++; /* documents without pairs are not delivered */
	VERIF_ASSERT(document < docs, "no document is delivered which isn't in the file");
	wanted = counts[document] < collection ? counts[document] : collection;
	VERIF_ASSERT(count == wanted, "every pair of the document that there is space for is delivered");
	for (i = 0; i < count; i++) {
		expectedPair *e = &expected[document][i];
		length = e->keyLength < keySpace - 1 ? e->keyLength : keySpace - 1;
		for (k = 0; k < length; k++) VERIF_ASSERT(p[i].key[k] == (char)e->key[k], "the pair has the key in the file");
		VERIF_ASSERT(p[i].key[length] == '\0', "the key ends where it does in the file");
		length = e->valueLength < valueSpace - 1 ? e->valueLength : valueSpace - 1;
		for (k = 0; k < length; k++) VERIF_ASSERT(p[i].value[k] == (char)e->value[k], "the pair has the value in the file");
		VERIF_ASSERT(p[i].value[length] == '\0', "the value ends where it does in the file");
	}
	document++;
	calls++;
}
static void put(unsigned char c) { content[size++] = c; }
static void lineEnd(int windows) { if (windows) put('\r'); put('\n'); }

void harness_form(void) {
	int d, i, k, length, limit, windows, total = 0, wanted, header, ended;
	char *buffer;
	fiftyoneDegreesStatusCode status;
	docs = (int)VERIF_SPLIT(verif_range(FROM, DOCS));
	windows = (int)VERIF_SPLIT(verif_bool());
	header = (int)VERIF_SPLIT(verif_bool());
	ended = (int)VERIF_SPLIT(verif_range(0, 2));
#ifdef SPACES
	keySpace = (int)VERIF_SPLIT(verif_range(1, SPACE));
	valueSpace = (int)VERIF_SPLIT(verif_range(1, SPACE));
#else
	keySpace = valueSpace = SPACE;
#endif
	for (d = 0; d < docs; d++) {
		if (d > 0 || header) { put('-'); put('-'); put('-'); lineEnd(windows); }
		counts[d] = (int)VERIF_SPLIT(verif_range(0, PAIRS));
		for (i = 0; i < counts[d]; i++) {
			expectedPair *e = &expected[d][i];
			e->keyLength = (int)VERIF_SPLIT(verif_range(1, KEYPART));
			for (k = 0; k < e->keyLength; k++) {
				e->key[k] = verif_u8();
				VERIF_ASSUME(e->key[k] != ':' && e->key[k] != '\n' && e->key[k] != '\r' && e->key[k] != 0);
				VERIF_ASSUME(k > 0 || (e->key[k] != '-' && e->key[k] != '.'));
				put(e->key[k]);
			}
			put(':');
			put(' ');
			e->quoted = (int)VERIF_SPLIT(verif_bool());
			e->valueLength = (int)VERIF_SPLIT(verif_range(0, PART));
			if (e->quoted) {
				VERIF_ASSUME(e->valueLength + 1 < valueSpace);
				put('\'');
			}
			for (k = 0; k < e->valueLength; k++) {
				e->value[k] = verif_u8();
				VERIF_ASSUME(e->value[k] != '\n' && e->value[k] != '\r' && e->value[k] != 0);
				VERIF_ASSUME(k > 0 || e->quoted || e->value[k] != '\'');
				put(e->value[k]);
			}
			if (e->quoted) put('\'');
			/* the last line end may be missing */
			if (d < docs - 1 || i < counts[d] - 1 || ended > 0) lineEnd(windows);
		}
		if (counts[d] > 0) total++;
	}
	if (ended == 2) {
		put('.'); put('.'); put('.'); lineEnd(windows);
		put('x'); put(':'); put(' '); put('y'); put('\n'); /* not a part of the documents */
	}
#ifdef LENGTH
	length = LENGTH;
#else
	length = (int)VERIF_SPLIT(verif_range(1, BUFFER));
#endif
	limit = (int)verif_range(0, 3) - 1;
	collection = (int)VERIF_SPLIT(verif_range(1, PAIRS));
	buffer = (char*)malloc(length);
	makePairs(keySpace, valueSpace);
	vfs_add("file", content, size);
#ifdef FAULT
	vfs_faults = 1;
#endif
#ifdef WITHOUT
	limit = -1;
	status = fiftyoneDegreesYamlFileIterate("file", buffer, length, pairs, (uint16_t)collection, &marker, formCallback);
#else
	status = fiftyoneDegreesYamlFileIterateWithLimit("file", buffer, length, pairs, (uint16_t)collection, limit, &marker, formCallback);
#endif
	if ((vfs_faulted & (VFS_OPEN | VFS_READ)) == 0) {
		VERIF_ASSERT(status == SUCCESS, "a well formed file succeeds");
		wanted = limit >= 0 && limit < total ? limit : total;
		VERIF_ASSERT(calls == wanted, "every document up to the limit is delivered");
	}
	else {
		VERIF_ASSERT(status != SUCCESS, "a file which can't be read fails");
	}
	VERIF_ASSERT(vfs_handles == 0, "the file is closed");
	freePairs();
	free(buffer);
	VERIF_WITNESS("the iteration ended");
}

void harness_missing(void) {
	char buffer[2];
	collection = 1;
	makePairs(2, 2);
	VERIF_ASSERT(fiftyoneDegreesYamlFileIterate("other", buffer, 2, pairs, 1, &marker, formCallback) == FILE_NOT_FOUND, "a missing file is not found");
	VERIF_ASSERT(calls == 0 && vfs_handles == 0, "nothing is delivered or left open");
	freePairs();
	VERIF_WITNESS("the iteration ended");
}
