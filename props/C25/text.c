/* Real textfile.c over every file content of up to SIZE bytes, every buffer
 * length and every limit. */
#include "verif.h"
#include "vfs.h"
#include "textfile.h"
#include "fiftyone.h"
#include <stdlib.h>

#ifndef SIZE
#define SIZE 5
#endif
#ifndef BUFFER
#define BUFFER 6
#endif
static unsigned char content[SIZE + 1];
static int size, length, limit;
static int calls, position, wrong;
static char *buffer;
static int marker;

static int isEnd(int i) { return content[i] == '\r' || content[i] == '\n'; }

/* The next line of the file from the position: its start, or -1 */
static int nextLine(int *from, int *count) {
	int i = *from, start;
	while (i < size && isEnd(i)) i++;
	if (i >= size) { *from = i; return -1; }
	start = i;
	while (i < size && !isEnd(i)) i++;
	*count = i - start;
	*from = i;
	return start;
}
static void callback(const char *line, void *state) {
	int i, start, count = 0;
	VERIF_ASSERT(state == &marker, "the state given is passed to the callback");
	VERIF_ASSERT(line >= buffer && line < buffer + length, "the line is held in the buffer");
	calls++;
	/* After a failed read the file has ended as far as can be told */
	if (vfs_faulted & VFS_READ) return;
	start = nextLine(&position, &count);
#ifndef LONG
	VERIF_ASSERT(start >= 0, "no line is delivered which isn't in the file");
	for (i = 0; i < count; i++) {
		VERIF_ASSERT(line[i] == (char)content[start + i], "the line has the text of the next line of the file");
	}
	VERIF_ASSERT(line[count] == '\0', "the line ends where the line of the file does");
#else
	(void)i; (void)start;
	VERIF_READABLE(line, 1);
#endif
}

void harness(void) {
	int i, lines = 0, from = 0, count, longest = 0, expected;
	size = (int)VERIF_SPLIT(verif_range(0, SIZE));
	for (i = 0; i < size; i++) {
		content[i] = verif_u8();
		VERIF_ASSUME(content[i] != 0);
	}
	length = (int)VERIF_SPLIT(verif_range(1, BUFFER));
	limit = (int)verif_range(0, 4) - 1;
	buffer = (char*)malloc(length);
	vfs_add("file", content, size);
#ifdef FAULT
	vfs_faults = 1;
#endif
	while (nextLine(&from, &count) >= 0) {
		lines++;
		if (count > longest) longest = count;
	}
#ifndef LONG
	/* Every line and its line end fit the buffer */
	VERIF_ASSUME(longest + 1 <= length);
#endif
#ifdef WITHOUT
	TextFileIterate("file", buffer, length, &marker, callback);
	limit = -1;
#else
	TextFileIterateWithLimit("file", buffer, length, limit, &marker, callback);
#endif
#ifndef LONG
	expected = limit >= 0 && limit < lines ? limit : lines;
	if ((vfs_faulted & ~VFS_CLOSE) == 0) {
		VERIF_ASSERT(calls == expected, "every line up to the limit is delivered");
	}
	else if ((vfs_faulted & (VFS_OPEN)) != 0) {
		VERIF_ASSERT(calls == 0, "nothing is delivered from a file which can't be opened");
	}
#ifndef FAULT
	VERIF_WITNESS_IF(lines == 2 && size > length, "two lines are read in more than one part");
#endif
#endif
	VERIF_ASSERT(vfs_handles == 0, "the file is closed");
	free(buffer);
	VERIF_WITNESS("the iteration ended");
}

void harness_missing(void) {
	length = 4;
	buffer = (char*)malloc(length);
	TextFileIterateWithLimit("other", buffer, length, -1, &marker, callback);
	VERIF_ASSERT(calls == 0, "no lines are delivered for a missing file");
	VERIF_ASSERT(vfs_handles == 0, "nothing stays open");
	free(buffer);
	VERIF_WITNESS("the iteration ended");
}
