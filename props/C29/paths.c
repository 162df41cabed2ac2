/* Real file.c path helpers: every path and destination length within bounds. */
#include "verif.h"
#include "vfs.h"
#include "file.h"
#include "fiftyone.h"
#include <stdlib.h>
#ifndef PATH
#define PATH 5
#endif
static char path[PATH + 1];
static int length;
static void makePath(void) {
	int i;
	char *p;
	length = (int)VERIF_SPLIT(verif_range(0, PATH));
	for (i = 0; i < length; i++) {
		path[i] = (char)verif_u8();
		VERIF_ASSUME(path[i] != 0);
	}
}
static int nameAt(const char *p, int l) {
	int i, r = 0;
	for (i = 0; i < l; i++) if (p[i] == '/' || p[i] == '\\') r = i + 1;
	return r;
}
void harness_name(void) {
	char *exact;
	const char *r;
	int i;
	makePath();
	exact = (char*)malloc(length + 1);
	for (i = 0; i <= length; i++) exact[i] = path[i];
	r = fiftyoneDegreesFileGetFileName(exact);
	VERIF_ASSERT(r == exact + nameAt(path, length), "the file name is what follows the last folder");
	free(exact);
	VERIF_WITNESS("name");
}
/* process id 7, 20 characters: what follows the base name */
#define EXTRA (1 + 1 + 1 + TEMP_UNIQUE_STRING_LENGTH)
void harness_temp(void) {
	char *dest, *master;
	int i, at, dot = -1, base, space, start, fits, total;
	fiftyoneDegreesStatusCode status;
	makePath();
	at = nameAt(path, length);
	for (i = at; i < length; i++) if (path[i] == '.') dot = i;
	base = (dot < 0 ? length : dot) - at;
	/* there may be files with the names generated, in any case of a longer one */
	space = (int)VERIF_SPLIT(verif_range(0, 1) ? verif_range(0, 2) : verif_range(EXTRA, EXTRA + PATH + 1));
	start = (int)VERIF_SPLIT(verif_range(0, 1)) * 2;
	dest = (char*)malloc(start + space + (start + space == 0));
	for (i = 0; i < start + space; i++) dest[i] = 'd';
	if (start) dest[1] = '/';
	master = (char*)malloc(length + 1);
	for (i = 0; i <= length; i++) master[i] = path[i];
	status = fiftyoneDegreesFileAddTempFileName(master, dest, start, space);
	base = (int)VERIF_SPLIT(base);
	at = (int)VERIF_SPLIT(at);
	total = base + EXTRA;
	fits = total < space;
	VERIF_ASSERT(status == (fits ? SUCCESS : INSUFFICIENT_MEMORY), "a name is given exactly when there is space for it");
	if (start) VERIF_ASSERT(dest[0] == 'd' && dest[1] == '/', "what is before the name is kept");
	if (fits) {
		for (i = 0; i < base; i++) VERIF_ASSERT(dest[start + i] == path[at + i], "the name starts with the base name of the master file");
		VERIF_ASSERT(dest[start + base] == '-' && dest[start + base + 1] == '7' && dest[start + base + 2] == '-', "followed by the process");
		for (i = base + 3; i < total; i++) VERIF_ASSERT(dest[start + i] >= 'A' && dest[start + i] <= 'Z', "and the random characters");
		VERIF_ASSERT(dest[start + total] == 0, "the name ends there");
	}
	else {
		for (i = 0; i < space; i++) VERIF_ASSERT(dest[start + i] == 0, "no part of a name is left when there isn't space for it");
	}
	VERIF_ASSERT(vfs_handles == 0 && vfs_count == 0, "no file is opened or created");
	free(dest);
	free(master);
	VERIF_WITNESS_IF(fits, "a name is given");
	VERIF_WITNESS_IF(!fits, "there isn't space for the name");
}
/* The names of existing files are not given again */
void harness_fresh(void) {
	static unsigned char one[1];
	char dest[40];
	int exists = (int)VERIF_SPLIT(verif_range(0, 3));
	if (exists & 1) vfs_add("E-7-AAAAAAAAAAAAAAAAAAAA", one, 1);
	if (exists & 2) vfs_add("E-7-BBBBBBBBBBBBBBBBBBBB", one, 1);
	VERIF_ASSERT(fiftyoneDegreesFileAddTempFileName("m/E.dat", dest, 0, sizeof(dest)) == SUCCESS, "a name is given");
	VERIF_ASSERT(vfs_find(dest) == NULL, "the name isn't that of a file");
	VERIF_ASSERT(vfs_handles == 0, "no file stays open");
	VERIF_WITNESS("a fresh name");
}
static const char *folders[] = { "/", "/a", "/a/b", "/a/bb/c" };
static void join(char *d, const char *dir, int l, const char *rest) {
	int i;
	for (i = 0; i < l; i++) d[i] = dir[i];
	strcpy(d + l, rest);
}
void harness_get(void) {
	static unsigned char one[1];
	char expected[64], candidate[64], *dest;
	int i, l, found = 0, size, want;
	fiftyoneDegreesStatusCode status;
	const char *cwd = folders[VERIF_SPLIT(verif_range(0, 3))];
	vfs_cwd = cwd;
	l = (int)strlen(cwd);
	/* the folders from the working directory to the root */
	for (i = l; i >= 0; i--) {
		if (i != l && cwd[i] != '/') continue;
		if (l == 1 && i == l) continue; /* the root is its own parent */
		join(candidate, cwd, i, "/f/x.dat");
		if (VERIF_SPLIT(verif_bool())) {
			vfs_add(candidate, one, 1);
			if (!found) strcpy(expected, candidate);
			found = 1;
		}
	}
	size = (int)VERIF_SPLIT(verif_range(0, 20));
	dest = (char*)malloc(size + (size == 0));
	status = fiftyoneDegreesFileGetPath("f", "x.dat", dest, size);
	if (!found) VERIF_ASSERT(status == FILE_NOT_FOUND, "a file which isn't in any of the folders is not found");
	else {
		want = (int)strlen(expected);
		if (status == SUCCESS) {
			VERIF_ASSERT((int)strlen(dest) < size, "the path fits");
			/* the root may be given with another slash */
			VERIF_ASSERT(strcmp(dest[0] == '/' && dest[1] == '/' ? dest + 1 : dest, expected) == 0, "the path is of the file in the nearest folder");
		}
		else {
			VERIF_ASSERT(status == INSUFFICIENT_MEMORY && want + (l == 1) >= size, "a file is found unless there isn't space for its path");
		}
	}
	VERIF_ASSERT(vfs_handles == 0, "no file stays open");
	free(dest);
	VERIF_WITNESS_IF(found && status == SUCCESS, "found");
	VERIF_WITNESS_IF(!found, "not found");
	VERIF_WITNESS_IF(found && status != SUCCESS, "no space");
}
