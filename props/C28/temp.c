/* Real file.c temporary files over an in-memory file system: any of the
 * directories, names, contents, uses and faults within bounds. */
#include "verif.h"
#include "vfs.h"
#include "file.h"
#include "fiftyone.h"
#include <stdlib.h>
#ifndef FILES
#define FILES 2
#endif
#ifndef SIZE
#define SIZE 2
#endif
#ifndef SPACES
#define SPACES 0
#endif
#ifndef MASTERS
#define MASTERS 3
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#ifdef LARGE
#define MAX LARGE
#else
#define MAX (SIZE + 1)
#endif
static unsigned char master[MAX], contents[FILES][MAX];
static int masterSize, sizes[FILES], used[FILES];
static vfs_node *masterNode, *files[FILES];
static const char *names[] = { "E-1", "F-1", "E.dat", "E-2.dat" };
static const char *directories[] = { "a", "b", "" };
static const char *pathForms[] = { "a", "b/", "./b", "c", "a/", "" };
static int pathDirs[] = { 0, 1, 1, -1, 0, 2 };
static int fileDirs[FILES], fileNames[FILES];
static const char *paths[3];
static int dirs[3], nPaths, nFiles, bytes, master1, inProc;
static const char *masterPath;

static void fill(unsigned char *d, int n) {
	int i;
	for (i = 0; i < n; i++) d[i] = verif_u8();
#ifdef LARGE
	/* around the size of blocks */
	for (; i < LARGE; i++) d[i] = 1;
	d[LARGE - 1] = verif_u8();
#endif
}
static void makeMaster(void) {
	static const char *masters[] = { "m/E.dat", "a/E.dat", "x.y/E.dat" };
	vfs_dir("a"); vfs_dir("b"); vfs_dir("m"); vfs_dir("x.y");
	master1 = (int)VERIF_SPLIT(verif_range(0, MASTERS - 1));
	masterPath = masters[master1];
	masterSize = (int)VERIF_SPLIT(verif_range(0, SIZE));
	fill(master, masterSize);
#ifdef LARGE
	masterSize = LARGE;
#endif
	masterNode = vfs_add(masterPath, master, masterSize);
}

static void makeFiles(void) {
	int i, j;
	char name[VFS_NAME];
	static char links[FILES][40];
	inProc = (int)VERIF_SPLIT(verif_bool());
#ifdef IN_USE
	inProc = 1;
#endif
	if (inProc) { vfs_dir("/proc"); vfs_dir("/proc/1"); vfs_dir("/proc/1/fd"); vfs_dir("/proc/2"); }
#ifdef LARGE
	nFiles = FILES;
#else
	nFiles = (int)VERIF_SPLIT(verif_range(0, FILES));
#endif
	for (i = 0; i < nFiles; i++) {
		fileDirs[i] = (int)VERIF_SPLIT(verif_range(0, DIRS - 1));
		fileNames[i] = (int)VERIF_SPLIT(verif_range(0, 3));
		if (master1 == 1) VERIF_ASSUME(fileDirs[i] != 0 || fileNames[i] != 2);
		for (j = 0; j < i; j++) VERIF_ASSUME(fileDirs[i] != fileDirs[j] || fileNames[i] != fileNames[j]);
		strcpy(name, directories[fileDirs[i]]);
		if (name[0]) strcat(name, "/");
		strcat(name, names[fileNames[i]]);
		sizes[i] = (int)VERIF_SPLIT(verif_range(0, SIZE));
		fill(contents[i], sizes[i]);
#ifdef LARGE
		sizes[i] = LARGE;
#endif
		files[i] = vfs_add(name, contents[i], sizes[i]);
#ifdef IN_USE
		used[i] = (int)VERIF_SPLIT(verif_bool());
		if (used[i]) {
			/* the link of a process to the file it has open */
			strcpy(links[i], "/cwd/");
			strcat(links[i], name);
			strcpy(name, "/proc/1/fd/3");
			name[11] = (char)('3' + i);
			vfs_add(name, (unsigned char*)links[i], (long)strlen(links[i]));
		}
#endif
	}
}
static void makePaths(int max, int forms) {
	int i, f;
	nPaths = (int)VERIF_SPLIT(verif_range(0, max));
	for (i = 0; i < nPaths; i++) {
		f = (int)VERIF_SPLIT(verif_range(0, forms - 1));
		paths[i] = pathForms[f];
		dirs[i] = pathDirs[f];
	}
}
#ifndef PATHS
#define PATHS 1
#endif
/* The content is equal as far as asked for */
static int equal(int i) {
	int k, r = sizes[i] == masterSize, n = masterSize;
	if (bytes >= 0 && bytes < n) n = bytes;
	if (!r) return 0;
	for (k = 0; k < n; k++) r &= contents[i][k] == master[k];
	return r;
}
static int isCopy(int i) {
	return fileNames[i] != 1 && fileNames[i] != 2 && equal(i);
}
static int searched(int d) {
	int i;
	if (nPaths == 0) return d == 2;
	for (i = 0; i < nPaths; i++) if (dirs[i] == d) return 1;
	return 0;
}
static void kept(void) {
	int i;
	VERIF_ASSERT(masterNode->exists && masterNode->writes == 0 && masterNode->size == masterSize, "the master file is kept as it is");
	for (i = 0; i < nFiles; i++) VERIF_ASSERT(files[i]->writes == 0 && files[i]->size == sizes[i], "files that exist are not written to");
	VERIF_ASSERT(vfs_handles == 0, "nothing stays open");
}

void harness_existing(void) {
	char *dest;
	int i, p, any = 0, earliest = -1, at = -1;
	bool found;
	makeMaster();
	makeFiles();
	makePaths(PATHS, FORMS);
#ifdef LARGE
	bytes = (int)VERIF_SPLIT(verif_range(0, 3));
	bytes = bytes == 0 ? -1 : bytes == 1 ? LARGE - 1 : bytes == 2 ? LARGE : LARGE + 10;
#else
	bytes = (int)VERIF_SPLIT(verif_range(0, SIZE + 2)) - 1;
#endif
	vfs_faults = FAULTS;
	dest = (char*)malloc(FIFTYONE_DEGREES_FILE_MAX_PATH);
	found = fiftyoneDegreesFileGetExistingTempFile(masterPath, nPaths == 0 ? NULL : paths, nPaths, bytes, dest);
	/* the first path with a copy */
	for (p = 0; p < (nPaths == 0 ? 1 : nPaths); p++) {
		int here = 0;
		for (i = 0; i < nFiles; i++) here |= fileDirs[i] == (nPaths == 0 ? 2 : dirs[p]) && isCopy(i);
		if (here && earliest < 0) earliest = nPaths == 0 ? 2 : dirs[p];
	}
	if (found) {
		vfs_node *n = vfs_find(dest);
		for (i = 0; i < nFiles; i++) if (n == files[i]) at = i;
		VERIF_ASSERT(at >= 0, "the file found is one of those there");
		VERIF_ASSERT(isCopy(at), "the file found is a copy of the master file with another name");
		VERIF_ASSERT(searched(fileDirs[at]), "the file found is in one of the paths");
		if (vfs_faulted == 0) VERIF_ASSERT(fileDirs[at] == earliest, "the file found is in the first of the paths with one");
	}
	else if (vfs_faulted == 0) {
		VERIF_ASSERT(earliest < 0, "a copy in one of the paths is found");
	}
	VERIF_ASSERT(vfs_removes == 0, "nothing is deleted");
	kept();
	free(dest);
	VERIF_WITNESS_IF(found, "found");
	VERIF_WITNESS_IF(!found, "not found");
}

void harness_delete(void) {
	int i, deleted, gone = 0, wanted;
	makeMaster();
	makeFiles();
	makePaths(PATHS, FORMS);
#ifdef LARGE
	bytes = (int)VERIF_SPLIT(verif_range(0, 3));
	bytes = bytes == 0 ? -1 : bytes == 1 ? LARGE - 1 : bytes == 2 ? LARGE : LARGE + 10;
#else
	bytes = (int)VERIF_SPLIT(verif_range(0, SIZE + 2)) - 1;
#endif
	vfs_faults = FAULTS;
	deleted = fiftyoneDegreesFileDeleteUnusedTempFiles(masterPath, nPaths == 0 ? NULL : paths, nPaths, bytes);
	for (i = 0; i < nFiles; i++) {
		wanted = searched(fileDirs[i]) && isCopy(i) && !used[i] && inProc;
		if (!files[i]->exists) {
			gone++;
			VERIF_ASSERT(searched(fileDirs[i]), "only files in the paths are deleted");
			VERIF_ASSERT(isCopy(i), "only copies of the master file with another name are deleted");
			/* unless what a process uses can't be told */
			if ((vfs_faulted & VFS_OPENDIR) == 0) VERIF_ASSERT(!used[i], "files in use are not deleted");
			VERIF_ASSERT(inProc, "nothing is deleted when it can't be told what is in use");
		}
		else if (vfs_faulted == 0) {
			VERIF_ASSERT(!wanted, "every unused copy in the paths is deleted");
		}
	}
	VERIF_ASSERT(vfs_removes == gone && deleted == gone, "nothing else is deleted and those deleted are counted");
	kept();
	VERIF_WITNESS_IF(gone > 0, "deleted");
	VERIF_WITNESS_IF(gone == 0, "nothing deleted");
}

/* Every one of many is counted */
#ifdef MANY
static unsigned char one[1];
void harness_many(void) {
	int i, deleted, left = 0;
	char name[16];
	vfs_dir("/proc");
	vfs_dir("a");
	one[0] = verif_u8();
	vfs_add("E.dat", one, 1);
	paths[0] = "a";
	for (i = 0; i < MANY; i++) {
		strcpy(name, "a/E-000");
		name[4] = (char)('0' + i / 100); name[5] = (char)('0' + i / 10 % 10); name[6] = (char)('0' + i % 10);
		vfs_add(name, one, 1);
	}
	deleted = fiftyoneDegreesFileDeleteUnusedTempFiles("E.dat", paths, 1, -1);
	for (i = 0; i < vfs_count; i++) left += vfs[i].exists && strncmp(vfs[i].name, "a/E", 3) == 0;
	VERIF_ASSERT(left == 0 && deleted == MANY, "every file deleted is counted");
	VERIF_WITNESS("deleted");
}
#endif

/* New temporary files */
static int sameAsMaster(vfs_node *n) {
	int i, r;
	if (n == NULL || n->size != masterSize) return 0;
	for (i = 0, r = 1; i < masterSize; i++) r &= n->data[i] == master[i];
	return r;
}
void harness_new(void) {
	char *dest;
	int i, length, before, created = 0, present = 0, p, works = -1, legacy = 0, space;
	fiftyoneDegreesStatusCode status;
	vfs_node *n, *made = NULL;
	makeMaster();
	if (VERIF_SPLIT(verif_bool())) vfs_find("a")->locked = 1;
	/* names that may be generated are taken */
	if (VERIF_SPLIT(verif_bool())) {
		vfs_add("a/E-7-AAAAAAAAAAAAAAAAAAAA", contents[0], 1);
		vfs_add("b/E-7-BBBBBBBBBBBBBBBBBBBB", contents[1], 1);
		vfs_add("E-7-AAAAAAAAAAAAAAAAAAAA", contents[1], 1);
	}
	if (VERIF_SPLIT(verif_bool())) masterPath = "m/none.dat";
	makePaths(PATHS, FORMS);
	before = vfs_count;
	/* around the length needed: of the name, and the longest path before it */
	length = (int)VERIF_SPLIT(verif_range(0, SPACES));
	length = length == 0 ? 64 : length == 1 ? 0 : 21 + length;
	space = length;
	dest = (char*)malloc(length + (length == 0));
	for (i = 0; i < length; i++) dest[i] = 'd';
	vfs_faults = FAULTS;
#ifdef LEGACY
	legacy = 1;
	space = length = 64;
	free(dest);
	dest = (char*)malloc(FIFTYONE_DEGREES_FILE_MAX_PATH);
	status = fiftyoneDegreesFileCreateTempFile(masterPath, nPaths == 0 ? NULL : paths, nPaths, dest);
#else
	status = fiftyoneDegreesFileNewTempFile(masterPath, nPaths == 0 ? NULL : paths, nPaths, dest, length);
#endif
	for (i = before; i < vfs_count; i++) {
		created++;
		if (vfs[i].exists) { present++; made = &vfs[i]; }
	}
	/* a file that can't be opened isn't known to exist */
	if ((vfs_faulted & VFS_OPEN) == 0)
	for (i = 0; i < before; i++) VERIF_ASSERT(vfs[i].writes == 0 && vfs[i].exists, "files that exist are not written to or deleted");
	/* the first directory that works */
	for (p = 0; p < nPaths; p++)
		if (works < 0 && dirs[p] >= 0 && (dirs[p] == 2 || !vfs_find(directories[dirs[p]])->locked)) works = p;
	if (status == SUCCESS) {
		int slashes = 0;
		n = vfs_find(dest);
		if ((vfs_faulted & VFS_OPEN) == 0) {
			VERIF_ASSERT(n != NULL && n == made, "the file is at the path given back");
			VERIF_ASSERT(present == 1, "only one file is created");
		}
		else VERIF_ASSERT(n != NULL && present <= 1, "the file is at the path given back and is the only one");
		VERIF_ASSERT(sameAsMaster(n), "the file is a copy of the master file");
		if (legacy == 0) {
			const char *base = strrchr(n->name, '/');
			base = base == NULL ? n->name : base + 1;
			VERIF_ASSERT(base[0] == 'E' && base[1] == '-', "the name of the file is derived from the master file");
		}
		VERIF_ASSERT(masterPath[2] == 'E' || masterPath[4] == 'E', "the master file exists");
		if (vfs_faulted == 0 && nPaths > 0 && space == 64) {
			VERIF_ASSERT(works >= 0, "there is a path that can be written to");
			p = (int)strlen(directories[dirs[works]]);
			VERIF_ASSERT(strncmp(n->name, directories[dirs[works]], p) == 0 && strchr(n->name + p + (p > 0), '/') == NULL, "the file is in the first path that works");
		}
		if (nPaths == 0) VERIF_ASSERT(strchr(n->name, '/') == NULL, "the file is in the working directory without paths");
	}
	else {
		VERIF_ASSERT(present == 0 || (vfs_faulted & VFS_REMOVE), "there is no file when it fails");
		if (vfs_faulted == 0 && space == 64) {
			VERIF_ASSERT((nPaths > 0 && works < 0) || vfs_find(masterPath) == NULL, "a file is created where one can be");
		}
		if (legacy == 0) for (i = 0; i < length; i++) VERIF_ASSERT(dest[i] == 0, "no path is given back when it fails");
	}
	VERIF_ASSERT(vfs_handles == 0, "nothing stays open");
	free(dest);
	VERIF_WITNESS_IF(status == SUCCESS, "created");
	VERIF_WITNESS_IF(status != SUCCESS, "failed");
}
