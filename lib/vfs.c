#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dirent.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <time.h>
vfs_node vfs[VFS_NODES];
int vfs_count, vfs_faults, vfs_faultable = ~VFS_TELL, vfs_faulted, vfs_handles, vfs_removes, vfs_writable = 1;
const char *vfs_cwd = "/cwd";

typedef struct { vfs_node *n; long pos; int write, eof, err; } handle;
#define H(f) ((handle*)(f))
#ifndef VFS_CAP
#define VFS_CAP 64
#endif

int vfs_fault(int op) {
	if (vfs_faults > 0 && (vfs_faultable & op) && verif_bool()) {
		vfs_faults--;
		vfs_faulted |= op;
		return 1;
	}
	return 0;
}
vfs_node* vfs_find(const char *name) {
	int i;
	size_t l = strlen(vfs_cwd);
	while (name[0] == '.' && name[1] == '/') name += 2;
	while (name[0] == '/' && name[1] == '/') name++;
	/* A full path to something in the working directory */
	if (l > 1 && strncmp(name, vfs_cwd, l) == 0 && name[l] == '/' && name[l + 1] != 0) {
		for (i = 0; i < vfs_count; i++)
			if (vfs[i].exists && strcmp(vfs[i].name, name + l + 1) == 0) return &vfs[i];
	}
	for (i = 0; i < vfs_count; i++)
		if (vfs[i].exists && strcmp(vfs[i].name, name) == 0) return &vfs[i];
	return NULL;
}
static vfs_node* make(const char *name) {
	vfs_node *n;
	while (name[0] == '.' && name[1] == '/') name += 2;
	VERIF_ASSERT(vfs_count < VFS_NODES, "model: room for the files created");
	VERIF_ASSERT(strlen(name) < VFS_NAME, "model: room for the file name");
	n = &vfs[vfs_count++];
	strcpy(n->name, name);
	n->exists = 1;
	return n;
}
vfs_node* vfs_add(const char *name, unsigned char *data, long size) {
	vfs_node *n = make(name);
	n->data = data;
	n->size = n->cap = size;
	return n;
}
vfs_node* vfs_dir(const char *name) {
	vfs_node *n = make(name);
	n->isDir = 1;
	return n;
}
FILE* vfs_handle(vfs_node *n) {
	handle *h = (handle*)malloc(sizeof(handle));
	h->n = n;
	h->pos = 0;
	h->write = h->eof = h->err = 0;
	n->opened++;
	vfs_handles++;
	return (FILE*)h;
}
/* The directory a name is in exists (or none is modelled) */
static int inDir(const char *name) {
	char dir[VFS_NAME];
	int i, dirs = 0;
	const char *slash = strrchr(name, '/');
	if (slash == NULL || slash == name) return 1;
	if (slash - name >= VFS_NAME) return 0;
	memcpy(dir, name, slash - name);
	dir[slash - name] = 0;
	for (i = 0; i < vfs_count; i++) dirs += vfs[i].isDir;
	return dirs == 0 || (vfs_find(dir) != NULL && vfs_find(dir)->isDir);
}
static int dirLocked(const char *name) {
	char dir[VFS_NAME];
	const char *slash = strrchr(name, '/');
	vfs_node *d;
	if (slash == NULL || slash == name || slash - name >= VFS_NAME) return 0;
	memcpy(dir, name, slash - name);
	dir[slash - name] = 0;
	d = vfs_find(dir);
	return d != NULL && d->locked;
}
FILE* vfs_fopen(const char *name, const char *mode) {
	vfs_node *n;
	FILE *f;
	if (vfs_fault(VFS_OPEN)) { errno = EACCES; return NULL; }
	n = vfs_find(name);
	if (mode[0] == 'r') {
		if (n == NULL || n->isDir) { errno = ENOENT; return NULL; }
		return vfs_handle(n);
	}
	VERIF_ASSERT(mode[0] == 'w' || mode[0] == 'a', "model: open mode");
	if (n != NULL && (n->isDir || n->locked)) { errno = EACCES; return NULL; }
	if (n == NULL) {
		if (vfs_writable == 0 || inDir(name) == 0 || dirLocked(name)) { errno = EACCES; return NULL; }
		n = make(name);
		n->created = 1;
	}
	if (n->cap < VFS_CAP || n->data == NULL) {
		/* never freed: contents stay readable for the harness */
		static unsigned char store[VFS_NODES][VFS_CAP];
		n->data = store[n - vfs];
		n->cap = VFS_CAP;
	}
	if (mode[0] == 'w') n->size = 0;
	n->writes++;
	f = vfs_handle(n);
	H(f)->write = 1;
	if (mode[0] == 'a') H(f)->pos = n->size;
	return f;
}
int vfs_fclose(FILE *f) {
	int r = 0;
	if (vfs_fault(VFS_CLOSE)) {
		r = EOF;
		/* what was not written yet is lost */
		if (H(f)->write && H(f)->n->size > 0) H(f)->n->size--;
	}
	vfs_handles--;
	H(f)->n->opened--;
	free(f);
	return r;
}
size_t vfs_fread(void *p, size_t size, size_t n, FILE *f) {
	size_t want = size * n, have;
	handle *h = H(f);
	if (want == 0) return 0;
	h->n->reads++;
	have = h->pos < h->n->size ? (size_t)(h->n->size - h->pos) : 0;
	if (want > have) { want = have; h->eof = 1; }
	if (vfs_fault(VFS_READ)) {
		h->err = 1;
		h->eof = 0;
		want = want > 1 && verif_bool() ? want - 1 : 0; /* none or all but the last */
		/* an error is only reported if something is missing */
		if (want == size * n) return n;
	}
	want = (size_t)VERIF_SPLIT(want);
	if (want > 0) {
		memcpy(p, h->n->data + h->pos, want);
		h->pos += (long)want;
	}
	return want / size;
}
size_t vfs_fwrite(const void *p, size_t size, size_t n, FILE *f) {
	size_t want = size * n;
	handle *h = H(f);
	if (want == 0) return 0;
	VERIF_ASSERT(h->write, "model: written file is open for writing");
	if (vfs_fault(VFS_WRITE)) {
		h->err = 1;
		want = want > 1 && verif_bool() ? want - 1 : 0;
	}
	VERIF_ASSERT(h->pos + (long)want <= h->n->cap, "model: room for what is written");
	if (want > 0) {
		memcpy(h->n->data + h->pos, p, want);
		h->pos += (long)want;
		if (h->pos > h->n->size) h->n->size = h->pos;
	}
	return want / size;
}
int vfs_fseek(FILE *f, long o, int whence) {
	handle *h = H(f);
	long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : h->n->size;
	if (vfs_fault(VFS_SEEK)) return -1;
	if (base + o < 0) return -1;
	h->pos = base + o;
	h->eof = 0;
	return 0;
}
long vfs_ftell(FILE *f) {
	if (vfs_fault(VFS_TELL)) return -1;
	return H(f)->pos;
}
void vfs_rewind(FILE *f) { H(f)->pos = 0; H(f)->eof = H(f)->err = 0; }
int vfs_feof(FILE *f) { return H(f)->eof; }
int vfs_ferror(FILE *f) { return H(f)->err; }
void vfs_clearerr(FILE *f) { H(f)->eof = H(f)->err = 0; }
int vfs_fflush(FILE *f) { return 0; }
int vfs_fgetc(FILE *f) {
	unsigned char c;
	return vfs_fread(&c, 1, 1, f) == 1 ? c : EOF;
}
char* vfs_fgets(char *s, int n, FILE *f) {
	int i = 0, c;
	while (i < n - 1) {
		if ((c = vfs_fgetc(f)) == EOF) break;
		s[i++] = (char)c;
		if (c == '\n') break;
	}
	s[i] = 0;
	return i ? s : NULL;
}
int vfs_remove(const char *name) {
	vfs_node *n = vfs_find(name);
	if (vfs_fault(VFS_REMOVE)) return -1;
	if (n == NULL || n->isDir) { errno = ENOENT; return -1; }
	n->exists = 0;
	n->removed++;
	vfs_removes++;
	return 0;
}
int vfs_unlink(const char *name) { return vfs_remove(name); }
int vfs_rename(const char *a, const char *b) {
	vfs_node *n = vfs_find(a), *m = vfs_find(b);
	if (n == NULL) { errno = ENOENT; return -1; }
	if (m != NULL) { m->exists = 0; m->removed++; }
	strcpy(n->name, b);
	return 0;
}
int vfs_mkdir(const char *name, mode_t mode) {
	if (vfs_fault(VFS_MKDIR)) { errno = EACCES; return -1; }
	if (vfs_find(name) != NULL) { errno = EEXIST; return -1; }
	if (inDir(name) == 0) { errno = ENOENT; return -1; }
	vfs_dir(name);
	return 0;
}
mode_t vfs_umask(mode_t m) { static mode_t current = 022; mode_t o = current; current = m; return o; }
int vfs_access(const char *name, int how) { return vfs_find(name) != NULL ? 0 : -1; }

typedef struct { int next; char name[VFS_NAME]; struct dirent e; } directory;
DIR* vfs_opendir(const char *name) {
	directory *d;
	char path[VFS_NAME];
	size_t l = strlen(name);
	vfs_node *n;
	if (l >= VFS_NAME) return NULL;
	strcpy(path, name);
	while (l > 1 && path[l - 1] == '/') path[--l] = 0;
	n = vfs_find(path);
	if (strcmp(path, ".") == 0 || strcmp(path, "./") == 0) path[0] = 0; /* the working directory */
	if (vfs_fault(VFS_OPENDIR)) { errno = EACCES; return NULL; }
	if (l == 0 || (path[0] && (n == NULL || n->isDir == 0))) { errno = ENOENT; return NULL; }
	d = (directory*)malloc(sizeof(directory));
	d->next = 0;
	while (path[0] == '.' && path[1] == '/') memmove(path, path + 2, strlen(path + 2) + 1);
	strcpy(d->name, path);
	vfs_handles++;
	return (DIR*)d;
}
struct dirent* vfs_readdir(DIR *dir) {
	directory *d = (directory*)dir;
	size_t l = strlen(d->name);
	while (d->next < vfs_count) {
		vfs_node *n = &vfs[d->next++];
		if (l == 0) {
			if (n->exists && strchr(n->name, '/') == NULL) {
				d->e.d_type = n->isDir ? DT_DIR : DT_REG;
				strcpy(d->e.d_name, n->name);
				return &d->e;
			}
			continue;
		}
		if (n->exists && strncmp(n->name, d->name, l) == 0 && n->name[l] == '/'
			&& strchr(n->name + l + 1, '/') == NULL) {
			d->e.d_type = n->isDir ? DT_DIR : DT_REG;
			strcpy(d->e.d_name, n->name + l + 1);
			return &d->e;
		}
	}
	return NULL;
}
int vfs_closedir(DIR *dir) { vfs_handles--; free(dir); return 0; }
ssize_t vfs_readlink(const char *name, char *buf, size_t n) {
	/* A link's target is the contents of its node */
	vfs_node *l = vfs_find(name);
	size_t k;
	if (l == NULL) { errno = ENOENT; return -1; }
	k = (size_t)l->size < n ? (size_t)l->size : n;
	memcpy(buf, l->data, k);
	return (ssize_t)k;
}
char* vfs_getcwd(char *buf, size_t n) {
	if (n < strlen(vfs_cwd) + 1) { errno = ERANGE; return NULL; }
	strcpy(buf, vfs_cwd);
	return buf;
}
FILE* vfs_fopen64(const char *name, const char *mode) { return vfs_fopen(name, mode); }
int vfs_fseeko(FILE *f, off_t o, int w) { return vfs_fseek(f, (long)o, w); }
off_t vfs_ftello(FILE *f) { return vfs_ftell(f); }
struct dirent* vfs_readdir64(DIR *d) { return vfs_readdir(d); }
int vfs_getc(FILE *f) { return vfs_fgetc(f); }

/* Random numbers: the first names generated are any of two, so that they may
 * be the name of a file that exists, later ones differ. */
static int seeds, rands, current;
void vfs_srand(unsigned s) {
	seeds++;
	current = seeds <= 2 ? (int)VERIF_SPLIT(verif_range(0, 1)) : seeds;
}
int vfs_rand(void) {
	rands++;
	return rands > 128 ? rands : current;
}
int vfs_clock_gettime(int c, struct timespec *t) {
	t->tv_sec = 5;
	t->tv_nsec = 6;
	return 0;
}
int vfs_getpid(void) { return 7; }
char* vfs_realpath(const char *name, char *resolved) {
	vfs_node *n = vfs_find(name);
	char *r = resolved;
	if (n == NULL) { errno = ENOENT; return NULL; }
	if (r == NULL) r = (char*)malloc(VFS_NAME + 32);
	r[0] = 0;
	if (n->name[0] != '/') { strcpy(r, vfs_cwd); strcat(r, "/"); }
	strcat(r, n->name);
	return r;
}
