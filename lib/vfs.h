/* A small in-memory file system standing in for the C library's: the same
 * code runs symbolically and in the replay. Any call may fail, as chosen by
 * symbolic inputs, while the fault budget lasts. Nothing reaches the real
 * file system. */
#ifndef VERIF_VFS_H
#define VERIF_VFS_H
#include <stddef.h>
#include <stdio.h>
#include "verif.h"
#ifdef __cplusplus
extern "C" {
#endif
#ifndef VFS_NODES
#define VFS_NODES 8
#endif
#ifndef VFS_NAME
#define VFS_NAME 64
#endif
typedef struct {
	int exists, isDir, locked;   /* locked: may not be opened for writing or created */
	char name[VFS_NAME];
	unsigned char *data;
	long size, cap;
	int opened, reads, writes, removed, created;
} vfs_node;
extern vfs_node vfs[VFS_NODES];
extern int vfs_count;
enum { VFS_OPEN = 1, VFS_READ = 2, VFS_WRITE = 4, VFS_SEEK = 8, VFS_TELL = 16, VFS_CLOSE = 32,
	VFS_REMOVE = 64, VFS_MKDIR = 128, VFS_OPENDIR = 256 };
extern int vfs_faults;      /* faults that may still happen */
extern int vfs_faultable;   /* which calls may fail */
extern int vfs_faulted;     /* calls that failed so far (bit mask) */
extern int vfs_handles;     /* open files and directories */
extern int vfs_removes;     /* files removed */
extern int vfs_writable;    /* files can be created */
extern const char *vfs_cwd; /* the working directory, /cwd by default */
int vfs_fault(int op);
vfs_node* vfs_add(const char *name, unsigned char *data, long size);
vfs_node* vfs_dir(const char *name);
vfs_node* vfs_find(const char *name);
/* A file handle for a node, positioned at the start */
FILE* vfs_handle(vfs_node *n);
/* The calls themselves, for harnesses */
FILE* vfs_fopen(const char *name, const char *mode);
int vfs_fclose(FILE *f);
int vfs_fseek(FILE *f, long o, int whence);
long vfs_ftell(FILE *f);
size_t vfs_fread(void *p, size_t size, size_t n, FILE *f);
#ifdef __cplusplus
}
#endif
#endif
