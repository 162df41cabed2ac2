/* Interleavings: the repository's sources are compiled with clang's thread
 * sanitizer instrumentation, whose hooks (every access to memory that is not
 * a known local, every atomic) are implemented here as scheduling points. The
 * same file is used symbolically (the schedule is forked over) and natively
 * (the schedule found is replayed, one thread running at a time). Native
 * memory errors are found by the same hooks and a quarantining allocator. */
#include "verif.h"
#include <string.h>

int verif_spurious; /* spurious condition variable wake-ups that may happen */
int verif_shared(const void *p); /* heap, or global if asked for */

#ifdef VERIF_SYM
#define CHECK(p, n, w)
#else
static void checkAccess(const void *p, size_t n, const char *what);
#define CHECK(p, n, w) checkAccess(p, n, w)
#endif

static void point(const void *p) { if (verif_shared(p)) verif_yield(); }

#define RW(n) \
void __tsan_read##n(void *p) { point(p); CHECK(p, n, "read"); } \
void __tsan_write##n(void *p) { point(p); CHECK(p, n, "write"); } \
void __tsan_unaligned_read##n(void *p) { point(p); CHECK(p, n, "read"); } \
void __tsan_unaligned_write##n(void *p) { point(p); CHECK(p, n, "write"); } \
void __tsan_volatile_read##n(void *p) { point(p); CHECK(p, n, "read"); } \
void __tsan_volatile_write##n(void *p) { point(p); CHECK(p, n, "write"); } \
void __tsan_read_write##n(void *p) { point(p); CHECK(p, n, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { point(p); CHECK(p, n, "read"); }
void __tsan_write_range(void *p, unsigned long n) { point(p); CHECK(p, n, "write"); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
	point(d); CHECK(d, n, "write"); CHECK(s, n, "read"); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) {
	point(d); CHECK(d, n, "write"); CHECK(s, n, "read"); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) {
	point(d); CHECK(d, n, "write"); return memset(d, c, n); }

#define ATOMIC(w, T) \
T __tsan_atomic##w##_load(const volatile T *p, int o) { verif_yield(); CHECK((void*)p, w / 8, "read"); return *p; } \
void __tsan_atomic##w##_store(volatile T *p, T v, int o) { verif_yield(); CHECK((void*)p, w / 8, "write"); *p = v; } \
T __tsan_atomic##w##_exchange(volatile T *p, T v, int o) { T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; *p = v; return r; } \
T __tsan_atomic##w##_fetch_add(volatile T *p, T v, int o) { T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; *p = (T)(r + v); return r; } \
T __tsan_atomic##w##_fetch_sub(volatile T *p, T v, int o) { T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; *p = (T)(r - v); return r; } \
T __tsan_atomic##w##_fetch_and(volatile T *p, T v, int o) { T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; *p = r & v; return r; } \
T __tsan_atomic##w##_fetch_or(volatile T *p, T v, int o) { T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; *p = r | v; return r; } \
T __tsan_atomic##w##_fetch_xor(volatile T *p, T v, int o) { T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; *p = r ^ v; return r; } \
T __tsan_atomic##w##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) { \
	T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; if (r == c) *p = v; return r; } \
int __tsan_atomic##w##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) { \
	T r; verif_yield(); CHECK((void*)p, w / 8, "write"); r = *p; if (r == *c) { *p = v; return 1; } *c = r; return 0; } \
int __tsan_atomic##w##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) { \
	return __tsan_atomic##w##_compare_exchange_strong(p, c, v, o, f); }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}

/* The wide compare and exchange is a library call */
_Bool verif_wide_ce(size_t n, void *p, void *c, void *v, int o, int f)
	__asm__("__atomic_compare_exchange");
_Bool verif_wide_ce(size_t n, void *p, void *c, void *v, int o, int f) {
	verif_yield();
	CHECK(p, n, "write");
	if (memcmp(p, c, n) == 0) { memcpy(p, v, n); return 1; }
	memcpy(c, p, n);
	return 0;
}

/* Mutexes as a word: 0 free. */
int verif_mutex_init(int *m, const void *a) { CHECK(m, 4, "write"); m[0] = 0; return 0; }
int verif_mutex_destroy(int *m) {
	CHECK(m, 4, "write");
	VERIF_ASSERT(m[0] == 0, "mutex destroyed while locked");
	return 0;
}
int verif_mutex_lock(int *m) {
	verif_yield();
	CHECK(m, 4, "write");
	while (*(volatile int*)m) { verif_wait_zero(m); CHECK(m, 4, "write"); }
	m[0] = 1;
	return 0;
}
int verif_mutex_trylock(int *m) {
	verif_yield();
	CHECK(m, 4, "write");
	if (m[0]) return 16;
	m[0] = 1;
	return 0;
}
int verif_mutex_unlock(int *m) {
	CHECK(m, 4, "write");
	VERIF_ASSERT(m[0] == 1, "mutex unlocked while not locked");
	m[0] = 0;
	verif_yield();
	return 0;
}
/* Condition variables: a queue of waiters; a wake-up may be spurious. */
typedef struct waiter { volatile int wait; struct waiter *next; } waiter;
int verif_cond_init(waiter **c, const void *a) { *c = NULL; return 0; }
int verif_cond_destroy(waiter **c) {
	VERIF_ASSERT(*c == NULL, "condition destroyed while waited on");
	return 0;
}
int verif_cond_signal(waiter **c) {
	verif_yield();
	CHECK(c, 8, "write");
	if (*c != NULL) {
		waiter *w = *c;
		*c = w->next;
		w->wait = 0;
	}
	return 0;
}
int verif_cond_broadcast(waiter **c) {
	verif_yield();
	CHECK(c, 8, "write");
	while (*c != NULL) {
		waiter *w = *c;
		*c = w->next;
		w->wait = 0;
	}
	return 0;
}
int verif_cond_wait(waiter **c, int *m) {
	waiter w, **p;
	CHECK(c, 8, "write");
	VERIF_ASSERT(m[0] == 1, "waiting without holding the mutex");
	if (verif_spurious > 0 && verif_bool()) {
		verif_spurious--;
		m[0] = 0;
		verif_yield();
		return verif_mutex_lock(m);
	}
	w.wait = 1;
	w.next = NULL;
	for (p = c; *p != NULL; p = &(*p)->next);
	*p = &w;
	m[0] = 0;
	verif_wait_zero(&w.wait);
	return verif_mutex_lock(m);
}

#ifndef VERIF_SYM
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>

/* Quarantining allocator (linked with --wrap) */
void *__real_malloc(size_t n);
void __real_free(void *p);
#define ZONE 64
static struct block { char *p; size_t n; int freed; } block[65536];
static int blocks;
static long live;
static void die(const char *what, const void *p) {
	fprintf(stderr, "VERIF MEMORY ERROR: %s (%p)\n", what, p);
	_Exit(3);
}
static struct block* containing(const void *q, int zone) {
	int i;
	for (i = blocks - 1; i >= 0; i--) {
		if ((const char*)q >= block[i].p - zone &&
			(const char*)q < block[i].p + block[i].n + zone) return &block[i];
	}
	return NULL;
}
void *__wrap_malloc(size_t n) {
	char *p = __real_malloc(n + 2 * ZONE);
	if (p == NULL || blocks == 65536) return NULL;
	memset(p, 190, n + 2 * ZONE);
	block[blocks].p = p + ZONE;
	block[blocks].n = n;
	block[blocks++].freed = 0;
	live++;
	return p + ZONE;
}
void __wrap_free(void *p) {
	struct block *b;
	if (p == NULL) return;
	b = containing(p, ZONE);
	if (b == NULL) { __real_free(p); return; }
	if (b->p != (char*)p) die("invalid free", p);
	if (b->freed) die("double free", p);
	b->freed = 1;
	live--;
	memset(b->p, 0xDD, b->n);
}
void *__wrap_calloc(size_t a, size_t b) {
	void *p = __wrap_malloc(a * b);
	if (p != NULL) memset(p, 0, a * b);
	return p;
}
void *__wrap_realloc(void *p, size_t n) {
	struct block *b = p != NULL ? containing(p, 0) : NULL;
	void *r = __wrap_malloc(n);
	if (b != NULL && r != NULL) memcpy(r, p, b->n < n ? b->n : n);
	if (p != NULL) __wrap_free(p);
	return r;
}
int __wrap_posix_memalign(void **r, size_t a, size_t n) {
	*r = __wrap_malloc(n); return *r == NULL ? ENOMEM : 0; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return __wrap_malloc(n); }
void *__wrap_memalign(size_t a, size_t n) { return __wrap_malloc(n); }
unsigned long long verif_live_heap(void) { return (unsigned long long)live; }
void verif_heap_base(void) { live = 0; }
static void checkAccess(const void *p, size_t n, const char *what) {
	struct block *b = containing(p, ZONE);
	if (b == NULL) return;
	if (b->freed) die("use after free", p);
	if ((const char*)p < b->p || (const char*)p + n > b->p + b->n)
		die("out of bounds", p);
}
extern char __data_start[], _end[];
#ifndef VERIF_GLOBALS
#define VERIF_GLOBALS 0
#endif
int verif_shared(const void *p) {
	if (VERIF_GLOBALS && (const char*)p >= __data_start && (const char*)p < _end) return 1;
	return containing(p, 0) != NULL;
}

/* One thread runs at a time */
static struct thread {
	sem_t go; pthread_t id; int done, joins; volatile int *blocked;
	void (*fn)(void*); void *arg;
} th[16];
static int threads, cur, preempts;
static void start(void) {
	if (threads == 0) { threads = 1; sem_init(&th[0].go, 0, 0); }
}
static int runnable(int k) {
	int i;
	if (th[k].done) return 0;
	if (th[k].joins) {
		for (i = 0; i < threads; i++) if (i != k && !th[i].done) return 0;
		return 1;
	}
	return th[k].blocked == NULL || *th[k].blocked == 0;
}
static void schedule(int preemptive) {
	int i, n = 0, r[16], stay, me = cur, next;
	static int bound = -1;
	if (bound < 0) {
		const char *b = getenv("VERIF_PREEMPT");
		bound = b != NULL ? atoi(b) : 2;
	}
	for (i = 0; i < threads; i++) if (runnable(i)) r[n++] = i;
	if (n == 0) {
		for (i = 0; i < threads; i++) {
			if (!th[i].done) { fprintf(stderr, "VERIF DEADLOCK\n"); _Exit(3); }
		}
		return;
	}
	stay = runnable(me);
	if (stay && preemptive && preempts >= bound) return;
	if (n == 1) next = r[0];
	else {
		next = verif_u8();
		if (next >= threads || !runnable(next)) {
			fprintf(stderr, "VERIF schedule differs\n");
			_Exit(88);
		}
		if (stay && next != me) preempts++;
	}
	th[next].blocked = NULL; th[next].joins = 0;
	if (next != me) {
		int done = th[me].done;
		cur = next;
		sem_post(&th[next].go);
		if (!done) while (sem_wait(&th[me].go) != 0);
	}
}
static void* body(void *a) {
	struct thread *t = (struct thread*)a;
	while (sem_wait(&t->go) != 0);
	t->fn(t->arg);
	t->done = 1;
	schedule(0);
	return NULL;
}
int verif_spawn(void (*fn)(void*), void *arg) {
	int id;
	start();
	id = threads;
	if (id == 16) abort();
	th[id].fn = fn; th[id].arg = arg;
	sem_init(&th[id].go, 0, 0);
	threads++;
	pthread_create(&th[id].id, NULL, body, &th[id]);
	return id;
}
void verif_yield(void) { if (threads > 1) schedule(1); }
void verif_wait_zero(volatile int *p) { start(); th[cur].blocked = p; schedule(0); }
void verif_join_all(void) { start(); th[cur].joins = 1; schedule(0); }
int verif_thread_id(void) { return cur; }
#endif
