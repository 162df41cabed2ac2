/* Runtime behind verif.h: symbolic under CBMC, replaying natively. */
#include "verif.h"

unsigned long long verif_in;
unsigned long long verif_out;

#if defined(VERIF_SYM)
/* verif_u8() and so on are built into symx */
#elif defined(VERIF_CBMC)
unsigned char nondet_verif_u8(void);
unsigned short nondet_verif_u16(void);
unsigned int nondet_verif_u32(void);
unsigned long long nondet_verif_u64(void);
unsigned char verif_u8(void) {
	unsigned char v = nondet_verif_u8(); verif_in = v; return v; }
unsigned short verif_u16(void) {
	unsigned short v = nondet_verif_u16(); verif_in = v; return v; }
unsigned int verif_u32(void) {
	unsigned int v = nondet_verif_u32(); verif_in = v; return v; }
unsigned long long verif_u64(void) {
	unsigned long long v = nondet_verif_u64(); verif_in = v; return v; }
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
size_t __sanitizer_get_current_allocated_bytes(void);
#else
#define __sanitizer_get_current_allocated_bytes() ((size_t)0)
#endif
#ifdef VERIF_THREADS
void verif_heap_base(void);
#endif
static unsigned long long *inputs;
static size_t inputCount, inputNext, heapBase;
static void readInputs(void) {
	size_t room = 1024;
	const char *n = getenv("VERIF_INPUTS");
	FILE *in = n != NULL ? fopen(n, "r") : NULL;
	if (in == NULL) { fprintf(stderr, "VERIF no inputs\n"); _Exit(88); }
	inputs = malloc(room * sizeof(*inputs));
	while (fscanf(in, "%llu", &inputs[inputCount]) == 1) {
		if (++inputCount == room) {
			room *= 2;
			inputs = realloc(inputs, room * sizeof(*inputs));
		}
	}
	fclose(in);
	setvbuf(stdout, NULL, _IONBF, 0);
	heapBase = __sanitizer_get_current_allocated_bytes();
#ifdef VERIF_THREADS
	verif_heap_base();
#endif
}
static unsigned long long next(void) {
	if (inputNext >= inputCount) {
		fprintf(stderr, "VERIF inputs exhausted\n");
		_Exit(88);
	}
	verif_in = inputs[inputNext];
	return inputs[inputNext++];
}
#ifndef VERIF_THREADS
unsigned long long verif_live_heap(void) {
	return __sanitizer_get_current_allocated_bytes() - heapBase;
}
#endif
unsigned char verif_u8(void) { return (unsigned char)next(); }
unsigned short verif_u16(void) { return (unsigned short)next(); }
unsigned int verif_u32(void) { return (unsigned int)next(); }
unsigned long long verif_u64(void) { return next(); }
void verif_assume_failed(const char *c, const char *file, int line) {
	fprintf(stderr, "VERIF ASSUMPTION not met: %s (%s:%d)\n", c, file, line);
	_Exit(77);
}
void verif_assert_failed(const char *msg, const char *file, int line) {
	fprintf(stderr, "VERIF ASSERTION FAILED: %s (%s:%d)\n", msg, file, line);
	fflush(stdout);
	_Exit(3);
}
void verif_witness(const char *msg) { printf("VERIF WITNESS %s\n", msg);
	fflush(stdout); }
void verif_observe(unsigned long long v) { printf("VERIF OUT %llu\n", v);
	fflush(stdout); }
int verif_readable(const void *p, size_t n) {
	/* ASan reports the read if it is not allowed. */
	volatile unsigned char sum = 0;
	size_t i;
	for (i = 0; i < n; i++) sum += ((const volatile unsigned char*)p)[i];
	return 1;
}
#ifndef VERIF_ENTRY
#define VERIF_ENTRY harness
#endif
void VERIF_ENTRY(void);
int main(void) {
	readInputs();
	VERIF_ENTRY();
	printf("VERIF DONE\n");
	return 0;
}
#endif

_Bool verif_bool(void) { return (verif_u8() & 1) != 0; }
int verif_range(int lo, int hi) {
	int v = (int)verif_u32();
	VERIF_ASSUME(v >= lo && v <= hi);
	return v;
}
void verif_bytes(void *p, size_t n) {
	size_t i;
	for (i = 0; i < n; i++) ((unsigned char*)p)[i] = verif_u8();
}
size_t verif_string(char *buf, size_t max) {
	size_t i, n = (size_t)verif_u32();
	VERIF_ASSUME(n <= max);
	for (i = 0; i < max; i++) {
		buf[i] = (char)verif_u8();
		if (i < n) { VERIF_ASSUME(buf[i] != 0); }
		else { buf[i] = 0; }
	}
	buf[max] = 0;
	return n;
}
