/* Common interface of every harness under /verif/props.
 *
 * The same harness source is used twice:
 *   - compiled with goto-cc (VERIF_CBMC defined): every verif_uXX() is a
 *     symbolic value; CBMC + SAT decide the assertions for all values.
 *   - compiled with gcc -fsanitize=address,undefined (VERIF_NATIVE): the
 *     values are read from the file named by VERIF_INPUTS, i.e. the solver's
 *     assignment is replayed against the real code.
 */
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

#ifdef __cplusplus
extern "C" {
#endif
#if defined(__CPROVER__) || defined(__CPROVER)
#ifndef VERIF_CBMC
#define VERIF_CBMC 1
#endif
#endif

/* Every symbolic input is also written here, so the trace lists them in
 * program order. */
extern unsigned long long verif_in;
/* Values the encoding claims the real code computes; compared on replay. */
extern unsigned long long verif_out;

unsigned char verif_u8(void);
unsigned short verif_u16(void);
unsigned int verif_u32(void);
unsigned long long verif_u64(void);
bool verif_bool(void);
/* lo <= result <= hi */
int verif_range(int lo, int hi);
void verif_bytes(void *p, size_t n);

/* A zero terminated string of any length up to max: buf must hold max + 1 */
size_t verif_string(char *buf, size_t max);

#ifdef VERIF_SYM
void verif_sym_assume(int c);
void verif_sym_assert(int c, const char *msg);
void verif_sym_witness(int c, const char *msg);
void verif_sym_observe(unsigned long long v);
int verif_sym_readable(const void *p, size_t n);
/* The same value, concrete on every path (forks over the possible values) */
unsigned long long verif_split(unsigned long long v);
#define VERIF_ASSUME(c) verif_sym_assume((c) ? 1 : 0)
#define VERIF_ASSERT(c, msg) verif_sym_assert((c) ? 1 : 0, msg)
#define VERIF_WITNESS(msg) verif_sym_witness(1, msg)
#define VERIF_WITNESS_IF(c, msg) verif_sym_witness((c) ? 1 : 0, msg)
#define VERIF_OBSERVE(v) verif_sym_observe((unsigned long long)(v))
#define VERIF_READABLE(p, n) verif_sym_readable((p), (n))
#define VERIF_SPLIT(v) verif_split((unsigned long long)(v))
#elif defined(VERIF_CBMC)
#define VERIF_ASSUME(c) __CPROVER_assume(c)
#define VERIF_ASSERT(c, msg) __CPROVER_assert((c), msg)
/* Reachability witness: must come back violated, and its trace must replay */
#define VERIF_WITNESS(msg) __CPROVER_assert(0, "WITNESS " msg)
/* Only reached under an additional condition */
#define VERIF_WITNESS_IF(c, msg) __CPROVER_assert(!(c), "WITNESS " msg)
#define VERIF_OBSERVE(v) (verif_out = (unsigned long long)(v))
#define VERIF_READABLE(p, n) __CPROVER_r_ok((p), (n))
#define VERIF_SPLIT(v) (v)
#else
void verif_assume_failed(const char *c, const char *file, int line);
void verif_assert_failed(const char *msg, const char *file, int line);
void verif_witness(const char *msg);
void verif_observe(unsigned long long v);
#define VERIF_ASSUME(c) do { if (!(c)) \
	verif_assume_failed(#c, __FILE__, __LINE__); } while (0)
#define VERIF_ASSERT(c, msg) do { if (!(c)) \
	verif_assert_failed(msg, __FILE__, __LINE__); } while (0)
#define VERIF_WITNESS(msg) verif_witness(msg)
#define VERIF_WITNESS_IF(c, msg) do { if (c) verif_witness(msg); } while (0)
#define VERIF_OBSERVE(v) verif_observe((unsigned long long)(v))
int verif_readable(const void *p, size_t n);
#define VERIF_READABLE(p, n) verif_readable((p), (n))
#define VERIF_SPLIT(v) (v)
#endif

/* Non zero if anything allocated by the harness or the code is still live */
unsigned long long verif_live_heap(void);

/* Threads whose schedule is part of the input (symx and replay only). */
int verif_spawn(void (*fn)(void*), void *arg);
void verif_yield(void);
void verif_wait_zero(volatile int *p); /* blocks until *p == 0 */
void verif_join_all(void);
int verif_thread_id(void);

#ifdef __cplusplus
}
#endif
#endif
