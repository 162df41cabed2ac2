/* Real threading.c signals with every schedule of a setter and waiters, with
 * wake-ups without a cause. */
#include <stdlib.h>
#include "verif.h"
#include "threading.h"
#include "memory.h"
#include "fiftyone.h"
static fiftyoneDegreesSignal *s;
static volatile int pending, sets, returned;
extern int verif_spurious;

static void waiter(void *arg) {
	int i;
	for (i = 0; i < WAITS; i++) {
		fiftyoneDegreesSignalWait(s);
		/* counted before anything else can happen */
		returned++;
		pending = 0;
		VERIF_ASSERT(returned <= sets, "a wait only returns for a set, and each set releases one wait");
	}
}
#define ALL (WAITERS * WAITS)
static void setter(void *arg) {
	int i;
	for (i = 0; i < SETS; i++) {
		pending = 1;
		sets++;
		fiftyoneDegreesSignalSet(s);
#ifdef HAND_OVER
		/* the next set is after this one released a wait */
		verif_wait_zero((int*)&pending);
		VERIF_ASSERT(returned == sets, "one wait is released by a set");
#endif
	}
}
void harness(void) {
	int i;
	s = fiftyoneDegreesSignalCreate();
	VERIF_ASSERT(s != NULL, "a signal is created");
	/* The signal is set to start with */
	fiftyoneDegreesSignalWait(s);
#ifdef SPURIOUS
	verif_spurious = SPURIOUS;
#endif
#ifdef BEFORE
	/* Set before there is a wait */
	sets++;
	fiftyoneDegreesSignalSet(s);
#endif
	for (i = 0; i < WAITERS; i++) verif_spawn(waiter, NULL);
	for (i = 0; i < SETTERS; i++) verif_spawn(setter, NULL);
	/* every wait ends, or there is a deadlock */
	verif_join_all();
	VERIF_ASSERT(returned == ALL, "every wait with a set returns");
	fiftyoneDegreesSignalClose(s);
	VERIF_ASSERT(verif_live_heap() == 0, "closing the signal frees it");
	VERIF_WITNESS("end");
}
