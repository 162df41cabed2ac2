/* Users acquire and release while others replace: every interleaving. */
#include "h_resource.h"
static int started, done; /* replacements (of one replacing thread) */

static void user(void *arg) {
	int r;
	for (r = 0; r < ROUNDS; r++) {
		int before = done;
		fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(manager);
		Resource *x;
		VERIF_ASSERT(h != NULL, "an acquire returns a handle");
		x = (Resource*)h->resource;
		VERIF_ASSERT(x >= res && x < res + MAXR, "on one of the resources");
		x->used++;
		VERIF_ASSERT(x->freed == 0, "acquired resource is not freed");
		VERIF_ASSERT(x->handle == h, "acquired through its own handle");
#ifdef ORDERED
		VERIF_ASSERT(x - res >= before && x - res <= started, "acquired resource was active during the acquire");
#else
		(void)before;
#endif
		verif_yield();
		VERIF_ASSERT(x->freed == 0, "resource is not freed while held");
		x->used--;
		fiftyoneDegreesResourceHandleDecUse(h);
	}
}
static void replacer(void *arg) {
	Resource *x = (Resource*)arg;
	started++;
	fiftyoneDegreesResourceReplace(manager, x, &x->handle);
	done++;
}
static void end(int made) {
	int i, left = 0;
	verif_join_all();
	for (i = 0; i < made; i++) left += res[i].freed == 0;
	VERIF_ASSERT(left == 1, "when idle every resource but the active one has been freed");
	fiftyoneDegreesResourceManagerFree(manager);
	finish(made);
}
/* one user and one replacement */
void harness_one(void) {
	start();
	verif_spawn(user, NULL);
	verif_spawn(replacer, &res[1]);
	end(2);
}
/* two users and one replacement */
void harness_two(void) {
	start();
	verif_spawn(user, NULL);
	verif_spawn(user, NULL);
	verif_spawn(replacer, &res[1]);
	end(2);
}
/* two concurrent replacements */
void harness_replace(void) {
	start();
	verif_spawn(replacer, &res[1]);
	verif_spawn(replacer, &res[2]);
	end(3);
}
/* two concurrent replacements and a user */
void harness_mixed(void) {
	start();
	verif_spawn(replacer, &res[1]);
	verif_spawn(replacer, &res[2]);
	verif_spawn(user, NULL);
	end(3);
}
/* held while the manager is freed */
static void holder(void *arg) {
	fiftyoneDegreesResourceHandle *h = (fiftyoneDegreesResourceHandle*)arg;
	Resource *x = (Resource*)h->resource;
	VERIF_ASSERT(x->freed == 0, "resource is not freed while held");
	x->used--;
	fiftyoneDegreesResourceHandleDecUse(h);
}
static void freer(void *arg) { fiftyoneDegreesResourceManagerFree(manager); }
void harness_free(void) {
	fiftyoneDegreesResourceHandle *a, *b;
	start();
	a = fiftyoneDegreesResourceHandleIncUse(manager);
	b = fiftyoneDegreesResourceHandleIncUse(manager);
	res[0].used = 2;
	verif_spawn(holder, a);
	verif_spawn(holder, b);
	verif_spawn(freer, NULL);
	verif_join_all();
	finish(1);
}
