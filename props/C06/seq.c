/* Every history on one thread against an exact model. */
#include "h_resource.h"
#ifndef RELOADS
#define RELOADS 3
#endif

void harness(void) {
	fiftyoneDegreesResourceHandle *h[OPS];
	int at[OPS], n = 0, made = 1, active = 0, o, i, managed = 1;
	start();
	for (o = 0; o < OPS; o++) {
		int op = (int)VERIF_SPLIT(verif_range(0, 2 + OPS));
		if (op == 0) {
			VERIF_ASSUME(managed);
			h[n] = fiftyoneDegreesResourceHandleIncUse(manager);
			VERIF_ASSERT(h[n] != NULL && h[n]->resource == &res[active], "the active resource is acquired");
			VERIF_ASSERT(h[n] == res[active].handle, "through its own handle");
			at[n++] = active;
			res[active].used++;
			VERIF_ASSERT(fiftyoneDegreesResourceHandleGetUse(res[active].handle) == res[active].used, "uses are counted");
		}
		else if (op == 1) {
			VERIF_ASSUME(managed && made < MAXR);
			res[made].handle = NULL;
			fiftyoneDegreesResourceReplace(manager, &res[made], &res[made].handle);
			VERIF_ASSERT(res[made].handle != NULL && res[made].handle->resource == &res[made], "new handle is set");
			VERIF_ASSERT(manager->active == res[made].handle, "new resource is active");
			active = made++;
		}
		else if (op == 2) {
			VERIF_ASSUME(managed);
			fiftyoneDegreesResourceManagerFree(manager);
			managed = 0;
			VERIF_WITNESS_IF(n > 0, "manager freed while a resource is in use");
		}
		else {
			VERIF_ASSUME(op - 3 < n);
			i = op - 3;
			res[at[i]].used--;
			fiftyoneDegreesResourceHandleDecUse(h[i]);
			h[i] = h[--n];
			at[i] = at[n];
		}
		for (i = 0; i < made; i++)
			VERIF_ASSERT(res[i].freed == ((i != active || managed == 0) && res[i].used == 0),
				"freed exactly when replaced and no longer used");
	}
	if (managed) fiftyoneDegreesResourceManagerFree(manager);
	while (n > 0) { n--; res[at[n]].used--; fiftyoneDegreesResourceHandleDecUse(h[n]); }
	finish(made);
}
