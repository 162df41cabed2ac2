/* Headers built from any names: against a list made in the harness. */
#include "headers.h"
#include "fiftyone.h"
#include "h_alloc.h"
#ifndef NAMES
#define NAMES 2
#endif
#ifndef LEN
#define LEN 3
#endif
#define SEP 0x1F
#define CAP 16
static struct { int16_t size; char text[LEN + 1]; } __attribute__((packed)) src[NAMES];
static int nNames, held, ids[NAMES];
static size_t lens[NAMES];
static fiftyoneDegreesCollection coll;

static void release(fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(held == 1, "only a held item is released");
	held--;
	item->data.ptr = NULL;
}
static long get(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(state == &nNames, "the caller's state");
	VERIF_ASSERT(held == 0, "one name at a time");
	if (index >= (uint32_t)nNames) return -1;
	held++;
	item->collection = &coll;
	item->handle = NULL;
	item->data.ptr = (byte*)&src[index];
	return ids[index];
}
static char low(char c) { return (char)(c + (((unsigned)c - 'A' < 26) << 5)); }

static struct { const char *s; size_t n; int id; _Bool ds; } model[CAP];
static int nModel;
static int find(const char *s, size_t n) {
	int i; size_t k;
	for (i = 0; i < nModel; i++) {
		if (model[i].n != n) continue;
		for (k = 0; k < n && low(model[i].s[k]) == low(s[k]); k++);
		if (k == n) return i;
	}
	return -1;
}
/* start and length of segment number s, or 0 */
static int segment(const char *t, size_t n, int s, size_t *from, size_t *len) {
	size_t i = 0, b;
	for (;;) {
		while (i < n && t[i] == SEP) i++;
		if (i == n) return 0;
		for (b = i; i < n && t[i] != SEP; i++);
		if (s-- == 0) { *from = b; *len = i - b; return 1; }
	}
}
static int segments(const char *t, size_t n) { size_t f, l; int s = 0; while (segment(t, n, s, &f, &l)) s++; return s; }

void harness(void) {
	int i, s, pseudo = 0, dataSet;
	size_t k, f, l;
	fiftyoneDegreesHeaders *h;
	_Bool prefixed = VERIF_SPLIT(verif_bool());
	coll.release = release;
	nNames = (int)VERIF_SPLIT(verif_range(0, NAMES));
	for (i = 0; i < nNames; i++) {
		lens[i] = (size_t)VERIF_SPLIT(verif_range(0, LEN));
		for (k = 0; k < lens[i]; k++) {
			/* letters of either case, or the separator */
			src[i].text[k] = VERIF_SPLIT(verif_bool()) ? SEP : (char)((verif_range(0, 1) * 32) + verif_range('A', 'B'));
		}
		ids[i] = verif_range(1, 0x7fffffff);
		for (s = 0; s < i; s++) VERIF_ASSUME(ids[s] != ids[i]);
	}
	for (i = 0; i < nNames; i++) {
		if (lens[i] > 0 && segments(src[i].text, lens[i]) > 0 && find(src[i].text, lens[i]) < 0) {
			model[nModel].s = src[i].text; model[nModel].n = lens[i]; model[nModel].id = ids[i]; model[nModel].ds = 1; nModel++;
		}
	}
	dataSet = nModel;
	for (i = 0; i < dataSet; i++) {
		if (segments(model[i].s, model[i].n) > 1) pseudo++;
		for (s = 0; segment(model[i].s, model[i].n, s, &f, &l); s++) {
			if (find(model[i].s + f, l) < 0) { model[nModel].s = model[i].s + f; model[nModel].n = l; model[nModel].ds = 0; nModel++; }
		}
	}
#ifdef FAULTS
	allocMayFail(1);
#endif
	h = fiftyoneDegreesHeadersCreate(prefixed, &nNames, get);
	VERIF_ASSERT(held == 0, "no name is held");
	VERIF_ASSERT((h != NULL) == (allocFailed == 0), "created unless out of memory");
	if (h == NULL) {
		VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
		VERIF_WITNESS_IF(nModel > 2, "out of memory");
		return;
	}
	VERIF_ASSERT(h->count == (uint32_t)nModel, "each distinct name once");
	VERIF_ASSERT(h->count <= h->capacity, "within the capacity");
	VERIF_ASSERT(h->pseudoHeadersCount == (uint32_t)pseudo, "number of pseudo headers");
	VERIF_ASSERT(h->expectUpperPrefixedHeaders == prefixed, "prefix flag");
	for (i = 0; i < nModel; i++) {
		fiftyoneDegreesHeader *x = &h->items[i];
		VERIF_ASSERT(x->nameLength == model[i].n && x->isDataSet == model[i].ds, "name length and origin");
		VERIF_ASSERT(VERIF_READABLE(x->name, model[i].n + 1) && x->name[model[i].n] == 0, "terminated name");
		for (k = 0; k < model[i].n; k++) VERIF_ASSERT(x->name[k] == model[i].s[k], "the name as given");
		VERIF_ASSERT(x->segments != NULL && x->segments->count == (uint32_t)segments(model[i].s, model[i].n), "all its parts");
		for (s = 0; segment(model[i].s, model[i].n, s, &f, &l); s++)
			VERIF_ASSERT(x->segments->items[s].segment == x->name + f && x->segments->items[s].length == l, "in order");
		if (model[i].ds) {
			VERIF_ASSERT(x->uniqueId == (uint32_t)model[i].id, "the id given");
			VERIF_ASSERT(fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, x->uniqueId) == x, "found by id");
		}
	}
	VERIF_WITNESS_IF(nModel > dataSet + 1, "parts are headers");
	VERIF_WITNESS_IF(dataSet < nNames && nNames == 2 && lens[0] == 2 && lens[1] == 2, "duplicate");
#ifndef FAULTS
	{
		/* Any other id, and any name with or without a prefix */
		uint32_t id = verif_u32();
		char *q;
		size_t n = (size_t)VERIF_SPLIT(verif_range(0, LEN)), p = VERIF_SPLIT(verif_bool()) ? 5 : 0;
		_Bool any = 0, almost = 0;
		int expect;
		for (i = 0; i < dataSet; i++) any |= id == (uint32_t)model[i].id;
		if (!any && id != 0) VERIF_ASSERT(fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, id) == NULL, "no other id");
		q = (char*)malloc(n + p + 1);
		for (k = 0; k < p; k++) q[k] = verif_bool() ? "http_"[k] : "HTTP_"[k];
		if (p && n == 1 && VERIF_SPLIT(verif_bool())) {
			/* Not quite the prefix */
			k = (size_t)VERIF_SPLIT(verif_range(0, 4));
			q[k] = (char)verif_u8();
			VERIF_ASSUME(q[k] != 0 && low(q[k]) != "http_"[k]);
			almost = 1;
		}
		for (k = 0; k < n; k++) { q[p + k] = (char)verif_u8(); VERIF_ASSUME(q[p + k] != 0); }
		q[n + p] = 0;
		expect = almost ? -1 : p && !prefixed ? -1 : p && n == 0 ? -1 : find(q + p, n);
		if (prefixed && p == 0 && n == 0) expect = -1;
		VERIF_ASSERT(fiftyoneDegreesHeaderGetIndex(h, q, n + p) == expect, "exactly the header of that name");
		{
			fiftyoneDegreesEvidenceKeyValuePair pair;
			pair.prefix = FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING;
			pair.field = q; pair.originalValue = pair.parsedValue = NULL;
			VERIF_ASSERT(fiftyoneDegreesHeadersIsHttp(h, &pair) == (expect >= 0), "evidence with that name");
		}
		VERIF_WITNESS_IF(p && prefixed && expect >= 0 && n == 1, "prefixed");
		free(q);
	}
#endif
	fiftyoneDegreesHeadersFree(h);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
}
