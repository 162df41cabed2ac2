/* Evidence arrays: any sequence of adds, then any iteration; any key. */
#include "evidence.h"
#include "fiftyone.h"
#include "h_alloc.h"
#ifndef MAX
#define MAX 3
#endif
#ifndef KEY
#define KEY 9
#endif
static const char *fields[8] = { "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7" };
static char values[8][2];
static const unsigned prefixes[6] = { 1, 2, 4, 8, 16, 128 };

static struct { unsigned prefix; int field; _Bool selected; } held[8];
static fiftyoneDegreesEvidenceKeyValuePair *pairs[8];
static int nHeld, nHeldMain;
static int at, calls, stopAfter, stopped;
static void *expectState;

static bool visit(void *state, fiftyoneDegreesEvidenceKeyValuePair *pair) {
	VERIF_ASSERT(state == expectState, "the caller's state");
	VERIF_ASSERT(!stopped, "not called after being told to stop");
	while (at < nHeld && !held[at].selected) at++;
	VERIF_ASSERT(at < nHeld, "no more than the selected pairs");
	VERIF_ASSERT(pair == pairs[at] && (unsigned)pair->prefix == held[at].prefix, "the next selected pair");
	VERIF_ASSERT(pair->field == fields[held[at].field], "with its field");
	VERIF_ASSERT(pair->originalValue == values[held[at].field], "with its value");
	VERIF_ASSERT(pair->parsedValue == values[held[at].field], "with its parsed value");
	at++;
	calls++;
	if (calls == stopAfter) { stopped = 1; return false; }
	return true;
}

static int fill(fiftyoneDegreesEvidenceKeyValuePairArray *e, unsigned capacity, int adds, int base) {
	int i, k;
	for (i = 0; i < adds; i++) {
		unsigned p = prefixes[verif_range(0, 5)];
		fiftyoneDegreesEvidenceKeyValuePair *pair = fiftyoneDegreesEvidenceAddString(e, (fiftyoneDegreesEvidencePrefix)p, fields[base + i], values[base + i]);
		VERIF_ASSERT((pair != NULL) == ((unsigned)i < capacity), "held until the capacity is reached");
		if (pair != NULL) {
			VERIF_ASSERT(VERIF_READABLE(pair, sizeof *pair), "inside the array");
			held[nHeld].prefix = p;
			held[nHeld].field = base + i;
			pairs[nHeld] = pair;
			for (k = 0; k < nHeld; k++) VERIF_ASSERT(pairs[k] != pair, "each its own place");
			nHeld++;
		}
		else VERIF_WITNESS("rejected");
	}
	VERIF_ASSERT(e->count == ((unsigned)adds < capacity ? (unsigned)adds : capacity), "count of the pairs held");
	return nHeld;
}

void harness(void) {
	unsigned capacity = (unsigned)VERIF_SPLIT(verif_range(0, MAX));
	fiftyoneDegreesEvidenceKeyValuePairArray *e, *pseudo = NULL;
	int mask, i, n = 0, state;
	uint32_t r;
	allocMayFail(1);
	e = fiftyoneDegreesEvidenceCreate(capacity);
	VERIF_ASSERT((e != NULL) == (allocFailed == 0), "created unless out of memory");
	if (e == NULL) { VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked"); return; }
	allocMayFail(0);
	fill(e, capacity, (int)VERIF_SPLIT(verif_range(0, (int)capacity + 1)), 0);
	nHeldMain = nHeld;
	if (verif_bool()) {
		unsigned c = (unsigned)VERIF_SPLIT(verif_range(0, 2));
		pseudo = fiftyoneDegreesEvidenceCreate(c);
		fill(pseudo, c, (int)VERIF_SPLIT(verif_range(0, (int)c)), 4);
		e->pseudoEvidence = pseudo;
	}
	mask = (int)verif_u8();
	for (i = 0; i < nHeld; i++) held[i].selected = VERIF_SPLIT((held[i].prefix & mask) != 0);
	for (i = 0; i < nHeld; i++) n += held[i].selected;
	stopAfter = (int)VERIF_SPLIT(verif_range(0, n + 1));
	expectState = &state;
	r = fiftyoneDegreesEvidenceIterate(e, mask, &state, visit);
	VERIF_ASSERT(calls == (stopAfter > 0 && stopAfter < n ? stopAfter : n), "every selected pair until told to stop");
	VERIF_ASSERT(r == (uint32_t)calls, "number of pairs visited");
	VERIF_WITNESS_IF(nHeldMain > 1 && nHeld > nHeldMain && stopAfter == 2 && calls == 2, "stopped");
	VERIF_WITNESS_IF(nHeldMain > 1 && nHeld > nHeldMain && stopAfter > n, "all");
	fiftyoneDegreesEvidenceFree(e);
	if (pseudo) fiftyoneDegreesEvidenceFree(pseudo);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
}

static const struct { const char *text; unsigned n, e; } known[4] = {
	{ "server.", 7, 4 }, { "header.", 7, 1 }, { "query.", 6, 8 }, { "cookie.", 7, 16 } };

void harness_key(void) {
	size_t n = (size_t)VERIF_SPLIT(verif_range(0, KEY)), i, k;
	char *s = (char*)malloc(n + 1);
	fiftyoneDegreesEvidencePrefixMap *m;
	unsigned expect = 0;
	for (i = 0; i < n; i++) { s[i] = (char)verif_u8(); VERIF_ASSUME(s[i] != 0); }
	s[n] = 0;
	m = fiftyoneDegreesEvidenceMapPrefix(s);
	for (k = 0; k < 4; k++) {
		_Bool same = n > known[k].n;
		for (i = 0; same && i < known[k].n; i++) same = s[i] == known[k].text[i];
		if (same) expect = known[k].e;
	}
	VERIF_ASSERT((m != NULL) == (expect != 0), "known prefix followed by a field, or nothing");
	if (m) {
		VERIF_ASSERT((unsigned)m->prefixEnum == expect, "the prefix of the key");
		VERIF_ASSERT(m->prefixLength == (expect == 8 ? 6u : 7u), "its length");
		VERIF_WITNESS_IF(expect == 16, "cookie");
		VERIF_WITNESS_IF(expect == 8, "query");
	}
	free(s);
}

void harness_prefix(void) {
	unsigned e = verif_u32(), k;
	const char *p = fiftyoneDegreesEvidencePrefixString((fiftyoneDegreesEvidencePrefix)e);
	int is = 0;
	for (k = 0; k < 4; k++) if (e == known[k].e) {
		is = 1;
		VERIF_ASSERT(p != NULL && strcmp(p, known[k].text) == 0, "the text of the prefix");
		VERIF_WITNESS("known");
	}
	if (!is) VERIF_ASSERT(p == NULL, "no text for anything else");
}
