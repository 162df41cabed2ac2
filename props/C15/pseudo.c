/* Pseudo evidence from any combination of headers, evidence and buffer. */
#include "pseudoheader.h"
#include "fiftyone.h"
#include "verif.h"
#ifndef EVID
#define EVID 3
#endif
#ifndef VAL
#define VAL 2
#endif
#ifndef ENTRIES
#define ENTRIES 2
#endif
/* Headers built by the real HeadersCreate from these names */
static struct { int16_t size; char text[8]; } __attribute__((packed)) names[] = {
	{ 0, "aa\x1f" "b" }, { 0, "b\x1f" "aa" "\x1f" "c" } };
#define NAMES 2
static fiftyoneDegreesCollection coll;
static void release(fiftyoneDegreesCollectionItem *item) { item->data.ptr = NULL; }
static long get(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	if (index >= NAMES) return -1;
	item->collection = &coll;
	item->handle = NULL;
	item->data.ptr = (byte*)&names[index];
	return (long)index + 1;
}
/* The fourth is the start of the name of a part, or starts with it */
static const char *fields[] = { "aA", "b", "c", "a", "B\x1f" "aa\x1f" "C" };
static const fiftyoneDegreesEvidencePrefix order[2] = { FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING };
static char values[EVID][VAL + 1];
static int field[EVID]; static unsigned prefix[EVID];
static int nEvidence;

/* The value for a field, first in order of the evidence */
static const char* value(int f, unsigned p) {
	int i;
	for (i = 0; i < nEvidence; i++) if (field[i] == f && prefix[i] == p) return values[i];
	return NULL;
}

void harness(void) {
	fiftyoneDegreesHeaders *h;
	fiftyoneDegreesEvidenceKeyValuePairArray *e, *p;
	char *buffers[ENTRIES], expect[4 * VAL + 8];
	int i, k, entries, out = 0, full = 0;
	size_t size, n, j;
	EXCEPTION_CREATE;
	coll.release = release;
	h = fiftyoneDegreesHeadersCreate(0, NULL, get);
#if EVID == 2
	if (VERIF_SPLIT(verif_bool())) fields[3] = "aab";
#endif
	nEvidence = (int)VERIF_SPLIT(verif_range(0, EVID));
	e = fiftyoneDegreesEvidenceCreate(EVID);
	for (i = 0; i < nEvidence; i++) {
		field[i] = (int)VERIF_SPLIT(verif_range(0, 4));
		prefix[i] = (unsigned)VERIF_SPLIT(verif_bool() ? 8 : verif_bool() ? 1 : 16);
		n = (size_t)VERIF_SPLIT(verif_range(0, VAL));
		for (j = 0; j < n; j++) { values[i][j] = (char)verif_u8(); VERIF_ASSUME(values[i][j] != 0); }
		values[i][n] = 0;
		fiftyoneDegreesEvidenceAddString(e, (fiftyoneDegreesEvidencePrefix)prefix[i], fields[field[i]], values[i]);
	}
	entries = (int)VERIF_SPLIT(verif_range(1, ENTRIES));
	size = (size_t)VERIF_SPLIT(verif_range(2, 2 * VAL + 2));
	p = e->pseudoEvidence = fiftyoneDegreesEvidenceCreate((uint32_t)entries);
	for (i = 0; i < entries; i++) {
		buffers[i] = (char*)malloc(size);
		for (j = 0; j < size; j++) buffers[i][j] = 'Z';
		p->items[i].originalValue = buffers[i];
	}
	fiftyoneDegreesPseudoHeadersAddEvidence(e, h, size, order, 2, exception);
	VERIF_ASSERT(p->count <= (uint32_t)entries, "no more entries than there are");
	for (k = 0; k < NAMES; k++) {
		static const int parts[NAMES][3] = { { 0, 1, -1 }, { 1, 0, 2 } };
		int o, s;
		_Bool given = 0, got = 0;
		/* evidence given for the pseudo header itself */
		if (k == 1) given = value(4, 8) || value(4, 1);
		for (o = 0; o < 2 && !given && !got; o++) {
			n = 0;
			for (s = 0; s < 3 && parts[k][s] >= 0; s++) {
				const char *v = value(parts[k][s], order[o]);
				if (v == NULL) break;
				if (s > 0) expect[n++] = 0x1f;
				while (*v) expect[n++] = *v++;
			}
			if (s < 3 && parts[k][s] >= 0) continue; /* a part is missing */
			expect[n] = 0;
			got = 1;
			if (out == entries) { full = 1; break; }
			VERIF_ASSERT((uint32_t)out < p->count, "generated when all the parts have evidence");
			VERIF_ASSERT(strcmp(p->items[out].field, names[k].text) == 0, "for the pseudo header");
			VERIF_ASSERT(p->items[out].prefix == order[o], "query evidence is preferred");
			VERIF_ASSERT(p->items[out].originalValue == buffers[out], "in the buffer provided");
			for (j = 0; j < size - 1 && j < n; j++) VERIF_ASSERT(buffers[out][j] == expect[j], "the values joined by the separator");
			VERIF_ASSERT(j == size - 1 || buffers[out][j] == 0, "terminated");
			VERIF_ASSERT(buffers[out][size - 1] == 0 || n < size - 1, "terminated within the buffer");
			VERIF_WITNESS_IF(o == 1 && n > 2, "header evidence");
			VERIF_WITNESS_IF(n >= size, "truncated");
			out++;
		}
	}
	VERIF_ASSERT(p->count == (uint32_t)out, "nothing else is generated");
	if (EXCEPTION_FAILED) VERIF_ASSERT(full, "an exception only when there are too few entries");
#if EVID > 2
	VERIF_WITNESS_IF(full, "more than the entries");
	VERIF_WITNESS_IF(out == 2, "both");
#endif
	fiftyoneDegreesPseudoHeadersRemoveEvidence(e, size);
	VERIF_ASSERT(p->count == 0, "cleared");
	for (i = 0; i < entries; i++) {
		VERIF_ASSERT(p->items[i].field == NULL || i >= out, "fields are cleared");
		VERIF_ASSERT(p->items[i].originalValue == buffers[i], "buffers are kept");
		if (i < out) for (j = 0; j < size; j++) VERIF_ASSERT(buffers[i][j] == 0, "values are cleared");
		free(buffers[i]);
	}
	fiftyoneDegreesEvidenceFree(p);
	fiftyoneDegreesEvidenceFree(e);
	fiftyoneDegreesHeadersFree(h);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing leaked");
}
void harness_null(void) {
	fiftyoneDegreesEvidenceKeyValuePairArray *e = fiftyoneDegreesEvidenceCreate(1);
	fiftyoneDegreesHeaders *h;
	EXCEPTION_CREATE;
	coll.release = release;
	h = fiftyoneDegreesHeadersCreate(0, NULL, get);
	fiftyoneDegreesEvidenceAddString(e, FIFTYONE_DEGREES_EVIDENCE_QUERY, "a", "1");
	fiftyoneDegreesPseudoHeadersAddEvidence(verif_bool() ? NULL : e, verif_bool() ? NULL : h, 4, order, 2, exception);
	fiftyoneDegreesPseudoHeadersRemoveEvidence(e, 4);
	fiftyoneDegreesEvidenceFree(e);
	fiftyoneDegreesHeadersFree(h);
	VERIF_WITNESS("end");
}
