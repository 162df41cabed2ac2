/* Real EvidenceBase.cpp */
#include <string>
#include <map>
#include <stdlib.h>
#include <string.h>
#include "verif.h"
#include "EvidenceBase.hpp"
using namespace FiftyoneDegrees::Common;
using std::string;
static const struct { const char *text; fiftyoneDegreesEvidencePrefix prefix; } known[] = {
	{ "server.", FIFTYONE_DEGREES_EVIDENCE_SERVER }, { "header.", FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING },
	{ "query.", FIFTYONE_DEGREES_EVIDENCE_QUERY }, { "cookie.", FIFTYONE_DEGREES_EVIDENCE_COOKIE }, { "other.", FIFTYONE_DEGREES_EVIDENCE_IGNORE }
};
class Some : public EvidenceBase {
public:
	fiftyoneDegreesEvidencePrefix refused;
protected:
	bool isRelevant(fiftyoneDegreesEvidencePrefix p) { return p != refused; }
};
#define N 2
static struct { int kind, live; char field[3], value[24]; } item[N];
/* What C sees is what the map holds */
static void check(Some &e) {
	int i, n = 0, calls = 1;
	fiftyoneDegreesEvidenceKeyValuePairArray *a = e.get();
	VERIF_ASSERT(a != NULL, "evidence is made");
	for (i = 0; i < N; i++) {
		uint32_t j;
		bool found = false;
		if (!item[i].live || item[i].kind == 4 || item[i].field[0] == 0 || known[item[i].kind].prefix == e.refused) continue;
		n++;
		for (j = 0; j < a->count; j++) if (a->items[j].prefix == known[item[i].kind].prefix && strcmp(a->items[j].field, item[i].field) == 0) {
			VERIF_ASSERT(!found, "once");
			found = true;
			VERIF_ASSERT(strcmp((const char*)a->items[j].originalValue, item[i].value) == 0, "the value given");
			VERIF_ASSERT(a->items[j].parsedValue == NULL, "not parsed yet");
		}
		VERIF_ASSERT(found, "relevant evidence is there");
	}
	VERIF_ASSERT((int)a->count == n, "nothing else is there");
	VERIF_WITNESS_IF(n == N, "all");
	(void)calls;
}
extern "C" void harness_evidence(void) {
	{
		int i, k;
		Some e;
		e.refused = known[VERIF_SPLIT(verif_range(3, 4))].prefix;
		for (i = 0; i < N; i++) {
			item[i].kind = (int)VERIF_SPLIT(verif_range(0, 4));
			item[i].live = 1;
			verif_string(item[i].field, LEN);
			verif_string(item[i].value, LEN);
			VERIF_SPLIT(strlen(item[i].field));
			if (i > 0 && item[0].kind == item[1].kind) VERIF_ASSUME(strcmp(item[0].field, item[1].field) != 0);
			string key(known[item[i].kind].text);
			key.append(item[i].field);
			e[key] = item[i].value;
		}
		check(e);
		switch (VERIF_SPLIT(verif_range(0, 4))) {
		case 0: break;
		case 1: e.clear(); for (i = 0; i < N; i++) item[i].live = 0; break;
		case 4: {
			/* another value, long enough to be stored elsewhere */
			string key(known[item[1].kind].text), value;
			key.append(item[1].field);
			memset(item[1].value, 'v', 20);
			verif_string(item[1].value + 20, LEN);
			value.assign(item[1].value);
			e[key] = value;
			break;
		}
		case 2: case 3: {
			string key(known[item[0].kind].text);
			key.append(item[0].field);
			Some::iterator it = e.find(key), next;
			VERIF_ASSERT(it != e.end(), "the key is there");
			next = it;
			next++;
			if (VERIF_SPLIT(verif_bool())) e.erase(it); else e.erase(it, next);
			item[0].live = 0;
		} }
		check(e);
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
