/* Real IpAddress.cpp */
#include <stdexcept>
#include <stdlib.h>
#include "verif.h"
#include "h_alloc.h"
#include <string.h>
#ifndef LEN
#define LEN 3
#endif
#include "IpAddress.hpp"
using FiftyoneDegrees::IpIntelligence::IpAddress;
static int sizeOf(fiftyoneDegreesEvidenceIpType t) {
	return t == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16;
}
static void copies(const IpAddress &a, const unsigned char *bytes) {
	unsigned char copy[18];
	uint32_t size = verif_range(0, 17);
	uint32_t n = sizeOf(a.getType()), i;
	memset(copy, 0xEE, sizeof(copy));
	a.getCopyOfIpAddress(copy, size);
	if (n > size) n = size;
	for (i = 0; i < sizeof(copy); i++) {
		if (i < n) VERIF_ASSERT(copy[i] == bytes[i], "the copy holds the address");
		else VERIF_ASSERT(copy[i] == 0xEE, "nothing is written beyond the copy");
	}
}
/* from bytes, and a copy of the object */
extern "C" void harness_bytes(void) {
	unsigned char bytes[16], zero[16] = { 0 };
	int i, n;
	fiftyoneDegreesEvidenceIpType t = (fiftyoneDegreesEvidenceIpType)VERIF_SPLIT(verif_range(0, 2));
	n = t == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16;
	unsigned char *given = (unsigned char*)malloc(n), kept[16];
	verif_bytes(given, n);
	memcpy(kept, given, n);
	IpAddress a(given, t);
	free(given);
	IpAddress b(a);
	VERIF_ASSERT(b.getType() == t, "the type given");
	const unsigned char *want = t == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID ? zero : kept;
	VERIF_ASSERT(memcmp(b.getIpAddress(), want, n) == 0, "the bytes given");
	copies(b, want);
	IpAddress none;
	VERIF_ASSERT(none.getType() == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID && memcmp(none.getIpAddress(), zero, 16) == 0, "an empty address");
	VERIF_WITNESS_IF(t == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4, "v4");
	VERIF_WITNESS_IF(t == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6, "v6");
}
/* from a string: what the parser says */
extern "C" void harness_text(void) {
	char text[LEN + 1];
	int live;
	verif_string(text, LEN);
	fiftyoneDegreesEvidenceIpAddress *p = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, text, text + strlen(text));
	live = verif_live_heap();
	allocMayFail(1);
	try {
		IpAddress a(text);
		VERIF_ASSERT(p != NULL, "an address that does not parse is refused");
		VERIF_ASSERT(a.getType() == p->type, "the type parsed");
		VERIF_ASSERT(memcmp(a.getIpAddress(), p->address, sizeOf(p->type)) == 0, "the bytes parsed");
		copies(a, p->address);
		VERIF_WITNESS("parsed");
	}
	catch (const std::exception &) {
		VERIF_ASSERT(p == NULL || allocFailed > 0, "an address that parses is taken");
		VERIF_WITNESS("refused");
	}
	VERIF_ASSERT(verif_live_heap() == live, "nothing is left");
	if (p != NULL) fiftyoneDegreesFree(p);
}
