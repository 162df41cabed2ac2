/* Conversion of floats between the file and native representations. */
#include <math.h>
#include <string.h>
#include "fiftyone.h"
#include "float.h"
#include "verif.h"
static float fromBits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t toBits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
#ifndef VERIF_NATIVE
/* Exact for the bases used */
float powf(float base, float e) {
	int n = (int)e;
	VERIF_ASSERT((float)n == e && (base == 2.0f || base == -1.0f), "MODEL integer power of 2 or -1");
	if (base == -1.0f) return (n & 1) ? -1.0f : 1.0f;
	VERIF_ASSERT(n >= -126 && n <= 127, "MODEL normal power of 2");
	return fromBits((uint32_t)(n + 127) << 23);
}
/* value = result * 2^exp with 0.5 <= |result| < 1 */
double frexp(double v, int *exp) {
	uint64_t b;
	memcpy(&b, &v, 8);
	if (v == 0) { *exp = 0; return v; }
	/* floats are normal doubles */
	*exp = (int)((b >> 52) & 0x7ff) - 1022;
	b = (b & 0x800fffffffffffffull) | (1022ull << 52);
	memcpy(&v, &b, 8);
	return v;
}
#endif
static int isNan(uint32_t b) { return (b & 0x7f800000u) == 0x7f800000u && (b & 0x7fffffu); }
static int isInf(uint32_t b) { return (b & 0x7fffffffu) == 0x7f800000u; }
#ifdef COORDINATE
#include <stdlib.h>
#include "coordinate.h"
#include "string.h"
/* What a pattern in the file stands for (see tonative) */
static int native(uint32_t a, uint32_t b) {
	if ((a & 0x7fffffffu) == 0x7fffffffu) return b == (a & 0xff800000u);
	return (a & 0x7f800000u) == 0x7f800000u ? isNan(b) || b == a : a == b;
}
/* An item of any bytes, no longer than a coordinate is */
void harness(void) {
	byte *bytes = (byte*)malloc(11);
	uint32_t lat = verif_u32(), lon = verif_u32();
	fiftyoneDegreesCollectionItem item;
	fiftyoneDegreesException raised, *exception = &raised;
	fiftyoneDegreesCoordinate c;
	VERIF_ASSUME(bytes != NULL);
	bytes[0] = verif_u8(); bytes[1] = verif_u8(); bytes[2] = verif_u8();
	memcpy(bytes + 3, &lat, 4);
	memcpy(bytes + 7, &lon, 4);
	memset(&item, 0, sizeof(item));
	item.data.ptr = bytes;
	FIFTYONE_DEGREES_EXCEPTION_CLEAR;
	c = fiftyoneDegreesIpiGetCoordinate(&item, exception);
	if (bytes[2] == FIFTYONE_DEGREES_STRING_COORDINATE) {
		VERIF_ASSERT(FIFTYONE_DEGREES_EXCEPTION_OKAY, "a coordinate is read");
		VERIF_ASSERT(native(lat, toBits(c.lat)), "the latitude stored");
		VERIF_ASSERT(native(lon, toBits(c.lon)), "the longitude stored");
		VERIF_WITNESS("coordinate");
	}
	else {
		VERIF_ASSERT(raised.status == FIFTYONE_DEGREES_STATUS_CORRUPT_DATA, "not a coordinate");
		VERIF_ASSERT(c.lat == 0 && c.lon == 0, "nothing is made up");
		VERIF_WITNESS("corrupt");
	}
	free(bytes);
}
#else
void harness(void) {
	uint32_t a = verif_u32(), b;
	fiftyoneDegreesFloatInternal f;
	memset(&f, 0, sizeof f);
#ifdef TOFILE
	f = fiftyoneDegreesNativeToFloat(fromBits(a));
	memcpy(&b, f.value, 4);
	if (isNan(a)) VERIF_ASSERT(isNan(b), "not a number stays one");
	else if (isInf(a)) VERIF_ASSERT(b == (a | 0x7fffffu), "infinity with its sign");
	else VERIF_ASSERT(a == b, "the IEEE-754 bytes");
	VERIF_OBSERVE(b);
	VERIF_WITNESS_IF((a & 0x7f800000u) == 0 && a > 0x80000000u && b == a, "subnormal");
#elif defined(TONATIVE)
	memcpy(f.value, &a, 4);
	b = toBits(fiftyoneDegreesFloatToNative(f));
	if ((a & 0x7fffffffu) == 0x7fffffffu) VERIF_ASSERT(b == (a & 0xff800000u), "infinity with its sign");
	else if ((a & 0x7f800000u) == 0x7f800000u) VERIF_ASSERT(isNan(b), "not a number");
	else VERIF_ASSERT(a == b, "the IEEE-754 value");
	VERIF_WITNESS_IF((a & 0x7f800000u) == 0 && a > 0x80000000u && b == a, "subnormal");
	VERIF_WITNESS_IF((a & 0x7f800000u) == 0x30000000u && a > 0x80000000u && b == a, "normal");
#elif defined(ROUNDTRIP)
	VERIF_ASSUME(!isNan(a));
	b = toBits(fiftyoneDegreesFloatToNative(fiftyoneDegreesNativeToFloat(fromBits(a))));
	VERIF_ASSERT(a == b, "identical after both conversions");
	VERIF_WITNESS_IF(a == 0xff800000u && b == a, "infinity");
#else
	fiftyoneDegreesFloatInternal g;
	int r;
	b = verif_u32();
	memcpy(f.value, &a, 4);
	memcpy(g.value, &b, 4);
	r = fiftyoneDegreesFloatIsEqual(f, g);
	VERIF_ASSERT(r == (a != b), "0 exactly when all bytes are equal");
	VERIF_WITNESS_IF(r == 1 && (a & 0xffffff) == (b & 0xffffff), "differs in the last byte");
	VERIF_WITNESS_IF(r == 0, "equal");
#endif
}
#endif
