/* Real Value.hpp, Exceptions.cpp */
#include <string>
#include <vector>
#include <stdlib.h>
#include <string.h>
#include "verif.h"
#include "Value.hpp"
#include "status.h"
#include "exceptions.h"
#include "memory.h"
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector;
typedef fiftyoneDegreesResultsNoValueReason Reason;
template <class T> static void check(Value<T> &v, bool has, const T &value, bool reasoned, Reason reason, const char *message) {
	const char *text = NULL;
	int thrown = 0;
	Value<T> copy(v);
	VERIF_ASSERT(copy.hasValue() == has, "has a value when one is set");
	if (reasoned) {
		VERIF_ASSERT(copy.getNoValueReason() == reason, "the reason set");
		VERIF_ASSERT(copy.getNoValueMessage() == message, "the message set");
	}
	for (int star = 0; star < 2; star++) {
		thrown = 0;
		try {
			T got = star ? *copy : copy.getValue();
			VERIF_ASSERT(has, "no value, no data");
			VERIF_ASSERT(got == value, "the value set");
		}
		catch (const InvalidPropertyException &e) { thrown = 1; text = e.what(); VERIF_ASSERT(message == NULL || strcmp(text, message) == 0, "the message is thrown"); }
		catch (const TooManyValuesException &) { thrown = 2; }
		catch (const NoValuesAvailableException &e) {
			thrown = 3;
			text = e.what();
			if (reason == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_DIFFERENCE || reason == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NO_RESULTS)
				VERIF_ASSERT(message == NULL || strcmp(text, message) == 0, "the message is thrown");
		}
		VERIF_ASSERT(thrown != 0 || has, "the reason is thrown");
		if (!has) {
			int want = !reasoned ? 3 : reason == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY ? 1
				: reason == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES ? 2 : 3;
			VERIF_ASSERT(thrown == want, "the reason is thrown");
		}
		else VERIF_ASSERT(thrown == 0, "the value is returned");
	}
}
template <class T> static void any(T value) {
	static char message[3];
	Reason reason = FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN;
	bool has = false, reasoned = false;
	const char *m = NULL;
	Value<T> v;
	switch (VERIF_SPLIT(verif_range(0, 2))) {
	case 0: break;
	case 1:
		reason = (Reason)VERIF_SPLIT(verif_range(0, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN));
		reasoned = true;
		if (VERIF_SPLIT(verif_bool())) { verif_string(message, 2); m = message; }
		v.setNoValueReason(reason, m);
		VERIF_WITNESS("no value");
		break;
	case 2:
		v.setValue(value);
		has = true;
		VERIF_WITNESS("value");
		break;
	}
	check(v, has, value, reasoned, reason, m);
}
extern "C" void harness_value(void) {
	if (VERIF_SPLIT(verif_bool())) any<int>((int)verif_u32());
	else {
		char text[4];
		verif_string(text, 3);
		VERIF_SPLIT(strlen(text));
		any<string>(text);
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
extern "C" void harness_exceptions(void) {
	{
		fiftyoneDegreesStatusCode code = (fiftyoneDegreesStatusCode)VERIF_SPLIT(verif_range(0, 40));
		char name[3];
		verif_string(name, 2);
		VERIF_SPLIT(strlen(name));
		bool named = VERIF_SPLIT(verif_bool());
		const char *want = fiftyoneDegreesStatusGetMessage(code, named ? name : NULL);
		StatusCodeException *e = named ? new StatusCodeException(code, name) : new StatusCodeException(code);
		try { throw *e; }
		catch (const StatusCodeException &c) {
			VERIF_ASSERT(c.getCode() == code, "the code given");
			VERIF_ASSERT(strcmp(c.what(), want == NULL ? "" : want) == 0, "the message of the code");
		}
		delete e;
		if (want != NULL) fiftyoneDegreesFree((void*)want);
		FIFTYONE_DEGREES_EXCEPTION_CREATE;
		exception->status = code;
		FatalException f(exception);
		VERIF_ASSERT(f.getCode() == code, "the code of the exception");
		VERIF_WITNESS_IF(named, "named");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
