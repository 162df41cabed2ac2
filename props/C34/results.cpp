/* Real ResultsBase.cpp, Value.hpp, Exceptions.cpp, properties.c */
#include <string>
#include <vector>
#include <memory>
#include <stdlib.h>
#include <string.h>
#include "verif.h"
#include "ResultsBase.hpp"
#include "dataset.h"
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector; using std::shared_ptr;
typedef fiftyoneDegreesResultsNoValueReason Reason;
#define NAMES 2
static struct __attribute__((packed)) { int16_t size; char text[4]; } names[NAMES];
static int asked = -9;
static bool has;
static Reason reason;
static const char message[] = "m";
static vector<string> *data;
class Results : public ResultsBase {
public:
	Results(fiftyoneDegreesResultsBase *r) : ResultsBase(r, shared_ptr<fiftyoneDegreesResourceManager>()) {}
protected:
	void getValuesInternal(int i, vector<string> &values) {
		VERIF_ASSERT(i == asked && has, "the values of the property asked for");
		for (size_t k = 0; k < data->size(); k++) values.push_back((*data)[k]);
	}
	bool hasValuesInternal(int i) {
		VERIF_ASSERT(i == asked, "the property asked for");
		return has;
	}
	const char* getNoValueMessageInternal(Reason r) {
		VERIF_ASSERT(r == reason, "the message of the reason");
		return message;
	}
	Reason getNoValueReasonInternal(int i) {
		VERIF_ASSERT(i == asked, "the property asked for");
		return reason;
	}
};
static fiftyoneDegreesCollection strings;
static void release(fiftyoneDegreesCollectionItem *item) { item->data.ptr = NULL; }
static fiftyoneDegreesString *property(void *state, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	if (index >= NAMES) return NULL;
	fiftyoneDegreesDataReset(&item->data);
	item->collection = &strings;
	item->handle = NULL;
	item->data.ptr = (byte*)&names[index];
	return (fiftyoneDegreesString*)&names[index];
}
static uint32_t evidence(void *state, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) { return 0; }
static char memory[sizeof(fiftyoneDegreesDataSetBase)] __attribute__((aligned(16)));
#define set (*(fiftyoneDegreesDataSetBase*)(void*)memory)
static fiftyoneDegreesResultsBase base = { memory };
static void start(void) {
	int i;
	strings.release = release;
	for (i = 0; i < NAMES; i++) {
		names[i].text[0] = (char)('a' + i);
		names[i].text[1] = 0;
		names[i].size = 2;
	}
	fiftyoneDegreesPropertiesRequired all = fiftyoneDegreesPropertiesDefault;
	set.available = fiftyoneDegreesPropertiesCreate(&all, NULL, property, evidence);
	VERIF_ASSERT(set.available != NULL && set.available->count == NAMES, "properties");
}
static void end(void) {
	fiftyoneDegreesPropertiesFree(set.available);
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
/* Asked by number or by any kind of name */
template <class T> static Value<T> ask(Results &r, Value<T> (Results::*byNumber)(int), Value<T> (Results::*byText)(const char*), Value<T> (Results::*byString)(const string&), Value<T> (Results::*byPointer)(const string*)) {
	int i = (int)VERIF_SPLIT(verif_range(0, NAMES));
	string name(1, (char)('a' + i));
	asked = i < NAMES ? i : -1;
	switch (VERIF_SPLIT(verif_range(0, 3))) {
	case 0: return (r.*byNumber)(asked);
	case 1: return (r.*byText)(name.c_str());
	case 2: return (r.*byString)(name);
	default: return (r.*byPointer)(&name);
	}
}
#define ASK(T, f) ask<T>(r, (Value<T> (Results::*)(int))&Results::f, (Value<T> (Results::*)(const char*))&Results::f, (Value<T> (Results::*)(const string&))&Results::f, (Value<T> (Results::*)(const string*))&Results::f)
template <class T> static bool none(Value<T> v) {
	if (!has) {
		VERIF_ASSERT(!v.hasValue() && v.getNoValueReason() == reason && v.getNoValueMessage() == message, "the reason of the results");
		VERIF_WITNESS("no value");
		return true;
	}
	return false;
}
template <class T> static bool many(Value<T> v) {
	if (none(v)) return true;
	if (data->size() > 1) {
		VERIF_ASSERT(!v.hasValue() && v.getNoValueReason() == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES, "too many values");
		return true;
	}
	if (data->size() == 0) {
		VERIF_ASSERT(!v.hasValue(), "nothing to convert");
		return true;
	}
	return false;
}
extern "C" void harness_results(void) {
	start();
	{
		int i, n = (int)VERIF_SPLIT(verif_range(0, 2)), kind = (int)VERIF_SPLIT(verif_range(0, 4));
		vector<string> values;
		Results r(&base);
		for (i = 0; i < n; i++) {
			char t[LEN + 1];
			if (kind == 2 && VERIF_SPLIT(verif_bool())) values.push_back("True");
			else if (kind == 2 && VERIF_SPLIT(verif_bool())) {
				/* one character of the text is any other, or one more */
				string s("True");
				int at = (int)VERIF_SPLIT(verif_range(0, 5));
				char x = (char)verif_range(1, 127);
				if (at < 4) s[at] = x;
				else if (at == 4) s.push_back(x);
				else s.insert(0, 1, x);
				values.push_back(s);
			}
			else {
				verif_string(t, LEN);
				VERIF_SPLIT(strlen(t));
				values.push_back(t);
			}
		}
		data = &values;
		has = VERIF_SPLIT(verif_bool());
		reason = (Reason)VERIF_SPLIT(verif_range(0, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN));
		switch (kind) {
		case 0: {
			Value<string> v = ASK(string, getValueAsString);
			if (none(v)) break;
			if (n == 0) { VERIF_ASSERT(!v.hasValue(), "nothing to convert"); break; }
			string want = values[0];
			for (i = 1; i < n; i++) { want.push_back('|'); want.append(values[i]); }
			VERIF_ASSERT(v.hasValue() && v.getValue() == want, "the values joined");
			break;
		}
		case 1: {
			Value<vector<string>> v = ASK(vector<string>, getValues);
			if (none(v)) break;
			vector<string> got = v.getValue();
			VERIF_ASSERT((int)got.size() == n, "all values");
			for (i = 0; i < n; i++) VERIF_ASSERT(got[i] == values[i], "in order");
			break;
		}
		case 2: {
			Value<bool> v = ASK(bool, getValueAsBool);
			if (many(v)) break;
			VERIF_ASSERT(v.hasValue() && v.getValue() == (strcmp(values[0].c_str(), "True") == 0), "true for True only");
			VERIF_WITNESS_IF(v.getValue(), "true");
			break;
		}
		case 3: {
			Value<int> v = ASK(int, getValueAsInteger);
			if (many(v)) break;
			VERIF_ASSERT(v.hasValue() && v.getValue() == atoi(values[0].c_str()), "the number");
			break;
		}
		case 4: {
			vector<string> got = r.getProperties();
			VERIF_ASSERT(r.getAvailableProperties() == NAMES && got.size() == NAMES, "the number of properties");
			char t[3];
			verif_string(t, 2);
			int index = (int)verif_range(-2, NAMES + 1);
			string name = r.getPropertyName(index);
			VERIF_ASSERT(r.containsProperty(t) == ((t[0] == 'a' || t[0] == 'b' || t[0] == 'A' || t[0] == 'B') && t[1] == 0), "contains the properties only");
			if (index >= 0 && index < NAMES) VERIF_ASSERT(name == names[index].text && got[index] == name, "the name of the property");
			else VERIF_ASSERT(name == "", "no such property");
			break;
		} }
	}
	end();
}
