/* Real RequiredPropertiesConfig.cpp */
#include <string>
#include <vector>
#include <stdlib.h>
#include "verif.h"
#include "RequiredPropertiesConfig.hpp"
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector;
#ifndef LEN
#define LEN 4
#endif
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool same(const string &a, const string &b) {
	size_t i;
	if (a.size() != b.size()) return false;
	for (i = 0; i < a.size(); i++) if (lower(a[i]) != lower(b[i])) return false;
	return true;
}
static bool equal(const vector<string> &a, const vector<string> &b) {
	size_t i;
	if (a.size() != b.size()) return false;
	for (i = 0; i < a.size(); i++) if (a[i] != b[i]) return false;
	return true;
}
/* The answers agree with the names given, however often they are asked for */
static void check(RequiredPropertiesConfig &c, const vector<string> &want) {
	int k;
	size_t i;
	char name[3];
	bool has = false;
	verif_string(name, 2);
	for (i = 0; i < want.size(); i++) if (same(want[i], name)) has = true;
	for (k = 0; k < CALLS; k++) switch (VERIF_SPLIT(verif_range(0, 2))) {
	case 0: VERIF_ASSERT(equal(c.getProperties(), want), "the names given"); break;
	case 1: VERIF_ASSERT(c.containsProperty(name) == has, "contains the names given"); break;
	case 2: VERIF_ASSERT(c.getCount() == (int)want.size(), "the number of names"); break;
	}
	VERIF_WITNESS_IF(has, "contained");
}
extern "C" void harness_names(void) {
	{
		vector<string> given, kept;
		int i, n = (int)VERIF_SPLIT(verif_range(0, 2));
		for (i = 0; i < n; i++) {
			char name[3];
			verif_string(name, 2);
			VERIF_SPLIT(strlen(name));
			given.push_back(name);
			kept.push_back(name);
		}
		RequiredPropertiesConfig c(&given);
		given.clear();
		check(c, kept);
		if (n > 0) {
			fiftyoneDegreesPropertiesRequired *p = c.getConfig();
			VERIF_ASSERT(p->count == n && p->string == NULL && p->existing == NULL, "the structure of the list");
			for (i = 0; i < n; i++) VERIF_ASSERT(kept[i] == p->array[i], "the names in the structure");
		}
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
extern "C" void harness_list(void) {
	{
		char text[LEN + 1];
		int i;
		vector<string> want;
		string part;
		verif_string(text, LEN);
		/* the separators of the C library */
		for (i = 0; i <= LEN; i++) {
			VERIF_SPLIT(text[i] == 0 || text[i] == ',' || text[i] == '|' || text[i] == ' ');
			if (text[i] == 0 || text[i] == ',' || text[i] == '|' || text[i] == ' ') {
				if (part.size() > 0) want.push_back(part);
				part.clear();
				if (VERIF_SPLIT(text[i] == 0)) break;
			}
			else part.push_back(text[i]);
		}
		string given(text);
		RequiredPropertiesConfig c(given);
		given.clear();
		check(c, want);
		VERIF_ASSERT(strcmp(c.getConfig()->string, text) == 0 && c.getConfig()->array == NULL, "the list is kept unmodified");
		VERIF_WITNESS_IF(want.size() == 2, "two names");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
extern "C" void harness_none(void) {
	{
		RequiredPropertiesConfig a, b((const char*)NULL), c((const string*)NULL), d((vector<string>*)NULL);
		vector<string> want;
		VERIF_ASSERT(equal(a.getProperties(), want) && a.getCount() == 0 && !a.containsProperty("x"), "no names");
		VERIF_ASSERT(equal(b.getProperties(), want) && equal(c.getProperties(), want) && equal(d.getProperties(), want), "no names");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
	VERIF_WITNESS("end");
}
