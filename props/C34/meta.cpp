/* Real ComponentMetaData.cpp, ProfileMetaData.cpp, PropertyMetaData.cpp, ValueMetaData.cpp */
#include <string>
#include <vector>
#include <stdlib.h>
#include <string.h>
#include "verif.h"
#include "MetaData.hpp"
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector;
static string text(void) {
	char s[LEN + 1];
	verif_string(s, LEN);
	VERIF_SPLIT(strlen(s));
	return s;
}
/* The keys of values are consistently ordered */
extern "C" void harness_order(void) {
	string s[6];
	for (int i = 0; i < 6; i++) s[i] = text();
	ValueMetaDataKey a(s[0], s[1]), b(s[2], s[3]), c(s[4], s[5]);
	bool same = a.getPropertyName() == b.getPropertyName() && a.getValueName() == b.getValueName();
	VERIF_ASSERT((a == b) == same, "equal when both names are");
	VERIF_ASSERT(!(a < a), "not before itself");
	VERIF_ASSERT((int)(a < b) + (int)(b < a) + (int)(a == b) == 1, "before, equal or after");
	if (a < b && b < c) VERIF_ASSERT(a < c, "transitive");
	if (a < b) VERIF_ASSERT(b.getPropertyName() <= a.getPropertyName(), "first by property");
	VERIF_WITNESS_IF(a < b && b < c, "ordered");
}
extern "C" void harness_small(void) {
	{
		byte id = verif_u8(), component = verif_u8();
		uint32_t profile = verif_u32(), otherId = verif_u32();
		string name = text(), description = text(), url = text(), value = text();
		ComponentMetaData *c = new ComponentMetaData(id, name, profile);
		ComponentMetaData copy(c);
		delete c;
		VERIF_ASSERT(copy.getComponentId() == id && copy.getComponentIdAsInt() == (int)id && copy.getKey() == id && copy.getName() == name && copy.getDefaultProfileId() == profile, "the component given");
		VERIF_ASSERT((copy == ComponentMetaData(component, name, profile)) == (id == component), "equal by key");
		VERIF_ASSERT((copy != ComponentMetaData(component, name, profile)) == (id != component), "different by key");
		ProfileMetaData *p = new ProfileMetaData(profile, component);
		ProfileMetaData copied(p);
		delete p;
		VERIF_ASSERT(copied.getProfileId() == profile && copied.getKey() == profile && copied.getComponentId() == component, "the profile given");
		VERIF_ASSERT((copied == ProfileMetaData(otherId, component)) == (profile == otherId), "equal by key");
		ValueMetaData *v = new ValueMetaData(ValueMetaDataKey(name, value), description, url);
		ValueMetaData kept(v);
		delete v;
		VERIF_ASSERT(kept.getName() == value && kept.getKey().getPropertyName() == name && kept.getDescription() == description && kept.getUrl() == url, "the value given");
		VERIF_ASSERT(ValueMetaDataKey(name, value) == kept.getKey(), "the key given");
		VERIF_WITNESS("end");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
extern "C" void harness_property(void) {
	{
		string s[7];
		bool f[6];
		byte order = verif_u8(), component = verif_u8();
		uint32_t e = verif_u32();
		int i;
		vector<string> files;
		vector<uint32_t> evidence;
		/* one of the texts of any content, the others told apart */
		int any = (int)VERIF_SPLIT(verif_range(0, 6));
		for (i = 0; i < 7; i++) s[i] = i == any ? text() : string(1, (char)('a' + i));
		for (i = 0; i < 6; i++) f[i] = verif_bool();
		if (VERIF_SPLIT(verif_bool())) files.push_back(s[6]);
		if (VERIF_SPLIT(verif_bool())) evidence.push_back(e);
		PropertyMetaData *p = new PropertyMetaData(s[0], files, s[1], s[2], s[3], f[0], order, f[1], f[2], f[3], f[4], f[5], s[4], s[5], component, evidence);
		PropertyMetaData copy(p);
		delete p;
		for (i = 0; i < 2; i++) {
			VERIF_ASSERT(copy.getName() == s[0] && copy.getKey() == s[0], "the name given");
			VERIF_ASSERT(copy.getType() == s[1], "the type given");
			VERIF_ASSERT(copy.getCategory() == s[2], "the category given");
			VERIF_ASSERT(copy.getUrl() == s[3], "the URL given");
			VERIF_ASSERT(copy.getDescription() == s[4], "the description given");
			VERIF_ASSERT(copy.getDefaultValue() == s[5], "the default value given");
			VERIF_ASSERT(copy.getAvailable() == f[0], "available as given");
			VERIF_ASSERT(copy.getIsMandatory() == f[1], "mandatory as given");
			VERIF_ASSERT(copy.getIsList() == f[2], "a list as given");
			VERIF_ASSERT(copy.getIsObsolete() == f[3], "obsolete as given");
			VERIF_ASSERT(copy.getShow() == f[4], "shown as given");
			VERIF_ASSERT(copy.getShowValues() == f[5], "values shown as given");
			VERIF_ASSERT(copy.getDisplayOrder() == (int)order, "the order given");
			VERIF_ASSERT(copy.getComponentId() == component, "the component given");
			vector<string> g = copy.getDataFilesWherePresent();
			VERIF_ASSERT(g.size() == files.size() && (g.size() == 0 || g[0] == s[6]), "the files given");
			vector<uint32_t> h = copy.getEvidenceProperties();
			VERIF_ASSERT(h.size() == evidence.size() && (h.size() == 0 || h[0] == e), "the evidence given");
		}
		VERIF_WITNESS("end");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
