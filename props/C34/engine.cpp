/* Real EngineBase.cpp, MetaData.cpp, EntityMetaDataBuilder.hpp, ConfigBase.cpp */
#include <string>
#include <vector>
#include <memory>
#include <sstream>
#include <stdlib.h>
#include <string.h>
#include "verif.h"
#include "EngineBase.hpp"
#include "EntityMetaDataBuilder.hpp"
#include "memory.h"
#include "overrides.h"
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector; using std::stringstream; using std::shared_ptr;
static int metas;
class Meta : public MetaData {
public:
	Meta(shared_ptr<fiftyoneDegreesResourceManager> m) : MetaData(m) { metas++; }
	~Meta() { metas--; }
	string text(fiftyoneDegreesCollection *c, uint32_t offset) { return getString(c, offset); }
	Collection<byte, ComponentMetaData>* getComponents() const { return NULL; }
	Collection<string, PropertyMetaData>* getProperties() const { return NULL; }
	Collection<uint32_t, ProfileMetaData>* getProfiles() const { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValues() const { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValuesForProperty(PropertyMetaData*) const { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValuesForProfile(ProfileMetaData*) const { return NULL; }
	ComponentMetaData* getComponentForProfile(ProfileMetaData*) const { return NULL; }
	ComponentMetaData* getComponentForProperty(PropertyMetaData*) const { return NULL; }
	ProfileMetaData* getDefaultProfileForComponent(ComponentMetaData*) const { return NULL; }
	ValueMetaData* getDefaultValueForProperty(PropertyMetaData*) const { return NULL; }
	Collection<string, PropertyMetaData>* getPropertiesForComponent(ComponentMetaData*) const { return NULL; }
	PropertyMetaData* getPropertyForValue(ValueMetaData*) const { return NULL; }
	Collection<string, PropertyMetaData>* getEvidencePropertiesForProperty(PropertyMetaData*) const { return NULL; }
};
class Builder : public EntityMetaDataBuilder {
public:
	static string text(fiftyoneDegreesCollection *c, uint32_t offset) { return getString(c, offset); }
};
class Engine : public EngineBase {
public:
	Engine(ConfigBase *c, RequiredPropertiesConfig *r) : EngineBase(c, r) {}
	ResultsBase* processBase(EvidenceBase*) const { return NULL; }
	void refreshData() const {}
	void refreshData(const char*) const {}
	void refreshData(void*, long) const {}
	void refreshData(unsigned char[], long) const {}
	string getDataFilePath() const { return ""; }
	string getDataFileTempPath() const { return ""; }
	Date getPublishedTime() const { return Date(); }
	Date getUpdateAvailableTime() const { return Date(); }
	string getProduct() const { return "P"; }
	string getType() const { return "T"; }
	void headers(fiftyoneDegreesHeaders *h) { initHttpHeaderKeys(h); }
	void overrides(fiftyoneDegreesOverridePropertyArray *o) { initOverrideKeys(o); }
	string append(fiftyoneDegreesCollection *c, uint32_t offset) { stringstream s; appendString(s, c, offset); return s.str(); }
	shared_ptr<fiftyoneDegreesResourceManager> shared() { return manager; }
	void meta() { metaData = new Meta(manager); }
};
static int freed;
static void freeResource(void *r) { (*(int*)r)++; }
static bool contains(const vector<string> *v, const string &s) {
	int n = 0;
	for (size_t i = 0; i < v->size(); i++) if ((*v)[i] == s) n++;
	VERIF_ASSERT(n <= 1, "a key is there once");
	return n == 1;
}
#define N 2
extern "C" void harness_keys(void) {
	{
		fiftyoneDegreesConfigBase c;
		struct __attribute__((packed)) { int16_t size; char text[3]; } names[N];
		fiftyoneDegreesPropertyAvailable available[N];
		int i, upper, prefix, nh = (int)VERIF_SPLIT(verif_range(0, N)), no = (int)VERIF_SPLIT(verif_range(0, N)), wanted = 0;
		char header[N][3];
		memset(&c, 0, sizeof(c));
		ConfigBase config(&c);
		config.setUseUpperPrefixHeaders(upper = (int)VERIF_SPLIT(verif_bool()));
		prefix = (int)VERIF_SPLIT(verif_bool());
		Engine e(&config, NULL);
		fiftyoneDegreesHeaders *h = (fiftyoneDegreesHeaders*)malloc(sizeof(fiftyoneDegreesHeaders) + N * sizeof(fiftyoneDegreesHeader));
		memset(h, 0, sizeof(fiftyoneDegreesHeaders));
		h->items = (fiftyoneDegreesHeader*)(h + 1);
		h->count = h->capacity = nh;
		for (i = 0; i < nh; i++) {
			verif_string(header[i], 2);
			h->items[i].nameLength = VERIF_SPLIT(strlen(header[i]));
			h->items[i].name = header[i];
		}
		fiftyoneDegreesOverridePropertyArray *o = (fiftyoneDegreesOverridePropertyArray*)malloc(sizeof(fiftyoneDegreesOverridePropertyArray) + N * sizeof(fiftyoneDegreesOverrideProperty));
		memset(o, 0, sizeof(fiftyoneDegreesOverridePropertyArray));
		o->items = (fiftyoneDegreesOverrideProperty*)(o + 1);
		o->count = o->capacity = no;
		o->prefix = prefix;
		for (i = 0; i < no; i++) {
			verif_string(names[i].text, 1);
			VERIF_SPLIT(strlen(names[i].text));
			names[i].size = 2;
			fiftyoneDegreesDataReset(&available[i].name.data);
			available[i].name.data.ptr = (byte*)&names[i];
			o->items[i].available = &available[i];
		}
		e.headers(h);
		e.overrides(VERIF_SPLIT(verif_bool()) ? o : (no = 0, (fiftyoneDegreesOverridePropertyArray*)NULL));
		free(h);
		free(o);
		const vector<string> *keys = e.getKeys();
		size_t total = 0;
		vector<string> all;
		for (i = 0; i < nh; i++) {
			if (strchr(header[i], 0x1F) != NULL) continue;
			for (int q = 0; q < 2; q++) {
				string k(q ? "query." : "header.");
				if (upper) k.append("HTTP_");
				k.append(header[i]);
				VERIF_ASSERT(contains(keys, k), "every header can be given");
				if (!contains(&all, k)) all.push_back(k);
			}
		}
		for (i = 0; i < no; i++) for (int q = 0; q < 2; q++) {
			string k(q ? "query." : "cookie.");
			if (prefix) k.append("51D_");
			k.append(names[i].text);
			VERIF_ASSERT(contains(keys, k), "every override can be given");
			if (!contains(&all, k)) all.push_back(k);
		}
		VERIF_ASSERT(keys->size() == all.size(), "no other keys");
		VERIF_WITNESS_IF(keys->size() == 8, "all different");
		VERIF_WITNESS_IF(nh == 2 && keys->size() == 0, "pseudo headers");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
extern "C" void harness_url(void) {
	int resource = 0;
	{
		fiftyoneDegreesConfigBase c;
		char url[3], licence[3];
		fiftyoneDegreesResourceHandle *handle;
		memset(&c, 0, sizeof(c));
		ConfigBase config(&c);
		verif_string(url, 2); VERIF_SPLIT(strlen(url));
		verif_string(licence, 2); VERIF_SPLIT(strlen(licence));
		shared_ptr<fiftyoneDegreesResourceManager> kept;
		Engine *e = new Engine(&config, NULL);
		VERIF_ASSERT(e->getDataUpdateUrl() == "" && !e->getAutomaticUpdatesEnabled() && e->getMetaData() == NULL, "no updates at first");
		e->setLicenseKey(licence);
		e->setDataUpdateUrl(url);
		string want(url);
		if (url[0] == 0 && licence[0] != 0) {
			want.append("https://distributor.51degrees.com/api/v2/download?LicenceKeys=");
			want.append(licence);
			want.append("&Type=T&Product=P");
		}
		VERIF_ASSERT(e->getDataUpdateUrl() == want, "the address given, or made with the licence");
		VERIF_ASSERT(e->getAutomaticUpdatesEnabled() == (want.size() > 0), "updates when there is an address");
		VERIF_ASSERT(e->getIsThreadSafe(), "thread safe");
		if (VERIF_SPLIT(verif_bool())) e->meta();
		bool used = VERIF_SPLIT(verif_bool());
		if (used) fiftyoneDegreesResourceManagerInit(e->shared().get(), &resource, &handle, freeResource);
		kept = e->shared();
		delete e;
		VERIF_ASSERT(resource == (used ? 1 : 0), "the data set is freed once with the engine");
		VERIF_ASSERT(metas == 0, "the meta data is freed with the engine");
		VERIF_WITNESS_IF(used, "data set");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
/* Strings of collections */
static struct __attribute__((packed)) { int16_t size; char text[4]; } stored;
static int held, broken;
static uint32_t wanted;
static void* get(fiftyoneDegreesCollection *c, uint32_t index, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	VERIF_ASSERT(index == wanted, "the offset asked for");
	if (broken) { FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR); return NULL; }
	held++;
	item->collection = c;
	item->handle = NULL;
	item->data.ptr = (byte*)&stored;
	return &stored;
}
static void release(fiftyoneDegreesCollectionItem *item) {
	VERIF_ASSERT(item->data.ptr == (byte*)&stored && held == 1, "released once");
	item->data.ptr = NULL;
	held--;
}
extern "C" void harness_string(void) {
	{
		fiftyoneDegreesConfigBase c;
		fiftyoneDegreesCollection strings;
		memset(&c, 0, sizeof(c));
		memset(&strings, 0, sizeof(strings));
		strings.get = get;
		strings.release = release;
		ConfigBase config(&c);
		Engine e(&config, NULL);
		Meta m(e.shared());
		verif_string(stored.text, 3);
		stored.size = (int16_t)(1 + VERIF_SPLIT(strlen(stored.text)));
		wanted = verif_u32();
		broken = VERIF_SPLIT(verif_bool());
		try {
			string s;
			switch (VERIF_SPLIT(verif_range(0, 2))) {
			case 0: s = e.append(&strings, wanted); break;
			case 1: s = m.text(&strings, wanted); break;
			case 2: s = Builder::text(&strings, wanted); break;
			}
			VERIF_ASSERT(!broken && s == stored.text, "the text stored");
			VERIF_WITNESS("read");
		}
		catch (const FatalException &x) {
			VERIF_ASSERT(broken && x.getCode() == FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR, "the failure is thrown");
			VERIF_WITNESS("failed");
		}
		VERIF_ASSERT(held == 0, "the string is given back");
	}
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
}
