/* Real ConfigBase.cpp, CollectionConfig.cpp, Date.cpp */
#include <string>
#include <vector>
#include <stdlib.h>
#include <string.h>
#include "verif.h"
#include "ConfigBase.hpp"
#include "CollectionConfig.hpp"
#include "Date.hpp"
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector;
extern "C" void harness_config(void) {
	fiftyoneDegreesConfigBase c;
	bool upper = verif_bool(), temp = verif_bool(), reuse = verif_bool();
	int i, k;
	memset(&c, 0, sizeof(c));
	{
		ConfigBase config(&c);
		VERIF_ASSERT(config.getTempDirectories().size() == 0, "no directories at first");
		config.setUseUpperPrefixHeaders(upper);
		config.setUseTempFile(temp);
		config.setReuseTempFile(reuse);
		for (k = 0; k < SETS; k++) {
			vector<string> given;
			char name[2][3];
			int n = (int)VERIF_SPLIT(verif_range(0, 2));
			for (i = 0; i < n; i++) {
				verif_string(name[i], 2);
				given.push_back(name[i]);
			}
			config.setTempDirectories(given);
			given.clear();
			VERIF_ASSERT(c.tempDirCount == n, "the number of directories");
			vector<string> got = config.getTempDirectories();
			VERIF_ASSERT((int)got.size() == n, "the directories given");
			for (i = 0; i < n; i++) {
				VERIF_ASSERT(strcmp(c.tempDirs[i], name[i]) == 0, "the directories for the C library");
				VERIF_ASSERT(got[i] == name[i], "the directories given");
			}
			VERIF_WITNESS_IF(n == 2, "two");
		}
		VERIF_ASSERT(config.getUseUpperPrefixHeaders() == upper && c.usesUpperPrefixedHeaders == upper, "upper case headers as set");
		VERIF_ASSERT(config.getUseTempFile() == temp && c.useTempFile == temp, "temporary file as set");
		VERIF_ASSERT(config.getReuseTempFile() == reuse && c.reuseTempFile == reuse, "reuse as set");
		VERIF_ASSERT(config.getConcurrency() == 0, "no concurrency");
	}
	VERIF_ASSERT(c.tempDirs == NULL && c.tempDirCount == 0, "no dangling directories");
	VERIF_ASSERT(verif_live_heap() == 0, "nothing is left");
	VERIF_WITNESS("end");
}
extern "C" void harness_small(void) {
	fiftyoneDegreesCollectionConfig c;
	uint32_t capacity = verif_u32(), loaded = verif_u32();
	uint16_t concurrency = verif_u16();
	verif_bytes(&c, sizeof(c));
	CollectionConfig config(&c);
	CollectionConfig copy(config);
	VERIF_ASSERT(config.getCapacity() == c.capacity && config.getLoaded() == c.loaded && config.getConcurrency() == c.concurrency, "reads the configuration");
	config.setCapacity(capacity);
	config.setConcurrency(concurrency);
	config.setLoaded(loaded);
	VERIF_ASSERT(c.capacity == capacity && c.loaded == loaded && c.concurrency == concurrency, "sets the configuration");
	VERIF_ASSERT(copy.getCapacity() == capacity && copy.getLoaded() == loaded && copy.getConcurrency() == concurrency && copy.getConfig() == &c, "copies share the configuration");
	fiftyoneDegreesDate d = { (int16_t)verif_u16(), verif_u8(), verif_u8() }, kept = d;
	Date date(&d), none;
	memset(&d, 0, sizeof(d));
	VERIF_ASSERT(date.getYear() == kept.year && date.getMonth() == kept.month && date.getDay() == kept.day, "the date given");
	VERIF_ASSERT(none.getYear() == 0 && none.getMonth() == 0 && none.getDay() == 0, "no date");
	VERIF_WITNESS("end");
}
