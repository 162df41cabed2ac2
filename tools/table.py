P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, **kw))


p("C01", "Red-black tree is an exact ordered map after any history",
  "After any history of inserts and deletes the tree finds a node for a key exactly when that key was inserted and not removed since, counts and visits every held node once, and leaves caller data untouched. It stays balanced (no red node has a red child, all paths have equally many black nodes), so lookups stay logarithmic.",
  ["histories", "inputs"], "every sequence of inserts and deletes over all 64-bit keys",
  "Tests run a few fixed insert/delete orders; rotations and recolouring depend on the exact order of operations.",
  ["tree.c"], [("insert/delete with rebalancing", "tree.c: TreeInsert, TreeDelete"), ("search and walk", "tree.c: TreeFind, TreeIterateNodes")])
p("C02", "Cache returns the data loaded for the requested key, for every key",
  "A cache lookup returns an entry holding the data the loader produced for exactly the requested key, for every key value the hash methods can produce (negative and extreme values included) and every accepted capacity and concurrency. The loader runs once per miss and never on a hit, and creation is refused when a concurrent caller could be left without an entry.",
  ["inputs", "histories", "configurations"], "every 32/64-bit key, every sequence of gets and releases, every capacity/concurrency",
  "Tests use small positive keys and a few capacities; shard selection and tree lookups depend on the full key range.",
  ["cache.c", "tree.c"], [("shard selection by key", "cache.c: CacheGet"), ("load on miss", "cache.c: cacheLoad")])
p("C03", "Cache entries in use are never reused; failures never cost capacity",
  "While any caller holds an entry its data is neither changed, evicted nor freed, whatever other lookups, releases or threads do. When every entry is held a lookup of a new key returns nothing and disturbs nothing, and a loader failure is reported, is never served later as data, and leaves the cache with its full capacity.",
  ["histories", "schedules", "fault_sequences"], "every sequence of gets, releases and loader failures, and every interleaving of threads at lock granularity",
  "Tests never make the loader fail and cannot enumerate interleavings.",
  ["cache.c"], [("active counts and list membership", "cache.c: cacheIncremenetCheckAndRemove, CacheRelease"), ("failed load", "cache.c: cacheLoad")])
p("C04", "Cache evicts exactly the least recently used idle entry",
  "A full cache shard makes room by evicting the idle entry released longest ago and no other, so a key is a hit exactly when it is among the most recently used entries the shard can hold. Capacity is never exceeded and never under-used.",
  ["histories"], "every sequence of gets and releases",
  "Tests check hit counts on a few sequences only.",
  ["cache.c"], [("recency list", "cache.c: cacheAddToHead, cacheGetNextFree")])
p("C05", "Resource pool hands out each resource exclusively and loses none",
  "A pool never gives the same resource to two holders at once, gives out every resource it created before reporting exhaustion, and takes back and can hand out again everything released, for every accepted concurrency and every interleaving of getters and releasers. Creation builds exactly the requested number of resources, and freeing the pool or failing to create one frees each created resource exactly once.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings of the lock-free operations within the stated preemption bound, all concurrency values, creation failure at any resource",
  "Lock-free races need particular interleavings (such as ABA) that stress tests rarely hit.",
  ["pool.c"], [("lock-free stack with counter", "pool.c: PoolItemGet, PoolItemRelease"), ("construction", "pool.c: PoolInit")])
p("C06", "Managed resources are freed exactly once and never while in use",
  "A resource handed to the manager is freed exactly once, after it has been replaced (or the manager freed) and the last handle on it has been returned, and never while any caller holds it. Every acquire returns the active resource, a replacement becomes visible atomically, and concurrent replacements lose or leak none of the resources.",
  ["schedules", "histories"], "all interleavings of acquire, release, replace and free within the stated preemption bound",
  "Reload tests run a handful of schedules; use-after-free windows need specific preemptions.",
  ["resource.c"], [("counter and pointer in one word", "resource.c: ResourceHandleIncUse, ResourceHandleDecUse"), ("atomic swap", "resource.c: ResourceReplace")])
p("C07", "In-memory collections return exactly the element asked for or an error",
  "A collection over memory returns for every index or offset either exactly that element inside the collection's own bytes or nothing with an exception set, and never reads outside it. Creating collections from a buffer consumes exactly their header and content and refuses headers that claim more data than the buffer holds.",
  ["inputs"], "every header (start, length, count), element size, buffer and requested index or offset",
  "Tests use well-formed headers and in-range indices.",
  ["collection.c", "memory.c"], [("bounds checks", "collection.c: getMemoryFixed, getMemoryVariable"), ("header parsing", "collection.c: CollectionHeaderFromMemory, CollectionCreateFromMemory")])
p("C08", "File, cached and partly loaded collections behave like the in-memory one",
  "For the same data and any access history a collection read from file, cached, partly loaded, or chained returns the same bytes for each valid index or offset and fails for each invalid one, as the fully loaded collection does. A failed read, seek, allocation or exhausted handle pool surfaces as an exception and no data, leaks nothing and leaves the collection and the caller's item usable.",
  ["histories", "inputs", "fault_sequences", "configurations"], "all file contents, indices, loaded/capacity configurations and I/O faults within bounds",
  "Tests compare modes on one well-formed file and never inject read failures.",
  ["collection.c", "file.c", "cache.c", "pool.c"], [("file reads", "collection.c: CollectionReadFileFixed, CollectionReadFileVariable"), ("mode selection", "collection.c: CollectionCreateFromFile")])
p("C09", "Reading variable-size items from a corrupt file never overflows",
  "Whatever length an item claims for itself, reading it from a file either returns memory holding at least that many bytes or fails with an exception, and never writes beyond the memory it allocated.",
  ["inputs", "fault_sequences"], "every item header value, file size and I/O fault",
  "Tests contain no corrupt files.",
  ["collection.c", "data.c"], [("two step read", "collection.c: readFileVariable"), ("growing buffer", "data.c: DataMalloc")])
p("C10", "Binary search finds an element exactly when it is present",
  "Searching a sorted collection between two indexes returns the index of an equal element when one exists in that range, and otherwise reports that there is none, terminating and touching only elements of the range. An error from the comparer or the collection surfaces and leaves no item held.",
  ["inputs"], "every sorted sequence, target and range within bounds",
  "Tests search a few fixed arrays.",
  ["collection.c"], [("binary search", "collection.c: CollectionBinarySearch")])
p("C11", "IP address text parses safely, and to the right bytes when well formed",
  "Parsing any text, valid or not and of any length, reads only the given characters and writes only the address it allocates. Every well-formed dotted IPv4 or colon IPv6 address (with :: compression) yields exactly its 4 or 16 bytes and type.",
  ["inputs"], "every string of up to the stated length",
  "Tests parse a fixed list of addresses.",
  ["ip.c"], [("segment parsing", "ip.c: IpParseAddress, IpParseAddresses")])
p("C12", "IP comparison is a total order and address lists hold every address",
  "Comparing two addresses of a type is consistent with comparing their bytes, antisymmetric and zero exactly when they are equal, and rejects unsupported types. Parsing a list of addresses yields one entry per address in the order written, and freeing the list frees every entry.",
  ["inputs"], "all pairs of addresses, all lists within bounds",
  "Tests compare a few constant pairs.",
  ["ip.c"], [("comparison", "ip.c: IpAddressesCompare"), ("list", "ip.c: IpParseAddresses, IpFreeAddresses")])
p("C13", "Evidence keeps every pair added and iterates exactly those selected",
  "Evidence holds each added pair with its prefix, field and value until its capacity is reached and rejects more without disturbing those held. Iteration visits, in order, exactly the pairs whose prefix is selected and stops when told; prefixes are recognised from a key exactly when it starts with a known prefix followed by a field.",
  ["inputs", "histories"], "every key string, prefix mask, number of pairs and capacity within bounds",
  "Tests use two or three keys.",
  ["evidence.c"], [("prefix map", "evidence.c: EvidenceMapPrefix"), ("array", "evidence.c: EvidenceAddString, EvidenceIterate")])
p("C14", "Headers are unique, correctly indexed, and fully split into segments",
  "A header list built from any source names holds each distinct non-empty name once, without exceeding its capacity, splits pseudo-header names into their parts in order, and answers name and id lookups exactly. Nothing is leaked or accessed out of bounds, allocation failures included.",
  ["inputs", "fault_sequences"], "every set of header names within bounds, allocation failure at any point",
  "Tests use a handful of header names.",
  ["headers.c"], [("construction", "headers.c: HeadersCreate"), ("lookup", "headers.c: HeaderGetIndex, HeadersGetHeaderFromUniqueId")])
p("C15", "Pseudo evidence is the bounded join of its parts' values",
  "For each pseudo header all of whose parts have evidence, the generated value is those values joined by the separator, taken from query evidence in preference to header evidence; otherwise nothing is generated. Output never exceeds the buffer of each entry or the number of entries, and clearing resets what was generated.",
  ["inputs"], "all header/evidence combinations and value lengths within bounds",
  "Tests use fixed header sets with ample buffers.",
  ["pseudoheader.c", "evidence.c", "headers.c"], [("construction of pseudo evidence", "pseudoheader.c: PseudoHeadersAddEvidence")])
p("C16", "Overrides return exactly the values supplied and match properties exactly",
  "Adding an override for an available property that allows it stores exactly that value (replacing an earlier one for the same property), others are ignored, and stored overrides never exceed the array; a value that cannot be stored (too long, or out of memory) leaves none of it behind. Reading back yields every stored value for the property asked for and no other; profile ids in override evidence are reported exactly once each.",
  ["inputs", "histories"], "all property names, values and add sequences within bounds",
  "Tests add one or two overrides.",
  ["overrides.c"], [("matching and storage", "overrides.c: OverridesAdd, OverridesExtractFromEvidence"), ("profile ids", "overrides.c: OverrideProfileIds")])
p("C17", "Available properties are exactly the requested subset, unique and sorted",
  "From any list of requested names the available properties are exactly the known ones requested (all of them when none is given), each once, in name order, and none when nothing known is requested. Index and name lookups are mutually inverse and reject anything else.",
  ["inputs"], "all data-set property lists and request strings within bounds",
  "Tests use a fixed property list.",
  ["properties.c"], [("selection", "properties.c: PropertiesCreate"), ("lookup", "properties.c: PropertiesGetRequiredPropertyIndexFromName, PropertiesGetNameFromRequiredIndex")])
p("C18", "Profile and value queries return exactly the matching values",
  "Looking up a profile by id finds it exactly when the data set has it; iterating a profile's values for a property visits exactly the profile's values belonging to that property, in order; value and property lookups by name return exactly the one with that name, by index the same one. Malformed references in the data are reported as exceptions and never read out of bounds.",
  ["inputs", "fault_sequences"], "all small data sets of profiles, properties and values, and every query on them",
  "Tests contain no profile data sets of other shapes.",
  ["profile.c", "value.c", "property.c"], [("profile iteration", "profile.c: ProfileIterateValuesForProperty"), ("search", "value.c: ValueGetIndexByName")])
p("C19", "Component key/value access stays within the component",
  "A component's key/value pairs, default profile and name are returned exactly for valid indexes and offsets and refused for all others, with or without an exception, and a component's size covers exactly its fixed part and all pairs.",
  ["inputs"], "every index and key/value count",
  "Tests contain no out-of-range access.",
  ["component.c"], [("key value access", "component.c: ComponentGetKeyValuePair")])
p("C20", "Portable float conversion is exact for every representable value",
  "Converting any finite or infinite native float to the file representation and back yields the identical value, the file representation is IEEE-754 single precision little-endian, and comparison of file floats orders as the native values do. A coordinate is the two floats stored, and an item that is not a coordinate is reported as corrupt.",
  ["inputs"], "all 2^32 bit patterns except NaN payloads",
  "Tests check around ten values.",
  ["float.c", "coordinate.c"], [("conversion", "float.c: NativeToFloat, FloatToNative"), ("coordinates", "coordinate.c: IpiGetCoordinate")])
p("C21", "String compare and search follow their C-library meaning on all inputs",
  "Case-insensitive comparison and length-limited comparison (from the start of both strings) are zero exactly for strings equal up to ASCII case and agree with lexical order otherwise; substring search returns the first occurrence or nothing. None reads past a terminator or the given length.",
  ["inputs"], "all strings within the stated lengths",
  "Tests compare a few strings.",
  ["string.c"], [("comparison", "string.c: StringCompare, StringCompareLength"), ("search", "string.c: StringSubString")])
p("C22", "Memory tracking reports the exact current and peak allocation",
  "With tracking on, the reported maximum is the largest total of live requested bytes at any moment and everything freed is deducted once, in any order of allocations and frees, by one or several threads. Aligned requests return usable blocks of at least the size asked for.",
  ["histories", "schedules"], "every sequence of allocations and frees, and interleavings of two threads, within bounds",
  "Tests use single-thread fixed sequences.",
  ["memory.c"], [("tracking", "memory.c: MemoryTrackingMalloc, MemoryTrackingFree")])
p("C23", "Data buffers and memory readers never step outside their memory",
  "A reusable data buffer provides at least the bytes requested, keeps its allocation when large enough, and is freed once; allocation failure leaves it empty. Advancing a memory reader never moves past the end of its block and reports when it would.",
  ["inputs", "histories", "fault_sequences"], "all sequences of requests and sizes",
  "Tests never exhaust readers or fail allocations.",
  ["data.c", "memory.c"], [("buffer", "data.c: DataMalloc"), ("reader", "memory.c: MemoryAdvance")])
p("C24", "Every status code has its own message and exceptions keep the first cause",
  "For every status code the message is non-empty, safely allocated, specific to the code and embeds the file name where the code concerns a file. Setting an exception preserves the status and where it was set until it is cleared, a cleared or absent exception never reports a failure or ends the process, and a message that can't be allocated is reported as none.",
  ["inputs"], "every status value, file names within bounds",
  "Tests look at a few codes.",
  ["status.c", "exceptionsc.c"], [("messages", "status.c: StatusGetMessage"), ("exceptions", "exceptionsc.c: ExceptionGetMessage")])
p("C25", "Text file iteration delivers every line exactly once",
  "Iterating a text file calls back once per non-empty line, in order, with the line's exact text (without its line end), for any content, line lengths and read chunking that fit the caller's buffer, stops at the limit given, and never touches memory outside the buffer.",
  ["inputs", "fault_sequences"], "all file contents, buffer sizes and short reads within bounds",
  "Tests read a few fixed files with a large buffer.",
  ["textfile.c"], [("buffered reading", "textfile.c: TextFileIterateWithLimit")])
p("C26", "YAML evidence files yield exactly the pairs of each document",
  "Iterating a YAML evidence file calls back once per document that has pairs with exactly its key/value pairs in order, each cut to the space given for it, within the pair and buffer limits given, and any malformed content never causes memory outside the buffers to be accessed.",
  ["inputs"], "all file contents and limits within bounds",
  "Tests use a few well-formed files.",
  ["yamlfile.c"], [("line parser", "yamlfile.c: YamlFileIterate")])
p("C27", "File copy and load succeed exactly when every byte arrived",
  "Copying a file or reading it into memory reports success only when the destination holds exactly the source's bytes, whatever read, write, open, seek or allocation fails at whatever point; on failure a specific status is returned and nothing is leaked.",
  ["fault_sequences", "inputs"], "a fault at any I/O call, all contents and chunkings within bounds",
  "Tests never inject I/O faults.",
  ["file.c"], [("copy", "file.c: fileCopy"), ("load", "file.c: FileReadToByteArray")])
p("C28", "Temporary data files are searched, created and deleted only where allowed",
  "Temporary copies are searched for in every given directory and found only if their content equals the master file; a copy is created in the first directory that works, under a fresh name derived from the master; clean-up deletes only this master's unused temporary copies in the given directories and nothing else.",
  ["inputs", "fault_sequences", "configurations"], "all directory listings, path lists, contents and faults within bounds",
  "Tests run on one directory with one file.",
  ["file.c"], [("search and comparison", "file.c: FileGetExistingTempFile, compareFiles"), ("clean-up", "file.c: FileDeleteUnusedTempFiles")])
p("C29", "Path helpers split and build paths exactly and within their buffers",
  "File name, base name and path construction helpers return exactly the documented part of any path, and report insufficient memory instead of writing beyond the destination.",
  ["inputs"], "all path strings and buffer lengths within bounds",
  "Tests use a few paths.",
  ["file.c"], [("names", "file.c: FileGetFileName, FileGetPath"), ("temporary names", "file.c: FileCreateTempFile")])
p("C30", "Reloading a data set is atomic: new data on success, old data on failure",
  "A reload from file or memory either makes the new data set current for all later users while present users keep theirs, or fails with the specific status, leaving the current data set in place and nothing leaked. The master file path is kept unmodified and bounded.",
  ["fault_sequences", "histories", "schedules"], "failure at any step, any order of users and reloads within bounds",
  "Tests reload successfully or with a missing file only.",
  ["dataset.c", "resource.c"], [("reload", "dataset.c: DataSetReloadManagerFromFile, DataSetReloadManagerFromMemory")])
p("C31", "C++ configuration, evidence and address wrappers hand on exactly what they were given",
  "The C++ wrappers of addresses, required properties, configurations and evidence hand to the C library exactly what they were given, again on every call: addresses keep their bytes and type and are copied in full, required property names survive being asked for, in the given order, temporary directories and settings are those last set, the evidence array holds the relevant items of the map at the time of the call, once each, and nothing is leaked or used after being freed.",
  ["inputs", "histories"], "all contents and sequences of calls within bounds",
  "Tests call each accessor once.",
  ["IpAddress.cpp", "RequiredPropertiesConfig.cpp", "EvidenceBase.cpp", "Date.cpp", "ConfigBase.cpp", "CollectionConfig.cpp"], [("evidence", "EvidenceBase.cpp: EvidenceBase::get, erase, clear"), ("required properties", "RequiredPropertiesConfig.cpp"), ("directories", "ConfigBase.cpp: setTempDirectories"), ("addresses", "IpAddress.cpp")])
p("C32", "Item lists own and release every item exactly once",
  "A list returns each item at the index it was added, and on reset or free releases every held item exactly once back to the collection it came from and no other.",
  ["histories"], "every sequence of adds, resets and frees within capacity",
  "Tests use a few items.",
  ["list.c"], [("ownership", "list.c: ListAdd, ListReleaseItems, ListFree")])
p("C33", "Signals and threads hand over without losing a wake-up",
  "A thread waiting on a signal returns after a set made before or during the wait and only then, each set releases one wait, and closing frees the signal.",
  ["schedules"], "all interleavings of one waiter and one or two setters",
  "Stress tests cannot enumerate interleavings.",
  ["threading.c"], [("auto reset event", "threading.c: SignalSet, SignalWait")])
p("C34", "C++ results, exceptions, metadata and engine keys say what the data says",
  "A C++ result gives the values of the property asked for, by index or any form of name, converted as documented (joined with '|', true for \"True\" only, whole numbers), or its specific reason when there is none, in which case getting the value throws; exceptions carry the status and the file; metadata objects keep every field through copies and their keys are strict total orders; engine keys are every header and override that can be given, once each, pseudo headers excluded; strings read from collections are exact and given back even when reading fails.",
  ["inputs"], "all values, reasons, names and statuses within bounds",
  "Tests use one data file's values.",
  ["ResultsBase.cpp", "Value.hpp", "Exceptions.cpp", "ComponentMetaData.cpp", "ProfileMetaData.cpp", "PropertyMetaData.cpp", "ValueMetaData.cpp", "EngineBase.cpp", "MetaData.cpp", "EntityMetaDataBuilder.hpp"], [("values", "ResultsBase.cpp"), ("value wrapper", "Value.hpp"), ("order of keys", "ValueMetaData.cpp: ValueMetaDataKey::operator<"), ("keys", "EngineBase.cpp: initHttpHeaderKeys, initOverrideKeys"), ("strings", "MetaData.cpp: getString")])
