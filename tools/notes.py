"""What DESIGN.md says by hand about each property: (how it is decided, what lies outside)."""
N = {}
N["C01"] = ("`step`: the solver chooses any tree satisfying the rules (shape, colours, links, keys) of up to 7 nodes, one insert or delete of any node/key follows, and the same rules, the set of nodes, the count, find of every key and the walk are asserted after it. With `ops` from the empty tree this is an induction over histories; only the number of nodes is bounded.",
  "Key order of the walk is not part of the property (the walk is post-order). Inserting a key that is there already is outside the contract of the structure.")
N["C02"] = ("The loader tags what it loads with the key; after each get the entry must hold exactly the tag of the key asked for. Keys are full width symbols; `near32` restricts them where the number of shards makes the modulo expensive.", "")
N["C03"] = ("Sequential histories with failing loads (`hold`), two threads on one shard (`threads`), and a full cache asked by two threads (`full`). Asserted: data of a held entry unchanged, no two keys in one entry, null only when every entry is held, full capacity available after everything is given back.", "Reading the counters without the lock as a statistic is not judged.")
N["C04"] = ("An exact LRU list in the harness is run beside the real cache; hit or miss and the evicted key must agree after every operation, failed loads included (`lrufail`).", "")
N["C05"] = ("Scheduling points at every access of the lock-free stack, ownership asserted between get and release; afterwards every resource must be got again, each once. `history` gives the other thread every sequence of takes and returns - the ABA scenarios - and `big` runs the largest pools.", "The upper half of the pool's head word is uninitialised in the code (benign); the 16-bit ABA counter may wrap after 65536 operations overtake one.")
N["C06"] = ("A resource carries a free counter and a holder count; freed while held, twice, or never are assertions.", "Two KNOWN findings (`window`): the handle itself is read after a concurrent replacement freed it. A repair needs a counter outside the handle or deferred freeing, so it is recorded, not repaired.")
N["C07"] = ("The buffer is an exact heap block of symbolic content, so the header fields are whatever the solver likes; the expected element is computed in the harness.", "")
N["C08"] = ("The bytes of each item read must be the file's, in every mode, with every fault; at the end no handle, pool slot, cache entry or block is left.", "Concurrent users of one collection are decided at the level of its parts (C03, C05).")
N["C09"] = ("The length an item claims is a full symbol; the block it is read into is exactly as long as allocated.", "")
N["C10"] = ("The sorted sequence is given by where the equal elements begin and end, anywhere in the 32-bit index space, so that overflow of the middle index would show.", "")
N["C11"] = ("`any` decides memory safety for any text; `v4`, `v6` decide the bytes of every well formed address against an independent parser of the digits in the harness.", "IPv6 addresses with a dotted IPv4 end are accepted as the code does only in the form covered; groups of differing lengths in one address are not all combined.")
N["C12"] = ("", "")
N["C13"] = ("", "A prefix of a pair that is none of the declared ones is outside.")
N["C14"] = ("The expected list is computed from the names in the harness (distinct up to case as the code compares, pseudo names split).", "")
N["C15"] = ("", "More than two pseudo headers or parts beyond three.")
N["C16"] = ("", "")
N["C17"] = ("", "Non-ASCII case.")
N["C18"] = ("Each query is answered a second time by a scan in the harness; `malformed` only requires safety, an exception or a right answer.", "")
N["C19"] = ("`size` decides the 16-bit count at full width through the place where the list looks for the next component.", "")
N["C20"] = ("Bit-precise IEEE floating point in CBMC, all values at once.", "NaN payloads; the repository's tests fix the mantissa of infinity.")
N["C21"] = ("", "")
N["C22"] = ("", "")
N["C23"] = ("", "")
N["C24"] = ("", "Texts themselves: only non-empty, distinct and naming the file.")
N["C25"] = ("", "Empty lines are not delivered (as the code does and documents by its tests); lines longer than the buffer only for memory safety.")
N["C26"] = ("`documents`/`pairs` write a document from symbolic keys and values and expect exactly those back; `any`, `header` decide memory safety and limits for any bytes.", "Keys starting with '-' or '.'.")
N["C27"] = ("Each call of the C library can fail at any point; success is only allowed with all bytes in place and every handle closed.", "An empty file may fail to load.")
N["C28"] = ("Directories, names and contents of the model file system are symbolic; the harness decides which files are copies.", "The 4096-byte path limits of the deprecated function; FileGetBaseName by itself.")
N["C29"] = ("", "")
N["C30"] = ("A small engine in the harness follows the documented contract of initialisers and owns memory of its own, over the model file system with a fault at any call and any allocation; users hold data sets across reloads, in every order (`file`) and in every schedule (`users`).", "A failed reload with a reused temporary file may delete that file although the current data set holds it open; the data stays readable. The freed handle read in IncUse/DecUse is C06's known finding: its memory is kept here.")
N["C31"] = ("The real C++ sources compiled with libstdc++'s headers; search trees, exceptions and shared pointers are modelled in `lib/symx_cxx.cpp`, streams in `lib/cxx`; `_GLIBCXX_ASSERTIONS` is on. Replays use the real library.", "Running out of memory inside the C++ library.")
N["C32"] = ("", "")
N["C33"] = ("Spurious wake-ups are a scheduling choice as well.", "The signal is created set. Broadcasting instead of signalling is a permitted change.")
N["C34"] = ("As C31; `order` decides irreflexivity, asymmetry, transitivity and totality over three symbolic keys.", "Doubles (libc's strtod), texts of exceptions, messages of reasons in the default branch of Value::getValue.")
