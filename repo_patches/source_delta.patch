From fd479f275ab2146e34e946010ff7584dd2580d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 01/81] fix: cache shard index for keys whose hash is INT_MIN

abs(INT_MIN) is negative (undefined), so with a concurrency that is not a
power of two the shard index was negative.
---
 cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 279e989..a058446 100644
--- a/cache.c
+++ b/cache.c
@@ -385,7 +385,8 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = &cache->shards[
+		(uint32_t)keyHash % cache->concurrency];
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From 6aa61afb39718ed401f88ec034274dd4f2fc2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 02/81] fix: a failed cache load no longer loses the entry

The entry stayed marked as in use, out of the list and the tree, although
the callers (which check the exception) have nothing to release. It is now
the next entry to be used.
---
 cache.c | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/cache.c b/cache.c
index a058446..00e7ef7 100644
--- a/cache.c
+++ b/cache.c
@@ -206,6 +206,23 @@ static void cacheAddToHead(CacheNode *node) {
 	assert(node->shard->last->listNext == NULL);
 }
 
+/**
+ * Returns a node that could not be loaded to the tail of the linked list so
+ * that it is the first one to be used when a free node is needed.
+ * @param node that is not in use, or part of the list or tree
+ */
+static void cacheAddToTail(CacheNode *node) {
+	CacheShard *shard = node->shard;
+	node->listPrevious = shard->last;
+	if (shard->last != NULL) {
+		shard->last->listNext = node;
+	}
+	shard->last = node;
+	if (shard->first == NULL) {
+		shard->first = node;
+	}
+}
+
 /**
  * Returns the next free node from the cache which can be used to add a
  * new entry to. Once the cache is full then the node returned is the one
@@ -239,15 +256,18 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 		assert(node->activeCount == 0);
 		cacheRemoveFromList(node);
 
-		// Remove the last result from the binary tree.
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countBefore = TreeCount(&shard->root);
-		#endif
-		TreeDelete(&node->tree);
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countAfter = TreeCount(&shard->root);
-		assert(countBefore - 1 == countAfter);
-		#endif
+		// Remove the last result from the binary tree. It isn't in the tree 
+		// if the last attempt to load it failed.
+		if (node->tree.parent != &shard->root.empty) {
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countBefore = TreeCount(&shard->root);
+			#endif
+			TreeDelete(&node->tree);
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countAfter = TreeCount(&shard->root);
+			assert(countBefore - 1 == countAfter);
+			#endif
+		}
 	}
 
 	// Set the pointers of the node to null indicating that the
@@ -263,7 +283,7 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
  * @param shard dictated by the key
  * @param key to get or load
  * @return pointer to the node with data for the key, or NULL if there are no 
- * free nodes
+ * free nodes or the load failed
  */
 static CacheNode* cacheLoad(
 	CacheShard *shard, 
@@ -286,6 +306,13 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+			// The caller has nothing to release, so make the node available
+			// again.
+			node->activeCount = 0;
+			cacheAddToTail(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From a45b5218b2f4ade52a720100715b96834fd8dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:21 +0000
Subject: [PATCH 03/81] fix: pool item counts no longer wrap at the largest
 concurrency

---
 pool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pool.c b/pool.c
index d23cd84..94d3f54 100644
--- a/pool.c
+++ b/pool.c
@@ -31,13 +31,13 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 	fiftyoneDegreesPoolResourceCreate resourceCreate,
 	fiftyoneDegreesPoolResourceFree resourceFree,
 	fiftyoneDegreesException *exception) {
-	uint16_t i = 1;
+	uint32_t i = 1;
 	PoolItem *item;
 
 	// Add one to the concurrency value so that a NULL marker can be 
 	// written as the last item in the linked list that if returned
 	// indicates that the concurrency has been exceeded.
-	uint16_t listItems = concurrency + 1;
+	uint32_t listItems = (uint32_t)concurrency + 1;
 
 	// Set the stack and head of the linked list.
 	pool->count = 0;
@@ -62,7 +62,7 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 			item->resource = resourceCreate(pool, state, exception);
 			pool->count++;
 			item->next = pool->head.values.index;
-			pool->head.values.index = i;
+			pool->head.values.index = (uint16_t)i;
 			i++;
 		}
 	}
@@ -133,7 +133,7 @@ void fiftyoneDegreesPoolReset(fiftyoneDegreesPool *pool) {
 
 void fiftyoneDegreesPoolFree(fiftyoneDegreesPool *pool) {
 	void *resource;
-	uint16_t i;
+	uint32_t i;
 	if (pool->stack != NULL) {
 		if (pool->resourceFree != NULL) {
 			for (i = 0; i <= pool->count; i++) {
-- 
2.43.0


From 9845c59ff45a357cbd9ceb309cd668e1a9b852b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 04/81] fix: concurrent resource replacements no longer lose a
 resource

---
 resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 833140c..04c35b1 100644
--- a/resource.c
+++ b/resource.c
@@ -344,7 +344,7 @@ void fiftyoneDegreesResourceReplace(
 	} while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle);
 #else
 	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
-- 
2.43.0


From b295131e0fae65867e71bbdc9c271ab94a036af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 05/81] fix: an item whose file read failed no longer keeps its
 freed buffer

---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index 5014005..5d99bd1 100644
--- a/collection.c
+++ b/collection.c
@@ -1014,6 +1014,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1078,6 +1079,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From d41d24a6c9ff981d912f2f526ca80cbc45726157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 06/81] fix: reject variable size items smaller than their own
 header

---
 collection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collection.c b/collection.c
index 5d99bd1..3d7361a 100644
--- a/collection.c
+++ b/collection.c
@@ -1057,6 +1057,12 @@ static void* readFileVariable(
 			// Calculate the number of bytes needed to store the item.
 			bytesNeeded = getFinalSize(initial);
 
+			// The item can't be smaller than the header already read.
+			if (bytesNeeded < initialSize) {
+				EXCEPTION_SET(CORRUPT_DATA);
+				return NULL;
+			}
+
 			// Ensure sufficient memory is allocated for the item being
 			// read and that the header is copied to the data buffer
 			// provided by the caller.
-- 
2.43.0


From f5eb262702cb3230e03929e734846311abacc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 07/81] fix: report insufficient memory when caching a
 collection item

---
 collection.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/collection.c b/collection.c
index 3d7361a..c8b7aef 100644
--- a/collection.c
+++ b/collection.c
@@ -372,17 +372,21 @@ static void loaderCache(
 
 		// If the item from the source collection has bytes then copy them into
 		// the cache node item ensuring sufficient memory is allocated first.
-		if (item.data.used > 0 &&
-			DataMalloc(data, item.data.allocated) != NULL) {
+		if (item.data.used > 0) {
+			if (DataMalloc(data, item.data.allocated) != NULL) {
 
-			// Copy the data from the collection into the cache.
-			if (memcpy(
-				data->ptr,
-				item.data.ptr,
-				item.data.used) == data->ptr) {
+				// Copy the data from the collection into the cache.
+				if (memcpy(
+					data->ptr,
+					item.data.ptr,
+					item.data.used) == data->ptr) {
 
-				// Set the number of used bytes to match the loaded item.
-				data->used = item.data.used;
+					// Set the number of used bytes to match the loaded item.
+					data->used = item.data.used;
+				}
+			}
+			else {
+				EXCEPTION_SET(INSUFFICIENT_MEMORY);
 			}
 		}
 
-- 
2.43.0


From eea9c532a269f11074c363ea4762a2e388789d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 08/81] fix: creating a collection survives a failed allocation

---
 collection.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index c8b7aef..89839da 100644
--- a/collection.c
+++ b/collection.c
@@ -540,6 +540,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -572,9 +575,16 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
-	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	Collection *collection = createCollection(sizeof(CollectionMemory), header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -654,7 +664,10 @@ static Collection* createFromFileCached(
 	CollectionFileRead read) {
 
 	// Allocate the memory for the collection and implementation.
-	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	Collection *collection = createCollection(sizeof(CollectionCache), header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -674,6 +687,7 @@ static Collection* createFromFileCached(
 		cache->source);
 
 	if (cache->cache == NULL) {
+		cache->source->freeCollection(cache->source);
 		freeCacheCollection(collection);
 		return NULL;
 	}
@@ -774,6 +788,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
-- 
2.43.0


From d9022db88616c0cf42a9915c34ddfdabcf32c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:23 +0000
Subject: [PATCH 09/81] fix: a get without an exception to set no longer
 dereferences it

---
 collection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index 89839da..eeb6404 100644
--- a/collection.c
+++ b/collection.c
@@ -41,7 +41,7 @@ item->data.used = 0; \
 item->data.allocated = 0; \
 item->handle = NULL; \
 item->collection = NULL; \
-if (exception->status == NOT_SET) { \
+if (EXCEPTION_OKAY) { \
 	EXCEPTION_SET(s); \
 }
 #else
-- 
2.43.0


From d90c3711b362547f28095b62f61dd2fb128b2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:47 +0000
Subject: [PATCH 10/81] fix: a memory reader no longer moves past the end of
 its block

---
 memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..5bb79f4 100644
--- a/memory.c
+++ b/memory.c
@@ -60,10 +60,11 @@ bool fiftyoneDegreesMemoryAdvance(
 	if (reader == NULL || reader->current == NULL) {
 		return false;
 	}
-	reader->current += advanceBy;
-	if (reader->current > reader->lastByte) {
+	if (reader->current > reader->lastByte ||
+		advanceBy > (size_t)(reader->lastByte - reader->current)) {
 		return false;
 	}
+	reader->current += advanceBy;
 	return true;
 }
 
-- 
2.43.0


From 82726f0ed66fb5ce5ea6446da351e6c54f5546ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 11/81] fix: collection headers are read within the buffer and
 their length can't wrap

---
 collection.c | 58 ++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/collection.c b/collection.c
index eeb6404..e163d90 100644
--- a/collection.c
+++ b/collection.c
@@ -747,30 +747,46 @@ static Collection* createFromFileSecond(
 
 #endif
 
-fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
-	fiftyoneDegreesMemoryReader *reader,
+/**
+ * Sets the length and count of the header from the integer in the data.
+ * @param header to set
+ * @param sizeOrCount the integer from the data
+ * @param elementSize size of each element, or 0 if variable
+ * @param isCount true if the integer is a count, false if it is a size
+ */
+static void setHeader(
+	CollectionHeader *header,
+	uint32_t sizeOrCount,
 	uint32_t elementSize,
 	bool isCount) {
-	CollectionHeader header;
 	if (isCount) {
-		// The next integer is the count of items in the data structure.
-		header.count = *(uint32_t*)reader->current;
-		header.length = header.count * elementSize;
+		// The integer is the count of items in the data structure. A length
+		// which can't be represented is more than any data can hold.
+		header->count = sizeOrCount;
+		header->length =
+			(uint64_t)sizeOrCount * elementSize > UINT32_MAX ?
+			UINT32_MAX : sizeOrCount * elementSize;
 	}
 	else {
-		// The next integer is the size of the data structure.
-		header.length = *(const uint32_t*)reader->current;
-		header.count = elementSize > 0 ? header.length / elementSize : 0;
+		// The integer is the size of the data structure.
+		header->length = sizeOrCount;
+		header->count = elementSize > 0 ? sizeOrCount / elementSize : 0;
 	}
+}
+
+fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
+	fiftyoneDegreesMemoryReader *reader,
+	uint32_t elementSize,
+	bool isCount) {
+	CollectionHeader header = { 0, 0, 0 };
+	const byte * const sizeOrCount = reader->current;
 
 	// Advance the memory reader and record the start of the collection.
 	if (MemoryAdvance(reader, sizeof(uint32_t))) {
+		setHeader(&header, *(const uint32_t*)sizeOrCount, elementSize, isCount);
 		header.startPosition = (uint32_t)(reader->current - reader->startByte);
 	}
-	else {
-		header.startPosition = 0;
-	}
-	
+
 	return header;
 }
 
@@ -834,26 +850,14 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	FILE *file,
 	uint32_t elementSize,
 	bool isCount) {
-	fiftyoneDegreesCollectionHeader header;
+	fiftyoneDegreesCollectionHeader header = { 0, 0, 0 };
 	uint32_t sizeOrCount;
 
 	// Get the size or count of the data structure in bytes.
 	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1) {
-		if (isCount) {
-			// The integer is the count of items in the data structure.
-			header.count = sizeOrCount;
-			header.length = header.count * elementSize;
-		}
-		else {
-			// The integer is the size of the data structure.
-			header.length = sizeOrCount;
-			header.count = elementSize > 0 ? header.length / elementSize : 0;
-		}
+		setHeader(&header, sizeOrCount, elementSize, isCount);
 		header.startPosition = (uint32_t)ftell(file);
 	}
-	else {
-		header.startPosition = 0;
-	}
 
 	return header;
 }
-- 
2.43.0


From ced4fb5d44451838f09026f76e41b0db357ae911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 12/81] fix: a file pool whose file size can't be read is not
 reported as ready

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index b518a4b..9401b00 100644
--- a/file.c
+++ b/file.c
@@ -975,7 +975,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			freeFileHandle,
 			exception) != NULL &&
 		EXCEPTION_OKAY) {
-		if (setLength(filePool, exception) == 0) {
+		if (setLength(filePool, exception) <= 0) {
 			status = FILE_FAILURE;
 		}
 	}
-- 
2.43.0


From 4e3760c98fcabc2392d2b19a908271d602352b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:21 +0000
Subject: [PATCH 13/81] fix: a chained collection returns nothing when the next
 one fails

---
 collection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index e163d90..775c3b3 100644
--- a/collection.c
+++ b/collection.c
@@ -238,7 +238,7 @@ static void* getPartialVariable(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, offset, item, exception);
+		return collection->next->get(collection->next, offset, item, exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_OFFSET_OUT_OF_RANGE);
@@ -261,7 +261,7 @@ static void* getPartialFixed(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, index, item, exception);
+		return collection->next->get(collection->next, index, item, exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
-- 
2.43.0


From 9758327518594469f0a96d771bb34cc1b4e33544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:21 +0000
Subject: [PATCH 14/81] fix: a released cache item no longer refers to the
 cache's memory

---
 collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collection.c b/collection.c
index 775c3b3..8c69a54 100644
--- a/collection.c
+++ b/collection.c
@@ -106,6 +106,7 @@ static void releaseNothing(Item *item) {
 static void releaseCache(Item *item) {
 	if (item->handle != NULL) {
 		CacheRelease((CacheNode*)item->handle);
+		DataReset(&item->data);
 		item->handle = NULL;
 	}
 }
-- 
2.43.0


From d6479c55671cf40639d37883482552c3e565daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:37 +0000
Subject: [PATCH 15/81] fix: profile sizes that can't be represented are
 rejected

---
 profile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index 8a1a2c0..9e9dbba 100644
--- a/profile.c
+++ b/profile.c
@@ -27,8 +27,11 @@ MAP_TYPE(Collection)
 
 static uint32_t getFinalProfileSize(void *initial) {
 	Profile *profile = (Profile*)initial;
-	return sizeof(Profile) +
-		(profile->valueCount * sizeof(uint32_t));
+	uint64_t size = sizeof(Profile) +
+		((uint64_t)profile->valueCount * sizeof(uint32_t));
+
+	// A size which can't be represented is reported as no size at all.
+	return size > UINT32_MAX ? 0 : (uint32_t)size;
 }
 
 static Profile* getProfileByOffset(
-- 
2.43.0


From 280ceaac77991761df98ea193647dd2f01227d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 16/81] fix: a failed binary search reports no index and holds
 no item

---
 collection.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 8c69a54..5db8296 100644
--- a/collection.c
+++ b/collection.c
@@ -1229,14 +1229,15 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// Get the item from the collection checking for NULL or an error.
 		if (collection->get(collection, middle, item, exception) == NULL ||
 			EXCEPTION_OKAY == false) {
-			return 0;
+			return -1;
 		}
 		
 		// Perform the binary search using the comparer provided with the item
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
-			return 0;
+			COLLECTION_RELEASE(collection, item);
+			return -1;
 		}
 
 		if (comparisonResult == 0) {
-- 
2.43.0


From 6d5518f7c485197c085666460691a1616d2c067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 17/81] fix: IP address segments are only written within the
 address

---
 ip.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/ip.c b/ip.c
index aebc4ab..bfdf83b 100644
--- a/ip.c
+++ b/ip.c
@@ -66,6 +66,26 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/*
+ * The number of bytes available in an address of the type provided.
+ */
+static size_t getIpLength(EvidenceIpType type) {
+	return type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+		FIFTYONE_DEGREES_IPV4_LENGTH :
+		FIFTYONE_DEGREES_IPV6_LENGTH;
+}
+
+/*
+ * Adds the byte to the address if there is space for it. A value which is not
+ * a valid address can have more segments than there are bytes.
+ */
+static void addIpByte(EvidenceIpAddress *address, byte value) {
+	if (address->current < address->address + getIpLength(address->type)) {
+		*address->current = value;
+		address->current++;
+	}
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -75,8 +95,7 @@ static void parseIpV6Segment(
 	if (start > end) {
 		// This is an abbreviation, so fill it in.
 		for (i = 0; i < 16 - address->bytesPresent; i++) {
-			*address->current = (byte)0;
-			address->current++;
+			addIpByte(address, (byte)0);
 		}
 	}
 	else {
@@ -90,10 +109,8 @@ static void parseIpV6Segment(
 			if (i < 2) second[1 - i] = val;
 			else first[3 - i] = val;
 		}
-		*address->current = getIpByte((int)strtol(first, NULL, 16));
-		address->current++;
-		*address->current = getIpByte((int)strtol(second, NULL, 16));
-		address->current++;
+		addIpByte(address, getIpByte((int)strtol(first, NULL, 16)));
+		addIpByte(address, getIpByte((int)strtol(second, NULL, 16)));
 	}
 }
 
@@ -104,8 +121,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
-		address->current++;
+		addIpByte(address, getIpByte(atoi(start)));
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
 		parseIpV6Segment(address, start, end);
@@ -229,6 +245,8 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 		address->current = (byte*)(address + 1);
 		address->bytesPresent = (byte)count;
 		address->type = type;
+		// Any bytes not present in the source value are zero.
+		memset(address->address, 0, getIpLength(type));
 		// Add the bytes from the source value and get the type of address.
 		iterateIpAddress(
 			start,
-- 
2.43.0


From 454f6525a0927e25cd84f321e71d1a45c38ce9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 18/81] fix: freeing IP addresses frees what was allocated

---
 ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index bfdf83b..6ac14ca 100644
--- a/ip.c
+++ b/ip.c
@@ -218,7 +218,7 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		free(prev);
 	}
 }
 
-- 
2.43.0


From 9d121771bcda9a497eff194021494588e77eca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 19/81] fix: an IP address list has no entries between
 consecutive separators

---
 ip.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ip.c b/ip.c
index 6ac14ca..b847d7f 100644
--- a/ip.c
+++ b/ip.c
@@ -266,13 +266,14 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddresses(
 	EvidenceIpAddress *head = NULL;
 	EvidenceIpAddress *last = NULL;
 	EvidenceIpAddress *item = NULL;
-	while (*current != '\0') {
-		current++;
+	while (true) {
 		if (*current == ' ' ||
 		    *current == ',' ||
 		    *current == '\0') {
-			// We have reached the end of a probable IP address.
-			item = fiftyoneDegreesIpParseAddress(malloc, start, current);
+			// We have reached the end of a probable IP address. There is none
+			// between consecutive separators.
+			item = current == start ? NULL :
+				fiftyoneDegreesIpParseAddress(malloc, start, current);
 			if (item != NULL) {
 				if (last == NULL && head == NULL) {
 					// Add the first item to the list.
@@ -286,8 +287,10 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddresses(
 				}
 				item->next = NULL;
 			}
+			if (*current == '\0') break;
 			start = current + 1;
 		}
+		current++;
 	}
 	return head;
 }
-- 
2.43.0


From 72b7f28e2ef49297db2086b71ca4eaf2ef64e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 20/81] fix: creating headers releases everything when memory
 runs out

---
 headers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 4b50964..1f96a5d 100644
--- a/headers.c
+++ b/headers.c
@@ -199,7 +199,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
@@ -280,6 +284,7 @@ static bool addHeadersFromDataSet(
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
-- 
2.43.0


From 698ae90d93d94458f16c4074e73935f479cd8bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:46 +0000
Subject: [PATCH 21/81] fix: an HTTP_ prefixed name of one character is
 recognised

---
 headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 1f96a5d..557c046 100644
--- a/headers.c
+++ b/headers.c
@@ -382,7 +382,7 @@ int fiftyoneDegreesHeaderGetIndex(
 	// Check if header is from a Perl or PHP wrapper in the form of HTTP_*
 	// and if present skip these characters.
 	if (headers->expectUpperPrefixedHeaders == true &&
-		length > sizeof(HTTP_PREFIX_UPPER) &&
+		length > sizeof(HTTP_PREFIX_UPPER) - 1 &&
 		StringCompareLength(
 			httpHeaderName,
 			HTTP_PREFIX_UPPER,
-- 
2.43.0


From abb45ef063331dbfa49c9016e8643f647764126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:23 +0000
Subject: [PATCH 22/81] fix: headers have space for a name and the segment it
 consists of

---
 headers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/headers.c b/headers.c
index 557c046..813e1f0 100644
--- a/headers.c
+++ b/headers.c
@@ -70,9 +70,9 @@ static int countAllSegments(void* state, HeadersGetMethod get) {
 		segments = countHeaderSegments(STRING(name.data.ptr));
 		count += segments;
 
-		// If there are more than one segment then this is a pseudo header and 
-		// the count should also include the full header.
-		if (segments > 1) {
+		// If there is a separator then the full header differs from its 
+		// segments and the count should also include the full header.
+		if (HeadersIsPseudo(STRING(name.data.ptr))) {
 			count++;
 		}
 		COLLECTION_RELEASE(name.collection, &name);
-- 
2.43.0


From 6c1debe2b1eca55a5f03a51777126c1d218c5df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:26 +0000
Subject: [PATCH 23/81] fix: pseudo evidence is only added to the entries
 available

---
 pseudoheader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..5501b15 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -174,9 +174,13 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
     char* buffer = NULL;
     int charAdded;
     uint32_t i;
-    if (evidence != NULL && acceptedHeaders != NULL) {
+    if (evidence != NULL && acceptedHeaders != NULL &&
+        evidence->pseudoEvidence != NULL) {
         for (i = 0;
-            i < acceptedHeaders->count && EXCEPTION_OKAY;
+            i < acceptedHeaders->count && EXCEPTION_OKAY &&
+            // There must be an entry available for the next pseudo evidence.
+            evidence->pseudoEvidence->count <
+                evidence->pseudoEvidence->capacity;
             i++) {
             header = &acceptedHeaders->items[i];
             // Only add evidence for pseudo header
-- 
2.43.0


From 91429c0fe9665fd4b42196559efa08cac93b388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 24/81] fix: pseudo evidence is not generated from a truncated
 first part when another is missing

---
 pseudoheader.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index 5501b15..ff97989 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -81,21 +81,24 @@ static int constructPseudoEvidence(
     char* current = buffer;
     char* max = buffer + bufferSize;
 
-    // Use the segments from the header to construct the evidence.
+    // If there is no evidence value for any of the segments then the header
+    // can't be constructed so return, whatever the size of the others.
     for (i = 0; i < header->segments->count; i++) {
-        
-        // Get the evidence for the segment.
         segment = &header->segments->items[i];
-        value = getEvidenceValueForHeader(segment, evidence, prefix);
-
-        // If there is no evidence value then the header can't be constructed
-        // so return.
-        if (value == NULL) {
+        if (getEvidenceValueForHeader(segment, evidence, prefix) == NULL) {
             if (bufferSize > 0) {
                 memset(buffer, '\0', 1);
             }
             return 0;
         }
+    }
+
+    // Use the segments from the header to construct the evidence.
+    for (i = 0; i < header->segments->count; i++) {
+        
+        // Get the evidence for the segment.
+        segment = &header->segments->items[i];
+        value = getEvidenceValueForHeader(segment, evidence, prefix);
 
         // If this is a subsequent segment value then add the separator.
         // make sure that we don't cause heap overflow by overwriting the terminating \0 (at position max - 1)
-- 
2.43.0


From abf2beea5ba08d2d8c1c45bc24d706b60b1819db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 25/81] fix: string comparisons treat bytes above 127 as the C
 library does

---
 string.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/string.c b/string.c
index 180eb69..5475ed8 100644
--- a/string.c
+++ b/string.c
@@ -62,7 +62,7 @@ fiftyoneDegreesString* fiftyoneDegreesStringGet(
 
 int fiftyoneDegreesStringCompare(const char *a, const char *b) {
 	for (; *a != '\0' && *b != '\0'; a++, b++) {
-		int d = tolower(*a) - tolower(*b);
+		int d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
 		if (d != 0) {
 			return d;
 		}
@@ -79,7 +79,7 @@ int fiftyoneDegreesStringCompareLength(
 	size_t length) {
 	size_t i;
 	for (i = 0; i < length; a++, b++, i++) {
-		int d = tolower(*a) - tolower(*b);
+		int d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
 		if (d != 0) {
 			return d;
 		}
@@ -91,12 +91,13 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 	int d;
 	const char *a1, *b1;
 	for (; *a != '\0' && *b != '\0'; a++) {
-		d = tolower(*a) - tolower(*b);
+		d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
 		if (d == 0) {
 			a1 = a + 1;
 			b1 = b + 1;
 			for (; *a1 != '\0' && *b1 != '\0'; a1++, b1++) {
-				d = tolower(*a1) - tolower(*b1);
+				d = tolower((unsigned char)*a1) -
+					tolower((unsigned char)*b1);
 				if (d != 0) {
 					break;
 				}
-- 
2.43.0


From f32bda4c6c0c414625f319e2f2c342e7a1e70759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 26/81] fix: a length limited comparison stops at the end of
 both strings

---
 string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/string.c b/string.c
index 5475ed8..423605a 100644
--- a/string.c
+++ b/string.c
@@ -83,6 +83,10 @@ int fiftyoneDegreesStringCompareLength(
 		if (d != 0) {
 			return d;
 		}
+		// Both strings ended before the length was reached.
+		if (*a == '\0') {
+			return 0;
+		}
 	}
 	return 0;
 }
-- 
2.43.0


From d48425bc9e57880a50257b00cf7d84a506f60857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 27/81] fix: a substring is not found where the string ends
 within it

---
 string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.c b/string.c
index 423605a..7b09224 100644
--- a/string.c
+++ b/string.c
@@ -106,7 +106,7 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 					break;
 				}
 			}
-			if (d == 0) {
+			if (d == 0 && *b1 == '\0') {
 				return (char *)a;
 			}
 		}
-- 
2.43.0


From 5c48d0399807c47c364777270d8c549de75b1b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 28/81] fix: the prefix of a single character override name is
 skipped

---
 overrides.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overrides.c b/overrides.c
index 675e84c..69f71ea 100644
--- a/overrides.c
+++ b/overrides.c
@@ -94,7 +94,7 @@ static bool startsWith(String *string, String *prefix) {
  */
 static const char* skipPrefix(bool prefixed, const char *field) {
 	char *result = (char*)field;
-	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) &&
+	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) - 1 &&
 		StringCompareLength(
 			field,
 			OVERRIDE_PREFIX,
-- 
2.43.0


From cc2602dab46b7a5672e2776a72a7754308fb8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:57 +0000
Subject: [PATCH 29/81] fix: an override in a full array can be replaced

---
 overrides.c | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/overrides.c b/overrides.c
index 69f71ea..fa75dbe 100644
--- a/overrides.c
+++ b/overrides.c
@@ -134,7 +134,7 @@ bool fiftyoneDegreesOverridesAdd(
 	size_t length;
 	String *copy;
 	OverrideValue *override;
-	if (requiredPropertyIndex >= 0 && values->count < values->capacity) {
+	if (requiredPropertyIndex >= 0) {
 
 		// Set the override either as a new item, or override an existing
 		// one if there is already one with the same required property
@@ -144,25 +144,30 @@ bool fiftyoneDegreesOverridesAdd(
 			requiredPropertyIndex) {
 			currentOverrideIndex++;
 		}
-		override = &values->items[currentOverrideIndex];
 
-		if (currentOverrideIndex == values->count) {
-			// Increment the override count and set the required property
-			// index.
-			values->count++;
-			override->requiredPropertyIndex = requiredPropertyIndex;
-		}
+		// An existing item can be replaced even if there is no space for a
+		// new one.
+		if (currentOverrideIndex < values->capacity) {
+			override = &values->items[currentOverrideIndex];
+
+			if (currentOverrideIndex == values->count) {
+				// Increment the override count and set the required property
+				// index.
+				values->count++;
+				override->requiredPropertyIndex = requiredPropertyIndex;
+			}
 
-		// Ensure there is sufficient memory for the string being copied.
-		length = strlen(value);
-		copy = (String*)fiftyoneDegreesDataMalloc(
-			&override->string,
-			sizeof(String) + length);
+			// Ensure there is sufficient memory for the string being copied.
+			length = strlen(value);
+			copy = (String*)fiftyoneDegreesDataMalloc(
+				&override->string,
+				sizeof(String) + length);
 
-		// Copy the string from the evidence pair to the override data 
-		// item.
-		memcpy(&copy->value, value, length + 1);
-		copy->size = (int16_t)(length + 1);
+			// Copy the string from the evidence pair to the override data 
+			// item.
+			memcpy(&copy->value, value, length + 1);
+			copy->size = (int16_t)(length + 1);
+		}
 	}
 
 	return values->count < values->capacity;
-- 
2.43.0


From e7d7b1bb756651eb6d78c25be6685c1b046d55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 30/81] fix: an override is not stored when memory runs out

---
 overrides.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/overrides.c b/overrides.c
index fa75dbe..98ee7fa 100644
--- a/overrides.c
+++ b/overrides.c
@@ -150,6 +150,23 @@ bool fiftyoneDegreesOverridesAdd(
 		if (currentOverrideIndex < values->capacity) {
 			override = &values->items[currentOverrideIndex];
 
+			// Ensure there is sufficient memory for the string being copied.
+			length = strlen(value);
+			copy = (String*)fiftyoneDegreesDataMalloc(
+				&override->string,
+				sizeof(String) + length);
+
+			if (copy == NULL) {
+				// There is no value for an existing item any more, so remove
+				// it by moving the last item to its place.
+				if (currentOverrideIndex < values->count) {
+					values->count--;
+					*override = values->items[values->count];
+					DataReset(&values->items[values->count].string);
+				}
+				return values->count < values->capacity;
+			}
+
 			if (currentOverrideIndex == values->count) {
 				// Increment the override count and set the required property
 				// index.
@@ -157,12 +174,6 @@ bool fiftyoneDegreesOverridesAdd(
 				override->requiredPropertyIndex = requiredPropertyIndex;
 			}
 
-			// Ensure there is sufficient memory for the string being copied.
-			length = strlen(value);
-			copy = (String*)fiftyoneDegreesDataMalloc(
-				&override->string,
-				sizeof(String) + length);
-
 			// Copy the string from the evidence pair to the override data 
 			// item.
 			memcpy(&copy->value, value, length + 1);
-- 
2.43.0


From 8f951d47a325412c32148cd958414b3bcbd82956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 31/81] fix: an override value longer than a string size can
 express is not stored

---
 overrides.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/overrides.c b/overrides.c
index 98ee7fa..f4ea918 100644
--- a/overrides.c
+++ b/overrides.c
@@ -134,7 +134,10 @@ bool fiftyoneDegreesOverridesAdd(
 	size_t length;
 	String *copy;
 	OverrideValue *override;
-	if (requiredPropertyIndex >= 0) {
+
+	// Values longer than the size of a string can express are not stored.
+	if (requiredPropertyIndex >= 0 &&
+		(length = strlen(value)) < INT16_MAX) {
 
 		// Set the override either as a new item, or override an existing
 		// one if there is already one with the same required property
@@ -151,7 +154,6 @@ bool fiftyoneDegreesOverridesAdd(
 			override = &values->items[currentOverrideIndex];
 
 			// Ensure there is sufficient memory for the string being copied.
-			length = strlen(value);
 			copy = (String*)fiftyoneDegreesDataMalloc(
 				&override->string,
 				sizeof(String) + length);
-- 
2.43.0


From 2bd1dacad7c596989628e944d67c2395c877b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 32/81] fix: profile ids from evidence use the full range and
 others are ignored

---
 overrides.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/overrides.c b/overrides.c
index f4ea918..f7bc120 100644
--- a/overrides.c
+++ b/overrides.c
@@ -423,9 +423,9 @@ void fiftyoneDegreesOverrideValuesReset(
 
 static void extractProfileId(char *value, overrideProfileIds *state) {
 	if (*value >= 0 && isdigit(*value) != 0) {
-		int profileId = atoi(value);
-		if (profileId >= 0) {
-			state->override(state->state, profileId);
+		unsigned long long profileId = strtoull(value, NULL, 10);
+		if (profileId <= UINT32_MAX) {
+			state->override(state->state, (uint32_t)profileId);
 		}
 	}
 }
-- 
2.43.0


From a45ca6eaa41371d5dee0052482a3e7dab11d051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:19 +0000
Subject: [PATCH 33/81] fix: there is no name for a required property index out
 of range

---
 properties.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index 4443158..8d03e33 100644
--- a/properties.c
+++ b/properties.c
@@ -504,7 +504,11 @@ int fiftyoneDegreesPropertiesGetPropertyIndexFromName(
 fiftyoneDegreesString* fiftyoneDegreesPropertiesGetNameFromRequiredIndex(
 	fiftyoneDegreesPropertiesAvailable *available,
 	int requiredPropertyIndex) {
-	return (String*)available->items[requiredPropertyIndex].name.data.ptr;
+	if (requiredPropertyIndex >= 0 &&
+		requiredPropertyIndex < (int)available->count) {
+		return (String*)available->items[requiredPropertyIndex].name.data.ptr;
+	}
+	return NULL;
 }
 
 bool fiftyoneDegreesPropertiesIsSetHeaderAvailable(
-- 
2.43.0


From 611b43698ee98292cbd80617c0082898523cb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:03 +0000
Subject: [PATCH 34/81] fix: converting zero and infinity keeps the sign

---
 float.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/float.c b/float.c
index 56dc875..449caef 100644
--- a/float.c
+++ b/float.c
@@ -32,7 +32,7 @@ float fiftyoneDegreesFloatToNative(fiftyoneDegreesFloatInternal f) {
 	if (floatU.parts.exponent == 0) {
 		if (floatU.parts.mantissa == 0) {
 			// When all bits in exponent and mantissa are 0s. The float value is 0.
-			nativeValue = 0;
+			nativeValue = floatU.parts.sign == 0 ? 0.0f : -0.0f;
 		}
 		else {
 			/*
@@ -57,7 +57,7 @@ float fiftyoneDegreesFloatToNative(fiftyoneDegreesFloatInternal f) {
 			/*
 			 * If all bits in exponent and mantissa are 1s, it is an infinity value
 			 */
-			nativeValue = INFINITY;
+			nativeValue = floatU.parts.sign == 0 ? INFINITY : -INFINITY;
 		}
 		else {
 			/*
@@ -91,6 +91,7 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 		break;
 	case FP_INFINITE:
 		// If Inf, set exponent and mantissa to all 1s
+		floatU.parts.sign = signbit(f) ? 1 : 0;
 		floatU.parts.exponent = FIFTYONE_DEGREES_FLOAT_EXP_MAX;
 		floatU.parts.mantissa = FIFTYONE_DEGREES_FLOAT_MANT_MAX;
 		break;
@@ -119,6 +120,8 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 			* powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
 		break;
 	case FP_ZERO:
+		floatU.parts.sign = signbit(f) ? 1 : 0;
+		break;
 	default:
 		break;
 	}
-- 
2.43.0


From f65a59a85ecbc4f6b0c42767121fb2d9a0937401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:03 +0000
Subject: [PATCH 35/81] fix: subnormal floats are converted to their value

---
 float.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/float.c b/float.c
index 449caef..811b04f 100644
--- a/float.c
+++ b/float.c
@@ -97,13 +97,15 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 		break;
 	case FP_SUBNORMAL:
 		// If subnormal, leave exponent to 0
-		significand = (float)frexp(f, &exponent);
 		floatU.parts.sign = (f >= 0) ? 0 : -1;
 		/*
-		 * Significand is fractional so time with 2 to power of number of mantissa bits
-		 * to get its integer
+		 * There is no hidden bit and the exponent is always (1 - bias), so
+		 * remove it and times with 2 to power of number of mantissa bits to
+		 * get the mantissa as an integer
 		 */
-		floatU.parts.mantissa = (int)(fabsf(significand) * powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
+		floatU.parts.mantissa = (int)(fabsf(f) *
+			powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_BIAS - 1) *
+			powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
 		break;
 	case FP_NORMAL:
 		significand = (float)frexp(f, &exponent);
-- 
2.43.0


From bb9cef91890d0f0611c806c171c24b05b17a08f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:03 +0000
Subject: [PATCH 36/81] fix: the component key value after the last is out of
 range

---
 component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 34de863..922eb0e 100644
--- a/component.c
+++ b/component.c
@@ -67,7 +67,7 @@ const fiftyoneDegreesComponentKeyValuePair* fiftyoneDegreesComponentGetKeyValueP
 	uint16_t index,
 	fiftyoneDegreesException *exception) {
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-	if (index > component->keyValuesCount) {
+	if (index >= component->keyValuesCount) {
 		EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
 		return NULL;
 	}
-- 
2.43.0


From d0dcc0fa7f5d94767cf277887cfe0aa75eaa8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:03 +0000
Subject: [PATCH 37/81] fix: the tracked size of an allocation is not truncated

---
 memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 5bb79f4..1328de1 100644
--- a/memory.c
+++ b/memory.c
@@ -39,7 +39,7 @@ static bool initialised = false;
 
 typedef struct memory_allocation_t {
 	fiftyoneDegreesTreeNode tree; /* Tree node data structure */
-	uint32_t size; /* The amount of memory allocated at pointer */
+	size_t size; /* The amount of memory allocated at pointer */
 } allocation;
 
 typedef struct memory_allocation_tree_t {
@@ -123,7 +123,7 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	record->size = (uint32_t)size;
+	record->size = size;
 
 	// Update the tracking tree with the new allocation.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -149,7 +149,7 @@ static void trackAllocation(void* pointer, size_t size) {
 }
 
 static void untrackAllocation(void *pointer) {
-	uint32_t size;
+	size_t size;
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
-- 
2.43.0


From e968ec4cb7658f010097c979e5e3262e6c7d4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 38/81] fix: aligned allocations are rounded up to a multiple
 of the alignment

---
 memory.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 1328de1..efa9631 100644
--- a/memory.c
+++ b/memory.c
@@ -72,8 +72,15 @@ void* fiftyoneDegreesMemoryStandardMalloc(size_t size) {
 	return malloc(size);
 }
 
+/* Size of the memory needed for the size requested to be a multiple of the
+alignment. */
+static size_t getAlignedSize(int alignment, size_t size) {
+	size_t remainder = size % alignment;
+	return remainder == 0 ? size : size + (alignment - remainder);
+}
+
 void* fiftyoneDegreesMemoryStandardMallocAligned(int alignment, size_t size) {
-	size += size % alignment;
+	size = getAlignedSize(alignment, size);
 #if defined( _MSC_VER) || defined(__MINGW32__) || defined(__MINGW64__)
 	return _aligned_malloc(size, alignment);
 #elif defined (__APPLE__)
@@ -195,7 +202,7 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	trackAllocation(pointer, getAlignedSize(alignment, size));
 	return pointer;
 }
 
-- 
2.43.0


From 01376f3151d9e8d013699c01626e4110f48943a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 39/81] fix: failed allocations and freeing nothing are not
 tracked

---
 memory.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/memory.c b/memory.c
index efa9631..e81b7eb 100644
--- a/memory.c
+++ b/memory.c
@@ -202,7 +202,9 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, getAlignedSize(alignment, size));
+	if (pointer != NULL) {
+		trackAllocation(pointer, getAlignedSize(alignment, size));
+	}
 	return pointer;
 }
 
@@ -215,7 +217,9 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size);
+	if (pointer != NULL) {
+		trackAllocation(pointer, size);
+	}
 	return pointer;
 }
 
@@ -232,13 +236,17 @@ void fiftyoneDegreesMemoryStandardFreeAligned(void* pointer) {
 }
 
 void fiftyoneDegreesMemoryTrackingFree(void *pointer) {
-	untrackAllocation(pointer);
+	if (pointer != NULL) {
+		untrackAllocation(pointer);
+	}
 	// Finally free the pointer.
 	MemoryStandardFree(pointer);
 }
 
 void fiftyoneDegreesMemoryTrackingFreeAligned(void* pointer) {
-	untrackAllocation(pointer);
+	if (pointer != NULL) {
+		untrackAllocation(pointer);
+	}
 	// Finally free the pointer.
 	MemoryStandardFreeAligned(pointer);
 }
-- 
2.43.0


From 3f913f14fc4c251db7cc27e5c484a200ef97b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 40/81] fix: a profile id is not found where there are no
 profiles

---
 profile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index 9e9dbba..ca4ffe0 100644
--- a/profile.c
+++ b/profile.c
@@ -157,16 +157,17 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 	uint32_t *profileOffset,
 	fiftyoneDegreesException *exception) {
 	Item profileOffsetItem;
+	const uint32_t count = CollectionGetCount(profileOffsets);
 	DataReset(&profileOffsetItem.data);
 
 	if (profileId == 0) {
 		EXCEPTION_SET(PROFILE_EMPTY);
 	}
-	else if (CollectionBinarySearch(
+	else if (count > 0 && CollectionBinarySearch(
 		profileOffsets,
 		&profileOffsetItem,
 		0,
-		CollectionGetCount(profileOffsets) - 1,
+		count - 1,
 		(void*)&profileId,
 		compareProfileId,
 		exception) >= 0) {
-- 
2.43.0


From 1a02c6af8d86a56e3b08b71000c48715af58b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 41/81] fix: the values of a profile are only read up to the
 last

---
 profile.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/profile.c b/profile.c
index ca4ffe0..8999804 100644
--- a/profile.c
+++ b/profile.c
@@ -131,8 +131,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -327,9 +327,10 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (
+								profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
 									callback(state, &profileItem);
-- 
2.43.0


From c74e286d07039f4ff2c70b6eacf26a42a29f7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 42/81] fix: a profile is released to the collection it came
 from

---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 8999804..fd64812 100644
--- a/profile.c
+++ b/profile.c
@@ -340,7 +340,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
-- 
2.43.0


From 21e266e3a8b964350256afa3bbacbdc99a4a8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 43/81] fix: iterating profiles stops at the first failure

---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index fd64812..040e2b0 100644
--- a/profile.c
+++ b/profile.c
@@ -308,7 +308,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
-- 
2.43.0


From 681e53189be0289205754992a33a3eac06e41fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 44/81] fix: a property whose name can't be read is not the one
 asked for

---
 property.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/property.c b/property.c
index 9ee0eb6..2538394 100644
--- a/property.c
+++ b/property.c
@@ -125,19 +125,19 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				property,
 				&propertyNameItem,
 				exception);
-			if (name != NULL) {
 
-				// If the property name for this index doesn't match then
-				// release the property and set the property pointer back to
-				// zero.
-				if (EXCEPTION_OKAY &&
-					strcmp(&name->value, requiredPropertyName) != 0) {
-					property = NULL;
-					COLLECTION_RELEASE(properties, item);
-				}
+			// If the property name for this index isn't available or doesn't
+			// match then release the property and set the property pointer
+			// back to zero.
+			if (name == NULL || EXCEPTION_FAILED ||
+				strcmp(&name->value, requiredPropertyName) != 0) {
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
+			}
 
-				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+			// Release the property name as this is not needed again.
+			if (name != NULL) {
+				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
 		}
 	}
-- 
2.43.0


From 2fabdfca705ff733e0223c82fb7f309d0ff17cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 45/81] fix: a value which isn't found is not released

---
 value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 16bdbbc..21449e3 100644
--- a/value.c
+++ b/value.c
@@ -207,6 +207,9 @@ long fiftyoneDegreesValueGetIndexByName(
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
+	if ((int)property->firstValueIndex == -1) {
+		return -1;
+	}
 	index = CollectionBinarySearch(
 		values,
 		&item,
@@ -215,7 +218,7 @@ long fiftyoneDegreesValueGetIndexByName(
 		(void*)&search,
 		compareValueByName,
 		exception);
-	if (EXCEPTION_OKAY) {
+	if (index >= 0 && EXCEPTION_OKAY) {
 		COLLECTION_RELEASE(values, &item);
 	}
 	return index;
-- 
2.43.0


From 098b7f2bbabbef334e7849bfb584427e971c4e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 46/81] fix: text which is not an IP address is not equal to
 one

---
 value.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value.c b/value.c
index 21449e3..238cd13 100644
--- a/value.c
+++ b/value.c
@@ -116,6 +116,10 @@ static int compareIpAddress(String *value, const char *target) {
 		}
 		Free(ipAddress);
 	}
+	else {
+		// This will eventually end with no value found
+		result = -1;
+	}
 	return result;
 }
 
-- 
2.43.0


From 3241d2aeb8a662c73016173878ff82dd4186bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 47/81] fix: coordinates and IP addresses are only compared
 within their size

---
 value.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value.c b/value.c
index 238cd13..bcd6837 100644
--- a/value.c
+++ b/value.c
@@ -56,7 +56,8 @@ static fiftyoneDegreesString* getString(
 static int compareCoordinate(String *value, const char *target) {
 	int result = 0;
 	char *curPtr = strstr(target, ",");
-	if (curPtr != NULL) {
+	if (curPtr != NULL &&
+		value->size >= (int16_t)(sizeof(value->value) + 2 * sizeof(Float))) {
 		// Only compare if same format
 		Float targetLat = NATIVE_TO_FLOAT((float)atof(target));
 		Float targetLon = NATIVE_TO_FLOAT((float)atof(curPtr + 1));
@@ -103,7 +104,7 @@ static int compareIpAddress(String *value, const char *target) {
 			break;
 		}
 
-		if (searchLength == 0) {
+		if (searchLength == 0 || valueLength < 0) {
 			result = -1;
 		}
 		else {
-- 
2.43.0


From c51c5c337750fd54ea13e02d9ac4c7c4e750d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 48/81] fix: initialising components stops when one can't be
 read

---
 component.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 922eb0e..f1a3494 100644
--- a/component.c
+++ b/component.c
@@ -113,7 +113,10 @@ void fiftyoneDegreesComponentInitList(
 				offset,
 				&item,
 				exception);
-			if (component != NULL && EXCEPTION_OKAY) {
+			if (component == NULL) {
+				break;
+			}
+			if (EXCEPTION_OKAY) {
 				ListAdd(list, &item);
 
 				// Move to the next component in the collection.
-- 
2.43.0


From fdc4c0ae839483c8961a30a5776ed37f27e8d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:49 +0000
Subject: [PATCH 49/81] fix: a data buffer of any size is known to be held

---
 data.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data.c b/data.c
index dd8e645..40776b8 100644
--- a/data.c
+++ b/data.c
@@ -40,9 +40,14 @@ void* fiftyoneDegreesDataMalloc(
 		data->allocated = 0;
 	}
 	if (data->allocated == 0) {
+		// Memory is only known to be held if the size of it isn't zero.
+		if (bytesNeeded == 0) {
+			bytesNeeded = 1;
+		}
 		data->ptr = (byte*)Malloc(bytesNeeded);
 		if (data->ptr != NULL) {
-			data->allocated = (uint32_t)bytesNeeded;
+			data->allocated = bytesNeeded > UINT32_MAX ?
+				UINT32_MAX : (uint32_t)bytesNeeded;
 		}
 	}
 	return data->ptr;
-- 
2.43.0


From 3ed53790b1766d3d8147786996dc227351fe9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:12 +0000
Subject: [PATCH 50/81] fix: the final lines of a text file are returned when
 they were already read

---
 textfile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..c6276cf 100644
--- a/textfile.c
+++ b/textfile.c
@@ -80,6 +80,7 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		// Update end to the last line read
 		end = current + bufferRead;
 		if ((limit < 0 || counter < limit) && 
+			end > buffer &&
 			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
 			// If there isn't a new line or carriage return at the end
 			// we won't be able to determine the end of last line, so
@@ -92,6 +93,7 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		fclose(handle);
 
 		// Return any final lines held in the buffer.
+		current = buffer;
 		while (current < end && 
 			(limit < 0 || counter < limit)) {
 			current = returnNextLine(buffer, end, buffer, state, callback);
-- 
2.43.0


From 1a2968c5d79b93f40afa5abdea86e77916ea3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:12 +0000
Subject: [PATCH 51/81] fix: a line end split by the buffer is not an
 additional line

---
 textfile.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/textfile.c b/textfile.c
index c6276cf..bd500e5 100644
--- a/textfile.c
+++ b/textfile.c
@@ -29,7 +29,15 @@ static char* returnNextLine(
 	char* end, 
 	char* current, 
 	void* state, 
-	void(*callback)(const char*, void*)) {
+	void(*callback)(const char*, void*),
+	int* counter) {
+
+	// Move past any line ends before the line. These are part of the last line
+	// end where that wasn't in the buffer as a whole.
+	while (current < end && (*current == '\r' || *current == '\n')) {
+		current++;
+	}
+	char* start = current;
 
 	while (current < end && *current != '\r' && *current != '\n') {
 		current++;
@@ -39,10 +47,16 @@ static char* returnNextLine(
 	// call the callback.
 	if (current < end) {
 		*current = '\0';
-		callback(buffer, state);
+		callback(start, state);
+		(*counter)++;
 		// Move to the next character
 		current++;
 	}
+	else if (start > buffer) {
+		// The line end might be found when there is more of the buffer
+		// available for the line.
+		return start;
+	}
 
 	// Move to the next printable character.
 	while (current < end && (*current == '\r' || *current == '\n')) {
@@ -69,8 +83,13 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 			== (size_t)(end - current)) {
 
 			// Return the next line.
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			counter++;
+			current = returnNextLine(
+				buffer,
+				end,
+				buffer,
+				state,
+				callback,
+				&counter);
 
 			// Shift the buffer to the left and load the next characters.
 			size_t shift = end - current;
@@ -96,9 +115,14 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		current = buffer;
 		while (current < end && 
 			(limit < 0 || counter < limit)) {
-			current = returnNextLine(buffer, end, buffer, state, callback);
+			current = returnNextLine(
+				buffer,
+				end,
+				buffer,
+				state,
+				callback,
+				&counter);
 			buffer = current;
-			counter++;
 		}
 	}
 }
-- 
2.43.0


From 489d832a967767f401d7838cd45574de5eae25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:47 +0000
Subject: [PATCH 52/81] fix: a yaml document with more pairs than the
 collection stays within it

---
 yamlfile.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..da58db5 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -84,6 +84,12 @@ static char* readNext(FileState* fileState) {
 
 // Sets the current and end pointers to the current key.
 static void setCurrentKey(PairState* state) {
+	if (state->index < 0 || state->index >= state->size) {
+		// There is no pair available to be written to.
+		state->current = NULL;
+		state->end = NULL;
+		return;
+	}
 	KeyValuePair* current = state->pairs + state->index;
 	state->current = current->key;
 	state->end = current->key + current->keyLength - 1;
@@ -91,23 +97,38 @@ static void setCurrentKey(PairState* state) {
 
 // Sets the current and end pointers to the current value.
 static void setCurrentValue(PairState* state) {
+	if (state->index < 0 || state->index >= state->size) {
+		// There is no pair available to be written to.
+		state->current = NULL;
+		state->end = NULL;
+		return;
+	}
 	KeyValuePair* current = state->pairs + state->index;
 	state->current = current->value;
 	state->end = current->value + current->valueLength - 1;
 }
 
+// Null terminates the string currently being written if there is one.
+static void terminate(PairState* state) {
+	if (state->current != NULL) {
+		*state->current = '\0';
+	}
+}
+
 // Switches from writing to the current key to the current value. Ensures that
 // the current string being written is null terminated.
 static void switchKeyValue(PairState* state) {
-	*state->current = '\0';
+	terminate(state);
 	setCurrentValue(state);
 }
 
 // Advances to the next key value pair. Ensures that the current string being 
 // written is null terminated.
 static void nextPair(PairState* state) {
-	*state->current = '\0';
-	state->index++;
+	terminate(state);
+	if (state->index < state->size) {
+		state->index++;
+	}
 	setCurrentKey(state);
 }
 
@@ -124,6 +145,8 @@ static void newLine(FileState* state) {
 // Sets the pairs for a new document.
 static void newDocument(PairState* state) {
 	state->index = -1;
+	state->current = NULL;
+	state->end = NULL;
 }
 
 // Move the character position along by one.
@@ -142,8 +165,8 @@ static void addCharacter(
 	PairState* pairState, 
 	FileState* fileState, 
 	char* current) {
-	if (pairState->current < pairState->end &&
-		pairState->index < pairState->size &&
+	if (pairState->current != NULL &&
+		pairState->current < pairState->end &&
 		isValue(fileState)) {
 		*pairState->current = *current;
 		pairState->current++;
@@ -204,6 +227,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					pairState.current != NULL &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
@@ -215,8 +239,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			}
 			else {
 				// EOF
-				if (pairState.index > 0) {
-					callback(keyValuePairs, pairState.index, state);
+				if (pairState.index > 0) {
+					callback(keyValuePairs, pairState.index, state);
 				}
 				break;
 			}
-- 
2.43.0


From 7741a6c8d990bfee389b82e1b8679914e28d7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:47 +0000
Subject: [PATCH 53/81] fix: a yaml collection can have more than 32767 pairs

---
 yamlfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlfile.c b/yamlfile.c
index da58db5..0509a3c 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -29,7 +29,7 @@ const size_t CONTROL_LENGTH = 3;
 typedef struct pair_state_t {
 	KeyValuePair* pairs; // array of key value evidence pairs
 	uint16_t size; // total available keyValuePairs
-	int16_t index; // current index being populated in the keyValuePairs
+	int index; // current index being populated in the keyValuePairs
 	char* current; // current pointer to character in the pair
 	char* end; // last pointer that is valid
 } PairState;
-- 
2.43.0


From e378bf12cf26cabe84e7674096efd04ccfc7617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:48 +0000
Subject: [PATCH 54/81] fix: the last quote of a yaml value is only looked for
 within the value

---
 yamlfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yamlfile.c b/yamlfile.c
index 0509a3c..4072ce9 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -30,6 +30,7 @@ typedef struct pair_state_t {
 	KeyValuePair* pairs; // array of key value evidence pairs
 	uint16_t size; // total available keyValuePairs
 	int index; // current index being populated in the keyValuePairs
+	char* start; // start of the current key or value being written
 	char* current; // current pointer to character in the pair
 	char* end; // last pointer that is valid
 } PairState;
@@ -91,6 +92,7 @@ static void setCurrentKey(PairState* state) {
 		return;
 	}
 	KeyValuePair* current = state->pairs + state->index;
+	state->start = current->key;
 	state->current = current->key;
 	state->end = current->key + current->keyLength - 1;
 }
@@ -104,6 +106,7 @@ static void setCurrentValue(PairState* state) {
 		return;
 	}
 	KeyValuePair* current = state->pairs + state->index;
+	state->start = current->value;
 	state->current = current->value;
 	state->end = current->value + current->valueLength - 1;
 }
@@ -209,6 +212,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		collectionSize,
 		0,
 		keyValuePairs[0].key,
+		keyValuePairs[0].key,
 		keyValuePairs[0].key + keyValuePairs[0].keyLength - 1 };
 
 	// If there is no limit then set the limit to the largest value to 
@@ -228,6 +232,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
 					pairState.current != NULL &&
+					pairState.current > pairState.start &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
-- 
2.43.0


From 2f9f754c3a2eeb8068a63a35f2dc578fae7591f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:49 +0000
Subject: [PATCH 55/81] fix: an empty yaml file or one starting with a new line
 has no extra pair

---
 yamlfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlfile.c b/yamlfile.c
index 4072ce9..732e738 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -226,7 +226,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
-			if (fileState.newLineCount == 0) {
+			if (fileState.newLineCount == 0 && fileState.position > 0) {
 
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
-- 
2.43.0


From 14c9251d7649475a47e36c04020fe8e4ea4026ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:50 +0000
Subject: [PATCH 56/81] fix: failing to read a yaml file is not the end of the
 file

---
 yamlfile.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 732e738..5a0bd31 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -56,12 +56,12 @@ static StatusCode readNextBlock(FileState* fileState) {
 		sizeof(char),
 		fileState->bufferLength,
 		fileState->handle);
-	if (bytesRead == 0 && !feof(fileState->handle)) {
-		status = INSUFFICIENT_MEMORY;
-	}
-	else if (ferror(fileState->handle)) {
+	if (ferror(fileState->handle)) {
 		status = FILE_READ_ERROR;
 	}
+	else if (bytesRead == 0 && !feof(fileState->handle)) {
+		status = INSUFFICIENT_MEMORY;
+	}
 	else if (bytesRead == 0) {
 		status = FILE_END_OF_FILE;
 	}
@@ -71,12 +71,15 @@ static StatusCode readNextBlock(FileState* fileState) {
 }
 
 // Read the next character or null if there are no more characters to be read.
-static char* readNext(FileState* fileState) {
-	StatusCode status = SUCCESS;
+// The status is set if this is for a reason other than the end of the file.
+static char* readNext(FileState* fileState, StatusCode* status) {
 	fileState->current++;
 	if (fileState->current > fileState->end) {
-		status = readNextBlock(fileState);
-		if (status != SUCCESS) {
+		StatusCode readStatus = readNextBlock(fileState);
+		if (readStatus != SUCCESS) {
+			if (readStatus != FILE_END_OF_FILE) {
+				*status = readStatus;
+			}
 			return NULL;
 		}
 	}
@@ -222,7 +225,12 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	}
 
 	while (true) {
-		current = readNext(&fileState);
+		current = readNext(&fileState, &status);
+
+		// The rest of the file can't be read so there are no more documents.
+		if (status != SUCCESS) {
+			break;
+		}
 
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
-- 
2.43.0


From 180ad4aed79be8ee2205a34b72145cd863fd180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:51 +0000
Subject: [PATCH 57/81] fix: a limit of zero yaml documents returns none

---
 yamlfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlfile.c b/yamlfile.c
index 5a0bd31..41848c2 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -224,7 +224,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		limit = INT_MAX;
 	}
 
-	while (true) {
+	while (count < limit) {
 		current = readNext(&fileState, &status);
 
 		// The rest of the file can't be read so there are no more documents.
-- 
2.43.0


From 840018ca8d4160e9b4f4a3ac6afe66dfe48e8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:29 +0000
Subject: [PATCH 58/81] fix: a file copy only succeeds when all the bytes are
 copied

---
 file.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/file.c b/file.c
index 9401b00..6e66b94 100644
--- a/file.c
+++ b/file.c
@@ -149,18 +149,19 @@ static StatusCode fileOpen(
 static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
 	size_t lengthRead, lengthWritten = 0;
-	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
-		lengthRead = fread(buffer, 1, sizeof(buffer), source);
-		while (lengthRead > 0) {
-			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
-			if (lengthWritten != lengthRead) {
-				return FILE_COPY_ERROR;
-			}
-			lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	if (fseek(source, 0L, SEEK_SET) != 0) {
+		return FILE_COPY_ERROR;
+	}
+	lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	while (lengthRead > 0) {
+		lengthWritten = fwrite(buffer, 1, lengthRead, destination);
+		if (lengthWritten != lengthRead) {
+			return FILE_COPY_ERROR;
 		}
+		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 	}
-	return SUCCESS;
+	// The copy is only complete if the end of the source was reached.
+	return ferror(source) ? FILE_COPY_ERROR : SUCCESS;
 }
 
 /**
@@ -1031,7 +1032,10 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		// Some of the data might only be written when the file is closed.
+		if (fclose(destinationFile) != 0 && status == SUCCESS) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
-- 
2.43.0


From 7bac19e2bff432a5bd83b2ad0238cb4b8e74c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:30 +0000
Subject: [PATCH 59/81] fix: writing a file only succeeds when all the bytes
 are written

---
 file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 6e66b94..f496ddf 100644
--- a/file.c
+++ b/file.c
@@ -585,10 +585,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 	FILE *file;
 	StatusCode status = fileOpen(fileName, &file, "wb");
 	if (status == SUCCESS) {
-		if (fwrite(data, length, 1, file) != 1) {
+		if (fwrite(data, 1, length, file) != length) {
+			status = FILE_FAILURE;
+		}
+		// Some of the data might only be written when the file is closed.
+		if (fclose(file) != 0) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
 	}
 	return status;
 }
-- 
2.43.0


From b3594fafa84a2c9d71359d2571cc6a1a7b648890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:31 +0000
Subject: [PATCH 60/81] fix: a file which can't be loaded into memory is a file
 failure and is freed

---
 file.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index f496ddf..1d76bbb 100644
--- a/file.c
+++ b/file.c
@@ -1066,6 +1066,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 	if (status == SUCCESS) {
 		// Get the size of the file and allocate sufficient memory.
 		reader->length = fileGetSize(sourceFile);
+		if (reader->length < 0) {
+			reader->startByte = NULL;
+			reader->current = NULL;
+			reader->length = 0;
+			fclose(sourceFile);
+			return FILE_FAILURE;
+		}
 		reader->current = reader->startByte = (byte*)Malloc(
 			sizeof(char) * reader->length);
 		if (reader->current != NULL) {
@@ -1074,7 +1081,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From be3bbaca8c71fa7d933207489bc64d1d2d26f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:32 +0000
Subject: [PATCH 61/81] fix: comparing any number of bytes of two files stays
 within the buffers

---
 file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 1d76bbb..1a7105e 100644
--- a/file.c
+++ b/file.c
@@ -266,7 +266,7 @@ static bool compareFiles(
 
 	// Compare the sizes.
 	size = FileGetSize(fileName);
-	if (size > 0 && size != FileGetSize(otherFileName)) {
+	if (size < 0 || size != FileGetSize(otherFileName)) {
 		return false;
 	}
 	// Open both files.
@@ -282,7 +282,10 @@ static bool compareFiles(
 
 	while (ftell(file) < size &&
 		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
+		read = (long)sizeof(buffer);
+		if (bytesToCompare >= 0 && bytesToCompare - ftell(file) < read) {
+			read = bytesToCompare - ftell(file);
+		}
 		if (size - ftell(file) < read) {
 			read = size - ftell(file);
 		}
-- 
2.43.0


From 37815dabdb696e912c1dd9161fc2b08bfe46435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:33 +0000
Subject: [PATCH 62/81] fix: all the paths provided are used to find temporary
 files

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 1a7105e..882a339 100644
--- a/file.c
+++ b/file.c
@@ -682,7 +682,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
@@ -720,7 +720,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
-- 
2.43.0


From e4df9aaf92fc81fd963ae5699fc4bb65b5381a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:33 +0000
Subject: [PATCH 63/81] fix: the extension of a file name is not looked for in
 its path

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 882a339..1c4f281 100644
--- a/file.c
+++ b/file.c
@@ -632,7 +632,7 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	const char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
 	if (dot != NULL) {
 		end = dot - pos;
-- 
2.43.0


From 3bf3dbd1de2ec9db34dce7e73864406705722a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:34 +0000
Subject: [PATCH 64/81] fix: a temporary file name which is cut short is
 insufficient memory

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index 1c4f281..36e9b01 100644
--- a/file.c
+++ b/file.c
@@ -762,7 +762,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -834,7 +834,7 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
-- 
2.43.0


From 79bdba2a43fd398e90929d550ede59633b886028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:35 +0000
Subject: [PATCH 65/81] fix: only one temporary file is created

---
 file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 36e9b01..05bac11 100644
--- a/file.c
+++ b/file.c
@@ -846,8 +846,13 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 			}
 		}
 
+		if (status == SUCCESS) {
+			// The first copy is the only one needed.
+			return status;
+		}
+
 		// Reset the destination
-		if (status != SUCCESS && length > 0) {
+		if (length > 0) {
 			memset(destination, 0, length);
 		}
 	}
-- 
2.43.0


From 35fb05edd9a5b0991f339d558d3f1b4008ef1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:36 +0000
Subject: [PATCH 66/81] fix: temporary files are found in the working directory

---
 file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 05bac11..09c0a83 100644
--- a/file.c
+++ b/file.c
@@ -419,7 +419,8 @@ static bool iterateFiles(
 #else
 	DIR *dir;
 	struct dirent *ent;
-	dir = opendir(path);
+	// An empty path is the working directory.
+	dir = opendir(*path == '\0' ? "." : path);
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-- 
2.43.0


From 8914b6f0c80cab79c85fe01579ebf74703cfd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:37 +0000
Subject: [PATCH 67/81] fix: a file in use by any path to it is not deleted

---
 file.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/file.c b/file.c
index 09c0a83..6af1c52 100644
--- a/file.c
+++ b/file.c
@@ -494,6 +494,15 @@ static bool isFileInUse(const char *pathName) {
 	char fdPath[FILE_MAX_PATH];
 	char linkFile[FILE_MAX_PATH];
 	char linkPath[FILE_MAX_PATH];
+	char *fullPath;
+
+	// The links are to the full path of the file.
+	fullPath = realpath(pathName, NULL);
+	if (fullPath == NULL) {
+		// It's not known if the file is in use, so lets report true.
+		return true;
+	}
+
 	procDir = opendir("/proc");
 	if (procDir != NULL) {
 		// Iterate over all directories in /proc
@@ -514,33 +523,31 @@ static bool isFileInUse(const char *pathName) {
 							fdPath,
 							ent2->d_name) >= 0) {
 							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
+								readlink(linkFile, linkPath, FILE_MAX_PATH - 1);
 							if (written >= 0) {
 								linkPath[written] = '\0';
-								size_t linkPathLen = strlen(linkPath);
-								size_t pathNameLen = strlen(pathName);
-								if (pathNameLen <= linkPathLen &&
-									strncmp(linkPath + linkPathLen - pathNameLen,
-										pathName,
-										pathNameLen) == 0) {
+								if (strcmp(linkPath, fullPath) == 0) {
 									closedir(fdDir);
 									closedir(procDir);
+									free(fullPath);
 									return true;
 								}
 							}
 						}
 					}
 				}
+				closedir(fdDir);
 			}
-			closedir(fdDir);
 		}
 		closedir(procDir);
 	}
 	else {
 		// This method cannot be used to determine whether the file is in use.
 		// So to be safe, lets report true so it is not deleted.
+		free(fullPath);
 		return true;
 	}
+	free(fullPath);
 	return false;
 }
 #endif
-- 
2.43.0


From 90bdb05f713b802faf4c4b07d1e2c09e31508e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:38 +0000
Subject: [PATCH 68/81] fix: any number of deleted temporary files are counted

---
 file.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/file.c b/file.c
index 6af1c52..1812628 100644
--- a/file.c
+++ b/file.c
@@ -557,8 +557,8 @@ static bool isFileInUse(const char *pathName) {
 #endif
 
 /**
- * Deletes the file is it is not in use. The first byte of state->destination
- * is used as a counter to indicate how many files were successfully deleted.
+ * Deletes the file is it is not in use. The state->destination is used as an
+ * integer counter to indicate how many files were successfully deleted.
  * @param fileName path to matching file
  * @param state pointer to the file iterator state with the destination pointer
  * @return false to indicate that the search should continue
@@ -575,7 +575,7 @@ static bool iteratorFileDelete(const char *fileName, void *state) {
 	if (isFileInUse(fileName) == false) {
 #endif
 		if (fiftyoneDegreesFileDelete(fileName) == SUCCESS) {
-			((byte*)fileState->destination)[0]++;
+			(*(int*)fileState->destination)++;
 		}
 #ifdef __linux__
 	}
@@ -663,11 +663,10 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 	int count,
 	long bytesToCompare) {
 	int i;
-	byte deleted = 0;
+	int deleted = 0;
 	fileIteratorState state;
 	state.masterFileName = masterFileName;
-	// The iteratorFileDelete method will use the first byte of
-	// state.destination to keep track of the number of files deleted. This is
+	// The iteratorFileDelete method will use state.destination to keep track of the number of files deleted. This is
 	// a slight misuse of the structure, but we'll allow it as the structure
 	// is internal only.
 	state.destination = (const char*)&deleted;
@@ -696,7 +695,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 				iteratorFileDelete);
 		}
 	}
-	return (int)deleted;
+	return deleted;
 }
 
 bool fiftyoneDegreesFileGetExistingTempFile(
-- 
2.43.0


From 43be34fa38090cca72839cfb07e4b2812b4ef585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:39 +0000
Subject: [PATCH 69/81] fix: a file is also looked for in the root folder

---
 file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 1812628..94b5257 100644
--- a/file.c
+++ b/file.c
@@ -943,7 +943,8 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileGetPath(
 	if (GET_CURRENT_DIR(
 		testPath, 
 		FIFTYONE_DEGREES_FILE_MAX_PATH) == testPath) {
-		for (i = strlen(testPath); i > 0; i--) {
+		// Start at the terminator and include the root folder.
+		for (i = strlen(testPath) + 1; i-- > 0;) {
 			if (testPath[i] == '\\' || testPath[i] == '/' ||
 				testPath[i] == '\0') {
 				charsWritten = Snprintf(
-- 
2.43.0


From 87e0b4cb2554a029bcbaec58df42fa0cf3e8f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 70/81] fix: the file name of a path without folders is all of
 the path

---
 file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index 94b5257..82d7b45 100644
--- a/file.c
+++ b/file.c
@@ -1126,9 +1126,9 @@ void fiftyoneDegreesFilePoolReset(fiftyoneDegreesFilePool *filePool) {
 }
 
 const char* fiftyoneDegreesFileGetFileName(const char *filePath) {
-	char *c = (char*)filePath + strlen(filePath);
-	while (*c != '\\' && *c != '/' && c != filePath) {
+	const char *c = filePath + strlen(filePath);
+	while (c != filePath && *(c - 1) != '\\' && *(c - 1) != '/') {
 		c--;
 	}
-	return c + 1;
+	return c;
 }
-- 
2.43.0


From 4d0b5f0bb3f06950c60155e5da0a3420fe6b682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:02 +0000
Subject: [PATCH 71/81] fix: a status message which can't be allocated is null

---
 status.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/status.c b/status.c
index 8ba7735..1e8bec1 100644
--- a/status.c
+++ b/status.c
@@ -153,9 +153,12 @@ const char* fiftyoneDegreesStatusGetMessage(
 		}
 	}
 	if( message == NULL) {
-		messageSize = sizeof(defaultMessage) + 5;
+		// The longest integer has 11 characters which replace the two of "%i".
+		messageSize = sizeof(defaultMessage) + 9;
 		message = (char*)Malloc(messageSize);
-		Snprintf(message, messageSize, defaultMessage, (int)status);
+		if (message != NULL) {
+			Snprintf(message, messageSize, defaultMessage, (int)status);
+		}
 	}
 	return message;
 }
\ No newline at end of file
-- 
2.43.0


From f0a063e6a0425764605769ab22b4132f9b798f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:03 +0000
Subject: [PATCH 72/81] fix: an exception message which can't be allocated is
 null

---
 exceptionsc.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..31daa74 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -33,6 +33,8 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		"Function: %s\r\n"
 		"Line:     %d\r\n";
 	size_t length;
+	const char *file = exception->file != NULL ? exception->file : "";
+	const char *func = exception->func != NULL ? exception->func : "";
 	char *exceptionMessage = NULL;
 	const char *statusMessage = StatusGetMessage(
 		exception->status,
@@ -40,18 +42,20 @@ const char* fiftyoneDegreesExceptionGetMessage(
 	if (statusMessage != NULL) {
 		length = strlen(format);
 		length += strlen(statusMessage);
-		length += exception->file != NULL ? strlen(exception->file) : 0;
-		length += exception->func != NULL ? strlen(exception->func) : 0;
-		length += 10; // add 10 for line number
+		length += strlen(file);
+		length += strlen(func);
+		length += 12; // add 12 for line number and terminator
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				file,
+				func,
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
-- 
2.43.0


From f889fbac70b6e182cb0ed0b983ca78118fda8bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:04 +0000
Subject: [PATCH 73/81] fix: a fatal exception has the status code of its cause

---
 Exceptions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index fd9d9e0..b5ca3c1 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -25,26 +25,25 @@
 
 using namespace FiftyoneDegrees::Common;
 
-StatusCodeException::StatusCodeException() {}
+StatusCodeException::StatusCodeException()
+	: statusCode(FIFTYONE_DEGREES_STATUS_NOT_SET) {}
 
 StatusCodeException::StatusCodeException(
-	fiftyoneDegreesStatusCode code) : exception() {
+	fiftyoneDegreesStatusCode code) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, nullptr);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code,
-	const char *fileName) : exception() {
+	const char *fileName) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, fileName);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 StatusCodeException::~StatusCodeException() {}
@@ -59,6 +58,7 @@ fiftyoneDegreesStatusCode StatusCodeException::getCode() const noexcept {
 
 FatalException::FatalException(
 	fiftyoneDegreesException *exception) : StatusCodeException() {
+	statusCode = exception->status;
 	const char *exceptionMessage = ExceptionGetMessage(exception);
 	if (exceptionMessage != nullptr) {
 		message.append(exceptionMessage);
-- 
2.43.0


From cc4b9d43878748987cfed2159fea8162b7833070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:05 +0000
Subject: [PATCH 74/81] fix: closing a signal frees the memory created for it

---
 threading.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/threading.c b/threading.c
index f91e787..3905479 100644
--- a/threading.c
+++ b/threading.c
@@ -98,8 +98,12 @@ fiftyoneDegreesSignal* fiftyoneDegreesSignalCreate() {
 	Signal *signal = (Signal*)Malloc(sizeof(Signal));
 	if (signal != NULL) {
 		signal->wait = false;
-		if (pthread_cond_init(&signal->cond, NULL) != 0 ||
-			pthread_mutex_init(&signal->mutex, NULL) != 0) {
+		if (pthread_cond_init(&signal->cond, NULL) != 0) {
+			Free(signal);
+			signal = NULL;
+		}
+		else if (pthread_mutex_init(&signal->mutex, NULL) != 0) {
+			pthread_cond_destroy(&signal->cond);
 			Free(signal);
 			signal = NULL;
 		}
@@ -111,6 +115,7 @@ void fiftyoneDegreesSignalClose(fiftyoneDegreesSignal *signal) {
 	if (signal != NULL) {
 		pthread_mutex_destroy(&signal->mutex);
 		pthread_cond_destroy(&signal->cond);
+		Free(signal);
 	}
 }
 
-- 
2.43.0


From d7ba33a746df535ff205a464b13c4aac682a42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:41 +0000
Subject: [PATCH 75/81] fix: a reload that cannot allocate its handle keeps the
 active resource instead of dereferencing NULL

---
 resource.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 04c35b1..b34183b 100644
--- a/resource.c
+++ b/resource.c
@@ -137,6 +137,10 @@ static void setupResource(
 		MallocAligned(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
+	if (handle == NULL) {
+		*resourceHandle = NULL;
+		return;
+	}
 
 	// Set the handle and the number of users of the resource to zero.
 	handle->counter = emptyCounter();
@@ -183,8 +187,8 @@ void fiftyoneDegreesResourceManagerFree(
 	// active handle won't change at this point.
 	// Thus, it is safe to perform assertion directly
 	// to the active handle here. 
-	assert(getInUse(&manager->active->counter) >= 0);
 	if (manager->active != NULL) {
+		assert(getInUse(&manager->active->counter) >= 0);
 
 		ResourceHandle* newHandlePointer;
 		fiftyoneDegreesResourceReplace(
@@ -332,6 +336,9 @@ void fiftyoneDegreesResourceReplace(
 		newResource,
 		newResourceHandle,
 		manager->active->freeResource);
+	if (*newResourceHandle == NULL) {
+		return;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From e03fc61cdaf2f6906d119684c144c05d6746a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:41 +0000
Subject: [PATCH 76/81] fix: free the members of a replacement data set that
 cannot be made active

---
 dataset.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..eecacad 100644
--- a/dataset.c
+++ b/dataset.c
@@ -40,8 +40,7 @@ static StatusCode replace(
 	// Switch the active data set for the new one.
 	ResourceReplace(manager, replacement, &replacement->handle);
 	if (replacement->handle == NULL) {
-		DataSetFree(replacement);
-		Free(replacement);
+		manager->active->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
-- 
2.43.0


From 867c1f97b64634597afb1f95328957a4845b1fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:42 +0000
Subject: [PATCH 77/81] fix: copy the bytes of the address in
 IpAddress::getCopyOfIpAddress

---
 IpAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IpAddress.cpp b/IpAddress.cpp
index a3933d0..36d3368 100644
--- a/IpAddress.cpp
+++ b/IpAddress.cpp
@@ -74,8 +74,8 @@ void IpAddress::init(const unsigned char * const ipAddressData,
 
 void IpAddress::getCopyOfIpAddress(unsigned char copy[], const uint32_t size) const {
     const uint32_t dataSize = ((type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4)
-        ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4
-        : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6);
+        ? FIFTYONE_DEGREES_IPV4_LENGTH
+        : FIFTYONE_DEGREES_IPV6_LENGTH);
 	const uint32_t copySize = (size < dataSize) ? size : dataSize;
 	memcpy(copy, ipAddress, copySize);
 }
-- 
2.43.0


From 10cabd2de544a436ebc2351f6223443455c0d3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:42 +0000
Subject: [PATCH 78/81] fix: required properties given as a string are split
 without being destroyed

---
 RequiredPropertiesConfig.cpp | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3e7c1c2..579f17b 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -34,6 +34,9 @@ using namespace FiftyoneDegrees::Common;
 #define _strnicmp strncasecmp
 #endif
 
+/* Valid separators of property names in a string. See properties.h */
+#define PROPERTY_SEPARATORS "|, "
+
 RequiredPropertiesConfig::RequiredPropertiesConfig() {
 	conf.count = 0;
 	conf.array = nullptr;
@@ -90,7 +93,6 @@ RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 
 vector<string> RequiredPropertiesConfig::getProperties() const {
 	int i;
-	char *current;
 	vector<string> result;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
@@ -98,10 +100,14 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			result.insert(result.end(), current);
-			current = strtok(NULL, ",");
+		// The string is used for the configuration so must not be modified.
+		const string list(conf.string);
+		size_t end = 0;
+		size_t start = list.find_first_not_of(PROPERTY_SEPARATORS);
+		while (start != string::npos) {
+			end = list.find_first_of(PROPERTY_SEPARATORS, start);
+			result.push_back(list.substr(start, end - start));
+			start = list.find_first_not_of(PROPERTY_SEPARATORS, end);
 		}
 	}
 	return result;
@@ -110,7 +116,6 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 bool RequiredPropertiesConfig::containsProperty(
 	const char *property) const {
 	int i;
-	char *current;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
 			if (_stricmp(property, conf.array[i]) == 0) {
@@ -119,12 +124,11 @@ bool RequiredPropertiesConfig::containsProperty(
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			if (_stricmp(property, current) == 0) {
+		const vector<string> properties = getProperties();
+		for (i = 0; i < (int)properties.size(); i++) {
+			if (_stricmp(property, properties[i].c_str()) == 0) {
 				return true;
 			}
-			current = strtok(NULL, ",");
 		}
 	}
 	return false;
@@ -136,21 +140,11 @@ bool RequiredPropertiesConfig::containsProperty(
 }
 
 int RequiredPropertiesConfig::getCount() const {
-	int count;
-	char *current;
 	if (conf.array != nullptr) {
 		return conf.count;
 	}
 	else if (conf.string != nullptr) {
-		count = 0;
-		current = (char*)conf.string;
-		while (*current != '\0') {
-			if (*current == ',') {
-				count++;
-			}
-			current++;
-		}
-		return count;
+		return (int)getProperties().size();
 	}
 	return 0;
 }
-- 
2.43.0


From 09bda939c0489357d85a2050400dd6478885e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:42 +0000
Subject: [PATCH 79/81] fix: setting temporary directories again frees the
 previous ones

---
 ConfigBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ConfigBase.cpp b/ConfigBase.cpp
index 1b827c0..adc4c16 100644
--- a/ConfigBase.cpp
+++ b/ConfigBase.cpp
@@ -48,6 +48,7 @@ void ConfigBase::setReuseTempFile(bool reuse) {
 
 void ConfigBase::setTempDirectories(
 	vector<string> newTempDirs) {
+	freeTempDirectories();
 	this->tempDirs = newTempDirs;
 	mapTempDirectories();
 }
-- 
2.43.0


From d71bc02487b82c6ce301d502831ceb238c5e45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:42 +0000
Subject: [PATCH 80/81] fix: misspelt aligned allocation when memory tracking
 is built in

---
 memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index e81b7eb..944ce10 100644
--- a/memory.c
+++ b/memory.c
@@ -304,7 +304,7 @@ size_t fiftyoneDegreesUnsetMemoryTracking() {
 void *(FIFTYONE_DEGREES_CALL_CONV *fiftyoneDegreesMalloc)(size_t size) =
 fiftyoneDegreesMemoryTrackingMalloc;
 
-void* (FIFTYONE_DEGREES_CALL_CONV* fiftyoneDegreessMallocAligned)(
+void* (FIFTYONE_DEGREES_CALL_CONV* fiftyoneDegreesMallocAligned)(
 	int alignment,
 	size_t size) = fiftyoneDegreesMemoryTrackingMallocAligned;
 
-- 
2.43.0


From 48e1b3beb24433221b853d5ea739a6f6dbc09ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:49 +0000
Subject: [PATCH 81/81] fix: sorting properties whose name could not be
 retrieved

---
 properties.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index 8d03e33..b451dac 100644
--- a/properties.c
+++ b/properties.c
@@ -358,7 +358,10 @@ static int comparePropertyNamesAscending(const void *a, const void *b) {
 	PropertyAvailable *bi = (PropertyAvailable*)b;
 	const char *as = STRING(ai->name.data.ptr);
 	const char *bs = STRING(bi->name.data.ptr);
-	assert(as != NULL && bs != NULL);
+	if (as == NULL || bs == NULL) {
+		// Names that could not be retrieved come last.
+		return (as == NULL) - (bs == NULL);
+	}
 	return _stricmp(as, bs);
 }
 
-- 
2.43.0

