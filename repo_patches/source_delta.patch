From 27415532d8bf266584e59db8750ceff081205082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 01/93] fix: read the active resource handle once per access

The active pointer of the resource manager was a non volatile pointer to
volatile data, so an optimising compiler could load it once and then use it
both for the read of the counter and for the compare and swap. A get running
at the same time as a replace could then increment the emptied counter of the
replaced handle and return a NULL handle.
---
 resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.h b/resource.h
index 3300772..0158498 100644
--- a/resource.h
+++ b/resource.h
@@ -172,7 +172,7 @@ typedef struct fiftyone_degrees_resource_handle_t {
  */
 typedef struct fiftyone_degrees_resource_manager_t {
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-    volatile fiftyoneDegreesResourceHandle *active; /**< Current handle
+    volatile fiftyoneDegreesResourceHandle * volatile active; /**< Current handle
                                                     for resource used 
                                                     by the manager. */
 #else
-- 
2.43.0


From ea8d79b1e324358ed16013c0fb8f37af1e75524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 02/93] fix: retry the replacement of a resource when another
 thread replaced it

INTERLOCK_EXCHANGE_PTR returns the previous value of the destination and not a
flag, so the loop ended even if the active handle had been changed by another
thread. The new resource was then never made active and never freed.
---
 resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 833140c..04c35b1 100644
--- a/resource.c
+++ b/resource.c
@@ -344,7 +344,7 @@ void fiftyoneDegreesResourceReplace(
 	} while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle);
 #else
 	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
-- 
2.43.0


From da4028f29ae030640ef791b109c8d4afba424908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:42 +0000
Subject: [PATCH 03/93] fix: don't return the handle of a resource which has
 been replaced

If the active handle was replaced while ResourceHandleIncUse was running then
the counter read could be the emptied one of a handle about to be freed. The
compare and swap could then succeed against that, or another replaced handle,
and NULL was returned in place of a handle.
---
 resource.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 04c35b1..e366d20 100644
--- a/resource.c
+++ b/resource.c
@@ -289,7 +289,10 @@ fiftyoneDegreesResourceHandle* fiftyoneDegreesResourceHandleIncUse(
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-	} while (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
+		// The counter is emptied when the handle is about to be freed because it
+		// was replaced. Such a handle can't be returned so get the active one.
+	} while (getHandle(&compare) == NULL ||
+		FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
 		manager->active->counter,
 		incremented,
 		compare) == false);
-- 
2.43.0


From 01cbed2f138dffc9e7f67176c67c73c342d5e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 04/93] fix: the cache shard of a key with the hash INT_MIN

abs(INT_MIN) is negative so a negative shard index was used, which is outside
the array of shards, unless the concurrency is a power of two.
---
 cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 279e989..6faef49 100644
--- a/cache.c
+++ b/cache.c
@@ -385,7 +385,8 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = &cache->shards[
+		llabs((int64_t)(int)keyHash) % cache->concurrency];
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From f1a5d6270036e5922a9fafaa9867e24287668e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 05/93] fix: reuse the cache node after the load of an item
 failed

The node was left with an active count of one, in neither the tree nor the
list of the shard. The callers don't release a node when there is an
exception, so every failed load reduced the capacity of the cache for good
until every request was answered with NULL.
---
 cache.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cache.c b/cache.c
index 6faef49..2f6a695 100644
--- a/cache.c
+++ b/cache.c
@@ -243,10 +243,13 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
 		countBefore = TreeCount(&shard->root);
 		#endif
-		TreeDelete(&node->tree);
+		// It isn't in the tree if the last load into it failed.
+		if (node->tree.parent != &shard->root.empty) {
+			TreeDelete(&node->tree);
+		}
 		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
 		countAfter = TreeCount(&shard->root);
-		assert(countBefore - 1 == countAfter);
+		assert(countBefore - 1 == countAfter || countBefore == countAfter);
 		#endif
 	}
 
@@ -286,6 +289,13 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+			// The load failed so the caller gets nothing to release. Make the
+			// node available for another load.
+			node->activeCount = 0;
+			cacheAddToHead(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From 7b13993ca84700ac6a6d5e40239865d47c05b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 06/93] fix: don't lose cache hits and misses counted at the
 same time

The counters are shared by all the shards but each thread only holds the lock
of one shard when adding to them.
---
 cache.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cache.c b/cache.c
index 2f6a695..e8c6e76 100644
--- a/cache.c
+++ b/cache.c
@@ -323,6 +323,19 @@ static void cacheShardFree(CacheShard *shard) {
  * EXTERNAL CACHE METHODS
  */
 
+/**
+ * Adds one to a counter of the cache. These are shared by all the shards so
+ * the lock of a shard does not protect them.
+ * @param counter to add one to
+ */
+static void countRequest(unsigned long *counter) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	INTERLOCK_INC((volatile long*)counter);
+#else
+	(*counter)++;
+#endif
+}
+
 fiftyoneDegreesCache* fiftyoneDegreesCacheCreate(
 	uint32_t capacity,
 	uint16_t concurrency,
@@ -409,13 +422,13 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 		// The node was found in the cache, so increment the active count and
 		// remove from the shard's linked list if required.
 		cacheIncremenetCheckAndRemove(node);
-		cache->hits++;
+		countRequest(&cache->hits);
 	}
 	else {
 
 		// The key does not exist so load it.
 		node = cacheLoad(shard, key, exception);
-		cache->misses++;
+		countRequest(&cache->misses);
 	}
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From d56f2a164cb753871baa26e21459fdb1566b7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 07/93] fix: reset the data of an item after a failed read
 frees it

The data structure kept the pointer to the freed memory and its size, so that
the next operation on the same item, or cache node, wrote to the freed memory
or freed it again.
---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index 5014005..5d99bd1 100644
--- a/collection.c
+++ b/collection.c
@@ -1014,6 +1014,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1078,6 +1079,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From 92427dad99b02752a221c554e2d805df8621af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 08/93] fix: report insufficient memory when an item can't be
 copied to the cache

The cache node was kept with no data in the cache, in use for good, and every
later request for the same item gave NULL without an exception.
---
 collection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collection.c b/collection.c
index 5d99bd1..ad5b7c0 100644
--- a/collection.c
+++ b/collection.c
@@ -385,6 +385,11 @@ static void loaderCache(
 				data->used = item.data.used;
 			}
 		}
+		else if (item.data.used > 0) {
+
+			// Without an exception the node would be kept with no data.
+			EXCEPTION_SET(INSUFFICIENT_MEMORY);
+		}
 
 		// Release the item from the source collection.
 		COLLECTION_RELEASE(collection, &item);
-- 
2.43.0


From d96a0e6f2f69c043ec2ee4a627f463ed868280aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 09/93] fix: release the item of a binary search when the
 comparer fails

The caller does not know if there is an item to release, so the memory, or
cache node, and the file handle of the item were never available again.
---
 collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collection.c b/collection.c
index ad5b7c0..850f04a 100644
--- a/collection.c
+++ b/collection.c
@@ -1209,6 +1209,7 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
+			COLLECTION_RELEASE(collection, item);
 			return 0;
 		}
 
-- 
2.43.0


From d3b72186115f36fc8b8acf51f181bc2ad5ea4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 10/93] fix: initialise the item used to iterate a collection

If no item could be got from the collection then the release method was called
with an uninitialised handle.
---
 collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collection.c b/collection.c
index 850f04a..763aa66 100644
--- a/collection.c
+++ b/collection.c
@@ -406,6 +406,8 @@ static void iterateCollection(
 	Item item;
 	uint32_t nextIndexOrOffset = 0;
 	DataReset(&item.data);
+	item.handle = NULL;
+	item.collection = NULL;
 	while (nextIndexOrOffset < collection->size &&
 		collection->get(
 			collection,
-- 
2.43.0


From 5782821325d07199103e3a17506370155dc5881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:20 +0000
Subject: [PATCH 11/93] fix: handle allocation failures when creating a
 collection

The result of createCollection and createFromFile was used without checking
for NULL, and the source collection was leaked if the cache could not be
created.
---
 collection.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 763aa66..e72c5bd 100644
--- a/collection.c
+++ b/collection.c
@@ -543,6 +543,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -575,9 +578,16 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
-	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	Collection *collection = createCollection(sizeof(CollectionMemory), header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -657,7 +667,10 @@ static Collection* createFromFileCached(
 	CollectionFileRead read) {
 
 	// Allocate the memory for the collection and implementation.
-	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	Collection *collection = createCollection(sizeof(CollectionCache), header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -677,6 +690,7 @@ static Collection* createFromFileCached(
 		cache->source);
 
 	if (cache->cache == NULL) {
+		cache->source->freeCollection(cache->source);
 		freeCacheCollection(collection);
 		return NULL;
 	}
@@ -777,6 +791,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
-- 
2.43.0


From 0e3fd0a9b3437e13e41208378935dfc322e1d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 12/93] fix: don't use data beyond the end when reading a
 collection header

The size or count was read from memory before checking that there were enough
bytes left, and the length and count were not initialised when they could not
be read from a file.
---
 collection.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/collection.c b/collection.c
index e72c5bd..94f876b 100644
--- a/collection.c
+++ b/collection.c
@@ -755,6 +755,14 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	uint32_t elementSize,
 	bool isCount) {
 	CollectionHeader header;
+	if (reader->current > reader->lastByte ||
+		(size_t)(reader->lastByte - reader->current) < sizeof(uint32_t)) {
+		// There is no integer left to read.
+		header.count = 0;
+		header.length = 0;
+		header.startPosition = 0;
+		return header;
+	}
 	if (isCount) {
 		// The next integer is the count of items in the data structure.
 		header.count = *(uint32_t*)reader->current;
@@ -855,6 +863,8 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 		header.startPosition = (uint32_t)ftell(file);
 	}
 	else {
+		header.count = 0;
+		header.length = 0;
 		header.startPosition = 0;
 	}
 
-- 
2.43.0


From fdae98022bdea81c92689641cb7b49e058798acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 13/93] fix: reset the item data when a cached collection item
 is released

The item kept the pointer to memory owned by the cache node. When the item
was used again a failed get returned the old pointer, or freed it.
---
 collection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collection.c b/collection.c
index 94f876b..297a274 100644
--- a/collection.c
+++ b/collection.c
@@ -106,6 +106,9 @@ static void releaseNothing(Item *item) {
 static void releaseCache(Item *item) {
 	if (item->handle != NULL) {
 		CacheRelease((CacheNode*)item->handle);
+
+		// The memory belongs to the cache node.
+		DataReset(&item->data);
 		item->handle = NULL;
 	}
 }
-- 
2.43.0


From b04ce0e7858515bf1f6f73e9355f1b57da2c9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 14/93] fix: set an exception when all entries of a
 collection's cache are in use

The get returned NULL with no exception, and a binary search returned the
index without an item.
---
 collection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collection.c b/collection.c
index 297a274..d02f7b6 100644
--- a/collection.c
+++ b/collection.c
@@ -340,6 +340,12 @@ static void* getFromCache(
 	else {
 		item->data.used = 0;
 		item->handle = NULL;
+		if (EXCEPTION_OKAY) {
+
+			// All the entries of the cache are in use. Without an exception
+			// the caller can't tell that there is no item.
+			EXCEPTION_SET(INSUFFICIENT_HANDLES);
+		}
 	}
 
 	return ptr;
-- 
2.43.0


From 6436ee5dbb8ff7fc334666846ffe059a57f936f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 15/93] fix: free memory only collection data with the
 configured method

---
 collection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index d02f7b6..6620947 100644
--- a/collection.c
+++ b/collection.c
@@ -957,13 +957,13 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	// Position the file reader at the start of the collection.
 	if (fseek(file, header.startPosition, SEEK_SET) != 0) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
 	// Read the portion of the file into memory.
 	if (fread(memory.startByte, 1, header.length, file) != header.length) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
@@ -971,7 +971,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	result = CollectionCreateFromMemory(&memory, header);
 
 	if (result == NULL) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
-- 
2.43.0


From d82402f2e6d9426a5bbb8d0f5b129589b2c94307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 16/93] fix: partial collections return what the next
 collection returned

When the next collection could not get the item the pointer of the item last
fetched was returned.
---
 collection.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 6620947..51562fa 100644
--- a/collection.c
+++ b/collection.c
@@ -241,7 +241,11 @@ static void* getPartialVariable(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, offset, item, exception);
+		return collection->next->get(
+			collection->next,
+			offset,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_OFFSET_OUT_OF_RANGE);
@@ -264,7 +268,11 @@ static void* getPartialFixed(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, index, item, exception);
+		return collection->next->get(
+			collection->next,
+			index,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
-- 
2.43.0


From 51d6945cf1a6054113fb319522799134c5d53824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 17/93] fix: release the name when a header can't be allocated

---
 headers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 4b50964..1f96a5d 100644
--- a/headers.c
+++ b/headers.c
@@ -199,7 +199,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
@@ -280,6 +284,7 @@ static bool addHeadersFromDataSet(
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
-- 
2.43.0


From ab07154aca535d8680cd150fefdba93d943b067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 18/93] fix: skip the HTTP_ prefix of headers with a one
 character name

---
 headers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 1f96a5d..557c046 100644
--- a/headers.c
+++ b/headers.c
@@ -382,7 +382,7 @@ int fiftyoneDegreesHeaderGetIndex(
 	// Check if header is from a Perl or PHP wrapper in the form of HTTP_*
 	// and if present skip these characters.
 	if (headers->expectUpperPrefixedHeaders == true &&
-		length > sizeof(HTTP_PREFIX_UPPER) &&
+		length > sizeof(HTTP_PREFIX_UPPER) - 1 &&
 		StringCompareLength(
 			httpHeaderName,
 			HTTP_PREFIX_UPPER,
-- 
2.43.0


From 943b479be87bc2a244204905d1df7f5be9ef3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 19/93] fix: count the header and the segment of names which
 start or end with the separator

---
 headers.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/headers.c b/headers.c
index 557c046..acb09e4 100644
--- a/headers.c
+++ b/headers.c
@@ -70,9 +70,10 @@ static int countAllSegments(void* state, HeadersGetMethod get) {
 		segments = countHeaderSegments(STRING(name.data.ptr));
 		count += segments;
 
-		// If there are more than one segment then this is a pseudo header and 
-		// the count should also include the full header.
-		if (segments > 1) {
+		// If the name contains a separator then this is a pseudo header and the
+		// count should also include the full header. There might only be one
+		// segment if the separator is at the start or the end of the name.
+		if (HeadersIsPseudo(STRING(name.data.ptr))) {
 			count++;
 		}
 		COLLECTION_RELEASE(name.collection, &name);
-- 
2.43.0


From 6cf645fd0dfcb94d00ecbbe46f1057f6c2aeda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 20/93] fix: don't add more pseudo evidence than the array can
 hold

---
 pseudoheader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..80c0aa0 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -176,7 +176,10 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
     uint32_t i;
     if (evidence != NULL && acceptedHeaders != NULL) {
         for (i = 0;
-            i < acceptedHeaders->count && EXCEPTION_OKAY;
+            i < acceptedHeaders->count &&
+            evidence->pseudoEvidence->count <
+                evidence->pseudoEvidence->capacity &&
+            EXCEPTION_OKAY;
             i++) {
             header = &acceptedHeaders->items[i];
             // Only add evidence for pseudo header
-- 
2.43.0


From d8c363597604bc5ca79e825a7cbcdec8a5a91fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 21/93] fix: don't add a truncated pseudo header when one of
 its segments is missing

---
 pseudoheader.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index 80c0aa0..23034e1 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -81,21 +81,24 @@ static int constructPseudoEvidence(
     char* current = buffer;
     char* max = buffer + bufferSize;
 
-    // Use the segments from the header to construct the evidence.
+    // If there is a segment without evidence then the header can't be 
+    // constructed, even if the segment would not fit in the buffer.
     for (i = 0; i < header->segments->count; i++) {
-        
-        // Get the evidence for the segment.
         segment = &header->segments->items[i];
-        value = getEvidenceValueForHeader(segment, evidence, prefix);
-
-        // If there is no evidence value then the header can't be constructed
-        // so return.
-        if (value == NULL) {
+        if (getEvidenceValueForHeader(segment, evidence, prefix) == NULL) {
             if (bufferSize > 0) {
                 memset(buffer, '\0', 1);
             }
             return 0;
         }
+    }
+
+    // Use the segments from the header to construct the evidence.
+    for (i = 0; i < header->segments->count; i++) {
+        
+        // Get the evidence for the segment.
+        segment = &header->segments->items[i];
+        value = getEvidenceValueForHeader(segment, evidence, prefix);
 
         // If this is a subsequent segment value then add the separator.
         // make sure that we don't cause heap overflow by overwriting the terminating \0 (at position max - 1)
-- 
2.43.0


From 0c3314fb09a892786e257704d55293e6938b4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 22/93] fix: compare the characters of strings as unsigned, as
 the sort of the property names does

---
 string.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/string.c b/string.c
index 180eb69..0e0d194 100644
--- a/string.c
+++ b/string.c
@@ -62,7 +62,7 @@ fiftyoneDegreesString* fiftyoneDegreesStringGet(
 
 int fiftyoneDegreesStringCompare(const char *a, const char *b) {
 	for (; *a != '\0' && *b != '\0'; a++, b++) {
-		int d = tolower(*a) - tolower(*b);
+		int d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
 		if (d != 0) {
 			return d;
 		}
@@ -79,7 +79,7 @@ int fiftyoneDegreesStringCompareLength(
 	size_t length) {
 	size_t i;
 	for (i = 0; i < length; a++, b++, i++) {
-		int d = tolower(*a) - tolower(*b);
+		int d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
 		if (d != 0) {
 			return d;
 		}
@@ -91,12 +91,12 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 	int d;
 	const char *a1, *b1;
 	for (; *a != '\0' && *b != '\0'; a++) {
-		d = tolower(*a) - tolower(*b);
+		d = tolower((unsigned char)*a) - tolower((unsigned char)*b);
 		if (d == 0) {
 			a1 = a + 1;
 			b1 = b + 1;
 			for (; *a1 != '\0' && *b1 != '\0'; a1++, b1++) {
-				d = tolower(*a1) - tolower(*b1);
+				d = tolower((unsigned char)*a1) - tolower((unsigned char)*b1);
 				if (d != 0) {
 					break;
 				}
-- 
2.43.0


From 10eb5e686084ef91946cc4d5445039c2314ddb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 23/93] fix: don't find a sub string when only its start is at
 the end of the string

---
 string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.c b/string.c
index 0e0d194..d49124e 100644
--- a/string.c
+++ b/string.c
@@ -101,7 +101,7 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 					break;
 				}
 			}
-			if (d == 0) {
+			if (d == 0 && *b1 == '\0') {
 				return (char *)a;
 			}
 		}
-- 
2.43.0


From 84d331f883f992b0fec2506bc553b9e41d937924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 24/93] fix: skip the 51D_ prefix of properties with a one
 character name

---
 overrides.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overrides.c b/overrides.c
index 675e84c..69f71ea 100644
--- a/overrides.c
+++ b/overrides.c
@@ -94,7 +94,7 @@ static bool startsWith(String *string, String *prefix) {
  */
 static const char* skipPrefix(bool prefixed, const char *field) {
 	char *result = (char*)field;
-	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) &&
+	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) - 1 &&
 		StringCompareLength(
 			field,
 			OVERRIDE_PREFIX,
-- 
2.43.0


From d7baed35749b7b747ff08467085d58ea31c2ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 25/93] fix: don't copy an override value when there is no
 memory for it

---
 overrides.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/overrides.c b/overrides.c
index 69f71ea..ce7928c 100644
--- a/overrides.c
+++ b/overrides.c
@@ -146,6 +146,24 @@ bool fiftyoneDegreesOverridesAdd(
 		}
 		override = &values->items[currentOverrideIndex];
 
+		// Ensure there is sufficient memory for the string being copied.
+		length = strlen(value);
+		copy = (String*)fiftyoneDegreesDataMalloc(
+			&override->string,
+			sizeof(String) + length);
+		if (copy == NULL) {
+			// There is no value for the property any more. Swap it with the
+			// last value if there was one.
+			if (currentOverrideIndex < values->count) {
+				values->count--;
+				override->requiredPropertyIndex =
+					values->items[values->count].requiredPropertyIndex;
+				override->string = values->items[values->count].string;
+				DataReset(&values->items[values->count].string);
+			}
+			return false;
+		}
+
 		if (currentOverrideIndex == values->count) {
 			// Increment the override count and set the required property
 			// index.
@@ -153,12 +171,6 @@ bool fiftyoneDegreesOverridesAdd(
 			override->requiredPropertyIndex = requiredPropertyIndex;
 		}
 
-		// Ensure there is sufficient memory for the string being copied.
-		length = strlen(value);
-		copy = (String*)fiftyoneDegreesDataMalloc(
-			&override->string,
-			sizeof(String) + length);
-
 		// Copy the string from the evidence pair to the override data 
 		// item.
 		memcpy(&copy->value, value, length + 1);
-- 
2.43.0


From 32d967563bba523472c3616ecd0d7e3082c65489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 26/93] fix: return true from OverridesAdd when the value was
 added, as documented

---
 overrides.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/overrides.c b/overrides.c
index ce7928c..7d59f53 100644
--- a/overrides.c
+++ b/overrides.c
@@ -134,6 +134,7 @@ bool fiftyoneDegreesOverridesAdd(
 	size_t length;
 	String *copy;
 	OverrideValue *override;
+	bool added = false;
 	if (requiredPropertyIndex >= 0 && values->count < values->capacity) {
 
 		// Set the override either as a new item, or override an existing
@@ -175,9 +176,10 @@ bool fiftyoneDegreesOverridesAdd(
 		// item.
 		memcpy(&copy->value, value, length + 1);
 		copy->size = (int16_t)(length + 1);
+		added = true;
 	}
 
-	return values->count < values->capacity;
+	return added;
 }
 
 
@@ -189,10 +191,13 @@ static bool addOverrideToResults(void *state, EvidenceKeyValuePair *pair) {
 		add->properties,
 		pair->field);
 
-	return fiftyoneDegreesOverridesAdd(
+	fiftyoneDegreesOverridesAdd(
 		add->values,
 		requiredPropertyIndex,
 		(const char*)pair->parsedValue);
+
+	// Continue while there is space for another override.
+	return add->values->count < add->values->capacity;
 }
 
 static uint32_t countOverridableProperties(
-- 
2.43.0


From 588d3b9ff28d4f4633afb6c60ecc17e9eea9e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 27/93] fix: ignore profile ids in evidence which are too
 large, rather than using another id

---
 overrides.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/overrides.c b/overrides.c
index 7d59f53..54b29c3 100644
--- a/overrides.c
+++ b/overrides.c
@@ -422,9 +422,9 @@ void fiftyoneDegreesOverrideValuesReset(
 
 static void extractProfileId(char *value, overrideProfileIds *state) {
 	if (*value >= 0 && isdigit(*value) != 0) {
-		int profileId = atoi(value);
-		if (profileId >= 0) {
-			state->override(state->state, profileId);
+		long profileId = strtol(value, NULL, 10);
+		if (profileId >= 0 && profileId <= INT_MAX) {
+			state->override(state->state, (uint32_t)profileId);
 		}
 	}
 }
-- 
2.43.0


From bec61809071f13b8121d129d765d34137168ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 28/93] fix: free the IP addresses, not the bytes within them

---
 ip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index aebc4ab..e771163 100644
--- a/ip.c
+++ b/ip.c
@@ -202,7 +202,7 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		free(prev);
 	}
 }
 
-- 
2.43.0


From a9f4c4a7083d6ff97dc68410b7d34d0a58ffa7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 29/93] fix: don't write beyond the end of an IP address with
 too many segments

---
 ip.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ip.c b/ip.c
index e771163..19c37d1 100644
--- a/ip.c
+++ b/ip.c
@@ -66,6 +66,21 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/*
+ * Adds the byte to the address if there is space for another one. There isn't
+ * if the source had more segments than the type of address has.
+ */
+static void addIpByte(EvidenceIpAddress *address, byte value) {
+	ptrdiff_t size = 
+		address->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+		FIFTYONE_DEGREES_IPV4_LENGTH :
+		FIFTYONE_DEGREES_IPV6_LENGTH;
+	if (address->current - address->address < size) {
+		*address->current = value;
+		address->current++;
+	}
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -75,8 +90,7 @@ static void parseIpV6Segment(
 	if (start > end) {
 		// This is an abbreviation, so fill it in.
 		for (i = 0; i < 16 - address->bytesPresent; i++) {
-			*address->current = (byte)0;
-			address->current++;
+			addIpByte(address, (byte)0);
 		}
 	}
 	else {
@@ -90,10 +104,8 @@ static void parseIpV6Segment(
 			if (i < 2) second[1 - i] = val;
 			else first[3 - i] = val;
 		}
-		*address->current = getIpByte((int)strtol(first, NULL, 16));
-		address->current++;
-		*address->current = getIpByte((int)strtol(second, NULL, 16));
-		address->current++;
+		addIpByte(address, getIpByte((int)strtol(first, NULL, 16)));
+		addIpByte(address, getIpByte((int)strtol(second, NULL, 16)));
 	}
 }
 
@@ -104,8 +116,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
-		address->current++;
+		addIpByte(address, getIpByte(atoi(start)));
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
 		parseIpV6Segment(address, start, end);
-- 
2.43.0


From 5d373a0becb9c0a7e46d6cfa4f9d4aa217dc5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 30/93] fix: set the bytes of an IP address which has too few
 segments

---
 ip.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ip.c b/ip.c
index 19c37d1..237dd91 100644
--- a/ip.c
+++ b/ip.c
@@ -236,6 +236,13 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 		// IpAddress structure. The previous Malloc included the necessary
 		// space to make this available.
 		address->address = (byte*)(address + 1);
+		// Bytes which are not in the source value are zero.
+		memset(
+			address->address,
+			0,
+			type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+			FIFTYONE_DEGREES_IPV4_LENGTH :
+			FIFTYONE_DEGREES_IPV6_LENGTH);
 		// Set the next byte to be added during the parse operation.
 		address->current = (byte*)(address + 1);
 		address->bytesPresent = (byte)count;
-- 
2.43.0


From 6f4982d9a372149342481613c0f564f121dbc416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 31/93] fix: copy all the bytes of an IP address

---
 IpAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IpAddress.cpp b/IpAddress.cpp
index a3933d0..36d3368 100644
--- a/IpAddress.cpp
+++ b/IpAddress.cpp
@@ -74,8 +74,8 @@ void IpAddress::init(const unsigned char * const ipAddressData,
 
 void IpAddress::getCopyOfIpAddress(unsigned char copy[], const uint32_t size) const {
     const uint32_t dataSize = ((type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4)
-        ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4
-        : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6);
+        ? FIFTYONE_DEGREES_IPV4_LENGTH
+        : FIFTYONE_DEGREES_IPV6_LENGTH);
 	const uint32_t copySize = (size < dataSize) ? size : dataSize;
 	memcpy(copy, ipAddress, copySize);
 }
-- 
2.43.0


From 36cb2f4d9899d587badc380552336f5975ac97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 32/93] fix: don't read before the buffer when a text file is
 empty

---
 textfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..535fe4e 100644
--- a/textfile.c
+++ b/textfile.c
@@ -80,7 +80,7 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		// Update end to the last line read
 		end = current + bufferRead;
 		if ((limit < 0 || counter < limit) && 
-			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
+			end > buffer && (*(end - 1) != '\r' && *(end - 1) != '\n')) {
 			// If there isn't a new line or carriage return at the end
 			// we won't be able to determine the end of last line, so
 			// set the end byte to '\n' and increase the end by 1.
-- 
2.43.0


From f41e1299ed7197fb61d7f5371e6ee864aee6fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 33/93] fix: return the last lines of a text file when the last
 read has no data

---
 textfile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/textfile.c b/textfile.c
index 535fe4e..60913d8 100644
--- a/textfile.c
+++ b/textfile.c
@@ -91,7 +91,9 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 		}
 		fclose(handle);
 
-		// Return any final lines held in the buffer.
+		// Return any final lines held in the buffer, including those read before
+		// the last read if there was nothing left to read.
+		current = buffer;
 		while (current < end && 
 			(limit < 0 || counter < limit)) {
 			current = returnNextLine(buffer, end, buffer, state, callback);
-- 
2.43.0


From 732944dc5ccafaa579412e3352cda5041f03b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 34/93] fix: the mantissa of subnormal floats converted from
 native

---
 float.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/float.c b/float.c
index 56dc875..11ee668 100644
--- a/float.c
+++ b/float.c
@@ -96,13 +96,12 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 		break;
 	case FP_SUBNORMAL:
 		// If subnormal, leave exponent to 0
-		significand = (float)frexp(f, &exponent);
 		floatU.parts.sign = (f >= 0) ? 0 : -1;
 		/*
-		 * Significand is fractional so time with 2 to power of number of mantissa bits
-		 * to get its integer
+		 * The value is (-1)^sign * 2^(1 - bias) * (0 + mantissa), so scale it to get
+		 * the integer of the mantissa
 		 */
-		floatU.parts.mantissa = (int)(fabsf(significand) * powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
+		floatU.parts.mantissa = (int)ldexpf(fabsf(f), FIFTYONE_DEGREES_FLOAT_BIAS - 1 + FIFTYONE_DEGREES_FLOAT_MANT_SIZE);
 		break;
 	case FP_NORMAL:
 		significand = (float)frexp(f, &exponent);
-- 
2.43.0


From 5e7fb1547cd855be98d3652653a11bf449b3b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 35/93] fix: ignore the key value pairs of a yaml document
 which don't fit in the collection

---
 yamlfile.c | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..0f151fd 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -82,8 +82,34 @@ static char* readNext(FileState* fileState) {
 	return fileState->current;
 }
 
+// True if there is a key value pair for the current index.
+static bool hasPair(PairState* state) {
+	return state->index >= 0 && state->index < (int)state->size;
+}
+
+// Ensures that the current string being written is null terminated.
+static void terminateCurrent(PairState* state) {
+	if (state->current != NULL) {
+		*state->current = '\0';
+	}
+}
+
+// Sets the current and end pointers to NULL if there is no key value pair
+// for the current index.
+static bool setCurrentNone(PairState* state) {
+	if (hasPair(state)) {
+		return false;
+	}
+	state->current = NULL;
+	state->end = NULL;
+	return true;
+}
+
 // Sets the current and end pointers to the current key.
 static void setCurrentKey(PairState* state) {
+	if (setCurrentNone(state)) {
+		return;
+	}
 	KeyValuePair* current = state->pairs + state->index;
 	state->current = current->key;
 	state->end = current->key + current->keyLength - 1;
@@ -91,6 +117,9 @@ static void setCurrentKey(PairState* state) {
 
 // Sets the current and end pointers to the current value.
 static void setCurrentValue(PairState* state) {
+	if (setCurrentNone(state)) {
+		return;
+	}
 	KeyValuePair* current = state->pairs + state->index;
 	state->current = current->value;
 	state->end = current->value + current->valueLength - 1;
@@ -99,15 +128,17 @@ static void setCurrentValue(PairState* state) {
 // Switches from writing to the current key to the current value. Ensures that
 // the current string being written is null terminated.
 static void switchKeyValue(PairState* state) {
-	*state->current = '\0';
+	terminateCurrent(state);
 	setCurrentValue(state);
 }
 
 // Advances to the next key value pair. Ensures that the current string being 
 // written is null terminated.
 static void nextPair(PairState* state) {
-	*state->current = '\0';
-	state->index++;
+	terminateCurrent(state);
+	if (state->index < (int)state->size) {
+		state->index++;
+	}
 	setCurrentKey(state);
 }
 
@@ -143,7 +174,7 @@ static void addCharacter(
 	FileState* fileState, 
 	char* current) {
 	if (pairState->current < pairState->end &&
-		pairState->index < pairState->size &&
+		hasPair(pairState) &&
 		isValue(fileState)) {
 		*pairState->current = *current;
 		pairState->current++;
@@ -204,6 +235,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					pairState.current != NULL &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
@@ -215,8 +247,8 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 			}
 			else {
 				// EOF
-				if (pairState.index > 0) {
-					callback(keyValuePairs, pairState.index, state);
+				if (pairState.index > 0) {
+					callback(keyValuePairs, pairState.index, state);
 				}
 				break;
 			}
-- 
2.43.0


From 73352fc15e5d11459201aa9b9bab63f0f8fc65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 36/93] fix: don't read before the value of a yaml pair which
 is a single quote

---
 yamlfile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamlfile.c b/yamlfile.c
index 0f151fd..8495fcb 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -235,7 +235,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
-					pairState.current != NULL &&
+					hasPair(&pairState) &&
+					pairState.current >
+						keyValuePairs[pairState.index].value &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
-- 
2.43.0


From 71d6e334f1e0aca1b895a3f75efb7c243c6700ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 37/93] fix: don't return a pair for an empty yaml file or its
 leading new lines

---
 yamlfile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 8495fcb..491bf9b 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -207,10 +207,11 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		0,
 		0, 
 		0,
+		// The first line has no content yet, as after a new line.
+		1,
 		0,
 		0,
-		0,
-		false };
+		0 };
 
 	PairState pairState = {
 		keyValuePairs,
-- 
2.43.0


From b2d51b9448117b4c3467f69e3a36f600f929cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:22 +0000
Subject: [PATCH 38/93] fix: don't format messages to memory which could not be
 allocated

---
 exceptionsc.c | 18 ++++++++++--------
 status.c      |  4 +++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..614545c 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -44,14 +44,16 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		length += exception->func != NULL ? strlen(exception->func) : 0;
 		length += 10; // add 10 for line number
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				exception->file,
+				exception->func,
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
diff --git a/status.c b/status.c
index 8ba7735..fa30e0f 100644
--- a/status.c
+++ b/status.c
@@ -155,7 +155,9 @@ const char* fiftyoneDegreesStatusGetMessage(
 	if( message == NULL) {
 		messageSize = sizeof(defaultMessage) + 5;
 		message = (char*)Malloc(messageSize);
-		Snprintf(message, messageSize, defaultMessage, (int)status);
+		if (message != NULL) {
+			Snprintf(message, messageSize, defaultMessage, (int)status);
+		}
 	}
 	return message;
 }
\ No newline at end of file
-- 
2.43.0


From ecdac4c54de9ac20c4282f5535dd78f28f174af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 39/93] fix: don't release the value item again when the value
 is not found

---
 value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 16bdbbc..32ef169 100644
--- a/value.c
+++ b/value.c
@@ -215,7 +215,7 @@ long fiftyoneDegreesValueGetIndexByName(
 		(void*)&search,
 		compareValueByName,
 		exception);
-	if (EXCEPTION_OKAY) {
+	if (index >= 0 && EXCEPTION_OKAY) {
 		COLLECTION_RELEASE(values, &item);
 	}
 	return index;
-- 
2.43.0


From 162bc173eb2fd6af5d0f5ad6420e3e194ba571d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 40/93] fix: there is no index for the name of a value when the
 property has no values

---
 value.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/value.c b/value.c
index 32ef169..e0e4501 100644
--- a/value.c
+++ b/value.c
@@ -204,6 +204,10 @@ long fiftyoneDegreesValueGetIndexByName(
 	Item item;
 	valueSearch search;
 	long index;
+	if ((int)property->firstValueIndex == -1) {
+		// The property has no values.
+		return -1;
+	}
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
-- 
2.43.0


From 8b1824a93cd9e146b516f82e00e2bb6a12319f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 41/93] fix: report insufficient memory rather than an equal IP
 address

---
 value.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/value.c b/value.c
index e0e4501..7cde563 100644
--- a/value.c
+++ b/value.c
@@ -78,10 +78,14 @@ static int compareCoordinate(String *value, const char *target) {
  * @param value the current String item
  * @param target the target search value. This should
  * be in string readable format of an IP address.
+ * @param exception set if there is no memory for the parsed address
  * @return 0 if they are equal, otherwise negative
  * for smaller and positive for bigger
  */
-static int compareIpAddress(String *value, const char *target) {
+static int compareIpAddress(
+	String *value,
+	const char *target,
+	Exception *exception) {
 	int result = 0;
 	fiftyoneDegreesEvidenceIpAddress *ipAddress
 		= fiftyoneDegreesIpParseAddress(
@@ -116,6 +120,9 @@ static int compareIpAddress(String *value, const char *target) {
 		}
 		Free(ipAddress);
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 	return result;
 }
 
@@ -141,7 +148,10 @@ static int compareValueByName(void *state, Item *item, long curIndex, Exception
 			result = compareCoordinate(value,search->valueName);
 			break;
 		case FIFTYONE_DEGREES_STRING_IP_ADDRESS:
-			result = compareIpAddress(value, search->valueName);
+			result = compareIpAddress(
+				value,
+				search->valueName,
+				exception);
 			break;
 		default:
 			result = strcmp(&value->value, search->valueName);
-- 
2.43.0


From 8531f8992dec50b7c3ead85cff395eedebdfe2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 42/93] fix: release the name of a property to the strings

---
 property.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/property.c b/property.c
index 9ee0eb6..681a77c 100644
--- a/property.c
+++ b/property.c
@@ -137,7 +137,7 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				}
 
 				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
 		}
 	}
-- 
2.43.0


From ebf377d82490eedbd5801b2c1759944d97091ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 43/93] fix: release the property when its name can't be read

---
 property.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/property.c b/property.c
index 681a77c..dda6609 100644
--- a/property.c
+++ b/property.c
@@ -139,6 +139,13 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				// Release the property name as this is not needed again.
 				COLLECTION_RELEASE(strings, &propertyNameItem);
 			}
+			else {
+
+				// The name could not be read, so there is no property to
+				// return.
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
+			}
 		}
 	}
 	return property;
-- 
2.43.0


From 814c768978550fce5959fa4a09754e2adfc19716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 44/93] fix: release the profile to the profiles

---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 8a1a2c0..cd6084c 100644
--- a/profile.c
+++ b/profile.c
@@ -335,7 +335,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
-- 
2.43.0


From 3bd0f549a6f406b5972d9afd33ad55aa538d9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 45/93] fix: don't read the value after the last one of a
 profile

---
 profile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profile.c b/profile.c
index cd6084c..435932e 100644
--- a/profile.c
+++ b/profile.c
@@ -128,8 +128,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -323,9 +323,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
 									callback(state, &profileItem);
-- 
2.43.0


From 431a7bdb1f3c4f0ec244496674d20b7fd327206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 46/93] fix: don't use the item of a failed search for a
 profile id

---
 profile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 435932e..3ab372f 100644
--- a/profile.c
+++ b/profile.c
@@ -166,7 +166,8 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 		CollectionGetCount(profileOffsets) - 1,
 		(void*)&profileId,
 		compareProfileId,
-		exception) >= 0) {
+		exception) >= 0 &&
+		EXCEPTION_OKAY) {
 		*profileOffset = ((ProfileOffset*)profileOffsetItem.data.ptr)->offset;
 		COLLECTION_RELEASE(profileOffsets, &profileOffsetItem);
 		return profileOffset;
-- 
2.43.0


From dcb5bb7899a6aca20cf476e5012132ffa562d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 47/93] fix: stop the iteration of profiles when one can't be
 read

---
 profile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.c b/profile.c
index 3ab372f..97dfa1a 100644
--- a/profile.c
+++ b/profile.c
@@ -305,7 +305,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
-- 
2.43.0


From fbca63f22f96c266ff0a276d78f7d4827a9f1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 48/93] fix: the index of the last key value pair of a
 component

---
 component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 34de863..922eb0e 100644
--- a/component.c
+++ b/component.c
@@ -67,7 +67,7 @@ const fiftyoneDegreesComponentKeyValuePair* fiftyoneDegreesComponentGetKeyValueP
 	uint16_t index,
 	fiftyoneDegreesException *exception) {
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-	if (index > component->keyValuesCount) {
+	if (index >= component->keyValuesCount) {
 		EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
 		return NULL;
 	}
-- 
2.43.0


From e90d810cb93fbb7043702fba9154edb96338bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:41 +0000
Subject: [PATCH 49/93] fix: stop the iteration of profiles when the callback
 asks to

---
 profile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index 97dfa1a..8d08cb3 100644
--- a/profile.c
+++ b/profile.c
@@ -282,6 +282,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 	fiftyoneDegreesProfileIterateMethod callback,
 	fiftyoneDegreesException *exception) {
 	uint32_t i, count = 0;
+	bool cont = true;
 	Item propertyItem, offsetItem, profileItem;
 	uint32_t *profileValueIndex, *maxProfileValueIndex;
 	Property *property;
@@ -305,7 +306,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
+			for (i = 0;
+				cont == true && i < profileOffsetsCount && EXCEPTION_OKAY;
+				i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
@@ -329,7 +332,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
-									callback(state, &profileItem);
+									cont = callback(state, &profileItem);
 									count++;
 									break;
 								}
-- 
2.43.0


From 8fd66516e361ab4054e25ac799a8e421b357e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 50/93] fix: report insufficient memory when the list of
 components can't be allocated

---
 component.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/component.c b/component.c
index 922eb0e..725d3eb 100644
--- a/component.c
+++ b/component.c
@@ -121,4 +121,7 @@ void fiftyoneDegreesComponentInitList(
 			}
 		}
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 }
-- 
2.43.0


From 254b3b007785e5558f7dd4484d372ac962e276b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 51/93] fix: a list which could not be initialised is empty

---
 list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/list.c b/list.c
index 14c73fc..4f74c8c 100644
--- a/list.c
+++ b/list.c
@@ -29,6 +29,8 @@ fiftyoneDegreesList* fiftyoneDegreesListInit(
 	uint32_t capacity) {
 	list->items = (Item*)Malloc(capacity * sizeof(Item));
 	if (list->items == NULL) {
+		list->capacity = 0;
+		list->count = 0;
 		return NULL;
 	}
 	list->capacity = capacity;
-- 
2.43.0


From e7a1c093204664a815b3e5f15b5e270f1f1900c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 52/93] fix: advancing a memory reader past the end does not
 overflow or move it

---
 memory.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..7ebb431 100644
--- a/memory.c
+++ b/memory.c
@@ -60,10 +60,12 @@ bool fiftyoneDegreesMemoryAdvance(
 	if (reader == NULL || reader->current == NULL) {
 		return false;
 	}
-	reader->current += advanceBy;
-	if (reader->current > reader->lastByte) {
+	// Compare with what remains as the sum can be beyond the address space.
+	if (reader->current > reader->lastByte ||
+		advanceBy > (size_t)(reader->lastByte - reader->current)) {
 		return false;
 	}
+	reader->current += advanceBy;
 	return true;
 }
 
-- 
2.43.0


From 57f57285da7caa282b09266715d184be9d949a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 53/93] fix: memory tracking counts allocations of 4GB and more
 in full when freed

---
 memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 7ebb431..65e6786 100644
--- a/memory.c
+++ b/memory.c
@@ -39,7 +39,7 @@ static bool initialised = false;
 
 typedef struct memory_allocation_t {
 	fiftyoneDegreesTreeNode tree; /* Tree node data structure */
-	uint32_t size; /* The amount of memory allocated at pointer */
+	size_t size; /* The amount of memory allocated at pointer */
 } allocation;
 
 typedef struct memory_allocation_tree_t {
@@ -124,7 +124,7 @@ static void trackAllocation(void* pointer, size_t size) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	record->size = (uint32_t)size;
+	record->size = size;
 
 	// Update the tracking tree with the new allocation.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -150,7 +150,7 @@ static void trackAllocation(void* pointer, size_t size) {
 }
 
 static void untrackAllocation(void *pointer) {
-	uint32_t size;
+	size_t size;
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
-- 
2.43.0


From 0bc46ac5920583ee8a4c999af7ba8202b822536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 54/93] fix: memory tracking ignores failed allocations and
 null pointers

---
 memory.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/memory.c b/memory.c
index 65e6786..0c2bf4c 100644
--- a/memory.c
+++ b/memory.c
@@ -110,6 +110,12 @@ static void tryInit() {
 }
 
 static void trackAllocation(void* pointer, size_t size) {
+
+	// A failed allocation does not contribute to the total.
+	if (pointer == NULL) {
+		return;
+	}
+
 	// Create a new tree node to record the allocation.
 	allocation* record = (allocation*)malloc(sizeof(allocation));
 	int shard = getShardFromPointer(pointer);
@@ -151,6 +157,12 @@ static void trackAllocation(void* pointer, size_t size) {
 
 static void untrackAllocation(void *pointer) {
 	size_t size;
+
+	// Freeing a null pointer has no effect.
+	if (pointer == NULL) {
+		return;
+	}
+
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
-- 
2.43.0


From c484854eb2d08b2c12bf8df23d35f6492ada2ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 55/93] fix: an allocation which cannot be tracked fails

---
 memory.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/memory.c b/memory.c
index 0c2bf4c..af56927 100644
--- a/memory.c
+++ b/memory.c
@@ -109,17 +109,19 @@ static void tryInit() {
 	}
 }
 
-static void trackAllocation(void* pointer, size_t size) {
+static bool trackAllocation(void* pointer, size_t size) {
 
 	// A failed allocation does not contribute to the total.
 	if (pointer == NULL) {
-		return;
+		return true;
 	}
 
 	// Create a new tree node to record the allocation.
 	allocation* record = (allocation*)malloc(sizeof(allocation));
 	int shard = getShardFromPointer(pointer);
-	assert(record != NULL);
+	if (record == NULL) {
+		return false;
+	}
 	assert(shard < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS);
 	fiftyoneDegreesTreeNodeInit(&record->tree, &state.roots[shard]);
 #ifdef __GNUC__
@@ -153,6 +155,7 @@ static void trackAllocation(void* pointer, size_t size) {
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.lock);
 #endif
 
+	return true;
 }
 
 static void untrackAllocation(void *pointer) {
@@ -208,7 +211,10 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	if (trackAllocation(pointer, size + size % alignment) == false) {
+		MemoryStandardFreeAligned(pointer);
+		return NULL;
+	}
 	return pointer;
 }
 
@@ -221,7 +227,10 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size);
+	if (trackAllocation(pointer, size) == false) {
+		MemoryStandardFree(pointer);
+		return NULL;
+	}
 	return pointer;
 }
 
-- 
2.43.0


From ad05f20f1b1fef96c9160919bbe352cab13a4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 56/93] fix: resetting memory tracking forgets the recorded
 allocations

---
 memory.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index af56927..67f9ed9 100644
--- a/memory.c
+++ b/memory.c
@@ -182,7 +182,13 @@ static void untrackAllocation(void *pointer) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	assert(record != NULL);
+	if (record == NULL) {
+		// Allocated before tracking was reset.
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+		FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[shard]);
+#endif
+		return;
+	}
 	size = record->size;
 	fiftyoneDegreesTreeDelete(&record->tree);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -279,6 +285,18 @@ void fiftyoneDegreesMemoryTrackingReset() {
 		FIFTYONE_DEGREES_MUTEX_CREATE(state.lock);
 #endif
 	}
+	else {
+		// Forget the allocations recorded before the reset. They are not part
+		// of the new totals, and their addresses can be allocated again.
+		for (i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) {
+			fiftyoneDegreesTreeNode *node = state.roots[i].root.left;
+			while (node != &state.roots[i].empty) {
+				fiftyoneDegreesTreeDelete(node);
+				free(node);
+				node = state.roots[i].root.left;
+			}
+		}
+	}
 	state.allocated = 0;
 	state.max = 0;
 	initialised = true;
-- 
2.43.0


From a0db7904f09048771b5fb91d336082b8591d5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:08 +0000
Subject: [PATCH 57/93] fix: a variable size item smaller than its own header
 is corrupt

---
 collection.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index 51562fa..eba7e81 100644
--- a/collection.c
+++ b/collection.c
@@ -1108,10 +1108,15 @@ static void* readFileVariable(
 			// Calculate the number of bytes needed to store the item.
 			bytesNeeded = getFinalSize(initial);
 
+			// The item can't be smaller than the part already read.
+			if (bytesNeeded < initialSize) {
+				EXCEPTION_SET(CORRUPT_DATA);
+			}
+
 			// Ensure sufficient memory is allocated for the item being
 			// read and that the header is copied to the data buffer
 			// provided by the caller.
-			if (DataMalloc(data, bytesNeeded) != NULL &&
+			else if (DataMalloc(data, bytesNeeded) != NULL &&
 				memcpy(data->ptr, initial, initialSize) == data->ptr) {
 
 				// Read the rest of the item into the item's data 
-- 
2.43.0


From 2581f73a977545c5f887acd0a1cffaf2f53d4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 58/93] fix: the size of a profile with too many values does
 not overflow

---
 profile.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index 8d08cb3..f0cbde5 100644
--- a/profile.c
+++ b/profile.c
@@ -27,8 +27,13 @@ MAP_TYPE(Collection)
 
 static uint32_t getFinalProfileSize(void *initial) {
 	Profile *profile = (Profile*)initial;
-	return sizeof(Profile) +
-		(profile->valueCount * sizeof(uint32_t));
+	if (profile->valueCount >
+		(UINT32_MAX - sizeof(Profile)) / sizeof(uint32_t)) {
+		// There is no valid size for the number of values.
+		return 0;
+	}
+	return (uint32_t)(sizeof(Profile) +
+		(profile->valueCount * sizeof(uint32_t)));
 }
 
 static Profile* getProfileByOffset(
-- 
2.43.0


From 44d1bd75550c2854374e1764d36889bc8f25755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:29 +0000
Subject: [PATCH 59/93] fix: a count of elements whose length overflows is not
 a valid header

---
 collection.c | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/collection.c b/collection.c
index eba7e81..509a8d9 100644
--- a/collection.c
+++ b/collection.c
@@ -767,6 +767,25 @@ static Collection* createFromFileSecond(
 
 #endif
 
+/**
+ * Sets the count and length of the header from a count of fixed size elements.
+ * @param header to set the fields of
+ * @param count of elements
+ * @param elementSize size of each element in bytes
+ * @return true if the length can be represented, otherwise false
+ */
+static bool setHeaderFromCount(
+	CollectionHeader *header,
+	uint32_t count,
+	uint32_t elementSize) {
+	if (elementSize > 0 && count > UINT32_MAX / elementSize) {
+		return false;
+	}
+	header->count = count;
+	header->length = count * elementSize;
+	return true;
+}
+
 fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	fiftyoneDegreesMemoryReader *reader,
 	uint32_t elementSize,
@@ -782,8 +801,15 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	}
 	if (isCount) {
 		// The next integer is the count of items in the data structure.
-		header.count = *(uint32_t*)reader->current;
-		header.length = header.count * elementSize;
+		if (setHeaderFromCount(
+			&header,
+			*(uint32_t*)reader->current,
+			elementSize) == false) {
+			header.count = 0;
+			header.length = 0;
+			header.startPosition = 0;
+			return header;
+		}
 	}
 	else {
 		// The next integer is the size of the data structure.
@@ -869,8 +895,15 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1) {
 		if (isCount) {
 			// The integer is the count of items in the data structure.
-			header.count = sizeOrCount;
-			header.length = header.count * elementSize;
+			if (setHeaderFromCount(
+				&header,
+				sizeOrCount,
+				elementSize) == false) {
+				header.count = 0;
+				header.length = 0;
+				header.startPosition = 0;
+				return header;
+			}
 		}
 		else {
 			// The integer is the size of the data structure.
-- 
2.43.0


From 50e2e16cb0ffe36c4052e15fbb492dd81f8765c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:29 +0000
Subject: [PATCH 60/93] fix: no collection is created from a file whose header
 could not be read

---
 collection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collection.c b/collection.c
index 509a8d9..0cbb55b 100644
--- a/collection.c
+++ b/collection.c
@@ -932,6 +932,12 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	fiftyoneDegreesCollectionFileRead read) {
 	Collection *result = NULL;
 
+	// The header could not be read so there is no collection. A valid start
+	// position is after the size or count of the collection.
+	if (header.startPosition == 0) {
+		return NULL;
+	}
+
 #ifndef FIFTYONE_DEGREES_MEMORY_ONLY
 
 	Collection **next = &result;
-- 
2.43.0


From 58bc9e755de3b1f2da213314c88cd094d18abdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:52 +0000
Subject: [PATCH 61/93] fix: no collection is created from memory whose header
 could not be read

---
 collection.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index 0cbb55b..132d495 100644
--- a/collection.c
+++ b/collection.c
@@ -793,10 +793,11 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 	CollectionHeader header;
 	if (reader->current > reader->lastByte ||
 		(size_t)(reader->lastByte - reader->current) < sizeof(uint32_t)) {
-		// There is no integer left to read.
+		// There is no integer left to read. The position isn't that of the
+		// reader so that a collection can't be created with the header.
 		header.count = 0;
 		header.length = 0;
-		header.startPosition = 0;
+		header.startPosition = UINT32_MAX;
 		return header;
 	}
 	if (isCount) {
@@ -807,7 +808,7 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
 			elementSize) == false) {
 			header.count = 0;
 			header.length = 0;
-			header.startPosition = 0;
+			header.startPosition = UINT32_MAX;
 			return header;
 		}
 	}
-- 
2.43.0


From 31350e4e86ef3ec8402d0ed5fbcf2f9b520553fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:52 +0000
Subject: [PATCH 62/93] fix: items which go beyond the collection are not
 loaded into memory

---
 collection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collection.c b/collection.c
index 132d495..11a7392 100644
--- a/collection.c
+++ b/collection.c
@@ -610,8 +610,9 @@ static Collection* createFromFilePartial(
 	memory->collection = collection;
 
 	// Get the number of bytes that need to be loaded into memory.
+	// If it is more than the collection has then an item is corrupt.
 	counter = calculateLoadedSize(source, count, exception);
-	if (EXCEPTION_FAILED) {
+	if (EXCEPTION_FAILED || counter.size > source->size) {
 		freeMemoryCollection(collection);
 		source->freeCollection(source);
 		return NULL;
-- 
2.43.0


From edbf5c00cd9690f1ca2105777785eab85304b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 63/93] fix: every path given is searched for temporary files

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index b518a4b..fed1214 100644
--- a/file.c
+++ b/file.c
@@ -675,7 +675,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
@@ -713,7 +713,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
-- 
2.43.0


From 1684f38a50a70b36ad4473ae36526bbabc2075de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 64/93] fix: the working directory is searched for temporary
 files when there are no paths

---
 file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index fed1214..b379728 100644
--- a/file.c
+++ b/file.c
@@ -415,7 +415,8 @@ static bool iterateFiles(
 #else
 	DIR *dir;
 	struct dirent *ent;
-	dir = opendir(path);
+	// An empty path is the working directory.
+	dir = opendir(nameStart == 0 ? "." : path);
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-- 
2.43.0


From 259774ff0185e46ba3d020280399dff0aa1a5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 65/93] fix: comparing the start of two files does not go
 beyond the buffers

---
 file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index b379728..9844a1f 100644
--- a/file.c
+++ b/file.c
@@ -281,7 +281,10 @@ static bool compareFiles(
 
 	while (ftell(file) < size &&
 		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
+		read = (long)sizeof(buffer);
+		if (bytesToCompare > 0 && bytesToCompare - ftell(file) < read) {
+			read = bytesToCompare - ftell(file);
+		}
 		if (size - ftell(file) < read) {
 			read = size - ftell(file);
 		}
-- 
2.43.0


From 51bb3255e76123543d7f29077b541305bfae0232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:38 +0000
Subject: [PATCH 66/93] fix: an empty file is only a copy of an empty file

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 9844a1f..33ffd26 100644
--- a/file.c
+++ b/file.c
@@ -265,7 +265,7 @@ static bool compareFiles(
 
 	// Compare the sizes.
 	size = FileGetSize(fileName);
-	if (size > 0 && size != FileGetSize(otherFileName)) {
+	if (size != FileGetSize(otherFileName)) {
 		return false;
 	}
 	// Open both files.
-- 
2.43.0


From 9c300a6b6bcfa46e8918f32704552ac29855aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 67/93] fix: more than 255 deleted temporary files can be
 counted

---
 file.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index 33ffd26..06b6379 100644
--- a/file.c
+++ b/file.c
@@ -549,7 +549,7 @@ static bool isFileInUse(const char *pathName) {
 #endif
 
 /**
- * Deletes the file is it is not in use. The first byte of state->destination
+ * Deletes the file is it is not in use. The integer at state->destination
  * is used as a counter to indicate how many files were successfully deleted.
  * @param fileName path to matching file
  * @param state pointer to the file iterator state with the destination pointer
@@ -567,7 +567,7 @@ static bool iteratorFileDelete(const char *fileName, void *state) {
 	if (isFileInUse(fileName) == false) {
 #endif
 		if (fiftyoneDegreesFileDelete(fileName) == SUCCESS) {
-			((byte*)fileState->destination)[0]++;
+			(*(int*)fileState->destination)++;
 		}
 #ifdef __linux__
 	}
@@ -652,10 +652,10 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 	int count,
 	long bytesToCompare) {
 	int i;
-	byte deleted = 0;
+	int deleted = 0;
 	fileIteratorState state;
 	state.masterFileName = masterFileName;
-	// The iteratorFileDelete method will use the first byte of
+	// The iteratorFileDelete method will use the integer at
 	// state.destination to keep track of the number of files deleted. This is
 	// a slight misuse of the structure, but we'll allow it as the structure
 	// is internal only.
@@ -685,7 +685,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 				iteratorFileDelete);
 		}
 	}
-	return (int)deleted;
+	return deleted;
 }
 
 bool fiftyoneDegreesFileGetExistingTempFile(
-- 
2.43.0


From 1f86e9da6660f08659dd8fc6d1827cb5c605efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 68/93] fix: a dot in the path to a file is not the start of an
 extension

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 06b6379..1a45b0c 100644
--- a/file.c
+++ b/file.c
@@ -629,7 +629,7 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
 	if (dot != NULL) {
 		end = dot - pos;
-- 
2.43.0


From 833d970e34a883f4bda85041f5dacdd1df78a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 69/93] fix: a temporary file name which does not fit is not
 truncated

---
 file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index 1a45b0c..007e4c9 100644
--- a/file.c
+++ b/file.c
@@ -759,7 +759,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -831,12 +831,12 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
 			status = fiftyoneDegreesFileAddTempFileName(
-				masterFileName, destination, nameStart, length - nameStart - 1);
+				masterFileName, destination, nameStart, length - nameStart);
 			if (status == SUCCESS) {
 				// Create the temp file
 				status = FileCopy(masterFile, destination);
-- 
2.43.0


From 7f71bef7436af8f08dcd30ca734699740a06c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:43 +0000
Subject: [PATCH 70/93] fix: only one temporary file is created, in the first
 writable path

---
 file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 007e4c9..717d17f 100644
--- a/file.c
+++ b/file.c
@@ -843,8 +843,13 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 			}
 		}
 
+		// The first path which can be written to is used.
+		if (status == SUCCESS) {
+			return status;
+		}
+
 		// Reset the destination
-		if (status != SUCCESS && length > 0) {
+		if (length > 0) {
 			memset(destination, 0, length);
 		}
 	}
-- 
2.43.0


From 27461dc8f54c0aabd5cf832d30d9971edde77ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 71/93] fix: a file copy which could not read the source is not
 a success

---
 file.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/file.c b/file.c
index 717d17f..bc190ac 100644
--- a/file.c
+++ b/file.c
@@ -149,18 +149,19 @@ static StatusCode fileOpen(
 static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
 	size_t lengthRead, lengthWritten = 0;
-	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
-		lengthRead = fread(buffer, 1, sizeof(buffer), source);
-		while (lengthRead > 0) {
-			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
-			if (lengthWritten != lengthRead) {
-				return FILE_COPY_ERROR;
-			}
-			lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	if (fseek(source, 0L, SEEK_END) != 0 ||
+		fseek(source, 0L, SEEK_SET) != 0) {
+		return FILE_COPY_ERROR;
+	}
+	lengthRead = fread(buffer, 1, sizeof(buffer), source);
+	while (lengthRead > 0) {
+		lengthWritten = fwrite(buffer, 1, lengthRead, destination);
+		if (lengthWritten != lengthRead) {
+			return FILE_COPY_ERROR;
 		}
+		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 	}
-	return SUCCESS;
+	return ferror(source) != 0 ? FILE_COPY_ERROR : SUCCESS;
 }
 
 /**
-- 
2.43.0


From 38fe9104d6fff76a516ce1ee8bc32a37eb07d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 72/93] fix: a file copy whose last bytes could not be written
 is not a success

---
 file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index bc190ac..cabddb3 100644
--- a/file.c
+++ b/file.c
@@ -1041,7 +1041,9 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		if (fclose(destinationFile) != 0 && status == SUCCESS) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
-- 
2.43.0


From 53622f42e1e24170e5d93d6c31ebcea49233ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 73/93] fix: a write which could not be completed when the file
 was closed is a failure

---
 file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index cabddb3..c580c78 100644
--- a/file.c
+++ b/file.c
@@ -592,7 +592,9 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 		if (fwrite(data, length, 1, file) != 1) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
+		if (fclose(file) != 0) {
+			status = FILE_FAILURE;
+		}
 	}
 	return status;
 }
-- 
2.43.0


From 7fb34ea559db88faee5b15562a933192e8d00f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 74/93] fix: a file can be written with no data

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index c580c78..01d3a54 100644
--- a/file.c
+++ b/file.c
@@ -589,7 +589,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 	FILE *file;
 	StatusCode status = fileOpen(fileName, &file, "wb");
 	if (status == SUCCESS) {
-		if (fwrite(data, length, 1, file) != 1) {
+		if (length > 0 && fwrite(data, length, 1, file) != 1) {
 			status = FILE_FAILURE;
 		}
 		if (fclose(file) != 0) {
-- 
2.43.0


From 68e44c781e5973c04b389009ca6b07e81a027ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 75/93] fix: memory for a file which could not be read is freed
 with the library's method

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 01d3a54..49729fb 100644
--- a/file.c
+++ b/file.c
@@ -1081,7 +1081,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From f87c636e8500db92a86f5447ed69b75729c60fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:27 +0000
Subject: [PATCH 76/93] fix: the name of a file without a folder keeps its
 first character

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 49729fb..f1a54f3 100644
--- a/file.c
+++ b/file.c
@@ -1114,5 +1114,5 @@ const char* fiftyoneDegreesFileGetFileName(const char *filePath) {
 	while (*c != '\\' && *c != '/' && c != filePath) {
 		c--;
 	}
-	return c + 1;
+	return *c == '\\' || *c == '/' ? c + 1 : c;
 }
-- 
2.43.0


From 3a139263940f61dc49e50c9ff5f8b5b2d6e87e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:28 +0000
Subject: [PATCH 77/93] fix: paths which are too long are not copied into a
 buffer

---
 file.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index f1a54f3..6243e7c 100644
--- a/file.c
+++ b/file.c
@@ -359,9 +359,13 @@ static bool iterateFiles(
 	fileMatch match) {
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 	size_t nameStart;
+	// Check there is space for the path, a slash and the null terminator.
+	nameStart = strlen(path);
+	if (nameStart + 2 > FIFTYONE_DEGREES_FILE_MAX_PATH) {
+		return false;
+	}
 	// Append a slash to the path if one is not there already.
 	strcpy(tempPath, path);
-	nameStart = strlen(path);
 	if (nameStart != 0 &&
 		tempPath[nameStart - 1] != '/' &&
 		tempPath[nameStart - 1] != '\\') {
@@ -424,7 +428,11 @@ static bool iterateFiles(
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-			// Append the name to the path.
+			// Append the name to the path if there is space for it.
+			if (nameStart + strlen(ent->d_name) + 1 >
+				FIFTYONE_DEGREES_FILE_MAX_PATH) {
+				continue;
+			}
 			strcpy(tempPath + nameStart, ent->d_name);
 			// Call match and return if the file is a match.
 			if (compare(tempPath, state)) {
@@ -900,8 +908,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	}
 	else if (paths != NULL) {
 		for (i = 0; i < count; i++) {
-			strcpy(tempPath, paths[i]);
 			nameStart = strlen(paths[i]);
+			if (nameStart + TEMP_UNIQUE_STRING_LENGTH + 1 >=
+				FIFTYONE_DEGREES_FILE_MAX_PATH) {
+				status = FILE_PATH_TOO_LONG;
+				continue;
+			}
+			strcpy(tempPath, paths[i]);
 			if (nameStart != 0 &&
 				tempPath[nameStart - 1] != '/' &&
 				tempPath[nameStart - 1] != '\\') {
-- 
2.43.0


From e7f6f2e0328ff6c22d790d23cae62ff8ea12673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 78/93] fix: a file which is open through a different path is
 in use

---
 file.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/file.c b/file.c
index 6243e7c..0d9a3fa 100644
--- a/file.c
+++ b/file.c
@@ -499,9 +499,14 @@ static bool iteratorFileMatch(const char *fileName, void *state) {
 static bool isFileInUse(const char *pathName) {
 	DIR *procDir;
 	struct dirent *ent1, *ent2;
+	struct stat fileStat, linkStat;
 	char fdPath[FILE_MAX_PATH];
 	char linkFile[FILE_MAX_PATH];
-	char linkPath[FILE_MAX_PATH];
+	if (stat(pathName, &fileStat) != 0) {
+		// It is not known which file this is. So to be safe, lets report true
+		// so it is not deleted.
+		return true;
+	}
 	procDir = opendir("/proc");
 	if (procDir != NULL) {
 		// Iterate over all directories in /proc
@@ -514,33 +519,24 @@ static bool isFileInUse(const char *pathName) {
 					// Check that the file is not '.' or '..'
 					if (strcmp(ent2->d_name, ".") != 0 &&
 						strcmp(ent2->d_name, "..") != 0) {
-						// Get the path which the symlink is pointing to
+						// Check whether the symlink is pointing to the file
 						if (Snprintf(
 							linkFile,
 							FILE_MAX_PATH,
 							"%s/%s",
 							fdPath,
-							ent2->d_name) >= 0) {
-							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
-							if (written >= 0) {
-								linkPath[written] = '\0';
-								size_t linkPathLen = strlen(linkPath);
-								size_t pathNameLen = strlen(pathName);
-								if (pathNameLen <= linkPathLen &&
-									strncmp(linkPath + linkPathLen - pathNameLen,
-										pathName,
-										pathNameLen) == 0) {
-									closedir(fdDir);
-									closedir(procDir);
-									return true;
-								}
-							}
+							ent2->d_name) >= 0 &&
+							stat(linkFile, &linkStat) == 0 &&
+							linkStat.st_dev == fileStat.st_dev &&
+							linkStat.st_ino == fileStat.st_ino) {
+							closedir(fdDir);
+							closedir(procDir);
+							return true;
 						}
 					}
 				}
+				closedir(fdDir);
 			}
-			closedir(fdDir);
 		}
 		closedir(procDir);
 	}
-- 
2.43.0


From 5ca8b6dec0fdf5c8504999681da37e7a5f2a5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 79/93] fix: a handle which can't be allocated is not used by
 the resource manager

---
 resource.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index e366d20..0945e4f 100644
--- a/resource.c
+++ b/resource.c
@@ -137,6 +137,10 @@ static void setupResource(
 		MallocAligned(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
+	if (handle == NULL) {
+		*resourceHandle = NULL;
+		return;
+	}
 
 	// Set the handle and the number of users of the resource to zero.
 	handle->counter = emptyCounter();
@@ -183,8 +187,8 @@ void fiftyoneDegreesResourceManagerFree(
 	// active handle won't change at this point.
 	// Thus, it is safe to perform assertion directly
 	// to the active handle here. 
-	assert(getInUse(&manager->active->counter) >= 0);
 	if (manager->active != NULL) {
+		assert(getInUse(&manager->active->counter) >= 0);
 
 		ResourceHandle* newHandlePointer;
 		fiftyoneDegreesResourceReplace(
@@ -335,6 +339,11 @@ void fiftyoneDegreesResourceReplace(
 		newResource,
 		newResourceHandle,
 		manager->active->freeResource);
+	if (*newResourceHandle == NULL) {
+		// There is not enough memory for the handle so the existing resource
+		// remains the active one.
+		return;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From e5d42c9fd1df1517abf83a0efcb6e24b0a98d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:27 +0000
Subject: [PATCH 80/93] fix: a reload holds the data set it takes the
 properties and config from

---
 dataset.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..206b8c6 100644
--- a/dataset.c
+++ b/dataset.c
@@ -270,13 +270,15 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. Hold on to it so that another reload can't free it.
+	DataSetBase *existing = DataSetGet(manager);
+	properties.existing = existing->available;
+	config = existing->config;
 
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		DataSetRelease(existing);
 		return status;
 	}
 
@@ -295,10 +297,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 		exception);
 	if (status != SUCCESS) {
 		Free(replacement);
+		DataSetRelease(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, replacement);
+	DataSetRelease(existing);
+	return status;
 }
 
 fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
@@ -312,13 +317,15 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. Hold on to it so that another reload can't free it.
+	DataSetBase *existing = DataSetGet(manager);
+	properties.existing = existing->available;
+	config = existing->config;
 	
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		DataSetRelease(existing);
 		return status; 
 	}
 
@@ -330,8 +337,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 		fileName,
 		exception);
 	if (status != SUCCESS) {
+		DataSetRelease(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, replacement);
+	DataSetRelease(existing);
+	return status;
 }
\ No newline at end of file
-- 
2.43.0


From a1b820faf059571d6552d5849a7710acf0e2584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 81/93] fix: a data set which can't replace another is freed as
 a whole

---
 dataset.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dataset.c b/dataset.c
index 206b8c6..b5d3f87 100644
--- a/dataset.c
+++ b/dataset.c
@@ -35,13 +35,14 @@ static StatusCode allocate(
 
 static StatusCode replace(
 	ResourceManager *manager,
+	DataSetBase *existing,
 	DataSetBase *replacement) {
 
 	// Switch the active data set for the new one.
 	ResourceReplace(manager, replacement, &replacement->handle);
 	if (replacement->handle == NULL) {
-		DataSetFree(replacement);
-		Free(replacement);
+		// Free all of the data set in the way the manager would have done.
+		existing->handle->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
@@ -301,7 +302,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 		return status;
 	}
 	
-	status = replace(manager, replacement);
+	status = replace(manager, existing, replacement);
 	DataSetRelease(existing);
 	return status;
 }
@@ -341,7 +342,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 		return status;
 	}
 	
-	status = replace(manager, replacement);
+	status = replace(manager, existing, replacement);
 	DataSetRelease(existing);
 	return status;
 }
\ No newline at end of file
-- 
2.43.0


From 88d8b37f3bef20a663e3f7a93162a15ffd4d70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:31 +0000
Subject: [PATCH 82/93] fix: property names which can't be read are not
 compared

---
 properties.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index 4443158..69c2793 100644
--- a/properties.c
+++ b/properties.c
@@ -358,7 +358,10 @@ static int comparePropertyNamesAscending(const void *a, const void *b) {
 	PropertyAvailable *bi = (PropertyAvailable*)b;
 	const char *as = STRING(ai->name.data.ptr);
 	const char *bs = STRING(bi->name.data.ptr);
-	assert(as != NULL && bs != NULL);
+	// A name which could not be read comes after all those which could be.
+	if (as == NULL || bs == NULL) {
+		return (as == NULL) - (bs == NULL);
+	}
 	return _stricmp(as, bs);
 }
 
-- 
2.43.0


From abb423954d97e7b4609e1a36e8b8b81691652d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 83/93] fix: collections are not created where the position in
 the file is unknown

---
 collection.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 11a7392..d734659 100644
--- a/collection.c
+++ b/collection.c
@@ -541,6 +541,9 @@ static CollectionFile* readFile(CollectionFile *fileCollection, FILE *file) {
 
 	// Record the offset in the source file to the collection.
 	fileCollection->offset = ftell(file);
+	if (fileCollection->offset < 0) {
+		return NULL;
+	}
 
 	// Move the file handle past the collection.
 	if (fseek(file, fileCollection->collection->size, SEEK_CUR) != 0) {
@@ -892,6 +895,7 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	bool isCount) {
 	fiftyoneDegreesCollectionHeader header;
 	uint32_t sizeOrCount;
+	long position;
 
 	// Get the size or count of the data structure in bytes.
 	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1) {
@@ -912,7 +916,14 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 			header.length = sizeOrCount;
 			header.count = elementSize > 0 ? header.length / elementSize : 0;
 		}
-		header.startPosition = (uint32_t)ftell(file);
+		position = ftell(file);
+		if (position < 0) {
+			header.count = 0;
+			header.length = 0;
+			header.startPosition = 0;
+			return header;
+		}
+		header.startPosition = (uint32_t)position;
 	}
 	else {
 		header.count = 0;
@@ -943,6 +954,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 #ifndef FIFTYONE_DEGREES_MEMORY_ONLY
 
 	Collection **next = &result;
+	long position = 0;
 
 	if (config->loaded > 0) {
 
@@ -963,11 +975,18 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 		}
 		// Point to the next collection to create.
 		next = &result->next;
+
+		// Get the position of the end of the collection in the file.
+		position = ftell(file);
+		if (position < 0) {
+			result->freeCollection(result);
+			return NULL;
+		}
 	}
 
 	if (result == NULL || (
 		result->count == config->loaded &&
-		(long)result->size < (long)(ftell(file) - header.startPosition))) {
+		(long)result->size < (long)(position - header.startPosition))) {
 
 		// Create the next collection if one is needed.
 		*next = createFromFileSecond(file, reader, config, header, read);
-- 
2.43.0


From 9e964a27e21ef3719106172c8e2013781e37cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 84/93] fix: properties which could not be read when they were
 counted are not added beyond the capacity

---
 properties.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index 69c2793..bf83c21 100644
--- a/properties.c
+++ b/properties.c
@@ -109,7 +109,8 @@ static bool resultsContain(
 static void addRequiredProperty(
 	PropertiesAvailable *available,
 	uint32_t propertyIndex) {
-	if (resultsContain(available, propertyIndex) == false) {
+	if (available->count < available->capacity &&
+		resultsContain(available, propertyIndex) == false) {
 		available->items[available->count++].propertyIndex = propertyIndex;
 	}
 }
-- 
2.43.0


From 7faa53f4e1c28147107086cea828ef75ae3a26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 85/93] fix: headers which could not be read when they were
 counted are not added beyond the capacity

---
 headers.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/headers.c b/headers.c
index acb09e4..a75e142 100644
--- a/headers.c
+++ b/headers.c
@@ -279,8 +279,10 @@ static bool addHeadersFromDataSet(
 			countHeaderSegments(name) > 0 &&
 			getHeaderIndex(headers, name, nameLength) < 0) {
 
-			// Set the next header from the data set name item.
-			if (setHeaderFromDataSet(
+			// Set the next header from the data set name item. There is no
+			// space for a header which could not be read when counting.
+			if (headers->count >= headers->capacity ||
+				setHeaderFromDataSet(
 				&headers->items[headers->count],
 				name,
 				nameLength,
@@ -317,7 +319,8 @@ static bool addHeadersFromSegments(HeaderArray* headers) {
 			segment = &header->segments->items[s];
 			existing = getHeader(headers, segment->segment, segment->length);
 			if (existing == NULL) {
-				if (setHeaderFromSegment(
+				if (headers->count >= headers->capacity ||
+					setHeaderFromSegment(
 					&headers->items[headers->count],
 					segment) == false) {
 					return false;
-- 
2.43.0


From 953d9944b8e09a70d6338f6b1ab6f49ac85c72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 86/93] fix: the index of a property is not lost when the names
 can't be read again

---
 properties.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index bf83c21..454dc9c 100644
--- a/properties.c
+++ b/properties.c
@@ -379,6 +379,7 @@ static void initRequiredProperties(
 	propertiesSource *source,
 	PropertiesAvailable *available) {
 	uint32_t i;
+	int index;
 	String *string;
 
 	// Set the names for each of the properties.
@@ -394,10 +395,14 @@ static void initRequiredProperties(
 	for (i = 0; i < available->count; i++) {
 		string = (String*)available->items[i].name.data.ptr;
 		if (string != NULL) {
-			available->items[i].propertyIndex = getPropertyIndex(
+			index = getPropertyIndex(
 				source,
 				&string->value,
 				string->size - 1);
+			// The index doesn't change if the names can't be read again.
+			if (index >= 0) {
+				available->items[i].propertyIndex = (uint32_t)index;
+			}
 		}
 	}
 }
-- 
2.43.0


From 98b0c7549aeae2307f0d3677672ae6a9171f3bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 87/93] fix: a data set is not read after it was made active by
 a reload

---
 dataset.c  | 9 ++++++---
 resource.c | 5 +++--
 resource.h | 5 ++++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/dataset.c b/dataset.c
index b5d3f87..0479127 100644
--- a/dataset.c
+++ b/dataset.c
@@ -38,9 +38,12 @@ static StatusCode replace(
 	DataSetBase *existing,
 	DataSetBase *replacement) {
 
-	// Switch the active data set for the new one.
-	ResourceReplace(manager, replacement, &replacement->handle);
-	if (replacement->handle == NULL) {
+	// Switch the active data set for the new one. Another reload might free
+	// the new one once it is active.
+	if (ResourceReplace(
+		manager,
+		replacement,
+		&replacement->handle) == false) {
 		// Free all of the data set in the way the manager would have done.
 		existing->handle->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
diff --git a/resource.c b/resource.c
index 0945e4f..49a561b 100644
--- a/resource.c
+++ b/resource.c
@@ -327,7 +327,7 @@ int32_t fiftyoneDegreesResourceHandleGetUse(
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-void fiftyoneDegreesResourceReplace(
+bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
@@ -342,7 +342,7 @@ void fiftyoneDegreesResourceReplace(
 	if (*newResourceHandle == NULL) {
 		// There is not enough memory for the handle so the existing resource
 		// remains the active one.
-		return;
+		return false;
 	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
@@ -364,6 +364,7 @@ void fiftyoneDegreesResourceReplace(
 	// Release the existing resource can be freed. If nothing else is
 	// holding onto a reference to it then free it will be freed.
 	ResourceHandleDecUse(oldHandle);
+	return true;
 }
 #ifdef _MSC_VER
 #pragma warning (default: 4090)
diff --git a/resource.h b/resource.h
index 0158498..8a606d2 100644
--- a/resource.h
+++ b/resource.h
@@ -248,8 +248,11 @@ EXTERNAL int32_t fiftyoneDegreesResourceHandleGetUse(
  * access to
  * @param newResourceHandle points to the location the new handle should be
  * stored
+ * @return true if the resource was replaced, or false if there was not enough
+ * memory for the new handle. The new resource can't be accessed without a
+ * handle after it was replaced, as it might have been replaced again and freed
  */
-EXTERNAL void fiftyoneDegreesResourceReplace(
+EXTERNAL bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle);
-- 
2.43.0


From 0713a64eb14cf4c37c4889258520e505968fb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 88/93] fix: status of a C++ exception made from an exception
 or without a message

---
 Exceptions.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index fd9d9e0..b76ed48 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -25,26 +25,25 @@
 
 using namespace FiftyoneDegrees::Common;
 
-StatusCodeException::StatusCodeException() {}
+StatusCodeException::StatusCodeException()
+	: statusCode(FIFTYONE_DEGREES_STATUS_NOT_SET) {}
 
 StatusCodeException::StatusCodeException(
-	fiftyoneDegreesStatusCode code) : exception() {
+	fiftyoneDegreesStatusCode code) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, nullptr);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code,
-	const char *fileName) : exception() {
+	const char *fileName) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, fileName);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 StatusCodeException::~StatusCodeException() {}
@@ -59,6 +58,9 @@ fiftyoneDegreesStatusCode StatusCodeException::getCode() const noexcept {
 
 FatalException::FatalException(
 	fiftyoneDegreesException *exception) : StatusCodeException() {
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
+	statusCode = exception->status;
+#endif
 	const char *exceptionMessage = ExceptionGetMessage(exception);
 	if (exceptionMessage != nullptr) {
 		message.append(exceptionMessage);
-- 
2.43.0


From 2532c751b46e45c4929a0c7900d87b51b165fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:30 +0000
Subject: [PATCH 89/93] fix: required properties of a string can be read more
 than once, and are counted

---
 RequiredPropertiesConfig.cpp | 57 ++++++++++++------------------------
 1 file changed, 19 insertions(+), 38 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3e7c1c2..9b23f0f 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -90,7 +90,8 @@ RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 
 vector<string> RequiredPropertiesConfig::getProperties() const {
 	int i;
-	char *current;
+	const char *current;
+	size_t length;
 	vector<string> result;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
@@ -98,10 +99,16 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			result.insert(result.end(), current);
-			current = strtok(NULL, ",");
+		current = conf.string;
+		while (*current != '\0') {
+			length = strcspn(current, ",");
+			if (length > 0) {
+				result.insert(result.end(), string(current, length));
+				current += length;
+			}
+			else {
+				current++;
+			}
 		}
 	}
 	return result;
@@ -109,22 +116,12 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 
 bool RequiredPropertiesConfig::containsProperty(
 	const char *property) const {
-	int i;
-	char *current;
-	if (conf.array != nullptr) {
-		for (i = 0; i < conf.count; i++) {
-			if (_stricmp(property, conf.array[i]) == 0) {
-				return true;
-			}
-		}
-	}
-	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			if (_stricmp(property, current) == 0) {
-				return true;
-			}
-			current = strtok(NULL, ",");
+	vector<string> properties = getProperties();
+	for (vector<string>::iterator it = properties.begin();
+		it != properties.end();
+		it++) {
+		if (_stricmp(property, it->c_str()) == 0) {
+			return true;
 		}
 	}
 	return false;
@@ -136,23 +133,7 @@ bool RequiredPropertiesConfig::containsProperty(
 }
 
 int RequiredPropertiesConfig::getCount() const {
-	int count;
-	char *current;
-	if (conf.array != nullptr) {
-		return conf.count;
-	}
-	else if (conf.string != nullptr) {
-		count = 0;
-		current = (char*)conf.string;
-		while (*current != '\0') {
-			if (*current == ',') {
-				count++;
-			}
-			current++;
-		}
-		return count;
-	}
-	return 0;
+	return (int)getProperties().size();
 }
 
 PropertiesRequired* RequiredPropertiesConfig::getConfig() {
-- 
2.43.0


From 83156008168baf0091039edee27d9777bb34c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:32 +0000
Subject: [PATCH 90/93] fix: required properties config separates names with
 the characters the properties do

---
 RequiredPropertiesConfig.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 9b23f0f..309da25 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -34,6 +34,9 @@ using namespace FiftyoneDegrees::Common;
 #define _strnicmp strncasecmp
 #endif
 
+// The characters which separate property names. See properties.h.
+static const char SEPARATORS[] = "|, ";
+
 RequiredPropertiesConfig::RequiredPropertiesConfig() {
 	conf.count = 0;
 	conf.array = nullptr;
@@ -101,7 +104,7 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 	else if (conf.string != nullptr) {
 		current = conf.string;
 		while (*current != '\0') {
-			length = strcspn(current, ",");
+			length = strcspn(current, SEPARATORS);
 			if (length > 0) {
 				result.insert(result.end(), string(current, length));
 				current += length;
-- 
2.43.0


From fb6b976f62167c91b05ce690acd1e1f5f5f315db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 91/93] fix: temp directories of a configuration can be set
 again without a leak

---
 ConfigBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ConfigBase.cpp b/ConfigBase.cpp
index 1b827c0..adc4c16 100644
--- a/ConfigBase.cpp
+++ b/ConfigBase.cpp
@@ -48,6 +48,7 @@ void ConfigBase::setReuseTempFile(bool reuse) {
 
 void ConfigBase::setTempDirectories(
 	vector<string> newTempDirs) {
+	freeTempDirectories();
 	this->tempDirs = newTempDirs;
 	mapTempDirectories();
 }
-- 
2.43.0


From 77e6412041fc2ee1213916718c380b098ca1ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:18 +0000
Subject: [PATCH 92/93] fix: copies of evidence do not share its memory

---
 EvidenceBase.cpp | 13 +++++++++++++
 EvidenceBase.hpp | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/EvidenceBase.cpp b/EvidenceBase.cpp
index 2d213dd..05b66d4 100644
--- a/EvidenceBase.cpp
+++ b/EvidenceBase.cpp
@@ -30,6 +30,19 @@ EvidenceBase::EvidenceBase() {
 	evidence = NULL;
 }
 
+EvidenceBase::EvidenceBase(const EvidenceBase &other)
+	: map<string, string>(other) {
+	evidence = NULL;
+}
+
+EvidenceBase& EvidenceBase::operator=(const EvidenceBase &other) {
+	if (this != &other) {
+		clear();
+		map<string, string>::operator=(other);
+	}
+	return *this;
+}
+
 EvidenceBase::~EvidenceBase() {
 	if (evidence != NULL) {
 		EvidenceFree(evidence);
diff --git a/EvidenceBase.hpp b/EvidenceBase.hpp
index 3dd7c5c..f32dc2e 100644
--- a/EvidenceBase.hpp
+++ b/EvidenceBase.hpp
@@ -76,6 +76,20 @@ namespace FiftyoneDegrees {
 			 */
 			EvidenceBase();
 
+			/**
+			 * Construct a new instance with the same evidence as another. The
+			 * underlying memory is not shared with the other instance.
+			 * @param other instance to copy
+			 */
+			EvidenceBase(const EvidenceBase &other);
+
+			/**
+			 * Replace the evidence with that of another instance. The
+			 * underlying memory is not shared with the other instance.
+			 * @param other instance to copy
+			 */
+			EvidenceBase& operator=(const EvidenceBase &other);
+
 			/**
 			 * Free all the underlying memory containing the evidence.
 			 */
-- 
2.43.0


From dee409ea0ccb7875db8e52bbb876f26f60380d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:46 +0000
Subject: [PATCH 93/93] fix: copies of required properties do not share memory

---
 RequiredPropertiesConfig.cpp | 21 +++++++++++++++++++++
 RequiredPropertiesConfig.hpp | 15 +++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 309da25..08c9753 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -78,6 +78,27 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const string *properties) : RequiredPropertiesConfig(
 	properties == nullptr ? nullptr : properties->c_str()) {}
 
+RequiredPropertiesConfig::RequiredPropertiesConfig(
+	const RequiredPropertiesConfig &other)
+	: RequiredPropertiesConfig(other.conf.string) {
+	conf.existing = other.conf.existing;
+	if (other.conf.array != nullptr) {
+		conf.count = other.conf.count;
+		conf.array = (const char**)Malloc(
+			conf.count * sizeof(const char*));
+		for (int i = 0; i < conf.count; i++) {
+			conf.array[i] = (char*)Malloc(strlen(other.conf.array[i]) + 1);
+			strcpy((char*)conf.array[i], other.conf.array[i]);
+		}
+	}
+}
+
+RequiredPropertiesConfig& RequiredPropertiesConfig::operator=(
+	RequiredPropertiesConfig other) {
+	std::swap(conf, other.conf);
+	return *this;
+}
+
 RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 	int i;
 	if (conf.array != nullptr) {
diff --git a/RequiredPropertiesConfig.hpp b/RequiredPropertiesConfig.hpp
index dec372c..e291685 100644
--- a/RequiredPropertiesConfig.hpp
+++ b/RequiredPropertiesConfig.hpp
@@ -25,6 +25,7 @@
 
 #include <string>
 #include <vector>
+#include <utility>
 #include "properties.h"
 
 using std::string;
@@ -109,6 +110,20 @@ namespace FiftyoneDegrees {
 			 */
 			RequiredPropertiesConfig(const string *properties);
 
+			/**
+			 * Construct a new instance which requires the same properties as
+			 * another. The memory used is not shared with the other instance.
+			 * @param other instance to copy
+			 */
+			RequiredPropertiesConfig(const RequiredPropertiesConfig &other);
+
+			/**
+			 * Replace the required properties with those of another instance.
+			 * The memory used is not shared with the other instance.
+			 * @param other instance to copy
+			 */
+			RequiredPropertiesConfig& operator=(RequiredPropertiesConfig other);
+
 			/**
 			 * Destroy the configuration, freeing all the memory allocated
 			 * within it.
-- 
2.43.0

