NA = {}
SCHED = ("the scheduler runs the real code under every schedule up to a preemption bound (sequentially consistent memory) of a fixed set of "
         "small programs, plus random schedules; TLC decides each recorded history against the API specification and checks the algorithm model")
SEQ = ("generated operation histories are run by the real code (address and undefined behaviour sanitizers on) and TLC decides each recorded "
       "history against the specification; TLC checks the specification itself for all histories or inputs of a small size")

p("C01", "A resource in use is never freed while a caller holds it",
  "A resource got from a resource manager stays allocated, and is the same resource, until the matching release, whatever other threads get, "
  "release, replace or free through the manager. Nothing frees a resource or its handle twice, and nothing frees the active resource.",
  ["schedules"], "every interleaving of get, release, replace and manager free calls",
  "A unit test runs one schedule per run; the windows are a few instructions between two atomic operations.",
  ["resource.c", "resource.h"],
  [("reference count in the handle", "resource.c ResourceHandleIncUse / ResourceHandleDecUse"), ("replace", "resource.c ResourceReplace"),
   ("active pointer", "resource.h ResourceManager.active")],
  "TLA+/TLC: model of the CAS algorithm, and trace validation of schedules of the real code", SCHED)

p("C02", "Replaced resources are freed exactly once and every get sees a current one",
  "A replaced resource is freed exactly once, as soon as it is neither active nor held, and freeing the manager frees what remains: nothing leaks. "
  "Every get returns a non null handle whose resource was active at some moment of the call, and replace calls take effect one at a time.",
  ["schedules"], "every interleaving of get, release, replace and manager free calls",
  "Leaks and lost replacements need two threads to meet within a window of a few instructions.",
  ["resource.c", "resource.h"],
  [("last release frees", "resource.c ResourceHandleDecUse"), ("replace loop", "resource.c ResourceReplace"), ("manager free", "resource.c ResourceManagerFree")],
  "TLA+/TLC: linearizability against ResourceTrace.tla on schedules of the real code, and a CAS level model", SCHED)

p("C03", "A pool gives each item to one user at a time and never loses one",
  "An item got from a pool is not given to anyone else until it is released. A get fails only if all items were in use at some moment of the call, and "
  "then with the insufficient handles status; released items can be got again, and freeing the pool frees every resource exactly once.",
  ["schedules"], "every interleaving of get and release calls, for every pool size",
  "The ABA window of the lock free stack needs a specific interleaving of several operations.",
  ["pool.c", "pool.h"],
  [("lock free stack head with a counter", "pool.c PoolItemGet / PoolItemRelease"), ("creation", "pool.c PoolInit")],
  "TLA+/TLC: model of the CAS stack, and trace validation of schedules of the real code", SCHED)

p("C04", "Concurrent cache users get the data of their key, which stays put",
  "A cache get for a key returns an entry holding the data loaded for that key, and the entry is not evicted or loaded again until it has been released as "
  "often as it was got. Gets of a key which is in the cache do not load it again, hits plus misses equals the number of gets, and entries which are not held can be "
  "reused.",
  ["schedules"], "every interleaving of get and release calls over keys of the same and of different shards, with loads which fail",
  "Evicting an entry between its lookup and its use needs threads to meet at the boundary of a critical section.",
  ["cache.c", "cache.h", "tree.c"],
  [("shard lock and active count", "cache.c CacheGet / CacheRelease"), ("eviction", "cache.c getFromCache")],
  "TLA+/TLC: model of the shard, and trace validation of schedules of the real code", SCHED)

p("C05", "A signal set releases a waiter, no set is lost, a mutex excludes",
  "The signal is an auto reset event created in the set state: each return of wait consumes the set state, so waits never return more often than set was called plus "
  "one, and no thread stays blocked in wait while the signal is set, even with spurious wake ups. The mutex is held by at most one thread and a "
  "waiting thread gets it once it is released.",
  ["schedules"], "every interleaving of wait, set, lock and unlock calls, with spurious wake ups",
  "A lost wake up or a wait which returns twice for one set shows only in particular schedules, and spurious wake ups can't be provoked.",
  ["threading.c", "threading.h"],
  [("flag, mutex and condition", "threading.c SignalSet / SignalWait"), ("mutex", "threading.c MutexLock / MutexUnlock")],
  "TLA+/TLC: model of the monitor with fairness, and trace validation of schedules of the real code", SCHED)

p("C06", "Threads which read one data set each get the bytes of the file",
  "However the threads which share a data set in a file are scheduled, each value and string got is the one the file has at that index or offset, and stays so until it is released, whatever the other threads read, load or evict. A get only fails for "
  "want of a file handle or of a free cache entry, and only when there are none; it then leaves nothing taken. Once all threads have released what they got every handle and entry is available again and nothing is leaked.",
  ["schedules", "configurations"], "every schedule of threads which get and release values and strings, pool size, loaded part, cache capacity and concurrency",
  "Positioning and reading a shared file handle, and copying into a cache entry, are several steps; tests rarely hit the windows between them.",
  ["collection.c", "cache.c", "file.c", "pool.c", "string.c", "value.c", "property.c"],
  [("handle of a read", "collection.c CollectionReadFileFixed / ReadFileVariable / ReadFilePosition"), ("held entry", "collection.c getFromCache / releaseCache"), ("pool", "file.c FileHandleGet / FileHandleRelease")],
  "TLA+/TLC: ReadersTrace.tla; schedules of the real code with files modelled as shared objects validated", SCHED)

p("C07", "A cache keeps the most recently used entries and counts what it did",
  "Each shard of a cache holds at most its capacity of entries: a load evicts the entry which has been unused for the longest among those nobody holds, an entry which is held is "
  "never evicted, and a get fails with no entry only when all entries of the shard are held. A get of a key in the cache is a hit and does not call the loader, any other get is a miss and "
  "calls it once; a load which fails leaves the key out of the cache and its place usable. Freeing the cache frees all the data loaded.",
  ["histories", "inputs"], "every history of get and release calls over any keys, hash values, capacities, concurrencies and loader failures",
  "The order of eviction depends on the whole history of hits, misses, releases and failed loads.",
  ["cache.c", "cache.h", "tree.c"],
  [("list of unused entries", "cache.c cacheLruRelease / getNextFree"), ("shard of a hash", "cache.c CacheGet"), ("failed loads", "cache.c loadNode")],
  "TLA+/TLC: CacheLRU.tla explored, its behaviours and random histories replayed on the real cache and the recorded traces validated", SEQ)

p("C08", "A red black tree is an ordered map whatever was inserted and removed",
  "After any sequence of inserts and removes the tree finds exactly the keys which are in it, an iteration visits each of them exactly once, and the tree keeps the red "
  "black rules, so its height is at most twice the logarithm of its size. Nodes which have been removed can be inserted again.",
  ["histories"], "every history of insert, remove, find and iterate calls over any set of 64 bit keys",
  "The cases of the rebalancing depend on the shape of the tree, of which the tests build a few.",
  ["tree.c", "tree.h"],
  [("rebalancing", "tree.c insert and remove fix up"), ("iteration", "tree.c TreeIterateNodes")],
  "TLA+/TLC: RBTree.tla (a red black tree) explored, and traces of the real tree with its whole structure validated", SEQ)

p("C09", "A collection gives the same items in every configuration",
  "Whether a collection is in memory, read from file, partly loaded, cached, or a combination of these, and whether its items have a fixed or a variable width, getting an index or an offset "
  "gives the bytes which are at that place of the source, and they stay unchanged until the item is released. An index or offset outside of the collection gives no item and an out of range "
  "status, a search gives the position of the value sought or says that there is none, and creating a collection leaves the source after its end.",
  ["configurations", "histories"], "every source, element size, number of loaded items, cache capacity and concurrency, and history of gets, releases and searches",
  "The answers come through combinations of memory, cache and file readers; the tests sample a few combinations and no histories with many held items.",
  ["collection.c", "collection.h", "string.c"],
  [("chain of collections", "collection.c CollectionCreateFromFile / getPartialFixed"), ("cache of items", "collection.c getFromCache / loaderCache"),
   ("search", "collection.c CollectionBinarySearch")],
  "TLA+/TLC: Collection.tla (over CacheLRU.tla); traces of the real collections validated", SEQ)

p("C10", "A failed read of a collection is reported and loses nothing",
  "When an allocation, a read or a seek fails, the data is truncated, or no handle or cache entry is free, a collection's get gives no item and the status of what "
  "failed, and creating a collection gives none. After a failure the items held are unchanged, no file handle or memory is lost, and the same get succeeds once the cause has gone.",
  ["fault_sequences", "histories", "configurations"], "every failure at any allocation, read or seek during any history of collection operations, for every configuration",
  "The tests do not make reads or allocations fail in the middle of a history.",
  ["collection.c", "file.c", "pool.c", "cache.c", "data.c"],
  [("release of the file handle", "collection.c CollectionReadFileFixed / CollectionReadFileVariable"), ("failed loads", "collection.c loaderCache"),
   ("failed creation", "collection.c createFromFilePartial / createFromFileCached")],
  "TLA+/TLC: Collection.tla with faults; traces of the real collections with injected faults validated", SEQ)

p("C17", "Headers hold each name once, with its segments, and find it in any case",
  "Headers made from a data set hold every name which is not empty once (names are the same if only the case differs), in the order of the data set, each split in its "
  "non empty segments, followed by each segment which is not itself a name, with no more than that. A lookup finds the index of a name in any case, without its HTTP_ prefix when these are expected, and gives -1 for any other key. "
  "Every name got is released, and a failed allocation gives no headers and leaks nothing.",
  ["inputs", "fault_sequences"], "every list of header names, ids and separators, every key, and a failure at any allocation",
  "The capacity is computed before the headers are made, and the two have to agree for every shape of name.",
  ["headers.c", "headers.h"],
  [("capacity", "headers.c countAllSegments"), ("headers and segments", "headers.c addHeadersFromDataSet / addHeadersFromSegments"), ("lookup", "headers.c HeaderGetIndex")],
  "TLA+/TLC: Evidence.tla; traces of the real headers validated", SEQ)

p("C18", "Evidence keeps what was added and iterates the wanted kinds in order",
  "Evidence keeps the pairs in the order they were added until its capacity is reached, when an add gives NULL and changes nothing. An iteration visits the pairs all of whose prefix bits are in the mask, "
  "the evidence before the pseudo evidence, each once and with its parsed value set, until the callback stops it, and gives the number visited. Key prefixes map to their kinds only with a name after them.",
  ["histories", "inputs"], "every history of adds and iterations, every mask, and every key",
  "The tests iterate a few pairs with a few masks.",
  ["evidence.c", "evidence.h"],
  [("capacity", "evidence.c EvidenceAddString"), ("mask and early stop", "evidence.c evidenceIterateSub"), ("prefixes", "evidence.c EvidenceMapPrefix")],
  "TLA+/TLC: Evidence.tla; traces of the real evidence validated", SEQ)

p("C19", "Pseudo headers are made of complete evidence of one kind, in precedence order",
  "For each pseudo header which was not supplied as evidence of an accepted kind, pseudo evidence is added from the first kind in the order of precedence which has a value for every segment (the first value "
  "added for it, in any case): these values joined by the separator, cut to the size of the buffer and always terminated. No other pseudo evidence is added, never more than the array can hold, and removing it clears all of it.",
  ["inputs", "configurations"], "every set of headers and evidence, order of precedence and buffer size",
  "The combinations of present, missing and truncated segments in several kinds of evidence are many.",
  ["pseudoheader.c", "pseudoheader.h", "headers.c"],
  [("construction", "pseudoheader.c constructPseudoEvidence"), ("precedence", "pseudoheader.c PseudoHeadersAddEvidence")],
  "TLA+/TLC: Evidence.tla; traces of the real pseudo headers validated", SEQ)

p("C16", "Required properties are the ones asked for, each once, and found by name",
  "The properties made available from a required list (an array of names, a string split at its separators, an existing set, or none for all of them) are exactly those of the data set whose name "
  "was asked for in any case, each once, in the order of their names, with their index in the data set and the indexes of the properties their evidence needs. A lookup by name finds a property "
  "in any case, or none. A required list with none of the properties gives an error; every name got is released, and a failed allocation leaks nothing.",
  ["inputs", "fault_sequences"], "every set of property names, every required list, and a failure at any allocation",
  "The names are sorted, searched and deduplicated in any order and case; the tests use a few lists.",
  ["properties.c", "properties.h", "string.c"],
  [("matching of names", "properties.c addPropertiesFromString / addProperty"), ("search", "properties.c PropertiesGetRequiredPropertyIndexFromName"), ("release of the names", "properties.c PropertiesFree")],
  "TLA+/TLC: Properties.tla; traces of the real required properties validated", SEQ)

p("C20", "Override values win for their property only, and are kept until they are reset",
  "An override is accepted for a property which may be overridden, named in any case with or without the 51D_ prefix when this is expected, or by index, in the query or cookie evidence. "
  "The array keeps one value per property, the last one added, until its capacity is reached; the values given for a property are that value only, and none for any other property. A reset clears all of them, a failed allocation "
  "only loses the value added, and nothing leaks. The profile ids in evidence are the decimal numbers in it which are not above 2147483647, in order.",
  ["histories", "inputs", "fault_sequences"], "every history of adds, evidence, reads and resets over any set of properties, with a failure at any allocation",
  "The tests add one or two values, and do not reuse the array after a reset or a failed allocation.",
  ["overrides.c", "overrides.h", "properties.c"],
  [("name of an override", "overrides.c getRequiredPropertyIndexFromName / isOverride"), ("values", "overrides.c OverridesAdd / copyString"), ("profile ids", "overrides.c OverrideProfileIds")],
  "TLA+/TLC: Properties.tla; traces of the real overrides validated", SEQ)

p("C21", "IP addresses are parsed to their bytes, whatever the text is",
  "An address of version 4 or 6 gives its type and exactly its bytes: numbers above 255 as 255, missing segments as zeros, ports and other segments after the last byte ignored, and the zeros left out of a version 6 "
  "address filled in at their place, also before a version 4 end. Any other text gives an item, whose type follows the first separator, and no access outside of the text or of the item. A list gives an item for "
  "each part in order, without those which could not be allocated, and freeing it frees all of it. Addresses are ordered by their bytes.",
  ["inputs", "fault_sequences"], "every text, with a failure at any allocation",
  "Addresses come from evidence which a client writes; tests cover well formed ones and a few others.",
  ["ip.c", "ip.h"],
  [("bytes", "ip.c parseIpV6Segment / addIpByte"), ("separators", "ip.c iterateIpAddress"), ("list", "ip.c IpParseAddresses / IpFreeAddresses")],
  "TLA+/TLC: Formats.tla; traces of the real parser validated", SEQ)

p("C22", "Lines and yaml pairs of a file don't depend on the buffer it is read with",
  "A text file gives its lines which are not empty, in order and complete, up to the limit, for every buffer which holds the longest line and its ending, whatever the line endings are and whether or not the last "
  "line has one. A yaml file gives the key value pairs of each document which has some, up to the limit, with quotes around a value removed and what doesn't fit the collection, key or value left out, for every buffer, and a file which isn't yaml gives the same pairs with every buffer. "
  "Nothing outside of the buffers is accessed and the file is closed.",
  ["inputs", "configurations"], "every file, buffer length, limit, collection size, and key and value length",
  "The result must be the same wherever a line crosses the end of the buffer; tests use one file and a buffer or two.",
  ["textfile.c", "textfile.h", "yamlfile.c", "yamlfile.h"],
  [("move of the rest of the buffer", "textfile.c TextFileIterateWithLimit"), ("position on the line", "yamlfile.c YamlFileIterateWithLimit")],
  "TLA+/TLC: Formats.tla; traces of the real readers validated", SEQ)

p("C23", "A value is had as every type, or with the reason for there being none",
  "For results with any values of a property, however the property is named: all of them are had as a list; as a string they are joined by a bar; as a boolean, integer or number a single one is had, and more than one "
  "gives the reason of too many. Without values the reason and message are those of the results, and reading the value throws the exception of that reason with that message. An exception made of a status has that status.",
  ["inputs"], "every list of values of any text, reason, message and way to name the property",
  "Five types in four forms each are separate methods which have to agree for every text and reason; tests have a few values.",
  ["ResultsBase.cpp", "ResultsBase.hpp", "Value.hpp", "Exceptions.cpp", "Exceptions.hpp", "results.c"],
  [("values of a type", "ResultsBase.cpp getValueAs*"), ("reasons and exceptions", "Value.hpp getValue"), ("status of exceptions", "Exceptions.cpp")],
  "TLA+/TLC: Wrappers.tla; traces of the real classes validated", SEQ)

p("C24", "The C++ classes mean the same as the C structures they are made of",
  "Evidence gives exactly its relevant pairs after every history of changes and copies; required properties are the same names every time, whether read in C++ or used in C; every key of an engine is evidence which "
  "its headers or overrides take, once; configuration, addresses, strings, meta data and copies of them keep what they were given. Nothing is freed twice or leaked.",
  ["inputs", "histories"], "every history of changes, reads and copies of the objects",
  "What breaks is the second read, the second set or the copy, which tests of single calls don't reach.",
  ["EvidenceBase.cpp", "RequiredPropertiesConfig.cpp", "EngineBase.cpp", "ConfigBase.cpp", "CollectionConfig.cpp", "IpAddress.cpp", "MetaData.cpp", "PropertyMetaData.cpp", "ValueMetaData.cpp"],
  [("evidence", "EvidenceBase.cpp get / clear / erase"), ("names", "RequiredPropertiesConfig.cpp"), ("keys", "EngineBase.cpp initHttpHeaderKeys / initOverrideKeys"), ("strings", "MetaData.cpp getString")],
  "TLA+/TLC: Wrappers.tla; traces of the real classes validated", SEQ)

p("C26", "Strings are compared and found without regard to case, in one order",
  "Comparing two strings gives the sign of their order by lower case bytes, a prefix first, and zero exactly when they only differ in case; comparing a length reads no further than it; and the sub string found is the "
  "first which equals the one sought, or none.",
  ["inputs"], "every pair of strings of any bytes",
  "Names are sorted and searched in this order, so it has to be a total one for all bytes.",
  ["string.c", "string.h"],
  [("comparison", "string.c StringCompare / StringCompareLength"), ("search", "string.c StringSubString")],
  "TLA+/TLC: Formats.tla; traces of the real functions validated", SEQ)

p("C27", "Floats of the data file convert to the same native value and back",
  "For every normal, subnormal and zero float the native value has the same sign, exponent and mantissa (zero has no sign), and converting it back gives the float again. All ones is infinity and other values of the "
  "largest exponent are not a number. Floats are equal only when all their bytes are.",
  ["inputs"], "every pattern of 32 bits",
  "Tests convert a handful of values.",
  ["float.c", "float.h"],
  [("conversion", "float.c FloatToNative / NativeToFloat")],
  "TLA+/TLC: Formats.tla; traces of the real functions validated, for every exponent", SEQ)

p("C28", "Every status has a complete message of its own",
  "The message of a status is complete, differs from that of any other status, and has the name of the file where it has a place for it. The message of an exception has its file, function and line, and checking one which is set writes it and ends the process with its status. When the memory for "
  "it cannot be allocated there is no message, or a shorter one, and nothing leaks.",
  ["inputs", "fault_sequences"], "every status and file name, with a failure at any allocation",
  "Messages are made when something failed, often memory; tests look at a few texts.",
  ["status.c", "exceptionsc.c"],
  [("size of the message", "status.c StatusGetMessage"), ("exceptions", "exceptionsc.c ExceptionGetMessage")],
  "TLA+/TLC: Formats.tla; traces of the real functions validated", SEQ)

p("C11", "Names and ids find exactly the item which has them, in every configuration",
  "Whatever kind of collection each table of a data set is in: a property is found by its exact name, a value by its name (text, address or coordinate) within its property only, a profile by its id or its index, and the "
  "values of a profile for a property, and the profiles with a value, are iterated all, once, in order, until the callback stops. Components give their key value pairs, name and default profile. What isn't there is not "
  "found, an index out of range is reported, every item got is released once and to the collection it came from, and no byte outside of an item is read.",
  ["inputs", "configurations"], "every data set whose tables are sorted, every configuration of its collections, and every name, id and index",
  "The answers come from binary searches over items of changing size; the tests of this repository have no data set and hardly test these functions.",
  ["property.c", "value.c", "profile.c", "component.c", "coordinate.c"],
  [("value search", "value.c compareValueByName / ValueGetIndexByName"), ("profile values", "profile.c iterateValues"), ("property search", "property.c PropertyGetByName")],
  "TLA+/TLC: Lookup.tla; traces of the real lookups over counted collections validated", SEQ)

p("C25", "A failed lookup gives nothing, says why, and holds and leaks nothing",
  "When an allocation, a read or a seek fails during a lookup, the lookup gives the right answer or nothing and the status of the failure; an iteration gives a prefix of what it would have given. Every item got in between is "
  "released, once and to its own collection. A list releases each of its items once, is empty after it, and a list which could not be allocated is empty.",
  ["fault_sequences", "configurations"], "every failure at any allocation, read or seek of every lookup, in every configuration",
  "Releases on the paths of failures are not run by any test.",
  ["property.c", "value.c", "profile.c", "component.c", "list.c"],
  [("failed search", "profile.c ProfileGetOffsetForProfileId"), ("failed name", "property.c PropertyGetByName"), ("list", "list.c ListRelease / component.c ComponentInitList")],
  "TLA+/TLC: Lookup.tla with faults; traces of the real lookups over counted collections validated", SEQ)

p("C13", "Tracked memory totals are those of the blocks which are live",
  "While allocations are tracked, the total is at every moment the sum of the sizes of the blocks which were allocated since the last reset and not freed (aligned ones may count for up to the alignment more), and the peak is the greatest "
  "total since that reset. Ending the tracking gives the size of what was not freed. Failed allocations and null pointers change nothing, blocks from before a reset can be freed and count for nothing, and the records of blocks never leak.",
  ["inputs", "fault_sequences", "schedules"], "every history of allocations, frees, failures and resets, every size, and every interleaving of threads",
  "The totals are updated by two locks and a tree per shard; tests allocate and free one block at a time on one thread.",
  ["memory.c", "memory.h", "tree.c"],
  [("record", "memory.c trackAllocation / untrackAllocation"), ("reset", "memory.c MemoryTrackingReset / UnsetMemoryTracking")],
  "TLA+/TLC: Memory.tla; histories and schedules of the real code validated", SEQ + "; " + SCHED)

p("C12", "No bytes of a data file make a collection access what isn't there",
  "A collection is created from memory or a file only if its header is there and, but for items a file is asked for later, as many bytes as the header claims, counted without overflow; the reader is then after them. Every element within the "
  "claimed length and the bytes is got and is those bytes; anything else is out of range, unreadable or corrupt, with a status, and no buffer is exceeded. Advancing a reader succeeds exactly when that many bytes remain, and does not move it otherwise.",
  ["inputs", "configurations"], "every header, content and truncation, element size, configuration and key, and advances by any number",
  "Data files are downloaded and can be damaged; the tests read collections they wrote themselves.",
  ["collection.c", "memory.c", "string.c", "profile.c", "component.c"],
  [("header", "collection.c CollectionHeaderFromMemory / CollectionHeaderFromFile"), ("reader", "memory.c MemoryAdvance"), ("size of an item", "collection.c readFileVariable")],
  "TLA+/TLC: Header.tla; traces of the real code on malformed bytes validated", SEQ)

p("C14", "A data set reload replaces all or nothing, and never one in use",
  "A reload from file or memory makes a new data set of the new data active, with those properties of the one it replaces which the data has, or it reports a failure and nothing changes. Who holds a data set reads the same data, properties and files until "
  "it is released, whatever is reloaded meanwhile. Each data set is freed once, with its memory, open files and temporary file, when it is neither active nor used. This holds for every history, every schedule of threads, broken data and any failing allocation or file operation.",
  ["schedules", "histories", "fault_sequences", "inputs"], "every history of reloads and uses, every schedule, data, and failure at any point of a reload",
  "Reload under load is the reason for the resource manager; tests reload a valid file once.",
  ["dataset.c", "resource.c", "properties.c", "headers.c"],
  [("reload", "dataset.c DataSetReloadManagerFromFile / FromMemory / replace"), ("free", "dataset.c DataSetFree"), ("properties kept", "properties.c iteratePropertiesFromExisting"), ("temporary file", "dataset.c initWithTempFile")],
  "TLA+/TLC: DataSet.tla; histories with faults, and schedules of the real code, validated", SCHED + " " + SEQ)

p("C15", "Temporary files are exact, found, and only deleted when unused",
  "Creating a temporary file makes exactly one new file, a copy of the whole master, in the first path it can be made in, with a name no file had, and gives its path within the buffer; on any failure there is no new file and no path is given. "
  "Searching gives a copy in the first path which has one (same start of the name, size and as many bytes as asked, another name) and only then. Deleting unused ones deletes and counts exactly the copies in every path which no process has open.",
  ["inputs", "fault_sequences", "histories"], "every set of files, folders, sizes and spellings of paths, every failure of a file operation and every buffer length",
  "They delete files: a wrong match loses data, a missed one fills the disk. The tests use one folder and one small file.",
  ["file.c"],
  [("create", "file.c createTempFileWithPaths / AddTempFileName / getUniqueLegacyFileName"), ("find", "file.c iterateFiles / compareFiles"), ("delete", "file.c isFileInUse")],
  "TLA+/TLC: Files.tla; histories of the real code on a scratch folder validated", SEQ)

p("C29", "File operations do what they report, whatever fails",
  "A copy reported as done is byte for byte the source; otherwise there is a status and the new file doesn't exist. A write reported as done holds all of the data; deletes and new folders happened exactly when reported. Sizes and contents read are those of "
  "the file, or a failure is reported. A path is searched from the working folder upwards and only given when it fits. No operation changes any other file, and none leaves a file, folder handle or block open, whichever of its system calls fails.",
  ["inputs", "fault_sequences", "histories"], "every size of file, history of operations, and failure or short count of a system call",
  "Full disks and read errors aren't in the tests, and the sizes around the buffers aren't either.",
  ["file.c"],
  [("copy", "file.c fileCopy / FileCopy"), ("write", "file.c FileWrite"), ("read", "file.c FileReadToByteArray")],
  "TLA+/TLC: Files.tla; histories of the real code with faults validated", SEQ)
