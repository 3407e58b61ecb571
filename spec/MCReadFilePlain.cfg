SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Keys = {1, 2, 3}
 Handles = {1, 2}
 Entries = {1, 2}
 CACHED = FALSE
 EARLY = FALSE
 NOLOCK = FALSE
 FORGET = FALSE
 MaxGets = 4
INVARIANTS Right OneEach AllBack Unpinned OneEntry
