SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Keys = {1, 2, 3}
 Handles = {1, 2}
 Entries = {1, 2}
 CACHED = TRUE
 EARLY = FALSE
 NOLOCK = FALSE
 FORGET = TRUE
 MaxGets = 4
INVARIANTS Right OneEach AllBack Unpinned OneEntry
