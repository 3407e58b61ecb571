SPECIFICATION Spec
CONSTANTS MaxPath = 60
 Processes = {1, 2}
 MaxFiles = 2
 GUARD = TRUE
INVARIANTS HeldStays OthersStay MasterStays UniqueNames
PROPERTY FoundIsCopy
