SPECIFICATION Spec
CONSTANTS MaxOps = 8
 Slots = {0, 1, 2}
 Loadeds = {0, 1, 3}
 Caps = {0, 1, 2}
INVARIANTS PinsMatch OnlyItems Available OutOfRange FailuresSaySo FailedTakesNothing
