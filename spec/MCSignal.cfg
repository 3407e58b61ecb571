SPECIFICATION Spec
CONSTANTS Waiters = {"w1", "w2", "w3"} Setters = {"s1", "s2"} Waits = 2 Sets = 2 SPURIOUS = TRUE BROKEN = "no"
INVARIANTS TypeOK AtMost NoLostWakeup SleepMeansUnset
PROPERTY EventuallyReturn
