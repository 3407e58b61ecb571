SPECIFICATION Spec
CONSTANTS Waiters = {"w1", "w2"} Setters = {"s1", "s2"} Waits = 2 Sets = 1 SPURIOUS = TRUE BROKEN = "if"
INVARIANTS TypeOK AtMost NoLostWakeup SleepMeansUnset
PROPERTY EventuallyReturn
