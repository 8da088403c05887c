SPECIFICATION Spec
CONSTANTS
 K = 5
 Ops = {"run", "record", "toggle", "other", "time0", "time1", "time2"}
INVARIANT ReadsWritten
INVARIANT Fresh
INVARIANT Printed
CHECK_DEADLOCK FALSE
