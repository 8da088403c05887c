SPECIFICATION Spec
CONSTANTS
 K = 4
 Ops = {"run", "record", "toggle", "other", "time1"}
INVARIANT ReadsWritten
INVARIANT Fresh
INVARIANT Printed
CHECK_DEADLOCK FALSE
