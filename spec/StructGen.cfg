SPECIFICATION Spec
CONSTANTS
 N = 3
 Uses = {"-", "r", "w", "rw", "m", "x"}
INVARIANT Complete
INVARIANT NotMore
INVARIANT Printed
CHECK_DEADLOCK FALSE
