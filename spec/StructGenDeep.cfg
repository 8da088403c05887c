SPECIFICATION Spec
CONSTANTS
 N = 4
 Uses = {"-", "r", "w", "rw", "m"}
INVARIANT Complete
INVARIANT NotMore
INVARIANT Printed
CHECK_DEADLOCK FALSE
