SPECIFICATION Spec
CONSTANTS
 K = 4
INVARIANT NotInFlight
INVARIANT NotCurrent
INVARIANT Printed
CHECK_DEADLOCK FALSE
