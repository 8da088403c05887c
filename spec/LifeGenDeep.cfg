SPECIFICATION Spec
CONSTANTS
 K = 6
INVARIANT NotInFlight
INVARIANT NotCurrent
INVARIANT Printed
CHECK_DEADLOCK FALSE
