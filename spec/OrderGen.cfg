SPECIFICATION Spec
CONSTANTS
 N = 3
 Acyclic = FALSE
 Sets = TRUE
INVARIANT Orderable
INVARIANT Sound
INVARIANT Printed
CHECK_DEADLOCK FALSE
