SPECIFICATION Spec
CONSTANTS
 N = 4
 Acyclic = TRUE
 Sets = FALSE
INVARIANT Orderable
INVARIANT Sound
INVARIANT Printed
CHECK_DEADLOCK FALSE
